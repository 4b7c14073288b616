"""Workloads shared by the behavioural checks: generated programs in many
layouts and the C sources found on this machine."""
import os
import vlib, gen, styles, clex

REAL_ROOTS = ['/usr/include', '/usr/lib/gcc', '/usr/lib/llvm-18/lib/clang', '/usr/share', '/opt/veriftools']
# not C: one drops a stray '>' by design of a repository test, one is lexed
# differently by any C scanner
NOT_C = ('tests/valid-212.c', 'tests/valid-390.c')


def real_files(limit=200000):
    """Paths of the C sources of this machine and of the repository."""
    out = []
    for root in REAL_ROOTS + [vlib.REPO]:
        for d, dirs, names in os.walk(root):
            dirs.sort()
            for n in names:
                if not n.endswith(('.c', '.h')):
                    continue
                p = os.path.join(d, n)
                if p.endswith(NOT_C) or os.path.islink(p):
                    continue
                try:
                    if 0 < os.path.getsize(p) <= limit:
                        out.append(p)
                except OSError:
                    pass
    return sorted(out)


def program(r, comments=None, cpp=None, layout=None, idiom=None, size=None):
    """(source bytes, layout, features)"""
    items, feats = gen.program(r, size=size or r.choice([20, 60, 60, 200]),
                               comments=r.choice([0, .1, .2]) if comments is None else comments,
                               cpp=r.choice([0, .1, .25]) if cpp is None else cpp,
                               idiom=r.choice([0, .2, .6]) if idiom is None else idiom)
    layout = layout or r.choice(gen.LAYOUTS)
    return gen.render(items, r, layout).encode('latin-1'), layout, feats


def peppered(r):
    """One top-level unit with comments of every shape between arbitrary tokens."""
    g = gen.Gen(r, size=r.choice([1, 3, 8]), comments=0, cpp=0, idiom=0)
    s = gen.render(g.toplevel(), r, r.choice(['canonical', 'canonical', 'dense', 'random'])).replace('\\\n', ' ')
    p, out, pos, n, last = r.choice([.03, .1, .3, .5]), '', 0, 0, ''
    semi = r.choice([.2, .2, .5])

    def comment():
        return r.choice(['/* c%d */', '// c%d\n', '\n// c%d\n', '\n/* c%d */\n', ' /* c%d */\n', '/* c%d\n * d */', '\n/* c%d\n * d */\n']) % n
    for tk in clex.scan(s):
        j = s.index(tk.text, pos)
        out += s[pos:j]
        while r.random() < p and '#' not in s:
            n += 1
            text = comment()
            if r.random() < semi and (last == ';' and tk.text not in (')', ':', 'else', 'while') or
                                    last == '}' and tk.text in ('if', 'for', 'return', 'switch', 'goto', 'break', 'continue', 'do')):
                text = r.choice([text + ';', '; ' + text, '\n; ' + text])
            out += text + ' '
        out += tk.text
        pos = j + len(tk.text)
        last = tk.text
    out += s[pos:]
    if last == '}' and '#' not in s:
        for _ in range(r.choice([0, 0, 1, 2])):
            n += 1
            out = out.rstrip('\n') + r.choice([' ', '\n', ';', ' ;', '\n; ', '\n\n; ']) + comment()
        out = out.rstrip('\n') + '\n'
    return out.encode('latin-1')


def style(r, p=.6):
    """Style text, include sorting excluded ('' means the defaults)."""
    if r.random() >= p:
        return ''
    return styles.style(r)[1] + 'SortIncludes: Never\n'
