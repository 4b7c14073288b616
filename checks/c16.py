"""C16: include directives: none lost, order as demanded."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
from udiff import mkdiff

c = vlib.Check('C16', 'exploration',
               'generated files with blocks of include directives (angle brackets, quotes, directories, upper and lower case, duplicates, trailing '
               'comments, the main header in any place) between other directives, comments and declarations x SortIncludes, IncludeBlocks, IncludeCategories '
               'with random regexes, priorities and sort priorities x -s x file names; monitored: the output equals an independent prediction of the whole '
               'file (blocks sorted where homogeneous, or regrouped by category with one blank line between groups, everything else untouched; with -D only runs marked as a whole by the diff); '
               'non-trivial: distinct input whose prediction differs from the input',
               ['one include per line, spelled with a single blank; blocks are separated by exactly one blank line'])
EXE = c.build('plain')
INTMAX = 2147483647
NAMES = ['a', 'b', 'B', 'ab', 'stdio', 'Zed', 'x_1', 'net-if', 'c++', 'err']
DIRS = ['', '', '', 'sys/', 'lib/', 'lib/sub/', 'LIB/', '../']
REGEX = ['^"', '^<', '^<sys/', '^"lib/', '.*', 'lib/', '^<(a|b)', '^"LIB', '[.]h"$', 'std', 'none-such', '^<[a-m]']


def include(r, mode):
    n = r.choice(DIRS) + r.choice(NAMES) + '.h'
    if mode == 'mixed':
        mode = r.choice(['<', '"', '</'])
    if mode in ('<', '"'):
        n = n.rsplit('/', 1)[-1] if mode == '<' else n
    return '<%s>' % n if mode[0] == '<' else '"%s"' % n


def predict_blocks(blocks, path, regroup, cats):
    """Blocks (lists of (path, line)) after sorting."""
    base = path.rsplit('/', 1)[-1].split('.')[0]
    mains = {'"%s.h"' % path.split('.')[0], '"%s.h"' % base}
    if not regroup:
        out = []
        for b in blocks:
            ps = [p for p, _ in b]
            br, qu, sl = any(p[0] == '<' for p in ps), any(p[0] == '"' for p in ps), any('/' in p for p in ps)
            if len(b) < 2 or br and (qu or sl):
                out.append(b)
            elif ps[0] in mains:
                out.append(b[:1] + sorted(b[1:], key=lambda x: x[1].encode()))
            else:
                out.append(sorted(b, key=lambda x: x[1].encode()))
        return out
    every = [x for b in blocks for x in b]
    if len(every) < 2:
        return blocks
    groups = {}
    for p, l in every:
        g, s = INTMAX, INTMAX
        if p in mains:
            g = s = 0
        else:
            for rx, pr, so in cats:
                if re.search(rx, p, re.I):
                    g, s = pr, so
                    break
        groups.setdefault(g, []).append((s, l.encode(), (p, l)))
    return [[x for _, _, x in sorted(groups[g], key=lambda y: y[:2])] for g in sorted(groups)]


def generate(r):
    path = r.choice(['b.c', 'main.c', 'lib/b.c', 'ab.h', 'lib/sub/stdio.c', 'x_1.c'])
    style, cats = '', []
    sort = r.choice(['', 'Never', 'CaseSensitive', 'CaseSensitive', 'CaseInsensitive'])
    blocks = r.choice(['', 'Preserve', 'Regroup', 'Regroup', 'Merge'])
    if sort:
        style += 'SortIncludes: %s\n' % sort
    if blocks:
        style += 'IncludeBlocks: %s\n' % blocks
    if r.random() < .7:
        style += 'IncludeCategories:\n'
        for _ in range(r.randrange(1, 5)):
            rx, pr = r.choice(REGEX), r.choice([-1, 0, 1, 1, 2, 3, 4, 10])
            style += "  - Regex: '%s'\n    Priority: %d\n" % (rx, pr)
            so = pr
            if r.random() < .3:
                so = r.choice([-2, 0, 1, 2, 5])
                style += '    SortPriority: %d\n' % so
            if r.random() < .2:
                style += '    CaseSensitive: true\n'
            cats.append((rx, pr, so))
    simple = r.random() < .4
    on = simple or sort == 'CaseSensitive'
    regroup = blocks == 'Regroup'
    src, exp = [], []
    if r.random() < .3:
        src += ['/* head */', '']
        exp += ['/* head */', '']
    for _ in range(r.randrange(1, 4)):
        bs = []
        for _ in range(r.choice([1, 1, 2, 3])):
            mode = r.choice(['<', '"', 'mixed', '</', '<'])
            b = []
            for _ in range(r.choice([1, 2, 3, 4, 6, 9])):
                p = include(r, mode)
                if r.random() < .06:
                    p = r.choice(['"%s.h"' % path.split('.')[0], '"%s.h"' % path.rsplit('/', 1)[-1].split('.')[0]])
                b.append((p, '#include ' + p + (' /* why */' if r.random() < .05 else '')))
            bs.append(b)
        after = r.choice(['', '#define X%d 1' % len(src), '/* c%d */' % len(src), '#ifdef X', 'int x%d;' % len(src)])
        # Whether a blank line separates the last block from what follows.
        blank = r.random() < .7 or not after or after.startswith('int')
        for j, b in enumerate(bs):
            src += [l for _, l in b] + ([r.choice(['', '', '', '  ', '\t', ' \t '])] if j < len(bs) - 1 or blank else [])
        if on:
            ps = predict_blocks(bs, path, regroup, cats)
            moved = regroup and sum(map(len, bs)) >= 2
        else:
            ps, moved = bs, False
        for j, b in enumerate(ps):
            exp += [l for _, l in b] + ([''] if j < len(ps) - 1 or blank or moved else [])
        if after == '#ifdef X':
            src += [after, '#define Y 1', '#endif', '']
            exp += [after, '#define Y 1', '#endif', '']
        else:
            src += [after or 'int y%d;' % len(src), '']
            exp += [src[-2], '']
    src += ['int last;']
    exp += ['int last;']
    return path, style, simple, '\n'.join(src) + '\n', '\n'.join(exp) + '\n'


def marked(r):
    """Blocks of which some lines are marked by a diff: only runs that are marked as a whole may change."""
    path = r.choice(['b.c', 'main.c', 'lib/b.c'])
    regroup = r.random() < .3
    simple = r.random() < .4
    style = 'BasedOnStyle: OpenBSD\nSortIncludes: %s\n' % ('Never' if simple else 'CaseSensitive')
    if regroup:
        style += 'IncludeBlocks: Regroup\n'
    src, exp, marks = [], [], set()
    for _ in range(r.randrange(1, 5)):
        bs, ok, gap = [], [], False
        # Whether what follows the last block does so without a blank line.
        tight = r.random() < .3
        for _ in range(r.choice([1, 2, 3])):
            mode = r.choice(['<', '"', '</', '<'])
            bs.append([(p, '#include ' + p) for p in (include(r, mode) for _ in range(r.choice([1, 2, 3, 4, 6])))])
        for j, b in enumerate(bs):
            how = r.choice(['all', 'all', 'none', 'some'])
            k = 0
            for _, l in b:
                src.append(l)
                if how == 'all' or how == 'some' and r.random() < .5:
                    marks.add(len(src))
                    k += 1
            ok.append(k == len(b))
            if j == len(bs) - 1 and tight:
                continue
            src.append('')
            if how == 'all' and r.random() < .5:
                marks.add(len(src))
            elif j < len(bs) - 1:
                gap = True
        if regroup:
            ps = predict_blocks(bs, path, 1, []) if all(ok) and not gap else bs
        else:
            ps = [x if o else b for o, x, b in zip(ok, predict_blocks(bs, path, 0, []), bs)]
        for b in ps:
            exp += [l for _, l in b] + ['']
        if tight:
            exp.pop()
        a = r.choice(['#define X%d 1', '/* c%d */'] + ['int x%d;'] * 2 * (not tight)) % len(src)
        src += [a, '']
        if r.random() < .2:
            marks.add(len(src) - 1)
        exp += [a, '']
    src += ['int last;']
    exp += ['int last;']
    df = mkdiff(r, [(path, [l.encode() for l in src], marks, True)]) if marks else b''
    return path, style, simple, '\n'.join(src) + '\n', '\n'.join(exp) + '\n', df


def one(i):
    r = vlib.rng('C16', i)
    df = None
    if i % 6 == 0:
        path, style, simple, src, exp, df = marked(r)
    else:
        path, style, simple, src, exp = generate(r)
    d = vlib.fresh_dir()
    try:
        os.makedirs(d + '/lib/sub')
        vlib.write(d + '/.clang-format', style)
        vlib.write(d + '/' + path, src)
        if df is None:
            x = vlib.run([EXE] + (['-s'] if simple else []) + [path], b'', cwd=d)
        else:
            x = vlib.run([EXE, '-Di'] + (['-s'] if simple else []), df, cwd=d)
            if x.out:
                exp = 'no output with -i'
            x.out = vlib.read(d + '/' + path)
        return path, style, simple, src, exp, x, df
    finally:
        vlib.rmtree(d)


for path, style, simple, src, exp, x, df in c.map(one, range(c.n(60000, 800000)), as_limit=3 << 30, chunk=64):
    if x.timeout:
        c.inconclusive += 1
        continue
    key = vlib.digest(src, style, path, str(simple), df or b'')
    c.stats['%spredicted %s' % ('-D: ' if df is not None else '', 'as is' if src == exp else 'to change')] += 1
    c.observe(key if src != exp else None, {'style': style, '-s': simple, 'path': path, 'source': src[:300]})
    out = x.out.decode('latin-1')
    if x.rc != 0 or out != exp:
        a, b = out.split('\n'), exp.split('\n')
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        c.violation(key, 'exit %s, line %d is %r instead of %r' % (x.rc, k + 1, a[k:k + 1], b[k:k + 1]),
                    {'input.c': src, 'clang-format': style, 'expected': exp, 'output': x.out, 'in.diff': df or b'', 'args': '%s%s\n' % ('-s ' if simple else '', path)})
c.finish(minimum=5000)
