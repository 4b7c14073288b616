"""C10: -D formats the changed lines and leaves the others alone."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, oracle, gen, clex
from udiff import mkdiff

c = vlib.Check('C10', 'exploration',
               'unified diffs (0 to 3 lines of context, removed lines, git prefixes and section headings, several files in one diff, deletions '
               'only, missing final newline, in directories, run from the root or from 1 to 9 levels below a git work tree, to standard output or -i) against (a) files of '
               'whole top-level units, some of them marked: output must equal unit by unit the text as is or as formatted on its own, (b) '
               'marked expression statements: output must equal the file with just those lines replaced by their lines of the fully formatted '
               'file, (c) arbitrary marked lines in any layout: same tokens and comments; non-trivial: distinct diff and file whose result '
               'differs from the file',
               ['sources of (c) carry no preprocessor conditionals and styles of (c) do not move operators across line breaks'])
EXE = c.build('plain')


def units(r):
    """A file of top-level units, some of them marked, and what to expect."""
    com = r.choice([0, 0, .1])
    us = []
    for _ in range(r.choice([1, 2, 3, 5])):
        g = gen.Gen(r, size=r.choice([10, 30]), comments=com, cpp=0, idiom=0)
        for _ in range(50):
            t = g.toplevel()
            if '{' in [x for x in t if isinstance(x, str)]:
                break
        us.append(gen.render(t, r, r.choice(gen.LAYOUTS)).strip('\n') + '\n')
    marked = set(k for k in range(len(us)) if r.random() < .4)
    line, marks = 1, set()
    for k, u in enumerate(us):
        n = u.count('\n')
        if k in marked:
            marks |= set(range(line, line + n))
        line += n + 1
    return [u.encode('latin-1') for u in us], marked, marks


def code(data):
    return [(t.line, t.text) for t in clex.scan(data.decode('latin-1'))]


def stmts(r, sty, d):
    us = []
    for _ in range(r.choice([1, 2, 3])):
        g = gen.Gen(r, size=10, comments=0, cpp=0, idiom=0)
        body = []
        for _ in range(r.choice([2, 4, 8, 12])):
            if r.random() < .8:
                body.append(gen.render(g.simple_stmt(), r, 'canonical').replace('\n', ' ').strip())
            else:
                body.append(gen.render(g.stmt(2, True), r, 'canonical').strip('\n'))
        us.append('int\n%s(void)\n{\n%s\n}\n' % (g.fresh('f'), '\n'.join(r.choice(['\t', '   ', '\t  ']) + b for b in body)))
    src = '\n'.join(us).encode('latin-1')
    vlib.write(d + '/zz.c', src)
    full = vlib.run([EXE, 'zz.c'], b'', cwd=d)
    os.unlink(d + '/zz.c')
    if full.rc != 0:
        return None
    a, b = code(src), code(full.out)
    if [t for _, t in a] != [t for _, t in b]:
        return None
    lines, fl = src.split(b'\n')[:-1], full.out.split(b'\n')[:-1]
    first, last, fo, lo = {}, {}, {}, {}
    for k, (l, _) in enumerate(a):
        first.setdefault(l, k)
        last[l] = k
    for k, (l, _) in enumerate(b):
        fo.setdefault(l, k)
        lo[l] = k
    cand = {}
    for l in first:
        x, y = first[l], last[l]
        if a[x][1] in ('break', 'continue', 'goto', ';', '}') or a[y][1] != ';' or (x and a[x - 1][1] not in (';', '{', '}')):
            continue
        if fo[b[x][0]] == x and lo[b[y][0]] == y:
            cand[l] = (b[x][0], b[y][0])
    if not cand:
        return None
    ms = set(r.sample(sorted(cand), min(len(cand), r.choice([1, 1, 2, 3, 6]))))
    want = []
    for l, t in enumerate(lines, 1):
        want += fl[cand[l][0] - 1:cand[l][1]] if l in ms else [t]
    return src, ms, b'\n'.join(want) + b'\n'


def anyline(r):
    src, lay, _ = work.program(r, comments=r.choice([0, .05, .2]), cpp=0, idiom=r.choice([0, .2]))
    if not src.endswith(b'\n'):
        src += b'\n'
    n = src.count(b'\n')
    marks = set()
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        s = r.randrange(1, n + 1)
        marks |= set(range(s, min(n, s + r.choice([0, 0, 1, 3, 20])) + 1))
    return src, marks


def one(i):
    r = vlib.rng('C10', i)
    kind = r.choice(['units', 'units', 'stmts', 'stmts', 'any', 'any', 'any'])
    sty = work.style(r, .3)
    if kind == 'any':
        # those styles move operators across line breaks
        sty = re.sub(r'(?m)^(BreakBefore(Binary|Ternary)Operators|BasedOnStyle):.*\n', '', sty)
    else:
        # those indent by columns of text before, verbatim here and formatted there
        sty = re.sub(r'(?m)^(Align\w+|BasedOnStyle):.*\n', '', sty)
    d = vlib.fresh_dir()
    try:
        files, want, nl = [], {}, {}
        below = r.random() < .25
        up = ''.join('up%d/' % k for k in range(r.choice([1, 1, 2, 3, 5, 9]))) if below else ''
        home = os.path.normpath(d + '/' + up)
        os.makedirs(home, exist_ok=True)
        if below:
            os.mkdir(d + '/.git')
        if sty:
            vlib.write(home + '/.clang-format', sty)
        for k in range(r.choice([1, 1, 2, 3]) if kind != 'any' else r.choice([1, 1, 1, 2])):
            name = r.choice(['', '', '', 's/', 'b/', 'lib/b/', 'a/']) + 'q%d.c' % k
            os.makedirs(os.path.dirname(home + '/' + name), exist_ok=True)
            eofnl = True
            if kind == 'units':
                us, marked, marks = units(r)
                res = []
                for j, u in enumerate(us):
                    if j in marked:
                        vlib.write(home + '/zz.c', u)
                        x = vlib.run([EXE, 'zz.c'], b'', cwd=home)
                        if x.rc != 0:
                            return kind, b'', b'', 'timeout' if x.timeout else 'rejected', '', sty, 0
                        u = x.out
                    res.append(u)
                src = b'\n'.join(us)
                want[name] = b'\n'.join(res)
                if len(us) - 1 in marked and r.random() < .2:
                    src, eofnl = src[:-1], False
            elif kind == 'stmts':
                x = stmts(r, sty, home)
                if not x:
                    continue
                src, marks, want[name] = x
            else:
                src, marks = anyline(r)
                want[name] = None
            vlib.write(home + '/' + name, src)
            lines = src.split(b'\n')
            if eofnl:
                lines = lines[:-1]
            files.append((up + name, lines, marks, eofnl))
        if os.path.exists(home + '/zz.c'):
            os.unlink(home + '/zz.c')
        if not files:
            return kind, b'', b'', 'rejected', '', sty, 0
        df = mkdiff(r, files)
        names = [f[0][len(up):] for f in files]
        srcs = {n: vlib.read(home + '/' + n) for n in names}
        for n in names:
            x = vlib.run([EXE, n], b'', cwd=home)
            if x.rc != 0:
                return kind, b'', b'', 'timeout' if x.timeout else 'rejected', '', sty, 0
            if want[n] is None:
                if oracle.dropsemi(oracle.norm(srcs[n])[0]) != oracle.dropsemi(oracle.norm(x.out)[0]):
                    return kind, b'', b'', 'rejected', '', sty, 0
        inplace = r.random() < .4 or (len(names) > 1 and kind == 'any')
        x = vlib.run([EXE, '-D'] + (['-i'] if inplace else []), df, cwd=home)
        if x.timeout:
            return kind, b'', b'', 'timeout', '', sty, 0
        bad = ''
        allsrc = b''.join(b'/* %s */\n' % n.encode() + srcs[n] for n in names)
        if x.rc != 0:
            bad = 'exit %s on a file which is accepted as a whole: %r' % (x.rc, x.err[:200])
        elif inplace and x.out:
            bad = 'output with -i'
        if not bad:
            if inplace:
                got = {n: vlib.read(home + '/' + n) for n in names}
            elif kind == 'any':
                got = {names[0]: x.out}
            else:
                got = {'': x.out}
                want, srcs = {'': b''.join(want[n] for n in names)}, {'': b''.join(srcs[n] for n in names)}
                names = ['']
            for n in names:
                if want[n] is not None:
                    if got[n] != want[n]:
                        bad = '%s: result differs from what is expected (untouched text as is, marked text formatted): %s' % (n, fdiff(want[n], got[n]))
                else:
                    a, b = oracle.dropsemi(oracle.norm(srcs[n])[0]), oracle.dropsemi(oracle.norm(got[n])[0])
                    if a != b:
                        bad = '%s: code changed: %s' % (n, oracle.first_diff(a, b))
                    elif a == oracle.norm(srcs[n])[0]:
                        # comments next to redundant semicolons are not judged
                        a, b = [sorted(t for _, t in oracle.comments(s)) for s in (srcs[n], got[n])]
                        if a != b:
                            bad = '%s: comments changed: %s' % (n, oracle.first_diff(a, b))
                    if not bad and not files[0][2] and len(files) == 1 and got[n] != srcs[n]:
                        bad = 'changed although nothing is marked'
        live = not bad and any(got[n] != srcs[n] for n in names)
        return kind, allsrc, df, 'bad' if bad else 'ok', bad, sty, live
    finally:
        vlib.rmtree(d)


def fdiff(a, b):
    a, b = a.split(b'\n'), b.split(b'\n')
    for k in range(max(len(a), len(b))):
        x, y = a[k:k + 1], b[k:k + 1]
        if x != y:
            return 'line %d: expected %r, found %r' % (k + 1, x, y)
    return ''


for kind, src, df, k, w, sty, live in c.map(one, range(c.n(20000, 400000)), as_limit=3 << 30, chunk=32):
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats['%s %s' % (kind, k)] += 1
    c.observe(vlib.digest(src, df, sty) if live else None, {'class': kind, 'style': sty, 'diff': df[:400].decode('latin-1')})
    if k == 'bad':
        c.violation(vlib.digest(src, df, sty), w, {'input.c': src, 'in.diff': df, 'clang-format': sty})
c.finish(minimum=3000)
