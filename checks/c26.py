"""C26: -D together with -s rewrites marked code only and keeps the meaning of a program."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, exgen, gen, oracle
from runc import execute, PRE
from udiff import mkdiff

c = vlib.Check('C26', 'exploration',
               'unified diffs x -D -s against (a) generated executable programs made of the constructs that -s rewrites with arbitrary lines marked '
               '(single lines, runs, every line, random subsets) x layouts x styles: the result must compile and print the same trace, (b) files of '
               'whole top-level units, some of them marked: the unmarked ones must stay as is and the marked ones must equal, up to white space, what -s makes of them on their own; '
               'non-trivial: distinct diff and program whose result differs from the input beyond white space',
               ['programs carry no preprocessor conditionals', 'styles do not move operators across line breaks',
                'both programs are compiled by the same gcc -O0 -fwrapv'])
EXE = c.build('plain')
LAYOUTS = ['canonical', 'canonical', 'canonical', 'random', 'sparse', 'lines', 'dense']


def marksof(r, n):
    how = r.choice(['runs', 'runs', 'all', 'half'])
    if how == 'all':
        return set(range(1, n + 1))
    if how == 'half':
        p = r.choice([.1, .3, .5, .8])
        return set(k for k in range(1, n + 1) if r.random() < p)
    marks = set()
    for _ in range(r.choice([1, 2, 3, 6])):
        s = r.randrange(1, n + 1)
        marks |= set(range(s, min(n, s + r.choice([0, 0, 1, 3, 20])) + 1))
    return marks


def squeeze(s):
    return b''.join(s.split())


def weak(s):
    """Disregards a break after the last label, added only if the line after it is marked, too."""
    return re.sub(br':(break;|;)\}', b':}', squeeze(s))


def program(r, d, sty):
    src, main, lay = exgen.source(r, LAYOUTS, nf=r.choice([1, 2, 4]), comments=r.choice([0, 0, .1]), cpp=0)
    src = src.encode()
    if not src.endswith(b'\n'):
        src += b'\n'
    lines = src.split(b'\n')[:-1]
    marks = marksof(r, len(lines))
    vlib.write(d + '/q.c', src)
    df = mkdiff(r, [('q.c', lines, marks, True)])
    x = vlib.run([EXE, '-D', '-s'], df, cwd=d)
    if x.timeout:
        return 'timeout', '', src, df, 0
    if not marks:
        return ('ok' if x.out in (b'', src) and x.rc == 0 else 'bad'), 'nothing is marked, exit %s' % x.rc, src, df, 0
    if x.rc != 0:
        y = vlib.run([EXE, '-s', 'q.c'], b'', cwd=d)
        if y.rc != 0:
            return 'rejected', '', src, df, 0
        return 'bad', 'exit %s on a file which is accepted as a whole: %r' % (x.rc, x.err[:200]), src, df, 0
    a, ea = execute(src, main, d, 'a')
    if a is None or a == 'timeout':
        return 'original does not ' + ('compile' if a is None else 'end'), '', src, df, 0
    b, eb = execute(x.out, main, d, 'b')
    if b == 'timeout':
        b, eb = execute(x.out, main, d, 'b')
        if b == 'timeout':
            return 'timeout', '', src, df, 0
    live = squeeze(src) != squeeze(x.out)
    if b is None:
        return 'bad', 'the result does not compile: ' + eb.decode('latin-1')[:300], src + main.encode(), df, live
    if a != b:
        la, lb = a[1].split(b'\n'), b[1].split(b'\n')
        k = next((k for k in range(min(len(la), len(lb))) if la[k] != lb[k]), min(len(la), len(lb)))
        return 'bad', 'the result behaves differently at step %d: %r instead of %r' % (k, lb[k:k + 1], la[k:k + 1]), src + main.encode(), df, live
    return 'same' if live else 'unchanged', '', src, df, live


def units(r, d, sty):
    """A file of top-level units, some of them marked, and what to expect."""
    us = []
    for _ in range(r.choice([2, 3, 5])):
        s, _, _ = exgen.source(r, LAYOUTS, nf=1, comments=r.choice([0, 0, .1]), cpp=0)
        us.append(s.strip('\n').encode() + b'\n')
    marked = set(k for k in range(len(us)) if r.random() < .4)
    sep = b'\nenum e%d {\n\tE%d = 1 ,\n};\n\n'
    src, want, line, marks, pieces = b'', b'', 1, set(), []
    for k, u in enumerate(us):
        v = u
        if k in marked:
            vlib.write(d + '/zz.c', u)
            x = vlib.run([EXE, '-s', 'zz.c'], b'', cwd=d)
            os.unlink(d + '/zz.c')
            if x.timeout:
                return 'timeout', '', b'', b'', 0
            if x.rc != 0:
                return 'rejected', '', b'', b'', 0
            v = x.out
            marks |= set(range(line, line + u.count(b'\n')))
        pieces.append((u, v, k in marked))
        s = sep % (k, k)
        src, want = src + u + s, want + v + s
        line += u.count(b'\n') + s.count(b'\n')
    vlib.write(d + '/q.c', src)
    df = mkdiff(r, [('q.c', src.split(b'\n')[:-1], marks, True)])
    x = vlib.run([EXE, '-D', '-i', '-s'], df, cwd=d)
    if x.timeout:
        return 'timeout', '', b'', b'', 0
    got = vlib.read(d + '/q.c')
    if x.rc != 0:
        return 'bad', 'exit %s although every unit is accepted: %r' % (x.rc, x.err[:200]), src, df, 0
    pos, bad = 0, ''
    for k, (u, v, m) in enumerate(pieces):
        end = got.find(sep % (k, k), pos)
        if end < 0:
            bad = 'unmarked text after unit %d changed' % k
        elif m and weak(got[pos:end]) != weak(v):
            bad = 'marked unit %d is not what -s gives' % k
        elif not m and got[pos:end] != u:
            bad = 'unmarked unit %d changed' % k
        if bad:
            return 'bad', bad, src, df, 0
        pos = end + len(sep % (k, k))
    if pos != len(got):
        return 'bad', 'more than the units in the result', src, df, 0
    return ('same' if marked else 'unchanged'), '', src, df, squeeze(src) != squeeze(want)


def one(i):
    r = vlib.rng('C26', i)
    kind = r.choice(['program', 'program', 'program', 'units'])
    sty = work.style(r, .3)
    if kind == 'program':
        # those styles move operators across line breaks
        sty = re.sub(r'(?m)^(BreakBefore(Binary|Ternary)Operators|BasedOnStyle):.*\n', '', sty)
    else:
        # those indent by columns of text before, verbatim here and formatted there
        sty = re.sub(r'(?m)^(Align\w+|BasedOnStyle):.*\n', '', sty)
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        return (kind, sty) + (program if kind == 'program' else units)(r, d, sty)
    finally:
        vlib.rmtree(d)


for kind, sty, k, w, src, df, live in c.map(one, range(c.n(2400, 60000)), as_limit=3 << 30, chunk=4):
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats['%s: %s' % (kind, k)] += 1
    key = vlib.digest(src, df, sty)
    c.observe(key if live and k in ('same', 'bad') else None, {'class': kind, 'style': sty, 'diff': df[:400].decode('latin-1')})
    if k == 'bad':
        c.violation(key, w, {'input.c': src, 'in.diff': df, 'clang-format': sty, 'prelude.c': PRE.encode()})
c.finish(minimum=300)
