"""C05: every comment and directive survives, in place."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, oracle

c = vlib.Check('C05', 'exploration',
               'generated programs with comments of all shapes at statement ends, on own lines, inside expressions, declarations, braces and '
               'argument lists or between any two tokens, next to redundant semicolons, and conditional directives, x layouts x styles, with and without -s; plus installed C sources; monitored: every '
               'comment occurs exactly once in the output, text unchanged but for white space, between the same words of code; non-trivial: '
               'distinct accepted input with at least one comment or directive',
               ['a comment may move across adjacent punctuation or another comment (KNF joins braces and operators with the previous line)'])
EXE = c.build('plain')


def judge(src, d):
    x = vlib.run([EXE], src, cwd=d)
    if x.timeout:
        return 'timeout', '', 0
    if x.rc != 0:
        return 'rejected', '', 0
    a, b = oracle.comments(src), oracle.comments(x.out)
    n = len(a)
    if a != b:
        ca, cb = collections.Counter(a), collections.Counter(b)
        lost, new = ca - cb, cb - ca
        if lost or new:
            return 'bad', 'lost %s, gained %s' % (sorted(lost)[:3], sorted(new)[:3]), n
    y = vlib.run([EXE, '-s'], src, cwd=d)
    if y.rc == 0 and not y.timeout:
        # Simplification may rearrange the code around a comment, not drop or repeat it.
        ca, cb = collections.Counter(t for _, t in a), collections.Counter(t for _, t in oracle.comments(y.out))
        if ca != cb:
            return 'bad', '-s: lost %s, gained %s' % (sorted(ca - cb)[:3], sorted(cb - ca)[:3]), n
    return 'ok', '', n


def one(i):
    r = vlib.rng('C05', i)
    if i % 3 == 0:
        src, lay = work.peppered(r), 'peppered'
    else:
        src, lay, _ = work.program(r, comments=r.choice([.1, .2, .4]))
    sty = work.style(r)
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        return ('generated ' + lay, src, sty) + judge(src, d)
    finally:
        vlib.rmtree(d)


def real(p):
    d = vlib.fresh_dir()
    try:
        src = vlib.read(p)
        sty = work.style(vlib.rng('C05r', p), .4)
        if sty:
            vlib.write(d + '/.clang-format', sty)
        k, w, n = judge(src, d)
        return 'real', src, sty, k, w and p + ': ' + w, n
    finally:
        vlib.rmtree(d)


def take(res):
    cls, src, sty, k, w, n = res
    if k == 'timeout':
        c.inconclusive += 1
        return
    c.stats['%s %s' % (cls, k)] += 1
    c.stats['comments and directives tracked'] += n
    key = vlib.digest(src, sty)
    c.observe(key if n else None, {'class': cls, 'style': sty, 'source': src[:300].decode('latin-1')})
    if k == 'bad':
        c.violation(key, 'comment or directive moved or lost: ' + w, {'input.c': src, 'clang-format': sty})


for res in c.map(one, range(c.n(25000, 500000)), as_limit=3 << 30, chunk=64):
    take(res)
fs = work.real_files()
vlib.rng('C05files').shuffle(fs)
repo = [f for f in fs if f.startswith(vlib.REPO)]
for res in c.map(real, repo + [f for f in fs if not f.startswith(vlib.REPO)][:c.n(2500, 100000)], as_limit=3 << 30, chunk=16):
    take(res)
c.finish(minimum=5000)
