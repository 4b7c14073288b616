"""C14: the style options have the documented effect."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, styles
from units import P, check

c = vlib.Check('C14', 'exploration',
               'generated units (definitions, prototypes, struct/union/enum definitions, bit-fields, multi-line macros, calls, operator chains, '
               'conditions and conditional expressions of random length at random depth) written on one line with random spacing x random styles; '
               'monitored on the output of each unit: return type break, brace placement, bit-field spacing, column of escaped newlines, side of binary '
               'and ternary operators at line breaks, no line beyond ColumnLimit, no break where the next operand would have fitted, continuation '
               'indentation; non-trivial: distinct (style, unit) judged with the option at work (a line break or brace to place)',
               ['operands are plain names of at most 12 characters, so that every line can be broken', 'styles without BasedOnStyle'])
EXE = c.build('plain')


def one(i):
    r = vlib.rng('C14', i)
    o, sty = styles.style(r, based=0) if r.random() < .9 else ({}, '')
    if not o:
        sty = ''
    p = P(r, o)
    src = p.build().encode()
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        x = vlib.run([EXE], src, cwd=d)
        if x.timeout:
            return 'timeout', src, sty, [], x.out
        if x.rc != 0:
            return 'rejected', src, sty, [], x.err
        return 'judged', src, sty, check(x.out, p), x.out
    finally:
        vlib.rmtree(d)


for k, src, sty, res, out in c.map(one, range(c.n(40000, 600000)), as_limit=3 << 30, chunk=32):
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats[k] += 1
    bad = [(e, u) for e, _, u in res if e]
    nt = [u for e, n, u in res if n]
    for u in nt or [None]:
        c.observe(vlib.digest(u, sty) if u else None, {'style': sty, 'unit': (u or '')[:300]})
    c.stats['units judged'] += len(res)
    if bad:
        c.violation(vlib.digest(src, sty), bad[0][0], {'input.c': src, 'clang-format': sty, 'output.c': out})
c.finish(minimum=5000)
