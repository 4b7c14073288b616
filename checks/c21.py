"""C21: what knfmt has laid out is left alone."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, styles, difflib
from units import P

c = vlib.Check('C21', 'exploration',
               'generated units (definitions, prototypes, struct, union and enum definitions, bit-fields, multi-line macros, calls, operator chains, conditions and '
               'conditional expressions of random length at random depth) in random spacing x random styles, with and without -s; monitored: formatting the output '
               'again under the same style gives the same bytes, also through -d and -i; non-trivial: distinct (style, program) that the first run changed',
               ['operands are plain names of at most 12 characters', 'styles that align (AlignAfterOpenBracket, AlignOperands, AlignEscapedNewlines: Left) are excluded: they take the existing alignment into account'])
EXE = c.build('plain')


def one(i):
    r = vlib.rng('C21', i)
    o, sty = styles.style(r, based=0) if r.random() < .9 else ({}, '')
    if o.get('AlignAfterOpenBracket') == 'Align' or o.get('AlignOperands', 'DontAlign') not in ('DontAlign', 'false') or o.get('AlignEscapedNewlines') == 'Left':
        return None
    if str(o.get('ColumnLimit')) == '0' and o.get('AlignEscapedNewlines') != 'DontAlign':
        return None     # as Left
    if not o:
        sty = ''
    src = P(r, o).build().encode()
    opt = r.choice([[], [], ['-s']])
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        x = vlib.run([EXE] + opt, src, cwd=d)
        if x.timeout:
            return 'timeout', src, sty, opt, b'', b''
        if x.rc != 0:
            return 'rejected', src, sty, opt, b'', b''
        vlib.write(d + '/a.c', x.out)
        m = r.choice(['', '', '-d', '-i'])
        y = vlib.run([EXE] + opt + ([m] if m else []) + ['a.c'], b'', cwd=d)
        if y.timeout:
            return 'timeout', src, sty, opt, b'', b''
        if m == '-d':
            out = x.out if y.rc == 0 and not y.out else y.out
        elif m == '-i':
            out = vlib.read(d + '/a.c')
        else:
            out = y.out
        return 'judged', src, sty, opt, x.out, out
    finally:
        vlib.rmtree(d)


for res in c.map(one, range(c.n(60000, 600000)), as_limit=3 << 30, chunk=32):
    if res is None:
        continue
    k, src, sty, opt, a, b = res
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats[k] += 1
    key = vlib.digest(src, sty, str(opt))
    c.observe(key if k == 'judged' and a != src else None, {'style': sty, 'source': src[:300].decode()})
    if a != b:
        what = ''.join(list(difflib.unified_diff(a.decode('latin-1').splitlines(1), b.decode('latin-1').splitlines(1), n=0))[2:])[:300]
        c.violation(key, 'formatted again%s it changes: %s' % (' with -s' if opt else '', what), {'input.c': src, 'clang-format': sty, 'first.c': a, 'second.c': b})
c.finish(minimum=5000)
