"""C03: no memory error, undefined behaviour or abnormal end on any diff (-D)."""
from san_common import *

c = vlib.Check('C03', 'exploration',
               'unified diffs produced by difflib between random line-edited versions of corpus and generated sources (0..3 context '
               'lines), and mutants of diff and source, with -D, -Di, -Dd, -Ds; non-trivial: distinct diff with a chunk header',
               ['the file named by the diff is in a scratch directory'])
EXE = c.build('asan')


def one(i):
    r = vlib.rng('C03', i)
    src, df, kind = diff_case(r)
    flags = ['-D'] + r.choice([[], ['-i'], ['-d'], ['-s'], ['-s', '-i'], ['-taa']])
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/a.c', src)
        sty = ''
        if r.random() < .25:
            sty = style_text(r)
            vlib.write(d + '/.clang-format', sty)
        x = vlib.run([EXE, *flags], df, cwd=d)
        return flags, src, df, sty, kind, x.rc, vlib.crash_kind(x), x.timeout, vlib.frame_of(x.err), x.err[-3000:]
    finally:
        vlib.rmtree(d)


for flags, src, df, sty, kind, rc, bad, to, frame, err in c.map(one, range(c.n(12000, 200000)), chunk=32):
    if to:
        c.inconclusive += 1
        continue
    c.stats['%s exit %s' % (kind, rc)] += 1
    key = vlib.digest(df, src, sty, *flags)
    c.observe(key if b'@@' in df else None, {'flags': flags, 'diff': df[:200].decode('latin-1'), 'exit': rc})
    if bad:
        c.violation(key, '%s %s (%s)' % (bad, frame, ' '.join(flags)),
                    {'diff': df, 'a.c': src, 'clang-format': sty, 'stderr': err})
c.finish(minimum=500)
