"""C02: no memory error, undefined behaviour or abnormal end on any style file."""
from san_common import *

c = vlib.Check('C02', 'exploration',
               'style files: token/byte mutants of the styles embedded in the repository tests, of random styles and of include '
               'category lists, given with -c or found as .clang-format, while formatting sources that exercise the options; '
               'non-trivial: distinct style text with at least one key recognised or diagnosed',
               ['numeric options are drawn from -1..2^64, documents up to 20 kB'])
EXE = c.build('asan')


def one(i):
    r = vlib.rng('C02', i)
    sty = style_mutant(r)
    flags = r.choice([[], [], ['-s'], ['-tss'], ['-d']])
    src = r.choice(STYLE_SRC) if r.random() < .7 else r.choice(CORPUS)
    d = vlib.fresh_dir()
    try:
        name = r.choice(['a.c', 'a.h', 'x-y.h'])
        vlib.write(d + '/' + name, src)
        if r.random() < .5:
            vlib.write(d + '/cf', sty)
            cmd = [EXE, *flags, '-c', 'cf', name]
        else:
            vlib.write(d + '/.clang-format', sty)
            cmd = [EXE, *flags, name]
        x = vlib.run(cmd, b'', cwd=d)
        return i, flags, src, sty, x.rc, vlib.crash_kind(x), x.timeout, vlib.frame_of(x.err), x.err[-3000:], cmd[1:]
    finally:
        vlib.rmtree(d)


for i, flags, src, sty, rc, bad, to, frame, err, cmd in c.map(one, range(c.n(12000, 200000)), chunk=32):
    if to:
        c.inconclusive += 1
        continue
    key = vlib.digest(sty, src, *cmd)
    c.stats['exit %s' % rc] += 1
    if b'[s]' in err:
        c.stats['option dump seen'] += 1
    c.observe(vlib.digest(sty) if b':' in sty else None, {'style': sty[:200].decode('latin-1'), 'cmd': cmd, 'exit': rc})
    if bad:
        c.violation(key, '%s %s (%s)' % (bad, frame, ' '.join(cmd)), {'clang-format': sty, 'input.c': src, 'stderr': err})
c.finish(minimum=500)
