"""C09: files given together are formatted as if given alone."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, work, mutate, san_common

c = vlib.Check('C09', 'exploration',
               'sequences of 2..6 files drawn from generated, repository, installed, malformed and missing ones, x modes x -s x styles, repeated files '
               'included; monitored: output, files and exit status of the joint run against those of one run per file; non-trivial: distinct '
               'sequence with at least two accepted files',
               ['diagnostics are compared per file, not their interleaving with output'])
EXE = c.build('plain')
REAL = [p for p in work.real_files(30000)]


def source(r):
    k = r.random()
    if k < .4:
        return work.program(r, size=r.choice([20, 60]))[0]
    if k < .6:
        return r.choice(san_common.CORPUS)
    if k < .75:
        return vlib.read(r.choice(REAL))
    if k < .9:
        return mutate.mutate(r, r.choice(san_common.CORPUS), san_common.CORPUS)
    if k < .93:
        return b''
    return san_common.special(r)


def one(i):
    r = vlib.rng('C09', i)
    n = r.choice([2, 2, 3, 4, 6])
    files = {}
    order = []
    for k in range(n):
        name = 'f%d%s' % (k, r.choice(['.c', '.h']))
        if order and r.random() < .1:
            order.append(r.choice(order))
        elif r.random() < .08:
            order.append('missing%d.c' % k)
        else:
            files[name] = source(r)
            order.append(name)
    sty = san_common.style_text(r) if r.random() < .4 else ''
    fl = ['-s'] if r.random() < .5 else []
    mode = r.choice([[], [], ['-d'], ['-i']])
    d = vlib.fresh_dir()
    bad = []
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)

        def put():
            for k, v in files.items():
                vlib.write(d + '/' + k, v)

        def get():
            return {k: vlib.read(d + '/' + k) for k in files}
        put()
        out, rc, err = b'', 0, b''
        acc = 0
        for f in order:
            x = vlib.run([EXE] + mode + fl + [f], cwd=d)
            if x.timeout:
                return i, files, sty, 'timeout', acc, []
            if x.rc not in (0, 1):
                return i, files, sty, 'crash', acc, []
            out += x.out
            err += x.err
            rc |= x.rc
            acc += not x.err
        alone = get()
        put()
        j = vlib.run([EXE] + mode + fl + order, cwd=d)
        if j.timeout:
            return i, files, sty, 'timeout', acc, []
        if j.rc != rc:
            bad.append('exit %s, expected %s' % (j.rc, rc))
        if j.out != out:
            n = next((k for k, (a, b) in enumerate(zip(j.out, out)) if a != b), min(len(j.out), len(out)))
            bad.append('output differs at byte %d: together %r, alone %r' % (n, j.out[n - 40:n + 40], out[n - 40:n + 40]))
        if j.err != err:
            bad.append('diagnostics differ: together %r, alone %r' % (j.err[:200], err[:200]))
        t = get()
        for k in files:
            if t[k] != alone[k]:
                bad.append('%s differs after the joint run' % k)
        return i, files, sty, '%s files=%d' % (' '.join(mode + fl), len(order)), acc, bad
    finally:
        vlib.rmtree(d)


for i, files, sty, k, acc, bad in c.map(one, range(c.n(5000, 120000)), as_limit=3 << 30):
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats[k] += 1
    c.observe(vlib.digest(i) if acc >= 2 else None, {'case': i, 'mode': k, 'files': {n: len(v) for n, v in files.items()}})
    if bad:
        c.violation(vlib.digest(i), '; '.join(bad), dict(files, **{'clang-format': sty}))
c.finish(minimum=1000)
