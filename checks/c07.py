"""C07: all output modes agree on one formatting and report it by exit status."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, work, mutate, san_common
import build as B

c = vlib.Check('C07', 'exploration',
               'generated, installed and mutated C sources x styles x -s run as standard input, file, -i, -d, -di, with 1..n byte reads and '
               'writes, with output to a full device; monitored: bytes on standard output, resulting file, patch printed by -d (applied to '
               'the input), exit status of each mode; non-trivial: distinct input whose formatting differs from it',
               ['"\\ No newline" patches are applied with patch(1)', '/usr/bin/diff is trusted'])
EXE = c.build('plain')
SHORT = B.build_shim(os.path.join(vlib.VERIF, 'shims', 'shortio.c'), 'shortio')
REAL = work.real_files(40000)


def case(i):
    r = vlib.rng('C07', i)
    k = r.random()
    if k < .45:
        src = work.program(r)[0]
    elif k < .6:
        src = vlib.read(r.choice(REAL))
    elif k < .7:
        src = san_common.special(r)
    elif k < .8:
        src = r.choice(san_common.CORPUS)
    else:
        src = mutate.mutate(r, r.choice(san_common.CORPUS), san_common.CORPUS)
    if r.random() < .1:
        src = src.rstrip(b'\n')
    return r, src, (san_common.style_text(r) if r.random() < .5 else ''), (['-s'] if r.random() < .4 else [])


def one(i):
    r, src, sty, flags = case(i)
    d = vlib.fresh_dir()
    name = r.choice(['z9q.c', 'z9q.h', 'z9 q.c', 'dir/z9q.c'])   # no include is the main one of it
    bad = []
    try:
        os.mkdir(d + '/dir')
        p = d + '/' + name
        if sty:
            vlib.write(d + '/.clang-format', sty)
        vlib.write(p, src)

        def go(f, inp=b'', env=None):
            return vlib.run([EXE] + flags + f, inp, cwd=d, env=env)
        f = go([name])
        s = go([], src)
        if f.timeout or s.timeout:
            return i, src, sty, 'timeout', []
        if f.rc not in (0, 1) or s.rc not in (0, 1):
            return i, src, sty, 'crash', []          # C01
        if (f.rc, f.out) != (s.rc, s.out):
            bad.append('standard input and file disagree (exit %s/%s, %d/%d bytes)' % (s.rc, f.rc, len(s.out), len(f.out)))
        new = f.out
        ok = f.rc == 0
        dd = go(['-d', name])
        if vlib.read(p) != src:
            bad.append('-d modified the file')
            vlib.write(p, src)
        if not ok:
            if dd.rc != 1:
                bad.append('rejected without -d, exit %s with -d' % dd.rc)
        elif new == src:
            if dd.rc != 0 or dd.out:
                bad.append('nothing to change, but -d exits %s with %d bytes' % (dd.rc, len(dd.out)))
        else:
            if dd.rc != 1:
                bad.append('-d exits %s although formatting differs' % dd.rc)
            if b'\0' not in src and b'\0' not in new:
                h = dd.out.split(b'\n', 2)
                if not (len(h) == 3 and h[0] == b'--- ' + name.encode() + b'.orig' and h[1] == b'+++ ' + name.encode()):
                    bad.append('-d header: %r' % h[:2])
                vlib.write(d + '/old', src)
                vlib.write(d + '/patch', dd.out)
                x = vlib.run(['patch', '-s', '-u', '-f', '--posix', '-o', 'new', 'old', 'patch'], cwd=d)
                got = vlib.read(d + '/new') if os.path.exists(d + '/new') else None
                if x.rc != 0 or got != new:
                    # patch(1) strips CR heuristically; compare without it then
                    if got is None or b'\r' not in src or got.replace(b'\r', b'') != new.replace(b'\r', b''):
                        bad.append('applying the output of -d does not give the formatted source (patch exit %s)' % x.rc)
        ii = go(['-di', name]) if i % 4 == 0 else dd
        if (ii.rc, re.sub(rb'/tmp/\S+', b'', ii.out)) != (dd.rc, re.sub(rb'/tmp/\S+', b'', dd.out)) or vlib.read(p) != src:
            bad.append('-d does not take precedence over -i')
            vlib.write(p, src)
        ip = go(['-i', name])
        got = vlib.read(p)
        if ip.out:
            bad.append('-i wrote to standard output')
        if ip.rc != f.rc:
            bad.append('-i exits %s, standard output mode %s' % (ip.rc, f.rc))
        if got != (new if ok else src):
            bad.append('-i left %d bytes, expected %d' % (len(got), len(new if ok else src)))
        vlib.write(p, src)
        if i % 3 == 0:
            n = r.choice([1, 3, 17, 1000])
            if len(src) / n < 5000:
                e = {'LD_PRELOAD': SHORT, 'SHORTIO': str(n)}
                sh = go([name], env=e)
                if (sh.rc, sh.out) != (f.rc, f.out):
                    bad.append('short reads and writes change the result (exit %s/%s, %d/%d bytes)' % (sh.rc, f.rc, len(sh.out), len(f.out)))
        if i % 5 == 0 and ok and new:
            fu = vlib.run(['sh', '-c', 'exec "$0" "$@" >/dev/full', EXE] + flags + [name], cwd=d)
            if fu.rc != 1 or not fu.err:
                bad.append('output to a full device: exit %s, diagnostics %r' % (fu.rc, fu.err[:80]))
        return i, src, sty, ('changed' if ok and new != src else 'same' if ok else 'rejected'), bad
    finally:
        vlib.rmtree(d)


for i, src, sty, k, bad in c.map(one, range(c.n(4500, 120000)), as_limit=3 << 30):
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats[k] += 1
    key = vlib.digest(i)
    c.observe(vlib.digest(src, sty) if k == 'changed' else None, {'source': src[:200].decode('latin-1'), 'style': sty})
    if bad:
        c.violation(key, '; '.join(bad), {'input.c': src, 'clang-format': sty})
c.finish(minimum=500)
