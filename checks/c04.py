"""C04: formatting without -s never changes the code."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, oracle

c = vlib.Check('C04', 'exploration',
               'generated C programs (statements, declarations, initializers, K&R, GNU extensions, macros, conditionals around and inside '
               'statements, comments) rendered in 7 layouts x random styles, plus the C headers and sources of this machine and the '
               'repository; monitored: token and directive sequence of the input against the one of the output, by an independent C '
               'scanner; non-trivial: distinct accepted input',
               ['redundant semicolons (after another semicolon or a block) may be dropped, white space and line continuations inside directives '
                'may change', 'include sorting is disabled here, see C16', 'inputs are the generated and installed ones, not all of C'])
EXE = c.build('plain')


def judge(src, sty, d):
    x = vlib.run([EXE], src, cwd=d)
    if x.timeout:
        return 'timeout', ''
    if x.rc != 0:
        return 'rejected', ''
    a, b = oracle.norm(src)[0], oracle.norm(x.out)[0]
    if a != b:
        a, b = oracle.dropsemi(a), oracle.dropsemi(b)
        if a != b:
            return 'bad', oracle.first_diff(a, b)
    return ('same' if x.out == src else 'reformatted'), ''


def one(i):
    r = vlib.rng('C04', i)
    if i % 5 == 0:
        src, lay, feats = work.peppered(r), 'peppered', ()
    else:
        src, lay, feats = work.program(r)
    sty = work.style(r)
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        k, w = judge(src, sty, d)
        return 'generated ' + lay, src, sty, k, w, feats
    finally:
        vlib.rmtree(d)


def real(p):
    d = vlib.fresh_dir()
    try:
        src = vlib.read(p)
        r = vlib.rng('C04r', p)
        sty = work.style(r, .4)
        if sty:
            vlib.write(d + '/.clang-format', sty)
        k, w = judge(src, sty, d)
        return 'real', src, sty, k, w and p + ': ' + w, ()
    finally:
        vlib.rmtree(d)


feats = set()


def take(res):
    cls, src, sty, k, w, f = res
    if k == 'timeout':
        c.inconclusive += 1
        return
    c.stats['%s %s' % (cls, k)] += 1
    feats.update(f)
    key = vlib.digest(src, sty)
    c.observe(key if k != 'rejected' else None, {'class': cls, 'style': sty, 'source': src[:300].decode('latin-1')})
    if k == 'bad':
        c.violation(key, 'code changed: ' + w, {'input.c': src, 'clang-format': sty})


for res in c.map(one, range(c.n(30000, 600000)), as_limit=3 << 30, chunk=64):
    take(res)
fs = work.real_files()
rr = vlib.rng('C04files')
rr.shuffle(fs)
repo = [f for f in fs if f.startswith(vlib.REPO)]
for res in c.map(real, repo + [f for f in fs if not f.startswith(vlib.REPO)][:c.n(3000, 100000)], as_limit=3 << 30, chunk=16):
    take(res)
c.extra['constructs'] = len(feats)
c.finish(minimum=5000)
