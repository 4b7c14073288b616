"""C20: the result is a function of the source, the style and the options."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, styles
import san_common as S

c = vlib.Check('C20', 'exploration',
               'generated programs, installed sources, hostile mutants x styles x options, each run again with: freed and fresh memory filled with other bytes, '
               'another compiler and optimisation level with automatic variables filled, every tracing flag on, another locale, environment size, directory, '
               'time stamps, terminal width; monitored: standard output, diagnostics (but for tracing) and exit status identical to the first run; non-trivial: '
               'distinct accepted source that knfmt changes',
               ['the path given is the same in all runs'])
PLAIN, ALT = c.build('plain'), c.build('alt')
TRACE = 'acCdDflpsSt'


def case(r):
    k = r.random()
    if k < .5:
        src = work.program(r)[0]
    elif k < .75:
        src = r.choice(S.CORPUS)
        src = src if isinstance(src, bytes) else src.encode('latin-1')
    else:
        src = S.source(r)[1]
    return src[:60000]


def one(i):
    r = vlib.rng('C20', i)
    src = case(r)
    sty = r.choice([None, styles.style(r)[1], S.style_text(r)])
    opts = r.choice([[], [], ['-s'], ['-d'], ['-D']])
    d, e = vlib.fresh_dir(), vlib.fresh_dir()
    try:
        os.makedirs(e + '/x/y')
        e2 = e + '/x/y'
        for q in (d, e2):
            vlib.write(q + '/src.c', src)
            vlib.write(q + '/.clang-format', sty or '')
            if sty is None:
                os.unlink(q + '/.clang-format')
            os.makedirs(q + '/.git')
        os.utime(e2 + '/src.c', (1, 1))
        inp = b''
        args = opts + ['src.c']
        if opts == ['-D']:
            n = max(1, src.count(b'\n'))
            a = r.randrange(1, n + 1)
            b = min(n, a + r.randrange(8))
            ls = src.split(b'\n')
            inp = b'--- a/src.c\n+++ b/src.c\n@@ -%d,0 +%d,%d @@\n' % (a, a, b - a + 1) + b''.join(b'+' + l + b'\n' for l in ls[a - 1:b])
            args = opts
        x = vlib.run([PLAIN] + args, inp, cwd=d)
        runs = [('filled memory', PLAIN, args, d, {'MALLOC_PERTURB_': str(r.randrange(1, 256)), 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}),
                ('other compiler', ALT, args, d, {'MALLOC_PERTURB_': str(r.randrange(1, 256))}),
                ('environment', PLAIN, args, e2, {'LC_ALL': r.choice(['C.utf8', 'POSIX', 'sv_SE.UTF-8']), 'COLUMNS': '20', 'TERM': 'dumb', 'HOME': '/nonexistent',
                                                    'TZ': 'Asia/Tokyo', 'X' * r.randrange(1, 400): 'y' * r.randrange(4000)}),
                ('tracing', PLAIN, ['-t', ''.join(ch for ch in TRACE if r.random() < .6) or 'a'] + args, d, {})]
        bad = []
        n = 0
        for what, exe, a, q, env in runs:
            y = vlib.run([exe] + a, inp, cwd=q, env=env)
            if x.timeout or y.timeout:
                continue
            n += 1
            xo, yo = x.out, y.out
            if opts == ['-d']:
                # The header of a patch carries time stamps and descriptor names.
                xo, yo = (b'\n'.join(l for l in z.split(b'\n') if l[:4] not in (b'--- ', b'+++ ')) for z in (xo, yo))
            if x.rc != y.rc:
                bad.append('%s: exit %s instead of %s %r' % (what, y.rc, x.rc, y.err[-200:]))
            elif xo != yo:
                k = next((k for k in range(min(len(xo), len(yo))) if xo[k] != yo[k]), min(len(xo), len(yo)))
                bad.append('%s: output differs at byte %d: %r instead of %r' % (what, k, yo[max(0, k - 30):k + 30], xo[max(0, k - 30):k + 30]))
            elif what != 'tracing' and x.err != y.err:
                bad.append('%s: diagnostics %r instead of %r' % (what, y.err[:100], x.err[:100]))
        return src, sty, opts, n, bad, x.rc == 0 and x.out != src or x.rc == 1 and opts == ['-d']
    finally:
        vlib.rmtree(d)
        vlib.rmtree(e)


for src, sty, opts, n, bad, changed in c.map(one, range(c.n(7000, 120000)), as_limit=3 << 30, chunk=16):
    if n == 0:
        c.inconclusive += 1
        continue
    key = vlib.digest(src, str(sty), str(opts))
    c.stats['runs compared'] += n
    c.stats['sources with %s' % (' '.join(opts) or 'no option')] += 1
    c.observe(key if changed else None, {'options': opts, 'style': sty, 'source': src[:200].decode('latin-1')})
    if bad:
        c.violation(key, bad[0], {'src.c': src, 'clang-format': sty or '', 'what': '%s\n%s\n' % (' '.join(opts), '\n'.join(bad))})
c.finish(minimum=1500)
