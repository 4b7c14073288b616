"""C27: well-formed C is formatted, not refused."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, exgen, udiff

c = vlib.Check('C27', 'exploration',
               'well-formed C from three generators (declarations and statements of every kind in every layout; programs of idioms, comments and directives in '
               'an ordinary layout; executable programs) x styles, run plainly, with -s and with -D over a random part; monitored: exit status 0, nothing on '
               'standard error, something on standard output for each; non-trivial: distinct source that knfmt changes',
               ['macros that are not a plain expression or a statement of their own are written as the manual and the tests do: one call alone on its line',
                'no line starts with what could be an unary operator after a call alone on the line before: without a preprocessor that is a macro in a list',
                'no product of a parenthesised dereference, `a * (*b)`, which reads as a declaration without the types at hand'])
PLAIN = c.build('plain')
JOIN = re.compile(rb'\)[ \t]*(?:\\?\n\s*)+(?=[\[\-.*&+,)\]}])')
AMB = re.compile(rb'\*\s*\(\s*\*')


def case(r, k):
    for _ in range(20):
        if k == 0:
            src = work.program(r, comments=r.choice([0, .1, .2]), cpp=0, layout='canonical', idiom=r.choice([.2, .6]))[0]
            cls = 'idioms'
        elif k == 1:
            src, lay, _f = work.program(r, comments=0, cpp=0, idiom=0)
            src = JOIN.sub(b') ', src)
            cls = 'plain, ' + lay
        elif k == 2:
            src, _m, lay = exgen.source(r, ['canonical', 'random', 'sparse', 'lines', 'dense'], nf=r.choice([2, 6, 10]), comments=r.choice([0, 0, .1]),
                                        cpp=r.choice([0, 0, .15]))
            src = src.encode()
            cls = 'executable, ' + lay
        else:
            src = work.program(r, comments=r.choice([0, .1, .2]), cpp=r.choice([0, .1, .25]), layout='canonical', idiom=0)[0]
            cls = 'directives'
        if not AMB.search(src):
            break
    return src, cls


def one(i):
    r = vlib.rng('C27', i)
    src, cls = case(r, i % 4)
    if AMB.search(src):
        return None
    sty = work.style(r, .5)
    d = vlib.fresh_dir()
    try:
        os.makedirs(d + '/.git')
        if sty:
            vlib.write(d + '/.clang-format', sty)
        vlib.write(d + '/src.c', src)
        lines = src.splitlines()
        a = r.randrange(1, len(lines) + 1)
        b = min(len(lines), a + r.choice([0, 1, 3, 10, 40, 10000]))
        diff = udiff.mkdiff(r, [('src.c', lines, set(range(a, b + 1)), src.endswith(b'\n'))])
        bad, changed = [], 0
        for o, args, inp in (('none', ['src.c'], b''), ('-s', ['-s', 'src.c'], b''), ('-D', ['-D'], diff)):
            x = vlib.run([PLAIN] + args, inp, cwd=d)
            if x.timeout:
                return 'timeout'
            if x.rc != 0 or x.err or not x.out:
                bad.append('options %s: exit status %d, %d bytes of output, %s' % (o, x.rc, len(x.out), x.err[:160].decode('latin-1')))
            changed |= x.out != src
        return dict(cls=cls, bad=bad, changed=changed, key=vlib.digest(src), src=src, sty=sty, diff=diff)
    finally:
        vlib.rmtree(d)


for x in c.map(one, range(c.n(6000, 120000)), as_limit=3 << 30, chunk=16):
    if x is None:
        c.stats['set aside, ambiguous'] += 1
        continue
    if x == 'timeout':
        c.inconclusive += 1
        continue
    c.stats['sources, ' + x['cls']] += 1
    c.stats['runs'] += 3
    c.observe(x['key'] if x['changed'] else None, {'class': x['cls'], 'style': x['sty'], 'source': x['src'][:200].decode('latin-1')})
    if x['bad']:
        c.violation(x['key'], x['bad'][0], {'src.c': x['src'], 'clang-format': x['sty'] or '', 'diff': x['diff'], 'what': '\n'.join(x['bad']) + '\n'})
c.finish(minimum=1500)
