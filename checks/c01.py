"""C01: no memory error, undefined behaviour or abnormal end on any C source."""
from san_common import *

c = vlib.Check('C01', 'exploration',
               'C sources: token/byte mutants of the repository test sources, generated programs and their mutants, hand shaped '
               'hostile texts (size boundaries, unterminated constructs, deep nesting); random flags among none, -s, -d, -t and '
               'random .clang-format; non-trivial: a distinct input on which knfmt got past reading (output or diagnostic seen)',
               ['ASan/UBSan see instrumented C code and libc interceptors only; the assembly string routines are covered by memcheck on a '
                'sample', 'held on the executions observed, not a proof'])
EXE = c.build('asan')
PLAIN = c.build('plain')


def one(i):
    r = vlib.rng('C01', i)
    cls, src = source(r)
    flags = r.choice(FLAGS)
    d = vlib.fresh_dir()
    try:
        sty = ''
        if r.random() < .4:
            sty = style_text(r)
            vlib.write(d + '/.clang-format', sty)
        if r.random() < .3:
            vlib.write(d + '/a.c', src)
            cmd, inp = [EXE, *flags, 'a.c'], b''
        else:
            cmd, inp = [EXE, *flags], src
        x = vlib.run(cmd, inp, cwd=d)
        return i, cls, flags, src, sty, x.rc, vlib.crash_kind(x), x.timeout, len(x.out), bool(x.err), vlib.frame_of(x.err), x.err[-3000:]
    finally:
        vlib.rmtree(d)


def memcheck(i):
    r = vlib.rng('C01mc', i)
    cls, src = source(r)
    flags = r.choice([[], ['-s']])
    d = vlib.fresh_dir()
    try:
        sty = ''
        if r.random() < .5:
            sty = style_text(r)
            vlib.write(d + '/.clang-format', sty)
        x = vlib.run(['valgrind', '-q', '--error-exitcode=95', '--track-origins=no', '--leak-check=no', PLAIN, *flags], src, cwd=d,
                     timeout=120, retry=False)
        bad = None
        if x.rc == 95:
            m = re.search(rb'==\d+== ([A-Z][^\n]*)', x.err)
            bad = 'memcheck: ' + (m.group(1).decode() if m else '?')
        elif x.rc is not None and (x.rc < 0 or x.rc > 1):
            bad = 'memcheck run exit %s' % x.rc
        return i, cls, flags, src, sty, x.rc, bad, x.timeout, len(x.out), bool(x.err), '', x.err[-3000:]
    finally:
        vlib.rmtree(d)


def take(res, tool):
    i, cls, flags, src, sty, rc, bad, to, nout, nerr, frame, err = res
    if to:
        c.inconclusive += 1
        c.stats['timeout'] += 1
        return
    c.stats['%s %s' % (tool, cls)] += 1
    c.stats['%s accepted' % tool if rc == 0 else '%s rejected/other' % tool] += 1
    key = vlib.digest(src, sty, *flags)
    c.observe(key if nout or nerr else None, {'class': cls, 'flags': flags, 'source': src[:200].decode('latin-1'), 'exit': rc})
    if bad:
        c.violation(key, '%s: %s %s (flags %s)' % (tool, bad, frame, ' '.join(flags)),
                    {'input.c': src, 'clang-format': sty, 'stderr': err})


for res in c.map(one, range(c.n(14000, 250000)), chunk=32):
    take(res, 'asan+ubsan')
for res in c.map(memcheck, range(c.n(160, 3000)), chunk=4):
    take(res, 'memcheck')
# Known finding: nesting far beyond any real source exhausts the stack.
d = vlib.fresh_dir()
x = vlib.run([PLAIN], b'int\nf(void)\n{\n\tx = ' + b'(' * 200000 + b'1' + b')' * 200000 + b';\n}\n', cwd=d)
if not x.timeout and x.rc not in (0, 1):
    c.violation('deep-nesting', 'exit %s for 200000 nested parentheses' % x.rc, {})
c.finish(minimum=500)
