"""C12: simplification keeps the meaning of a program."""
import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, exgen
from runc import execute, PRE

c = vlib.Check('C12', 'exploration',
               'generated deterministic programs free of undefined behaviour, made of the constructs that -s rewrites (local declarations of several '
               'types with initialisers that depend on each other, shadowing, static/const/implicit int, braces with and without else, empty loops, '
               'switch with fallthrough and default anywhere, parentheses in return/if/while/for/case, sizeof operands, brace initialisers, partly '
               'named prototypes, forward declarations, comments, conditionals, gotos) x layouts x styles; each program prints every step; monitored: '
               'the output of knfmt -s compiles and prints the same trace as the original; non-trivial: distinct program that -s changes beyond '
               'white space and that both compiles and prints at least 10 steps',
               ['both programs are compiled by the same gcc -O0 -fwrapv', 'macros that hide loops are indented the usual way, as knfmt tells loops from '
                'expressions by the indentation of the next line', 'program sizes up to 10 functions with 4 nesting levels'])
EXE = c.build('plain')
LAYOUTS = ['canonical', 'canonical', 'canonical', 'random', 'sparse', 'lines', 'dense']


def squeeze(s):
    return b''.join(s.split())


def one(i):
    r = vlib.rng('C12', i)
    src, main, lay = exgen.source(r, LAYOUTS, nf=r.choice([2, 6, 10]), comments=r.choice([0, 0, .1]), cpp=r.choice([0, 0, .15]))
    src = src.encode()
    sty = work.style(r, .3)
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        x = vlib.run([EXE, '-s'], src, cwd=d)
        if x.timeout:
            return i, lay, 'timeout', '', src, sty, 0
        if x.rc != 0:
            return i, lay, 'rejected', '', src, sty, 0
        changed = squeeze(src) != squeeze(x.out)
        a, ea = execute(src, main, d, 'a')
        if a is None or a == 'timeout':
            return i, lay, 'original does not ' + ('compile' if a is None else 'end'), '', src, sty, 0
        b, eb = execute(x.out, main, d, 'b')
        if b == 'timeout':
            # The original ended: give the simplified one a second, longer chance.
            b, eb = execute(x.out, main, d, 'b')
            if b == 'timeout':
                return i, lay, 'timeout', '', src, sty, 0
        n = a[1].count(b'\n')
        if b is None:
            return i, lay, 'bad', 'the simplified program does not compile: ' + eb.decode('latin-1')[:300], src + b'\n' + main.encode(), sty, n
        if a != b:
            la, lb = a[1].split(b'\n'), b[1].split(b'\n')
            k = next((k for k in range(min(len(la), len(lb))) if la[k] != lb[k]), min(len(la), len(lb)))
            return i, lay, 'bad', 'the simplified program behaves differently at step %d: %r instead of %r' % (
                k, lb[k:k + 1], la[k:k + 1]), src + b'\n' + main.encode(), sty, n
        return i, lay, 'same' if changed else 'unchanged', '', src, sty, n
    finally:
        vlib.rmtree(d)


for i, lay, k, w, src, sty, n in c.map(one, range(c.n(1300, 40000)), as_limit=3 << 30, chunk=4):
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats['%s: %s' % (lay, k)] += 1
    c.stats['steps compared'] += n
    key = vlib.digest(src, sty)
    c.observe(key if k in ('same', 'bad') and n >= 10 else None, {'layout': lay, 'style': sty, 'steps': n, 'source': src[:400].decode('latin-1')})
    if k == 'bad':
        c.violation(key, w, {'input.c': src, 'clang-format': sty, 'prelude.c': PRE.encode()})
c.finish(minimum=300)
