"""C22: every run ends and the work stays in proportion to the source."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, styles, gen
import build as B
import san_common as S

c = vlib.Check('C22', 'exploration',
               'random compositions of nesting and repetition templates (expressions, statements, initialisers, declarations, directives, comments, malformed code) in '
               'doubling sizes, complete sources repeated 4, 8, 16 and 32 times, and generated, hostile and mutated sources under random styles, with and without -s, '
               'on a build that counts every executed basic block (a deterministic measure) and stops at a budget; monitored: growth of the work from size to size, '
               'work and peak memory against the size, size of the output; non-trivial: distinct source that was measured',
               ['the four kinds of nesting listed as known findings are excluded', 'nesting below 700 levels (deeper nesting is a known finding of C01)'])
EXE = c.build('plain', main=[B.REPO + '/knfmt.c', os.path.join(vlib.VERIF, 'harness', 'steps.c')], name='steps',
              extra_cflags=('-fsanitize-coverage=trace-pc',))
BUDGET = 3 * 10**9


def measure(src, fl, d, budget=BUDGET):
    """(steps, peak KB, output, exit status) or None without a verdict."""
    if os.path.exists(d + '/s'):
        os.unlink(d + '/s')
    x = vlib.run([EXE] + fl, src, cwd=d, env=dict(vlib.BASE_ENV, STEPS_MAX=str(budget), STEPS_FILE=d + '/s'), timeout=120)
    if x.timeout or not os.path.exists(d + '/s'):
        return None
    a = vlib.read(d + '/s').split()
    return int(a[0]), int(a[1]), x.out, x.rc


# nesting: (open, close); the core is put in the middle
EXPR = [('(', ')'), ('f(', ')'), ('g(a, ', ', b)'), ('a[', ']'), ('-(', ')'), ('!', ''), ('~', ''), ('(int)', ''), ('(struct s *)', ''), ('a + ', ''), ('a * (', ')'),
        ('a ? b : ', ''), ('a ? ', ' : b'), ('(a ? b : ', ')'), ('a && ', ''), ('(a || ', ')'), ('sizeof(', ')'), ('p->x[', '].y'), ('*', ''), ('&a[', ']'),
        ('"s" f(', ')'), ('a /* c */ + ', ''), ('x = ', ''), ('a, ', ''), ('f(a)(', ')'), ('f(\n', '\n)'), ('a\n+ ', ''), ("'c' + ", '')]
STMT = [('{', '}'), ('if (a) {\n', '}\n'), ('if (a)\n', ''), ('if (a) x(); else {\n', '}\n'), ('if (a)\n', 'else y();\n'), ('for (;;)\n', ''), ('for (i = 0; i < n; i++) {\n', '}\n'),
        ('while (a && b) {\n', '}\n'), ('do {\n', '} while (0);\n'), ('switch (a) { case 1:\n', 'break; }\n'), ('while (a)\n', ''), ('if (a) {\nint x;\n', '}\n'),
        ('if (a) { /* c */\n', '}\n'), ('FOREACH(a, b) {\n', '}\n'), ('l: {\n', '}\n'), ('if (a) x(); else if (b)\n', '')]
INIT = [('{', '}'), ('{ 1, ', ' }'), ('{ .a = 1, .b = ', ' }'), ('{ [1] = ', ' }'), ('{ f(1), ', ', }'), ('{ /* c */ ', ' }')]
DECL = [('struct a {\n', '} x;\n'), ('union {\nint x;\n', '};\n'), ('struct {\nint y;\n', '} *a[3];\n')]
# repetition
TOP = ['int x;\n', 'int\nf(int a)\n{\n\treturn a;\n}\n', 'struct s { int a; };\n', '#define X(a) \\\n\tfoo(a); \\\n\tbar(b)\n', '#include <a.h>\n', '/* c */\n', '// c\n', 'int a[] = { 1, 2 };\n',
       'int f(int, char);\n', 'enum e { A, B };\n', '\n', 'MACRO(a, b);\n', 'typedef int t;\n', '#if A\nint x;\n#endif\n', '#if A\nint x;\n#else\nint y;\n#endif\n', 'x = ;\n', 'int f(void) { x = ; }\n',
       'struct s x = { .a = 1, .b = { 2 } };\n', 'static inline int __attribute__((a)) f(void);\n', 'extern char *a, *b;\n', '#define A 1\n', '"s"\n', '} \n', '{ \n', '((\n', 'int *(*f)(int (*)(void));\n']
INNER = ['x();\n', 'int x;\n', 'x = a + b;\n', 'if (a) x();\n', 'if (a) x(); else y();\n', 'case 1: x();\n', 'l: x();\n', 'for (;;) x();\n', '/* c */\n', 'x(); // c\n', ';\n', '#if A\nx();\n#endif\n',
         '#if A\nif (x)\n#else\nif (y)\n#endif\nz();\n', 'FOREACH(a, b) x();\n', 'int a = 1, *b;\n', 'return (a);\n', '\n', 'x(a, b)\n', 'x = ;\n', 'goto l;\n', 'x = a ? b : c;\n', 'struct s a = { 1 };\n']
FLAT = ['a + ', 'a && ', 'a, ', '"s" ', 'a->b.', 'f(a) + ', '(a || b) && ', '- ', 'a /* c */ + ', 'a ? b : ', 'a = ', 'a[1] * ', 'a\n+ ', '(int)', 'f((a), ']


def family(r):
    """Returns (name, function of the size giving a source, largest size)."""
    k = r.choice(['expr', 'expr', 'stmt', 'stmt', 'init', 'decl', 'top', 'inner', 'flat', 'mix', 'args', 'fptr', 'ifdef'])
    m = r.randint(1, 3)
    fn = 'int\nf(void)\n{\n%s\n}\n'

    def nest(pairs, core, n):
        o, cl = [], []
        for i in range(n):
            a, b = pairs[i % len(pairs)]
            o.append(a)
            cl.append(b)
        return ''.join(o) + core + ''.join(reversed(cl))

    if k == 'expr':
        ps = [r.choice(EXPR) for _ in range(m)]
        ctx = r.choice(['x = %s;', 'if (%s) x();', 'return %s;', 'f(%s);', 'while (%s) ;', 'int y = %s;'])
        return k, repr((ps, ctx)), (lambda n: fn % (ctx % nest(ps, '1', n))), 320
    if k == 'flat':
        t = [r.choice(FLAT) for _ in range(m)]
        ctx = r.choice(['x = %s1;', 'if (%s1) x();', 'return %s1;', 'f(%s1);'])
        return k, repr((t, ctx)), (lambda n: fn % (ctx % ''.join(t[i % m] for i in range(n)))), 320
    if k == 'stmt':
        ps = [r.choice(STMT) for _ in range(m)]
        core = r.choice(['x();\n', 'x = a + b;\n', 'return (1);\n'])
        return k, repr((ps, core)), (lambda n: fn % nest(ps, core, n)), 160
    if k == 'init':
        ps = [r.choice(INIT) for _ in range(m)]
        return k, repr(ps), (lambda n: 'struct s a = %s;\n' % nest(ps, '1', n)), 320
    if k == 'decl':
        ps = [r.choice(DECL) for _ in range(m)]
        return k, repr(ps), (lambda n: nest(ps, 'int x;\n', n)), 160
    if k == 'top':
        t = [r.choice(TOP) for _ in range(m + 1)]
        return k, repr(t), (lambda n: ''.join(t[i % len(t)] for i in range(n))), 320
    if k == 'inner':
        t = [r.choice(INNER) for _ in range(m + 1)]
        return k, repr(t), (lambda n: fn % ('switch (a) {\n' + ''.join(t[i % len(t)] for i in range(n)) + '}\n')), 160
    if k == 'mix':
        ps = [r.choice(STMT) for _ in range(m)]
        es = [r.choice(EXPR) for _ in range(m)]
        return k, repr((ps, es)), (lambda n: fn % nest(ps, 'x = ' + nest(es, '1', n) + ';\n', n)), 80
    if k == 'args':
        t = [r.choice(['int a', 'char *p', 'void (*f)(int)', 'struct s x[2]', 'const int', 'a']) for _ in range(m)]
        end = r.choice([';\n', '\n{\n}\n'])
        return k, repr((t, end)), (lambda n: 'int f(' + ', '.join(t[i % m] for i in range(n)) + ')' + end), 320
    if k == 'fptr':
        return k, '', (lambda n: 'int ' + '(*' * n + 'f' + ')(void)' * n + ';\n'), 160
    t = r.choice(['int x;\n', 'int f(void) { x(); }\n', '', '/* c */\n'])
    e = r.choice(['', '#else\nint y;\n', '#elif B\n'])
    return k, repr((t, e)), (lambda n: ('#if A\n' + t) * n + (e + '#endif\n') * n), 160


def grow(i):
    r = vlib.rng('C22g', i)
    k, what, f, top = family(r)
    fl = r.choice([[], ['-s']])
    # aligning styles and line breaks after a parenthesis are a known finding
    sty = '' if k in ('expr', 'mix', 'flat') and '\\n' in what else r.choice(['', styles.style(r)[1]])
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/.clang-format', sty)
        base = measure(b'', fl, d)
        sizes = [top // 8, top // 4, top // 2, top]
        out = [measure(f(n).encode(), fl, d) for n in sizes[:3]]
        # a size is skipped once the work before shows where it goes
        out.append(measure(f(top).encode(), fl, d) if out[-1] and out[-1][3] != 90 and out[-1][0] < 3 * 10**8 else None)
        st = [None if x is None else (x[0], x[1], len(x[2]), x[3]) for x in out]
        return 'grow', k, what, fl, sty, [len(f(n)) for n in sizes], st, base and base[0], f(sizes[1]).encode(), sizes
    finally:
        vlib.rmtree(d)


def repeat(i):
    r = vlib.rng('C22r', i)
    if r.random() < .75:
        src = work.program(r, cpp=False)[0]
    else:
        src = r.choice(S.CORPUS)
        src = src if isinstance(src, bytes) else src.encode('latin-1')
    src = src[:30000]
    if not src.endswith(b'\n'):
        src += b'\n'
    fl = r.choice([[], ['-s']])
    sty = r.choice(['', styles.style(r)[1]])
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/.clang-format', sty)
        base = measure(b'', fl, d)
        out = [measure(src * n, fl, d) for n in (4, 8, 16, 32)]
        st = [None if x is None else (x[0], x[1], len(x[2]), x[3]) for x in out]
        return 'repeat', 'source', '', fl, sty, [len(src) * n for n in (4, 8, 16, 32)], st, base and base[0], src, (4, 8, 16, 32)
    finally:
        vlib.rmtree(d)


def single(i):
    r = vlib.rng('C22s', i)
    cls, src = S.source(r)
    src = src[:40000]
    fl = r.choice([[], ['-s']])
    sty = r.choice(['', styles.style(r)[1], S.style_text(r)])
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/.clang-format', sty)
        base = measure(b'', fl, d)
        x = measure(src, fl, d)
        if x is None or base is None:
            return 'single', cls, '', fl, sty, [len(src)], [None], None, src, ()
        lines = x[2].count(b'\n') + 1
        m = re.search(r'^ColumnLimit: *(\d+)', sty, re.M)
        lim = min(int(m.group(1)), 1000) if m else 80
        room = 4 * len(src) + 400 + lines * (lim + 16 * (src.count(b'{') + src.count(b'(') + src.count(b'[') + src.count(b':') + src.count(b'if') + src.count(b'for') + src.count(b'\n')))
        return 'single', cls, '', fl, sty, [len(src)], [(x[0], x[1], len(x[2]), x[3])], base[0], src, (room,)
    finally:
        vlib.rmtree(d)


def judge(res):
    part, k, what, fl, sty, lens, st, base, src, sizes = res
    if base is None or st[0] is None:
        c.inconclusive += 1
        c.stats['no verdict'] += 1
        return
    key = vlib.digest(part, what, src, sty, *fl)
    c.stats['%s %s' % (part, k)] += 1
    c.observe(key, {'part': part, 'kind': k, 'template': what[:100], 'flags': fl, 'sizes': lens, 'steps': [x and x[0] for x in st], 'peak KB': [x and x[1] for x in st]})
    rep = {'input.c': src, 'clang-format': sty, 'measured': repr((what, fl, lens, st)).encode()}

    def bad(why):
        c.violation(key, '%s %s %s %s: %s (sizes %s, steps %s, peak KB %s, output %s)' % (part, k, ' '.join(fl), what, why, lens, [x and x[0] for x in st],
                                                                                          [x and x[1] for x in st], [x and x[2] for x in st]), rep)

    for n, x in zip(lens, st):
        if x is None:
            continue
        if x[3] == 90:
            return bad('the budget of steps was exhausted')
    for a, b in zip(st, st[1:]):
        if a is None or b is None:
            break
        w0, w1 = a[0] - base, b[0] - base
        if a[3] > 1 or b[3] > 1:
            break       # stack exhausted or the like: not decided here
        if part == 'grow':
            c.stats['growth x%d' % min(9, round(w1 / max(w0, 1)))] += 1
            if w1 > 4 * 10**6 and w1 > 14 * max(w0, 1):
                return bad('doubling the size multiplied the work by %.1f' % (w1 / max(w0, 1)))
            if b[1] > 60000 and b[1] - 12000 > 5.5 * max(a[1] - 12000, 2000):
                return bad('doubling the size multiplied the memory')
        elif part == 'repeat':
            cond = re.search(rb'^[ \t]*#[ \t]*(if|el|en)', src, re.M)
            if a[3] or b[3]:
                break   # rejected: malformed sources are judged by the other parts
            q = w1 / max(w0, 1)
            c.stats['repetition x%.1f' % q] += 1
            if w1 > 4 * 10**5 and q > (4.6 if cond else 2.6):
                return bad('repeating the source twice as often multiplied the work by %.2f' % q)
    if part == 'repeat' and st[-1] and st[-1][3] == 0 and not re.search(rb'^[ \t]*#[ \t]*(if|el|en)', src, re.M):
        x = st[-1]
        if x[1] > 24000 + 400 * lens[-1] / 1024 + 20 * x[2] / 1024:
            return bad('the memory is out of proportion')
    if part == 'single':
        x, n = st[0], lens[0]
        if x[3] in (0, 1) and x[0] - base > 4 * 10**7 + 100 * n * n:
            return bad('the work is out of proportion')
        if x[3] in (0, 1) and x[2] > sizes[0]:
            return bad('the output of %d bytes is out of proportion' % x[2])


for res in c.map(grow, range(c.n(900, 20000)), chunk=4):
    judge(res)
for res in c.map(repeat, range(c.n(1200, 20000)), chunk=4):
    judge(res)
for res in c.map(single, range(c.n(8000, 150000)), chunk=32):
    judge(res)

# Known findings: the work is exponential in the depth of these.
for name, sty, tmpl, n in (('nested-statement-expressions', '', ('({ y = ', '; })'), 5),
                           ('nested-compound-literals', '', ('f((struct s){ ', ' })'), 8),
                           ('nested-aligned-calls', 'AlignAfterOpenBracket: Align\n', ('f(\n', '\n)'), 8),
                           ('nested-initializers', '', ('{ { 1, 2 },\n { .a = 1, .b = ', ' } }'), 7)):
    d = vlib.fresh_dir()
    vlib.write(d + '/.clang-format', sty)
    head, tail = ('struct s a = ', ';\n') if name == 'nested-initializers' else ('int\nf(void)\n{\n\tx = ', ';\n}\n')
    st = [measure((head + tmpl[0] * k + '1' + tmpl[1] * k + tail).encode(), [], d) for k in (n, 2 * n)]
    if all(st) and st[1][0] > 20 * st[0][0]:
        c.violation(name, 'work for %d levels %d, for %d levels %d' % (n, st[0][0], 2 * n, st[1][0]), {})
c.finish(minimum=2000)
