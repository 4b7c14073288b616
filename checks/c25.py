"""C25: blank lines are kept where they separate and dropped where they do not."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib

c = vlib.Check('C25', 'exploration',
               'generated files of declarations, structures, enumerations, initialisers, prototypes, functions with all statement forms, comments and directives, one item per line, with none to '
               'three blank lines (also holding white space) in each gap x styles x -s; monitored: each gap of the output has exactly the number of blank lines (none or one) that its place and the '
               'input demand, and the lines themselves but for their indentation are as written; non-trivial: distinct source with at least five gaps holding blank lines',
               ['every line is written the way knfmt lays it out, so that lines of input and output correspond one to one', 'conditional directives are not generated'])
EXE = c.build('plain')

WORDS = 'alpha bravo charlie delta echo foxtrot golf hotel india juliet kilo lima mike november oscar papa quebec romeo sierra tango uniform victor whiskey xray yankee zulu'.split()


class G:
    """Lines as (indentation, text, kind); the kind says what may surround it:
    open   ends in a left brace (or is a case label): no blank line after it
    fopen  left brace of a function: a blank line may follow unless a declaration does
    close  starts with a right brace: no blank line before it
    else   a branch of its own line after a right brace: no blank line before it
    fend   ends a function: one blank line after it
    """

    def __init__(s, r):
        s.r, s.out = r, []
        s.d = 0

    def n(s):
        return s.r.choice(WORDS)

    def add(s, text, kind='stmt'):
        s.out.append((s.d, text, kind))

    def com(s, p=.08):
        r = s.r
        if r.random() < p:
            k = r.randrange(3)
            if k == 0:
                s.add('/* %s %s */' % (s.n(), s.n()), 'com')
            elif k == 1:
                s.add('// %s' % s.n(), 'com')
            else:
                s.add('/*\n * %s\n *\n * %s;\n */' % (s.n(), s.n()), 'com')

    def stmt(s, d):
        r = s.r
        s.com()
        k = r.randrange(22) if d else r.randrange(8)
        if k < 5:
            s.add(r.choice(['%s();', '%s(1, 2);', '%s = 3;', '%s++;', '%s += 4;', '%s->x = y[1];', 'return %s;', 'goto %s;']) % s.n() + r.choice([''] * 9 + [' /* x */']))
        elif k < 8:
            s.add('%s = %s(%s);' % (s.n(), s.n(), s.n()))
        elif k < 12:
            s.add('if (%s > 1) {' % s.n(), 'open')
            s.body(d - 1, 2)
            while r.random() < .3:
                s.add('} else if (%s) {' % s.n(), 'both')
                s.body(d - 1, 2)
            if r.random() < .4:
                s.add('} else {', 'both')
                s.body(d - 1, 2)
            s.add('}', 'close')
        elif k == 12:
            s.add(r.choice(['for (i = 0; i < 3; i++) {', 'while (%s) {' % s.n(), 'for (;;) {']), 'open')
            s.body(d - 1, 2)
            s.add('}', 'close')
        elif k == 13:
            s.add('do {', 'open')
            s.body(d - 1, 2)
            s.add('} while (%s);' % s.n(), 'close')
        elif k == 14:
            s.add('{', 'open')
            s.body(d - 1, 2)
            s.add('}', 'close')
        elif k == 15:
            s.add('switch (%s) {' % s.n(), 'open')
            m = r.randrange(1, 4)
            for j in range(m):
                s.com()
                s.add('case %d:' % j if j or m == 1 or r.random() < .8 else 'default:', 'open')
                s.d += 1
                s.add('%s();' % s.n())
                s.d -= 1
                s.body(d - 1, 0)
                if r.random() < .7:
                    s.d += 1
                    s.add('break;')
                    s.d -= 1
            s.add('}', 'close')
        elif k == 16:
            s.add('if (%s)' % s.n(), 'open')
            s.d += 1
            sw = r.random()
            if sw < .4:
                s.add('switch (%s) {' % s.n(), 'open')
                s.add('case 1:', 'open')
                s.d += 1
                s.add('break;')
                s.d -= 1
                s.add('}', 'close')
            else:
                s.add('%s();' % s.n())
            s.d -= 1
            if sw < .3:
                s.add('else', 'else')
                s.d += 1
                s.add('%s();' % s.n())
                s.d -= 1
        elif k == 17:
            s.add('while (%s)' % s.n(), 'open')
            s.d += 1
            s.add('%s();' % s.n())
            s.d -= 1
        elif k == 18 and s.d == 1:
            s.d = 0
            s.add('%s:' % s.n(), 'label')
            s.d = 1
            s.stmt(0)
        elif k == 19:
            s.add('{', 'open')
            s.d += 1
            s.decl()
            s.decl()
            s.d -= 1
            s.body(d - 1, 1)
            s.add('}', 'close')
        else:
            s.stmt(0)

    def body(s, d, minimum=1):
        s.d += 1
        for _ in range(s.r.randrange(minimum, 4)):
            s.stmt(d)
        s.com(.04)
        s.d -= 1

    def decl(s):
        r = s.r
        k = r.randrange(4)
        if k == 0:
            s.add('int %s;' % s.n(), 'decl')
        elif k == 1:
            s.add('struct %s *%s = NULL;' % (s.n(), s.n()), 'decl')
        elif k == 2:
            s.add('const char %s[] = "x";' % s.n(), 'decl')
        else:
            s.add('unsigned int %s = %d;' % (s.n(), r.randrange(9)), 'decl')

    def func(s):
        r = s.r
        s.com(.2)
        s.add(r.choice(['int', 'static void', 'struct %s *' % s.n()]), 'type')
        s.add('%s(int %s)' % (s.n(), s.n()), 'type')
        s.add('{', 'fopen')
        s.d += 1
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            s.com(.05)
            s.decl()
        s.d -= 1
        s.body(2)
        s.add('}', 'fend')

    def fields(s):
        r = s.r
        s.d += 1
        for _ in range(r.randrange(1, 6)):
            s.com()
            if r.random() < .12 and s.d < 3:
                s.add(r.choice(['struct {', 'union {']), 'open')
                s.fields()
                s.add('} %s;' % s.n(), 'close')
            else:
                s.add(r.choice(['int %s;', 'char *%s;', 'struct foo %s[3];', 'unsigned int %s:3;', 'int (*%s)(void);']) % s.n(), 'field')
        s.d -= 1

    def top(s):
        r = s.r
        k = r.randrange(13)
        if k < 5:
            s.func()
        elif k == 12:
            s.add(r.choice(['int %s[] = {', 'static const struct foo %s[] = {', 'const char *%s[] = {']) % s.n(), 'init')
            s.d += 1
            f = r.choice(['{ %s, 1 },', '%s,', '"%s",', '.%s = 1,', '[1] = %s,'])
            for j in range(r.randrange(1, 5)):
                s.com(.05)
                s.add(f % s.n(), 'item')
            s.d -= 1
            s.add('};', 'close')
        elif k == 5:
            s.com(.2)
            s.add(r.choice(['struct %s {', 'union %s {']) % s.n(), 'open')
            s.fields()
            s.add('};', 'close')
        elif k == 6:
            s.add('enum %s {' % s.n(), 'open')
            s.d += 1
            for j in range(r.randrange(1, 5)):
                s.com(.05)
                s.add('%s%s,' % (s.n().upper(), r.choice(['', ' = %d' % j])), 'enum')
            s.d -= 1
            s.add('};', 'close')
        elif k == 7:
            s.com(.1)
            s.decl()
        elif k == 8:
            s.add('int %s(void);' % s.n(), 'decl')
        elif k == 9:
            s.add(r.choice(['#define %s 1' % s.n().upper(), '#undef %s' % s.n(), '#include <%s.h>' % s.n(), '#pragma %s' % s.n()]), 'cpp')
        elif k == 10:
            s.add('/* %s */' % s.n(), 'com')
        else:
            s.add('typedef int %s_t;' % s.n(), 'decl')


def expected(L, k, blank):
    """Number of blank lines after line k, given whether the input has any."""
    ka, kb = L[k][2], L[k + 1][2]
    if ka == 'fend':
        # Functions are set off, unless a directive or nothing but comments and directives follows.
        return 1 if blank or kb != 'cpp' and any(l[2] not in ('com', 'cpp') for l in L[k + 1:]) else 0
    if ka in ('open', 'both', 'type') or kb == 'fopen':
        return 0
    if kb in ('close', 'both', 'else', 'fend') and ka != 'com':
        return 0
    if ka == 'fopen':
        # No blank line in front of declarations.
        j = k + 1
        while L[j][2] == 'com':
            j += 1
        if L[j][2] == 'decl':
            return 0
    return 1 if blank else 0


def render(lines, gaps, r, noisy, o):
    w = o.get('IndentWidth', 8)
    s = ''
    for k, (d, t, _) in enumerate(lines):
        ind = ' ' * (d * w) if o.get('UseTab') == 'Never' else '\t' * (d * w // 8) + ' ' * (d * w % 8)
        s += ind + t + '\n'
        if k + 1 < len(lines):
            for _ in range(gaps[k]):
                s += (r.choice(['', '', '\t', '  ', '\t\t ']) if noisy else '') + '\n'
    return s


def one(i):
    r = vlib.rng('C25', i)
    g = G(r)
    for _ in range(r.randrange(1, 5)):
        g.top()
    L = g.out
    o = {}
    if r.random() < .5:
        for k, v in (('IndentWidth', [2, 3, 4, 8]), ('UseTab', ['Never', 'Always']), ('ColumnLimit', [70, 80, 100, 0]), ('ContinuationIndentWidth', [2, 4, 8]),
                     ('AlignAfterOpenBracket', ['Align', 'DontAlign']), ('BreakBeforeBinaryOperators', ['All', 'None'])):
            if r.random() < .4:
                o[k] = r.choice(v)
    sty = ''.join('%s: %s\n' % x for x in o.items())
    p = r.choice([.1, .3, .6, 1])
    gaps = [r.choice([1, 1, 2, 3]) if r.random() < p else 0 for _ in L[1:]]
    src = render(L, gaps, r, True, {}).encode()
    want = render(L, [expected(L, k, n) for k, n in enumerate(gaps)], r, False, o).encode()
    if r.random() < .2:
        src = b'\n' * r.randrange(1, 3) + src
    if r.random() < .2:
        src += b'\n' * r.randrange(1, 3)
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/.clang-format', sty)
        x = vlib.run([EXE], src, cwd=d)
    finally:
        vlib.rmtree(d)
    return src, want, sty, x.timeout, x.rc, x.out, sum(1 for n in gaps if n)


for src, want, sty, to, rc, out, n in c.map(one, range(c.n(20000, 400000)), as_limit=3 << 30, chunk=32):
    if to:
        c.inconclusive += 1
        continue
    key = vlib.digest(src, sty)
    c.stats['rejected' if rc else 'judged'] += 1
    c.stats['gaps with blank lines'] += n
    c.observe(key if rc == 0 and n >= 5 else None, {'style': sty, 'source': src[:300].decode('latin-1')})
    # indentation is left to C13
    a, b = [[l.lstrip() for l in x.split(b'\n')] for x in (want, out)]
    if rc == 0 and a != b:
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        c.violation(key, 'line %d is %r instead of %r (after %r)' % (k + 1, b[k:k + 1], a[k:k + 1], a[max(0, k - 2):k]), {'input.c': src, 'expected.c': want, 'clang-format': sty})
c.finish(minimum=1000)
