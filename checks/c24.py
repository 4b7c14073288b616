"""C24: -s carries out its simplifications, everywhere and nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, styles

c = vlib.Check('C24', 'exploration',
               'generated programs in simplified form and with constructs that -s simplifies (braces, parentheses, sizeof, empty loops, default cases, err(3) messages, implicit int, '
               'misplaced static, initialisers, declarations, forward declarations, prototypes) put in at random at every nesting; monitored: knfmt -s of the latter is knfmt and knfmt -s of the former; '
               'non-trivial: distinct programs in which something is to be simplified',
               ['the simplifications are those listed in CHANGELOG.md'])
EXE = c.build('plain')
NAMES = 'alpha bravo charlie delta echo fox golf hotel india juliet kilo lima mike nov oscar papa quebec romeo sierra tango uni victor whisky xray yankee zulu _u B Z9 a1 a10 a2'.split()


class G:
    def __init__(s, r):
        s.r = r
        s.k = 0
        s.kinds = set()

    def do(s, kind, p=.5):
        """whether to put in something to be simplified"""
        if s.r.random() < p:
            s.kinds.add(kind)
            return True
        return False

    def uniq(s):
        s.k += 1
        return '%s%d' % (s.r.choice(NAMES).rstrip('0123456789'), s.k)

    def name(s):
        return s.r.choice(NAMES)

    def prim(s, d=2):
        r = s.r
        k = r.randrange(7)
        if k < 2 or d == 0:
            return (s.name(),) * 2
        if k == 2:
            return (str(r.randrange(300)),) * 2
        if k == 3:
            return ('%s->%s' % (s.name(), s.name()),) * 2
        if k == 4:
            a = s.prim(d - 1)
            n = s.name()
            return tuple('%s[%s]' % (n, x) for x in a)
        if k == 5:
            a, b = s.prim(d - 1), s.prim(d - 1)
            n = s.name()
            return tuple('%s(%s, %s)' % (n, x, y) for x, y in zip(a, b))
        return s.sizeof()

    def sizeof(s):
        r = s.r
        k = r.randrange(4)
        if k == 0 and s.do('implicit int'):
            t = r.choice(['unsigned', 'signed'])
            return 'sizeof(%s)' % t, 'sizeof(%s int)' % t
        e = r.choice(['%s', '*%s', '%s->a', '%s[0]', '%s.b']) % s.name()
        if s.do('sizeof'):
            return 'sizeof %s' % e, 'sizeof(%s)' % e
        return ('sizeof(%s)' % e,) * 2

    def expr(s):
        """an expression that does not start with a parenthesis"""
        r = s.r
        u, v = s.prim()
        for i in range(r.choice([0, 0, 1, 1, 2])):
            a, b = s.prim(1)
            if r.random() < .2:
                a, b = '(%s + 1)' % a, '(%s + 1)' % b
            o = r.choice(['+', '-', '*', '/', '==', '<', '&&', '||', '&', '|', '<<'])
            u, v = '%s %s %s' % (u, o, a), '%s %s %s' % (v, o, b)
        return u, v

    def top(s):
        u, v = s.expr()
        return ('(%s)' % u if s.do('parens', .4) else u), v

    def simple(s):
        """a statement on one line, without loops: (unsimplified, simplified)"""
        r = s.r
        k = r.randrange(9)
        if k == 0:
            return tuple('return %s;' % x for x in s.top())
        if k == 1:
            n, e = s.name(), s.expr()
            return tuple('%s %s %s;' % (n, '=', x) for x in e)
        if k == 2:
            f, n = r.choice([('err', '1, '), ('errx', '1, '), ('warn', ''), ('warnx', ''), ('warnc', '1, '), ('errc', '1, 2, '), ('perror', '')])
            t = r.choice(['', 'x', '%s: y', 'a\\n b', 'C:\\\\', '\\\\n', 'a\\n" PRIx "b', '\\\\\\\\x', '\\"'])
            a = '' if f == 'perror' or r.random() < .5 else ', ' + s.name()
            if 'PRI' in t:
                # left alone, only string literals are looked at
                return ('%s(%s"%s\\n"%s);' % (f, n, t, a),) * 2
            nl = '\\n' if s.do('err') else ''
            return '%s(%s"%s%s"%s);' % (f, n, t, nl, a), '%s(%s"%s"%s);' % (f, n, t, a)
        if k == 3:
            return ('printf("%s\\n");' % s.name(),) * 2
        if k == 4:
            return (r.choice(['%s++;', '%s--;', 'goto %s;']) % s.name(),) * 2
        if k == 5:
            n = s.name()
            t = r.choice(['unsigned', 'signed'])
            if s.do('implicit int'):
                return '%s = (%s)%s;' % (n, t, n), '%s = (%s int)%s;' % (n, t, n)
            return ('%s = (%s int)%s;' % (n, t, n),) * 2
        e = s.prim()
        n = s.name()
        return tuple('%s(%s);' % (n, x) for x in e)

    def body(s, d, minimum=1):
        """list of statements (lists of lines) in both forms and whether it is a single line"""
        n = s.r.choice([1, 1, 1, 2, 2, 3]) if minimum else s.r.choice([0, 1, 2])
        b = [s.stmt(d - 1) for i in range(n)]
        return b

    def ind(s, ls):
        return ['\t' + l for l in ls]

    def flat(s, b, i):
        return [l for x in b for l in x[i]]

    def stmt(s, d):
        """(lines unsimplified, lines simplified, simple)"""
        r = s.r
        k = r.random()
        if d <= 0 or k < .45:
            u, v = s.simple()
            return [u], [v], True
        if k < .65:
            return s.chain(d)
        if k < .85:
            return s.loop(d)
        if k < .90:
            b = s.body(d)
            u, v = s.top()
            return (['do {'] + s.ind(s.flat(b, 0)) + ['} while (%s);' % u], ['do {'] + s.ind(s.flat(b, 1)) + ['} while (%s);' % v], False)
        if k < .95:
            return s.switch(d)
        b = [s.decls()] if r.random() < .4 else []
        if b and b[0] is None:
            b = []
        st = s.body(d)
        if b:
            b += [([''], [''], False)]
        b += st
        return ['{'] + s.ind(s.flat(b, 0)) + ['}'], ['{'] + s.ind(s.flat(b, 1)) + ['}'], False

    def chain(s, d):
        r = s.r
        n = r.choice([1, 1, 1, 2, 2, 3])
        els = n > 1 and r.random() < .6
        B = []
        for i in range(n):
            k = r.random()
            if k < .06:
                B.append([])
            elif k < .14:
                x = s.decls()
                B.append([x, ([''], [''], False)] + s.body(d) if x else s.body(d))
            else:
                B.append(s.body(d))
        need = any(len(b) != 1 or not b[0][2] for b in B)
        U, V = [], []
        pu = False
        for i, b in enumerate(B):
            if i == 0 or not (els and i == n - 1):
                cu, cv = s.top()
                hu, hv = 'if (%s)' % cu, 'if (%s)' % cv
                if i:
                    hu, hv = 'else ' + hu, 'else ' + hv
            else:
                hu = hv = 'else'
            # braces are a must for anything but a single statement; a compound one is left bare in the last branch only
            must = len(b) != 1 or (not b[0][2] and i < n - 1) or b[0][0][0] == '{'
            if must:
                bu = True
            elif need:
                bu = not s.do('braces added', .5)
            else:
                bu = s.do('braces removed', .5)
            for L, h, brace, prev, j in ((U, hu, bu, pu, 0), (V, hv, need, need, 1)):
                if i and prev:
                    L[-1] = '} ' + h
                else:
                    L.append(h)
                if brace:
                    L[-1] += ' {'
                L += s.ind(s.flat(b, j))
                if brace:
                    L.append('}')
            pu = bu
        return U, V, False

    def loop(s, d):
        r = s.r
        k = r.randrange(4)
        if k == 0:
            u = v = 'for (;;)'
        elif k == 1:
            n = s.name()
            if s.do('implicit int', .4):
                u, v = 'for (unsigned %s = 0; %s < 9; %s++)' % (n, n, n), 'for (unsigned int %s = 0; %s < 9; %s++)' % (n, n, n)
            else:
                u = v = 'for (%s = 0; %s < 9; %s++)' % (n, n, n)
        elif k == 2:
            u, v = ('while (%s)' % x for x in s.top())
        else:
            u = v = 'TAILQ_FOREACH(%s, %s, %s)' % (s.name(), s.name(), s.name())
        if r.random() < .2 and s.do('empty loop', 1):
            e = r.randrange(4)
            if e == 0 and k != 3:
                U = [u + ';']
            elif e < 2 and k != 3:
                U = [u, '\t;']
            elif e == 2:
                U = [u + ' {', '}']
            else:
                U = [u + ' {', '\t;', '}']
            return U, [v, '\tcontinue;'], False
        b = s.body(d)
        if len(b) == 1 and b[0][2]:
            if s.do('braces removed'):
                return [u + ' {'] + s.ind(b[0][0]) + ['}'], [v] + s.ind(b[0][1]), False
            return [u] + s.ind(b[0][0]), [v] + s.ind(b[0][1]), False
        V = [v + ' {'] + s.ind(s.flat(b, 1)) + ['}']
        if len(b) == 1 and b[0][0][0] != '{' and s.do('braces added'):
            return [u] + s.ind(b[0][0]), V, False
        return [u + ' {'] + s.ind(s.flat(b, 0)) + ['}'], V, False

    def switch(s, d):
        r = s.r
        u, v = s.top()
        U, V = ['switch (%s) {' % u], ['switch (%s) {' % v]
        for i in range(r.choice([0, 1, 2])):
            h = ['case %d:' % (10 * i + r.randrange(10))]
            b = s.body(d)
            U += h + s.ind(s.flat(b, 0) + ['break;'])
            V += h + s.ind(s.flat(b, 1) + ['break;'])
        if r.random() < .4 and s.do('default', 1):
            U += ['default:;'] if r.random() < .3 else ['default:', '\t;']
            V += ['default:', '\tbreak;']
        else:
            b = s.body(d)
            U += ['default:'] + s.ind(s.flat(b, 0) + ['break;'])
            V += ['default:'] + s.ind(s.flat(b, 1) + ['break;'])
        return U + ['}'], V + ['}'], False

    def decls(s):
        """declarations of local variables: one group per type"""
        r = s.r
        types = r.sample(['int', 'char', 'long', 'struct foo', 'const char', 'unsigned int', 'static int', 'size_t', 'uint8_t', 'struct bar'], r.choice([1, 1, 2, 3]))
        D = []      # (type, stars, names or None, init)
        for t in types:
            stars = r.choice(['', '', '*', '**'])
            names = [s.uniq() for i in range(r.choice([1, 1, 2, 3]))]
            while names:
                k = r.choice([1, 1, 2])
                D.append([t, stars, names[:k]])
                names = names[k:]
        r.shuffle(D)
        seen = {}
        for t, st, ns in D:
            seen.setdefault(t, []).extend(ns)
        U, V, done = [], [], set()
        for t, st, ns in D:
            tu = t
            if t == 'unsigned int' and not st and s.do('implicit int'):
                tu = 'unsigned'
            elif t == 'static int' and s.do('static'):
                tu = 'int static'
            U.append('%s %s;' % (tu, ', '.join(st + n for n in ns)))
            if t not in done:
                done.add(t)
                V.append('%s %s;' % (t, ', '.join(st + n for n in sorted(seen[t]))))
        if U != V:
            s.kinds.add('declarations')
        return U, V, False

    def func(s):
        r = s.r
        ru, rv = 'int', 'int'
        k = r.random()
        if k < .15 and s.do('implicit int', 1):
            ru, rv = 'unsigned', 'unsigned int'
        elif k < .3 and s.do('static', 1):
            ru, rv = 'int static', 'static int'
        pu, pv = 'void', 'void'
        if r.random() < .4:
            n = s.uniq()
            pu, pv = ('unsigned ' + n if s.do('implicit int') else 'unsigned int ' + n), 'unsigned int ' + n
        n = s.uniq()
        b = []
        if r.random() < .4:
            b = [s.decls(), ([''], [''], False)]
        b += [s.stmt(3) for i in range(r.choice([1, 2, 3, 4]))]
        return tuple([t, '%s(%s)' % (n, p), '{'] + s.ind(s.flat(b, i)) + ['}'] for i, t, p in ((0, ru, pu), (1, rv, pv)))

    def item(s):
        r = s.r
        k = r.randrange(10)
        if k < 4:
            return s.func()
        if k == 4:
            L = []
            t = r.randrange(6)
            for i in range(r.choice([2, 3, 4, 6])):
                n = s.uniq()
                # more than one typedef may be aligned, which depends on the order
                L.append((n, 'typedef struct %s %s;' % (n, s.uniq()) if i == t else 'struct %s;' % n))
            S = sorted(L)
            if S != L:
                s.kinds.add('forward declarations')
            return [x[1] for x in L], [x[1] for x in S]
        if k == 5:
            U, V = [], []
            for i in range(r.choice([1, 2, 3])):
                n = r.choice([2, 3])
                A = [(r.choice(['int', 'char *', 'struct foo *', 'const char *', 'void *', 'unsigned long']), s.uniq()) for j in range(n)]
                m = r.randrange(3)
                named = [m == 1 or (m == 2 and r.random() < .5) for a in A]
                j = lambda t, q: t + ('' if t.endswith('*') else ' ') + q
                f = s.uniq()
                U.append('int %s(%s);' % (f, ', '.join(j(t, q) if nm else t for (t, q), nm in zip(A, named))))
                keep = all(named)
                V.append('int %s(%s);' % (f, ', '.join(j(t, q) if keep else t for t, q in A)))
            if U != V:
                s.kinds.add('prototypes')
            return U, V
        if k == 6:
            t = r.choice(['int', 'const int', 'char *', 'struct foo', 'unsigned long', 'const char *'])
            n = s.uniq()
            w = t.rstrip('*').strip().split()
            st = ' *' if t.endswith('*') else ' '
            v = 'static %s%s%s = 0;' % (' '.join(w), st, n)
            u = v
            if s.do('static'):
                p = r.randrange(1, len(w) + 1) if w[0] != 'struct' else len(w)
                u = '%s%s%s = 0;' % (' '.join(w[:p] + ['static'] + w[p:]), st, n)
            return [u], [v]
        if k == 7 or k == 9:
            U, V = ['struct %s {' % s.uniq()], None
            V = list(U)
            for i in range(r.choice([1, 2, 3])):
                n = s.uniq()
                t = r.choice(['unsigned', 'signed'])
                x = r.choice(['', '[2]'])
                U.append('\t%s %s%s;' % (t if s.do('implicit int') else t + ' int', n, x))
                V.append('\t%s int %s%s;' % (t, n, x))
            # fields are aligned by knfmt: both are formatted before they are compared
            return U + ['};'], V + ['};']
        if True:
            n = s.uniq()
            F = ['.%s = %d' % (s.uniq(), i) for i in range(r.choice([1, 2, 4]))] if r.random() < .6 else ['[%d] = %d' % (i, i) for i in range(r.choice([1, 2, 4]))]
            V = ['struct foo %s = {' % n] + ['\t%s,' % f for f in F] + ['};']
            U = list(V)
            if s.do('trailing comma'):
                U[-2] = U[-2][:-1]
            return U, V

def program(r):
    g = G(r)
    U, V = [], []
    for i in range(r.choice([1, 1, 2, 3, 5])):
        u, v = g.item()
        if U:
            U.append('')
            V.append('')
        U += u
        V += v
    return '\n'.join(U) + '\n', '\n'.join(V) + '\n', g.kinds


def one(i):
    r = vlib.rng('C24', i)
    while True:
        u, v, kinds = program(r)
        # long lines are broken, which in turn calls for braces
        if max(len(l.expandtabs(8)) for l in u.split('\n') + v.split('\n')) <= 70:
            break
    st = ''
    if r.random() < .4:
        o = {'IndentWidth': r.choice([2, 4, 8]), 'UseTab': r.choice(['Never', 'Always']), 'ContinuationIndentWidth': r.choice([2, 4]),
             'ColumnLimit': r.choice([100, 120, 0]), 'BreakBeforeBinaryOperators': r.choice(['None', 'NonAssignment']),
             'AlwaysBreakAfterReturnType': r.choice(['None', 'All', 'AllDefinitions'])}
        ks = r.sample(sorted(o), r.randrange(1, 5))
        st = ''.join('%s: %s\n' % (k, o[k]) for k in ks) + 'Language: Cpp\n'
    d = vlib.fresh_dir()
    try:
        if st:
            vlib.write(d + '/.clang-format', st)
        vlib.write(d + '/u.c', u)
        vlib.write(d + '/v.c', v)
        out = [vlib.run([EXE] + fl, b'', cwd=d) for fl in (['-s', 'u.c'], ['v.c'], ['-s', 'v.c'])]
        if any(x.timeout for x in out):
            return None
        return u, v, kinds, st, [(x.rc, x.out) for x in out]
    finally:
        vlib.rmtree(d)


for res in c.map(one, range(c.n(24000, 500000)), chunk=32):
    if res is None:
        c.inconclusive += 1
        continue
    u, v, kinds, st, out = res
    for k in kinds:
        c.stats[k] += 1
    key = vlib.digest(u.encode(), st)
    c.observe(key if u != v else None, {'source': u[:200], 'simplified': v[:200]})
    f = {'u.c': u, 'v.c': v, 'clang-format': st, 'out.u': out[0][1], 'out.v': out[1][1], 'out.sv': out[2][1]}
    if out[1][0] != 0:
        c.violation(key, 'a valid source is rejected', f)
    elif out[2] != out[1]:
        c.violation(key, '-s changes what cannot be simplified', f)
    elif out[0] != out[1]:
        c.violation(key, '-s does not give the simplified source (%s)' % ', '.join(sorted(kinds)), f)
c.finish(minimum=5000)
