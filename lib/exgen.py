"""Executable C programs: deterministic, free of undefined behaviour, printing
every step, and rich in the constructs that the simplification passes rewrite."""
from gen import Nl, Com, Cpp, IN, OUT, render

PRELUDE = '''int printf(const char *, ...);
void exit(int);
static int steps;
static int
t(int k, int v)
{
	printf("%d:%d\\n", k, v);
	if (++steps > 3000) {
		printf("fuel\\n");
		exit(0);
	}
	return v;
}
'''
TYPES = [['int'], ['int'], ['unsigned'], ['unsigned', 'int'], ['char'], ['long'], ['short'], ['unsigned', 'char'], ['unsigned', 'long'],
         ['long', 'long'], ['signed', 'char'], ['ui']]
MACROS = '''typedef unsigned int ui;
#define FOREACH(i, n) for ((i) = 0; (i) < (n); (i)++)
#define NITEMS(a) (sizeof((a)) / sizeof((a)[0]))
struct pt {
	int x;
	unsigned y : 3;
	struct {
		short z[3];
	} in;
};
struct pt gs;
static int n1, n2, n3, n4, n5, n6, n7, n8;
#define PRI "%d"
static void
say(int k, const char *fmt, ...)
{
	const char *p;

	/* line breaks at the end are all that may be removed */
	for (p = fmt; *p != '\\0'; p++) {
		const char *q = p;

		while (*q == '\\n')
			q++;
		if (*q == '\\0')
			break;
		printf("%d ", *p);
	}
	t(k, 0);
}
#define warn(...) say(1, __VA_ARGS__)
#define warnx(...) say(2, __VA_ARGS__)
#define err(n, ...) say(n, __VA_ARGS__)
#define errx(n, ...) say(n, __VA_ARGS__)
#define warnc(n, ...) say(n, __VA_ARGS__)
#define errc(n, m, ...) say((n) + (m), __VA_ARGS__)
#define perror(s) say(3, s)
'''
MSG = ['"x"', '"x\\n"', '"\\n"', '"C:\\\\n"', '"a\\\\\\n"', '"a\\n" "b\\n"', '"a\\n" PRI "b\\n"', 'PRI "\\n"', '"y\\n" PRI', 'u8"foo\\n"', '"n\\n\\n"', '"%s\\n"', '("z\\n")', '"a" "\\n"',
       '""', '"\\\\" "n"']


class Fn:
    def __init__(self, g, i):
        self.g, self.r, self.i = g, g.r, i
        self.nv = 0
        self.nlab = 0
        self.loop = 0

    # Identifiers: drawn from few names so that scopes shadow each other.
    def name(self, scope):
        while True:
            n = self.r.choice('abcdefghijkmnopqrsuvwxyz') + self.r.choice(['', '', '_1', '2x', 'x'])
            if n not in scope['own'] and n not in ('if', 'do'):
                return n

    def k(self):
        self.g.nk += 1
        return str(self.g.nk)

    def var(self, sc):
        vs = [v for v in sc['vars'] if sc['vars'][v] == 'int' and (v[0] != 'n' or not v[1:].isdigit() or self.r.random() < .1)]
        return self.r.choice(vs) if vs and self.r.random() < .85 else str(self.r.randrange(0, 9))

    def lv(self, sc):
        vs = [v for v in sc['vars'] if sc['vars'][v] == 'int' and v not in sc['ro']]
        return self.r.choice(vs) if vs else None

    def expr(self, sc, d=2):
        r = self.r
        x = r.random()
        if d <= 0 or x < .15:
            return [self.var(sc)]
        if x < .35:
            op = r.choice(['+', '-', '*', '&', '|', '^', '<', '>', '==', '!=', '&&', '||', '<=', '>='])
            return ['('] + self.expr(sc, d - 1) + [op] + self.expr(sc, d - 1) + [')']
        if x < .45:
            op = r.choice(['+', '-', '*', '&', '|', '<', '==', '&&', '||'])
            return [self.var(sc), op, self.var(sc)]
        if x < .55:
            return ['t', '(', self.k(), ','] + self.expr(sc, d - 1) + [')']
        if x < .62:
            return ['('] + self.expr(sc, d - 1) + ['?'] + self.expr(sc, d - 1) + [':'] + self.expr(sc, d - 1) + [')']
        if x < .7:
            return [r.choice(['!', '-', '~'])] + ['('] + self.expr(sc, d - 1) + [')']
        if x < .78:
            return self.sizeof(sc)
        if x < .84:
            lv = self.lv(sc)
            if lv:
                return ['('] + [lv, r.choice(['=', '+=', '-=', '^='])] + self.expr(sc, d - 1) + [')']
        if x < .9:
            lv = self.lv(sc)
            if lv:
                return r.choice([[lv, '++'], ['++', lv], ['--', lv], [lv, '--']])
        if x < .94:
            return ['('] + self.expr(sc, d - 1) + [',', ] + self.expr(sc, d - 1) + [')']
        if x < .97:
            return ['('] + r.choice(TYPES) + [')', self.var(sc)]
        return ['(', '{'] + ['int', 'q9', '='] + self.expr(sc, d - 1) + [';', 'q9', '+', '1', ';', '}', ')']

    def sizeof(self, sc):
        r = self.r
        x = r.random()
        v = self.lv(sc)
        if x < .25 or not v or v in sc['reg']:
            return ['(', 'int', ')', 'sizeof', '('] + r.choice(TYPES) + r.choice([[], ['*']]) + [')']
        o = r.choice([['%s'], ['(', '%s', ')'], ['(', '%s', ')', '+', '1'], ['%s', '+', '1'], ['%s', '++'], ['*', '&', '%s'], ['!', '%s'],
                      ['(', '%s', '+', '1', ')'], ['(', 'char', ')', '%s'], ['-', '%s'], ['&', '%s'], ['%s', '*', '2'], ['(', '%s', ')', '*', '2'],
                      ['\"ab\"'], ['(', '\"abc\"', ')'], ['gs', '.', 'in'], ['gs', '.', 'in', '.', 'z', '[', '0', ']'], ['(', 'gs', ')', '.', 'in'],
                      ['(', '&', 'gs', ')', '->', 'in', '.', 'z']])
        if o[:4] == ['(', 'char', ')', '%s']:
            o = ['(', '(', 'char', ')', '%s', ')']
        return ['(', 'int', ')', 'sizeof'] + [q.replace('%s', v) for q in o]

    def com(self, out, own=False):
        if self.r.random() < self.g.comments:
            self.nv += 1
            t = 'n%d.%d' % (self.i, self.nv)
            out.append(Com(self.r.choice(['/* %s */', '/* %s */', '// %s']) % t, own))

    def decl(self, sc):
        """One local declaration; returns items, updates the scope."""
        r = self.r
        out = []
        self.com(out, True)
        x = r.random()
        if x < .04:
            return out + ['extern', 'int', 'steps', ';', Nl()]
        if x < .10:
            n = self.name(sc)
            sc['own'].add(n)
            sc['vars'][n] = 'arr'
            t = r.choice([['int'], ['const', 'int'], ['int', 'const']])
            items = ['1', ',', '2', ',', '3'] + r.choice([[], [',']])
            if r.random() < .4:
                items = [Nl(), '1', ',', Nl(), '2', ',', Nl(), '3'] + r.choice([[], [',']]) + [Nl()]
            out += t + [n, '[', ']', '=', '{'] + items + ['}', ';', Nl()]
            sc['post'].append(['t', '(', self.k(), ',', '(', 'int', ')', 'NITEMS', '(', n, ')', '*', '10', '+', n, '[', '2', ']', ')', ';', Nl()])
            return out
        near = [v for v in sc['pend'] if v in sc['own']]
        if .10 <= x < .12 or near and x > .92:
            n = self.name(sc)
            sc['own'].add(n)
            sc['vars'][n] = 'raw'
            e = r.choice([['n1'], ['gs', '.', 'in'], ['(', 'int', ')'], ['"abc"'], ['(', 'n1', ')'], ['(', 'char', ')', '+', '1'], ['*', '&', 'n2'], ['gs', '.', 'in', '.', 'z', '[', '0', ']']])
            near = [v for v in near if v != n]
            if near and r.random() < .9:
                v = r.choice(near)
                e = r.choice([[v], [v], ['(', v, ')'], ['(', v, '+', '0', ')']])
            out += r.choice([[], ['static']]) + ['char', n, '[', 'sizeof'] + e + r.choice([[], ['+', '1'], ['*', '2']]) + [']', ';', Nl()]
            sc['post'].append(['t', '(', self.k(), ',', '(', 'int', ')', 'sizeof', '(', n, ')', ')', ';', Nl()])
            return out
        if x < .16:
            n = self.name(sc)
            sc['own'].add(n)
            sc['vars'].pop(n, None)
            nl = [Nl()] if r.random() < .5 else []
            out += ['struct', 'pt', n, '=', '{'] + nl + ['.', 'x', '='] + self.expr(sc, 1) + [','] + nl + ['.', 'y', '=', '3'] + r.choice([[], [',']]) + nl + ['}', ';', Nl()]
            sc['vars'][n] = 'pt'
            sc['post'].append(['t', '(', self.k(), ',', n, '.', 'x', '+', n, '.', 'y', ')', ';', Nl()])
            return out
        t = list(r.choice(TYPES))
        quals = []
        if r.random() < .15:
            quals.append('static')
        if r.random() < .12:
            quals.append(r.choice(['const', 'volatile', 'register'] if not quals else ['const', 'volatile']))
        static = 'static' in quals
        const = 'const' in quals
        r.shuffle(quals)
        if quals and 'register' not in quals and r.random() < .3:
            t = t[:1] + quals + t[1:]
        else:
            t = quals + t
        if len(t) == 1 and t[0] == 'int' and r.random() < .03:
            t = ['auto', 'int']
        out += t
        ds = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            n = self.name(sc)
            sc['vars'].pop(n, None)      # not to be read by its own initialiser
            y = r.random()
            if y < .14 and 'register' not in quals:
                # A pointer to an existing variable of any type is read through its sizeof only.
                sc['own'].add(n)
                base = [v for v in sc['vars'] if sc['vars'][v] == 'int' and v in sc['own'] and v not in sc['reg']]
                if base and not static and t == ['int']:
                    b = r.choice(base)
                    ds.append(['*', n, '=', '(', 'void', '*', ')', '&', b] if r.random() < .7 else ['*', n])
                else:
                    ds.append(['*', n] + (['=', '0'] if r.random() < .5 else []))
                sc['vars'][n] = 'ptr'
                sc['post'].append(['t', '(', self.k(), ',', '(', 'int', ')', 'sizeof', '(', '*', n, ')', ')', ';', Nl()])
                continue
            if y < .22:
                sc['own'].add(n)
                sc['vars'][n] = 'arr'
                ds.append([n, '[', r.choice(['2', '3', '1 + 1']), ']'])
                sc['post'].append(['t', '(', self.k(), ',', '(', 'int', ')', 'sizeof', '(', n, ')', ')', ';', Nl()])
                continue
            if static or const or y < .55:
                if static:
                    e = [r.choice(['0', '1', '7', '-1'])]
                    d = [n] + (['='] + e if const or r.random() < .6 else [])
                elif y < .28:
                    # Refers to the variable of the outer scope of another name only.
                    d = [n, '='] + self.expr(sc, 1)
                else:
                    d = [n, '='] + self.expr(sc, 2 if r.random() < .3 else 1)
                ds.append(d)
                sc['own'].add(n)
                sc['vars'][n] = 'int'
                sc['ro'].discard(n)
                if const or static:
                    sc['ro'].add(n)
            else:
                ds.append([n])
                sc['own'].add(n)
                sc['vars'].pop(n, None)
                sc['pend'].append(n)
                sc['ro'].discard(n)
            sc['reg'].discard(n)
            if 'register' in quals:
                sc['reg'].add(n)
            if r.random() < .3:
                sc['obs'].append(n)
        for j, d in enumerate(ds):
            if j:
                out.append(',')
                if r.random() < .15:
                    self.com(out)
            out += d
        out.append(';')
        self.com(out)
        out.append(Nl(2 if r.random() < .1 else 1))
        return out

    def block(self, sc, d, lo=0, hi=3, braces=True):
        """Items of a block with a scope of its own."""
        r = self.r
        s = dict(vars=dict(sc['vars']), own=set(), ro=set(sc['ro']), reg=set(sc['reg']), pend=[], post=[], obs=[])
        out = []
        nd = r.choice([0, 0, 1, 1, 2, 3]) if d < 3 or r.random() < .6 else r.randrange(2, 7)
        cpp = r.random() < self.g.cpp
        for j in range(nd):
            x = self.decl(s)
            if cpp and j == nd - 1 and r.random() < .5:
                x = [Cpp('#if 1')] + x + [Cpp('#endif')]
            out += x
        if nd and r.random() < .8:
            out.append(Nl(2))
        for n in s['pend']:
            out += [n, '='] + self.expr(s, 1) + [';', Nl()]
            s['vars'][n] = 'int'
        for p in s['post']:
            out += p
        for n in s['obs']:
            if s['vars'].get(n) != 'int':
                continue
            out += ['t', '(', self.k(), ',', '(', 'int', ')', 'sizeof', '(', n, ')', ')', ';', Nl()]
            if n not in s['ro']:
                out += [n, '=', '-1', ';', Nl(), 't', '(', self.k(), ',', n, '>', '0', ')', ';', Nl()]
        for _ in range(r.randrange(lo, hi + 1)):
            out += self.stmt(s, d - 1)
            if r.random() < .1:
                out.append(Nl(2))
        return out

    def braced(self, sc, d, **kw):
        return ['{', IN, Nl()] + self.block(sc, d, **kw) + [OUT, '}']

    def one(self, sc, d):
        """A statement that is not a declaration and not a label."""
        return self.stmt(sc, d, plain=True)

    def body(self, sc, d):
        """Body of a control statement."""
        r = self.r
        x = r.random()
        if x < .45:
            return [IN, Nl()] + self.one(sc, d - 1) + [OUT]
        out = ['{', IN, Nl()]
        self.com(out, True)
        if x < .8:
            out += self.one(sc, d - 1)
        elif x < .85:
            out += ['int', 'q8', '='] + self.expr(sc, 1) + [';', Nl()]
        elif x < .9:
            pass
        else:
            out += self.block(sc, d)
        if r.random() < self.g.cpp:
            out += [Nl(), Cpp('#if %d' % r.randrange(2)), 't', '(', self.k(), ',', '0', ')', ';', Cpp('#endif')]
        out += [OUT, '}']
        self.com(out)
        return out + [Nl()]

    def cond(self, sc):
        e = self.expr(sc, 2)
        return ['('] * 1 + (['('] + e + [')'] if self.r.random() < .2 else e) + [')']

    def wrapped(self, e):
        return ['('] + e + [')'] if self.r.random() < .35 else e

    def simple(self, sc):
        r = self.r
        x = r.random()
        lv = self.lv(sc)
        if r.random() < .04:
            f, a = r.choice([('warn', []), ('warnx', []), ('err', [1]), ('errx', [1]), ('warnc', [1]), ('errc', [1, 1]), ('perror', [])])
            v = []
            for _ in a:
                v += [self.k() if r.random() < .7 else r.choice(['(4)', '2 + 3']), ',']
            return [f, '('] + v + r.choice(MSG).split(' ') + ([] if f == 'perror' or r.random() < .5 else [',', self.var(sc)]) + [')', ';']
        if x < .4 or not lv:
            return ['t', '(', self.k(), ','] + self.expr(sc, 2) + [')', ';']
        if x < .5:
            return r.choice([[lv, '++'], ['--', lv]]) + [';']
        if x < .6:
            return self.wrapped(['t', '(', self.k(), ','] + self.expr(sc, 1) + [')']) + [';']
        if x < .65:
            return ['(', 'void', ')', 't', '(', self.k(), ','] + self.expr(sc, 1) + [')', ';']
        if x < .7:
            return ['gs', '.', r.choice(['x', 'y', 'in.z[1]']).replace('.', '.'), '=', self.var(sc), ';', 't', '(', self.k(), ',', 'gs', '.', 'x', '+', 'gs', '.', 'y', ')', ';']
        return [lv, r.choice(['=', '+=', '-=', '*=', '|='])] + self.wrapped(self.expr(sc, 2)) + [';']

    def stmt(self, sc, d, plain=False):
        r = self.r
        out = []
        if not plain:
            self.com(out, True)
        x = r.random()
        if d <= 0 or x < .22:
            s = self.simple(sc)
            if plain and s.count(';') > 1 and '{' not in s:
                s = ['{'] + s + ['}']
            return out + s + [Nl()]
        if x < .5:
            out += ['if'] + self.cond(sc) + self.body(sc, d)
            n = r.choice([0, 0, 1, 1, 2])
            for j in range(n):
                if j == n - 1 and r.random() < .7:
                    out += ['else'] + self.body(sc, d)
                else:
                    out += ['else', 'if'] + self.cond(sc) + self.body(sc, d)
            # Without a brace before, the else above binds to the closest if: whatever
            # the program means, it must mean the same afterwards.
            return out
        if x < .72:
            return out + self.loop_stmt(sc, d)
        if x < .84:
            return out + self.switch(sc, d) + [Nl()]
        if x < .89:
            return out + ['return'] + r.choice([[], [' ']])[:0] + self.retval(sc) + [';', Nl()]
        if x < .93 and self.loop:
            return out + [r.choice(['break', 'continue']), ';', Nl()]
        if x < .96 and not plain:
            self.nlab += 1
            lab = 'l%d' % self.nlab
            return out + ['if'] + self.cond(sc) + [IN, Nl(), 'goto', lab, ';', OUT, Nl()] + self.stmt(sc, 0) + [Nl(), lab, ':', Nl()] + self.stmt(sc, d - 1)
        if x < .98 and not plain:
            return out + self.braced(sc, d) + [Nl()]
        return out + [';', Nl()]

    def retval(self, sc):
        r = self.r
        e = self.expr(sc, 2)
        x = r.random()
        if x < .35:
            return ['('] + e + [')']
        if x < .45:
            return ['(', '('] + e + [')', ')']
        if x < .55:
            return ['('] + e + [')', '+', '('] + self.expr(sc, 1) + [')']
        if x < .65:
            return ['(', 'short', ')', '('] + e + [')']
        if x < .72:
            return ['('] + e + [')', '?', '('] + self.expr(sc, 1) + [')', ':', '('] + self.expr(sc, 1) + [')']
        if x < .78:
            return ['('] + e + [',', self.var(sc), ')']
        return e

    def loop_stmt(self, sc, d):
        r = self.r
        self.loop += 1
        try:
            k = self.k()
            c = 'n%d' % self.loop     # one counter per nesting level
            x = r.random()
            i = 'i%d' % self.loop
            n = str(r.randrange(1, 4))
            init = [c, '=', '0', ';', Nl()]
            if x < .25:
                empty = r.random() < .4
                h = ['while', '('] + self.wrapped(['t', '(', k, ',', '(', c, '++', ')', '<', n, ')']) + [')']
                return ['{', IN, Nl()] + init + h + (self.empty(sc) if empty else self.body(sc, d)) + [OUT, '}', Nl()]
            if x < .5:
                empty = r.random() < .4
                st = self.wrapped(r.choice([[c, '++'], ['++', c], [c, '+=', '1'], ['t', '(', self.k(), ',', c, '++', ')']]))
                h = ['for', '(', c, '=', '0', ';'] + self.wrapped([c, '<', n]) + [';'] + st + [')']
                return h + (self.empty(sc) if empty else self.body(sc, d)) + [Nl()]
            if x < .6:
                return ['for', '(', 'int', i, '=', '0', ';', i, '<', n, ';', i, '++', ')'] + self.body(sc, d) + [Nl()]
            if x < .75 and self.g.macros:
                return ['FOREACH', '(', c, ',', n, ')'] + (self.empty(sc) if r.random() < .3 else self.body(sc, d)) + [Nl()]
            b = self.body(sc, d)
            return ['{', IN, Nl()] + init + ['do'] + (b if b[0] == '{' else ['{', IN, Nl()] + b + [OUT, '}']) + ['while', '('] + self.wrapped(['t', '(', k, ',', '(', c, '++', ')', '<', n, ')']) + [')', ';', Nl(), OUT, '}', Nl()]
        finally:
            self.loop -= 1

    def empty(self, sc):
        r = self.r
        return r.choice([[';'], [IN, Nl(), ';', OUT], ['{', Nl(), '}'], ['{', '}'], ['{', IN, Nl(), 'continue', ';', OUT, '}'], [IN, Nl(), 'continue', ';', OUT]]) + [Nl()]

    def switch(self, sc, d):
        r = self.r
        out = ['switch'] + self.cond(sc) + ['{', Nl()]
        labs = r.sample(range(-2, 6), r.randrange(1, 5))
        pos = r.randrange(-1, len(labs) + 1)
        for j in range(len(labs) + 1):
            if j == pos:
                out += ['default', ':', Nl()] + self.case_body(sc, d, j == len(labs))
            if j < len(labs):
                out += ['case'] + r.choice([[str(labs[j])], ['(', str(labs[j]), ')'], ['(', str(labs[j]), '+', '0', ')']]) + [':', Nl()] + self.case_body(sc, d, j == len(labs) - 1 and pos <= j)
        return out + ['}']

    def case_body(self, sc, d, last):
        r = self.r
        x = r.random()
        if x < .15:
            return [] if not last else [IN, ';', OUT, Nl()]
        if x < .3:
            return [IN, ';', OUT, Nl()]
        out = [IN]
        if x < .45:
            out += self.braced(sc, d)
        else:
            for _ in range(r.choice([1, 1, 2])):
                out += self.one(sc, d - 1)
        if x < .35:
            pass
        elif r.random() < .5:
            out += ['break', ';', Nl()]
        return out + [OUT]

    def items(self):
        r = self.r
        np = r.randrange(1, 4)
        ps = ['p%d' % j for j in range(np)]
        sc = dict(vars={p: 'int' for p in ps}, own=set(ps), ro=set(), reg=set(), pend=[], post=[], obs=[])
        for j in range(1, 9):
            sc['vars']['n%d' % j] = 'int'
            sc['ro'].add('n%d' % j)
        types = [list(r.choice(TYPES)) for _ in ps]
        n = 'f%d' % self.i
        rt = r.choice([['int'], ['static', 'int'], ['int', 'static'], ['unsigned'], ['long'], ['short'], ['unsigned', 'char']])
        proto = []
        for j in range(np):
            proto += ([','] if j else []) + types[j] + ([ps[j]] if r.random() < .5 else [])
        out = rt + [n, '('] + proto + [')', ';', Nl()]
        if r.random() < .3:
            a = 'struct s%d' % r.randrange(9)
            self.g.fwd += 1
            out += a.split() + [';', Nl()]
            for _ in range(r.randrange(3)):
                out += ['struct', 's%d' % r.randrange(9), ';', Nl()]
        out.append(Nl(2))
        out += rt + [Nl(), n, '(']
        for j in range(np):
            out += ([','] if j else []) + types[j] + [ps[j]]
        out += [')', Nl(), '{', IN, Nl()] + self.block(sc, 4, 2, 6) + ['return'] + self.retval(sc) + [';', Nl(), OUT, '}', Nl(2)]
        # Every function is called with a few arguments.
        self.calls = [[str(r.randrange(-3, 9)) for _ in ps] for _ in range(4)]
        self.np = np
        return out


class ExGen:
    def __init__(self, r, nf=12, comments=.0, cpp=.0, macros=True):
        self.r, self.comments, self.cpp, self.macros = r, comments, cpp, macros
        self.nk = 0
        self.fwd = 0
        self.nf = nf

    def program(self):
        """(items, main) where main stays outside of what is formatted."""
        out = []
        main = ['int main(void) {']
        for i in range(self.nf):
            f = Fn(self, i)
            out += f.items()
            for a in f.calls:
                main.append('\tsteps = 0; printf("%d", ' + '0); printf("= %%d\\n", (int)f%d(%s));' % (i, ', '.join(a)))
        main.append('\treturn 0;\n}')
        return out, '\n'.join(main)


def source(r, layouts, **kw):
    layout = r.choice(layouts)
    # Whether NAME(...) is a loop or an expression follows from the indentation of the next line.
    g = ExGen(r, macros=layout == 'canonical', **kw)
    items, main = g.program()
    return render(items, r, layout), main, layout
