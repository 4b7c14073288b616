"""Random C source generator (syntactically valid C, not type checked).

A program is a list of items: plain str tokens, and the special items below.
render() lays the items out with a randomly chosen layout, so that the same
token sequence is presented to the formatter in many shapes.
"""
import random
import idioms

KW_NOSPACE = None


class Nl:
    """A likely line break (statement boundary)."""
    __slots__ = ('n',)

    def __init__(self, n=1):
        self.n = n


class Cpp:
    """A preprocessor directive, always alone on its line(s)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Com:
    """A comment; own=True puts it on a line of its own."""
    __slots__ = ('t', 'own')

    def __init__(self, t, own=False):
        self.t, self.own = t, own


class Raw:
    """Verbatim lines (clang-format off regions, asm blobs)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class In:
    pass


class Out:
    pass


class LineStart:
    """Whatever follows must start a line."""
    pass


class Glue:
    """No whitespace/line break allowed here."""
    pass


IN, OUT, BOL, GLUE = In(), Out(), LineStart(), Glue()

WORDS = ['a', 'b', 'i', 'n', 'x', 'p', 'len', 'buf', 'ret', 'error', 'flags', 'count', 'next',
         'head', 'state', 'ctx', 'data', 'size', 'offset', 'is_valid', 'node', 'parent',
         'max_length_of_buffer', 'a_rather_long_identifier_name', 'sc_intr', 'tmp0', 'id1',
         'interface_configuration_descriptor', 'quite_a_long_function_like_name', 'k', '_u',
         'If', 'intern', 'format', 'structure', 'whiled', 'xfor', 'do_it', 'elsewhere']
TYPES = ['int', 'char', 'unsigned int', 'long', 'unsigned long long', 'size_t', 'uint32_t',
         'struct foo', 'struct interface_configuration', 'union u', 'enum kind', 'double',
         'unsigned char', 'u_int', 'ssize_t', 'short', 'bool', 'struct s', 'uint8_t', 'signed char',
         'float', 'time_t', 'FILE', 'foo_t', 'long long', 'int64_t']
STRS = ['""', '"x"', '"hello world"', '"%s: %d\\n"', '"a \\"quoted\\" one"', '"/* no comment */"',
        '"// nor this"', '"tab\\there"', '"semi; colon"', '"{ brace"', '"back\\\\slash\\\\"', '"\\\\"',
        'L"wide"', '"trailing space "', '"  two  spaces  "', '"#define NOT"', '"\\0"',
        '"%" PRIu64 "x"', '"a long string literal which takes some space on the line"', "\"it's\""]
CHRS = ["'a'", "'\\n'", "'\\0'", "'\\''", "'\"'", "'\\\\'", "' '", "';'", "'{'", "'/'", "'\\x41'", "'#'"]
NUMS = ['0', '1', '2', '42', '0x1f', '0XFFu', '10UL', '1ULL', '0777', '1.5', '.5', '1e9', '1.0e-3f',
        '1e+10', '0x1p-3', '100000L', '2147483647', '0b101', '0xdeadbeefULL', '3.', '4294967295u']
BINOPS = ['+', '-', '*', '/', '%', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '^', '|', '&&', '||']
ASSIGN = ['=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '^=', '|=']
FOREACH = ['TAILQ_FOREACH', 'LIST_FOREACH', 'SLIST_FOREACH', 'RB_FOREACH', 'for_each_thing', 'TAILQ_FOREACH_SAFE']


def number(r):
    """A random spelling of an integer or floating point constant."""
    def digits(a, lo=1):
        return ''.join(r.choice(a) for _ in range(r.randrange(lo, 6)))
    k = r.randrange(4)
    if k == 0:
        return r.choice(['0x', '0X']) + digits('0123456789abcdefABCDEF') + r.choice(['', 'u', 'U', 'l', 'L', 'ul', 'UL', 'llu', 'ULL', 'LLU', 'wb', 'uwb', 'i'])
    if k == 1:
        return r.choice(['', '0', '1']) + digits('01234567') + r.choice(['', 'u', 'L', 'll', 'Ul', 'uLL'])
    if k == 2:
        m = r.choice([digits('0123456789') + '.', digits('0123456789'), '.' + digits('0123456789'), digits('0123456789') + '.' + digits('0123456789')])
        return m + r.choice(['e', 'E']) + r.choice(['', '+', '-']) + digits('0123456789') + r.choice(['', 'f', 'F', 'l', 'L', 'i'])
    return r.choice(['0x', '0X']) + digits('0123456789abcdefABCDEF') + r.choice(['', '.', '.8', '.e']) + r.choice(['p', 'P']) + r.choice(['', '+', '-']) + digits('0123456789') + r.choice(['', 'f', 'L'])


def literal(r):
    """A random string or character constant."""
    q = r.choice('""""\'')
    n = r.choice([0, 1, 2, 3, 8]) if q == '"' else r.choice([1, 1, 1, 2, 4])
    body = [r.choice(['a', 'Z', '0', ' ', '  ', '/', '*', '/*', '*/', '//', ';', '{', '}', '(', ')', '#', '%s', ',', '@', '$', '\xe9', '?', '<', '-', '\\n', '\\\\', '\\"', "\\'", '\\x1f', '\\033', '\\0', "'" if q == '"' else '"'])
            for _ in range(n)]
    return r.choice(['', '', '', '', 'L', 'u8', 'u', 'U']) + q + ''.join(body) + q


# directive bodies in which comment delimiters are part of something else
LITERALS = ['"/*"', '"a/*b" "c"', "'\"' /* c */", '"*/"', '"\\"/*"', "'\\'' + '\"'", '1 // it\'s /* not one', '"x" // "/*', '"//" /* a */ "/*"', "L'/'", '"a" /* "b */ "c"']


class Gen:
    def __init__(self, rng, size=20, comments=0.0, cpp=0.0, exotic=0.15, simple=False, idiom=0.0):
        self.pid = idiom
        self.r = rng
        self.size = size
        self.pcom = comments
        self.pcpp = cpp
        self.pex = exotic
        self.simple = simple
        self.uid = 0
        self.features = set()

    # -- helpers ---------------------------------------------------------
    def p(self, x):
        return self.r.random() < x

    def ch(self, seq):
        return self.r.choice(seq)

    def feat(self, f):
        self.features.add(f)

    def ident(self):
        if self.p(0.1):
            self.uid += 1
            return '%s%d' % (self.ch(WORDS), self.uid)
        return self.ch(WORDS)

    def longident(self):
        n = self.r.choice([1, 3, 8, 15, 30, 60])
        return 'v' + ''.join(self.ch('abcdefgh_') for _ in range(n))

    def fresh(self, pre='v'):
        self.uid += 1
        return '%s_%s%d' % (pre, self.ch(WORDS), self.uid)

    def type(self, ptr=True):
        t = []
        if self.p(0.15):
            t.append(self.ch(['const', 'volatile', 'const']))
        t += self.ch(TYPES).split()
        if ptr:
            while self.p(0.3):
                t.append('*')
        return t

    def comment_text(self, own=False):
        r = self.r
        k = r.randrange(12)
        if k == 0:
            return '// ' + ' '.join(self.ch(WORDS) for _ in range(r.randrange(1, 12)))
        if k == 1:
            if r.random() < .15:
                return '// ' + self.ch(WORDS) + r.choice([' \\\n   ', '\\\n', ' \\\n// ', '\\\nint ']) + self.ch(WORDS) + ' ' + self.ch(WORDS)
            return '//' + self.ch(WORDS)
        if k == 2 and own:
            ls = [' '.join(self.ch(WORDS) for _ in range(r.randrange(0, 9))) for _ in range(r.randrange(1, 6))]
            return '/*\n' + ''.join((' * ' + l).rstrip() + '\n' for l in ls) + ' */'
        if k == 3 and own:
            return '/*\n\t\tfree text\n    more\ttext ;{}\n*/'
        if k == 4:
            return '/* ' + ' '.join(self.ch(WORDS) for _ in range(r.randrange(3, 20))) + ' */'
        if k == 5:
            return '/**/'
        if k == 6:
            return '/***/'
        if k == 7 and r.random() < .5:
            return r.choice(['/* x /*/', '/*/ x */', '/* **/', '/* a /* b */', '/** x **/', '/*x*/', '//', '/* * / */', '/*\\*/', '/* \\ */'])
        if k == 7:
            return '/* "str" \'c\' // nested */'
        if k == 8:
            return '/* if (x) { return; } */'
        if k == 9 and own:
            return '/* first\n * second   \n *\n * fourth */'
        if k == 10:
            return '/* XXX ' + 'y' * r.choice([1, 40, 70, 90]) + ' */'
        return '/* ' + self.ch(WORDS) + ' */'

    def maybe_comment(self, out, own):
        if self.pcom and self.p(self.pcom):
            self.feat('comment')
            out.append(Com(self.comment_text(own), own))

    # -- expressions -----------------------------------------------------
    def primary(self, d):
        r = self.r
        k = r.randrange(20)
        if k < 9:
            return [self.ident()]
        if k < 13:
            return [self.ch(NUMS) if self.p(.5) else number(self.r)]
        if k == 13:
            return [self.ch(STRS) if self.p(.7) else literal(self.r)]
        if k == 14:
            return [self.ch(CHRS)]
        if k == 15 and self.p(0.3):
            self.feat('strcat')
            return [self.ch(STRS), self.ch(STRS)]
        if k == 16 and d > 0:
            return ['('] + self.expr(d - 1) + [')']
        return [self.ident()]

    def args(self, d, hi=5):
        out = []
        for i in range(self.r.randrange(0, hi)):
            if i:
                out.append(',')
            out += self.expr(d, comma=False)
        return out

    def postfix(self, d):
        e = None
        k = self.r.randrange(10)
        if k < 3:
            e = [self.ident()]
        elif k < 5:
            self.feat('call')
            e = [self.ident(), '('] + self.args(d - 1 if d > 0 else 0) + [')']
        elif k == 5 and self.p(0.3):
            e = ['(', '*', self.ident(), ')', '('] + self.args(0) + [')']
        else:
            e = self.primary(d)
            if not (e[0][0].isalpha() or e[0][0] == '_') or len(e) > 1:
                return e
            if e[0].endswith('"') or e[0].endswith("'"):
                return e
        while self.p(0.35):
            k = self.r.randrange(6)
            if k == 0:
                e = e + ['.', self.ident()]
            elif k in (1, 2):
                e = e + ['->', self.ident()]
            elif k == 3:
                e = e + ['['] + self.expr(max(d - 1, 0), comma=False) + [']']
            elif k == 4 and e[-1] != ')' and self.p(0.5):
                e = e + [self.ch(['++', '--'])]
                break
            else:
                e = e + ['.', self.ident()]
        return e

    def unary(self, d):
        k = self.r.randrange(24)
        if k == 0:
            return ['!'] + self.unary(max(d - 1, 0))
        if k == 1:
            return ['~'] + self.unary(max(d - 1, 0))
        if k == 2:
            u = self.unary(max(d - 1, 0))
            return [self.ch('---+')] + u
        if k == 3:
            return ['*', self.ident()]
        if k == 4:
            return ['&', self.ident()] + (['->', self.ident()] if self.p(0.5) else [])
        if k == 5:
            return [self.ch(['++', '--']), self.ident()]
        if k == 6:
            self.feat('sizeof')
            if self.p(0.5):
                return ['sizeof', '('] + self.type() + [')']
            if self.p(0.3):
                return ['sizeof', '(', '*', self.ident(), ')']
            return ['sizeof', '(', self.ident(), ')']
        if k == 7:
            self.feat('cast')
            return ['('] + self.type() + [')'] + self.postfix(max(d - 1, 0))
        if k == 9 and self.p(self.pex) and d > 1:
            self.feat('gnu-stmt-expr')
            return ['(', '{', 'int', '_t', '=', self.ident(), ';', '_t', ';', '}', ')']
        return self.postfix(d)

    def expr(self, d=2, comma=False):
        out = self.unary(d)
        n = 0
        while d > 0 and self.p(0.45) and n < 8:
            out = out + [self.ch(BINOPS)] + self.unary(d - 1)
            n += 1
        if d > 1 and self.p(0.06):
            self.feat('ternary')
            out = out + ['?'] + self.unary(d - 1) + [':'] + self.unary(d - 1)
        return out

    def cond(self, d=2):
        k = self.r.randrange(8)
        if k == 0:
            return ['(', self.ident(), '='] + self.postfix(1) + [')', '==', self.ch(['NULL', '-1', '0']) if False else 'NULL']
        if k == 1:
            out = self.unary(1)
            for _ in range(self.r.randrange(1, 6)):
                out = out + [self.ch(['&&', '||'])] + self.unary(1) + [self.ch(['==', '<', '!=']), self.ident()]
            return out
        return self.expr(d)

    # -- statements ------------------------------------------------------
    def block(self, d):
        out = ['{', IN, Nl()]
        n = self.r.choice([0, 1, 1, 1, 2, 3, 4])
        for _ in range(n):
            out += self.stmt(d - 1)
        out += [OUT, '}']
        return out

    def body(self, d):
        """Controlled statement: block or single statement."""
        if self.p(0.55) or d <= 0:
            return self.block(max(d, 0)) + [Nl()]
        return [IN, Nl()] + self.stmt(d - 1, nodecl=True) + [OUT]

    def stmt(self, d, nodecl=False):
        r = self.r
        out = []
        if self.pcom and not nodecl and self.p(self.pcom):
            out.append(Com(self.comment_text(True), True))
            self.feat('comment-own')
        if self.pid and self.p(self.pid):
            out += self.idiom_stmt(nodecl)
            return out
        if d <= 0:
            k = r.randrange(0, 45)
        else:
            k = r.randrange(0, 100)
        if k < 20:
            self.feat('expr-stmt')
            e = self.postfix(1)
            if e[-1] in ('++', '--'):
                out += e + [';', Nl()]
            elif self.p(0.5):
                out += [self.ident()] + (['->', self.ident()] if self.p(0.3) else []) + \
                       [self.ch(ASSIGN)] + self.expr(r.choice([0, 1, 2, 3])) + [';', Nl()]
            else:
                out += [self.ident(), '('] + self.args(r.choice([0, 1, 2]), 8) + [')', ';', Nl()]
        elif k < 25:
            self.feat('return')
            out += ['return'] + ([] if self.p(0.2) else self.expr(2)) + [';', Nl()]
        elif k < 27:
            out += [self.ch(['break', 'continue']), ';', Nl()]
        elif k < 28:
            self.feat('goto')
            out += ['goto', self.ch(['out', 'err', 'again']), ';', Nl()]
        elif k < 29 and not nodecl:
            self.feat('label')
            out += [Nl(), self.ch(['out', 'err', 'again']), ':', Nl()] + self.stmt(0, nodecl=True)
        elif k < 30 and not nodecl:
            self.feat('label-empty')
            out += [';', Nl()]
        elif k < 39 and not nodecl:
            out += self.localdecl()
        elif k < 42 and self.p(self.pex):
            self.feat('asm')
            out += ['__asm', 'volatile', '(', '"nop"', ')', ';', Nl()] if self.p(0.5) else \
                   ['asm', 'volatile', '(', '"mov %0, %1"', ':', '"=r"', '(', self.ident(), ')', ':',
                    '"r"', '(', self.ident(), ')', ':', '"memory"', ')', ';', Nl()]
        elif k < 45 and self.pcpp and not nodecl and self.p(self.pcpp * 3):
            out += self.cppstmt(max(d, 0))
        elif k < 43 and self.p(self.pex):
            self.feat('compound-literal')
            out += [self.ident(), '=', '(', 'struct', 'foo', ')', '{', '.', self.ident(), '='] + self.unary(0) + \
                   ['}', ';', Nl()]
        elif k < 45:
            out += [self.ident(), '='] + self.postfix(0) + [';', Nl()]
        elif k < 64:
            self.feat('if')
            out += ['if', '('] + self.cond() + [')'] + self.ifbody(d)
        elif k < 72:
            self.feat('for')
            out += ['for', '(']
            z = r.randrange(4)
            if z == 0:
                out += [';', ';', ')']
            elif z == 1:
                out += ['int', 'i', '=', '0', ';', 'i', '<', self.ident(), ';', 'i', '++', ')']
            else:
                out += [self.ident(), '='] + self.expr(1) + [';'] + self.expr(1) + [';', self.ident(), '++', ')']
            out += self.body(d)
        elif k < 78:
            self.feat('while')
            out += ['while', '('] + self.cond() + [')'] + self.body(d)
        elif k < 82:
            self.feat('do')
            out += ['do'] + self.block(d) + ['while', '('] + self.cond() + [')', ';', Nl()]
        elif k < 88:
            self.feat('switch')
            out += self.switch(d)
        elif k < 91:
            self.feat('foreach')
            out += [self.ch(FOREACH), '(', self.ident(), ',', '&', self.ident(), '->', self.ident(), ',', self.ident(), ')'] + \
                self.block(d) + [Nl()]
        elif k < 94 and not nodecl:
            self.feat('block')
            out += self.block(d) + [Nl()]
        else:
            out += [self.ident(), '('] + self.args(2, 6) + [')', ';', Nl()]
        if self.pcom and isinstance(out[-1], Nl) and self.p(self.pcom / 2) and out[-2] in (';', '}'):
            t = self.comment_text(False)
            out.insert(len(out) - 1, Com(t))
        if not nodecl and self.p(0.12):
            out.append(Nl(2))
        return out

    def breaks(self, toks):
        """Items with the likely line breaks added."""
        out = []
        paren = 0
        for t in toks:
            if t in ('(', '['):
                paren += 1
            elif t in (')', ']'):
                paren -= 1
            if t == '}' and paren == 0:
                out += [OUT]
            out.append(t)
            if t == '{' and paren == 0:
                out += [IN, Nl()]
            elif t in (';', '}') and paren == 0 and self.p(0.9):
                out += [Nl()]
        return out

    def idiom_stmt(self, nodecl):
        inline = self.pcpp and not nodecl and self.p(0.3)
        if inline or self.pcpp and not nodecl and self.p(0.15):
            self.feat('idiom-cpp-inline' if inline else 'idiom-cpp')
            seq = self.ch(idioms.CPPSTMT_T if inline else idioms.CPPBLOCKS_T)
            out = []
            for kind, t in seq:
                out += [Nl(), Cpp(t)] if kind == 'cpp' else [t]
            return [Nl()] + out + [Nl()]
        k = self.r.randrange(len(idioms.STMT_T))
        toks = idioms.STMT_T[k]
        if nodecl and (toks[1:2] == [':'] or toks[0] in ('int', 'char', 'struct', 'static', 'const', 'unsigned', 'volatile', 'register',
                                                         'extern', 'typedef', 'enum', '_Static_assert') or toks.count(';') > 1
                       or 'else' in toks or toks[0] == 'if'):
            toks = ['x', '(', ')', ';']
        self.feat('idiom-stmt-%d' % k)
        return self.breaks(toks) + [Nl()]

    def idiom_top(self):
        if self.pcpp and self.p(0.2):
            self.feat('idiom-cpp')
            out = [Nl()]
            for kind, t in self.ch(idioms.CPPBLOCKS_T):
                out += [Nl(), Cpp(t)] if kind == 'cpp' else [t]
            return out + [Nl(2)]
        k = self.r.randrange(len(idioms.TOP_T))
        self.feat('idiom-top-%d' % k)
        return self.breaks(idioms.TOP_T[k]) + [Nl(2)]

    def ifbody(self, d):
        """Body plus optional else chain, avoiding dangling else capture."""
        if self.p(0.5):
            out = self.block(d)
            braces = True
        else:
            out = [IN, Nl()] + self.simple_stmt() + [OUT]
            braces = False
        if self.p(0.35) and d > 0:
            self.feat('else')
            out += ['else']
            if self.p(0.4):
                out += ['if', '('] + self.cond() + [')'] + self.ifbody(d - 1)
                return out
            if self.p(0.6):
                return out + self.block(d) + [Nl()]
            return out + [IN, Nl()] + self.stmt(d - 1, nodecl=True) + [OUT]
        return out + ([Nl()] if braces else [])

    def simple_stmt(self):
        k = self.r.randrange(5)
        if k == 0:
            return ['return'] + self.expr(1) + [';', Nl()]
        if k == 1:
            return [self.ident(), '('] + self.args(1) + [')', ';', Nl()]
        if k == 2:
            return ['goto', 'out', ';', Nl()]
        return [self.ident(), self.ch(ASSIGN)] + self.expr(2) + [';', Nl()]

    def switch(self, d):
        out = ['switch', '('] + self.expr(1) + [')', '{', Nl()]
        for _ in range(self.r.randrange(0, 4)):
            out += ['case', self.ch(['1', 'FOO', "'x'", 'A_LONG_ENUM_CONSTANT', '0x10']), ':', IN, Nl()]
            if self.p(0.2):
                out += [OUT]
                continue
            if self.p(0.15):
                self.feat('case-block')
                out += [OUT] + self.block(d - 1) + [Nl()]
                continue
            for _ in range(self.r.randrange(0, 3)):
                out += self.stmt(d - 1, nodecl=True)
            if self.p(0.8):
                out += ['break', ';', Nl()]
            elif self.pcom:
                out += [Com('/* FALLTHROUGH */', True)]
            else:
                out += ['return', ';', Nl()]
            out += [OUT]
        if self.p(0.5):
            out += ['default', ':', IN, Nl()] + self.stmt(0, nodecl=True) + ['break', ';', OUT, Nl()]
        else:
            out += ['case', 'LAST', ':', IN, Nl(), 'break', ';', OUT, Nl()]
        return out + ['}', Nl()]

    def localdecl(self):
        self.feat('local-decl')
        out = []
        if self.p(0.1):
            out.append('static')
        t = self.ch(TYPES).split()
        if self.p(0.1):
            t = ['const'] + t
        out += t
        n = self.r.choice([1, 1, 1, 2, 3])
        for i in range(n):
            if i:
                out.append(',')
            while self.p(0.3):
                out.append('*')
            out.append(self.ident())
            k = self.r.randrange(12)
            if k == 0:
                out += ['['] + self.expr(0) + [']']
            elif k in (1, 2, 3):
                out += ['='] + self.expr(self.r.choice([0, 1, 2]))
            elif k == 4 and n == 1 and self.p(0.5):
                out += ['['] + [']', '='] + self.braces(1)
        return out + [';', Nl()]

    def braces(self, d):
        self.feat('braces')
        out = ['{']
        multi = self.p(0.5)
        n = self.r.randrange(1, 6)
        mode = self.r.randrange(4)
        if multi:
            out += [IN, Nl()]
        for i in range(n):
            if mode == 1:
                out += ['.', self.ident(), '=']
            elif mode == 2 and self.p(0.7):
                out += ['[', self.ch(['0', '1', 'FOO', 'A_LONG_ENUM_CONSTANT', '42']), ']', '=']
            if d > 0 and self.p(0.25):
                out += self.braces(d - 1)
            else:
                out += self.expr(self.r.choice([0, 0, 1]))
            if i + 1 < n or multi and self.p(0.7):
                out.append(',')
            if multi:
                out.append(Nl())
        if multi:
            out.append(OUT)
        return out + ['}']

    # -- cpp -------------------------------------------------------------
    def cppcond(self):
        return self.ch(['ifdef FOO', 'if 0', 'ifndef BAR', 'if defined(FOO) && !defined(BAR)',
                        'if FOO > 1', 'ifdef  CONFIG_X', 'if 1'])

    def cppstmt(self, d):
        self.feat('cpp-stmt')
        out = [Nl(), Cpp('#' + self.cppcond())]
        for _ in range(self.r.randrange(1, 3)):
            out += self.stmt(d - 1)
        if self.p(0.2):
            out += [Nl(), Cpp('#elif ' + self.ch(['X', 'defined(Y)']))] + self.stmt(d - 1)
        if self.p(0.4):
            out += [Nl(), Cpp('#else')] + self.stmt(d - 1)
        return out + [Nl(), Cpp('#endif' + self.ch(['', '', ' /* FOO */']))]

    def define(self):
        self.feat('define')
        r = self.r
        n = self.ch(['FOO', 'BAR_%d' % r.randrange(100), 'MAX_LEN', 'A_LONG_MACRO_NAME'])
        k = r.randrange(10)
        if k == 0:
            return '#define %s' % n
        if k == 9:
            self.feat('define-continued-string')
            out, pad = '#define %s(x)' % n, r.choice(['', ' ', '   ', '\t', '\t\t'])
            for _ in range(r.randrange(2, 9)):
                w = r.choice(['"a%sb"', '"  %s  c"', '"\\"%sq"', "'\"'", "'\\''", '/* it\'s */', '/* " */', 'x', 'foo(x)', "'\\\\'", 'L"w%s"', '"/* %s */"', '"//%s"', 'y +', '"e\\\\"'])
                if '%s' in w:
                    w = w % r.choice(['', '', '\\\n', '  \\\n', '\\\n\t', ' \\\n  d \\\n'])
                out += r.choice([' ', ' ', pad + '\\\n\t', pad + '\\\n']) + w
            return out
        if k == 1:
            return '#define\t%s\t%d' % (n, r.randrange(1000))
        if k == 2:
            return '#define %s(a, b) ((a) + (b))' % n
        if k == 3:
            self.feat('define-multiline')
            ls = ['#define %s(x)' % n, 'do {'] + ['\tfoo(%s);' % self.ident() for _ in range(r.randrange(1, 4))] + ['} while (0)']
            pad = r.choice([' ', '\t', '\t\t\t', '   ', ''])
            return (pad + '\\\n\t').join(ls)
        if k == 4:
            return '#undef %s' % n
        if k == 5:
            return '#pragma once_%d' % r.randrange(10)
        if k == 6:
            self.feat('define-multiline')
            w = max(8, r.choice([20, 40, 72, 78]))
            ls = ['#define %s' % n] + ['\t%s +' % self.ident() for _ in range(r.randrange(1, 4))]
            return ''.join(l.ljust(w) + '\\\n' for l in ls) + '\t0'
        if k == 7:
            if r.random() < .4:
                return '#define %s %s' % (n, r.choice(LITERALS))
            return '#define %s "string with spaces  and // slashes"' % n
        return '#define %s (%s)' % (n, ' '.join(self.expr(1)))

    def include(self):
        return '#include ' + self.ch(['<stdio.h>', '<sys/types.h>', '<err.h>', '"foo.h"', '"lib/bar.h"',
                                      '<string.h>', '"a.h"', '<sys/queue.h>', '<z.h>'])

    # -- declarations ----------------------------------------------------
    def fields(self, d):
        out = []
        for _ in range(self.r.randrange(1, 6)):
            if self.pcom and self.p(self.pcom):
                out.append(Com(self.comment_text(True), True))
            k = self.r.randrange(16)
            if k == 0 and d > 0:
                self.feat('nested-struct')
                out += [self.ch(['struct', 'union']), '{', IN, Nl()] + self.fields(d - 1) + [OUT, '}']
                if self.p(0.7):
                    out += [self.ident()]
                out += [';', Nl()]
            elif k == 1:
                self.feat('bitfield')
                out += ['unsigned', 'int', self.ident(), ':', self.ch(['1', '8', '31']), ';', Nl()]
            elif k == 2:
                self.feat('func-ptr-field')
                out += self.type(False) + ['(', '*', self.ident(), ')', '('] + self.params(False, True) + [')', ';', Nl()]
            elif k == 3:
                self.feat('queue-entry')
                out += [self.ch(['TAILQ_ENTRY', 'LIST_ENTRY', 'SLIST_ENTRY', 'RB_ENTRY']), '(', self.ident(), ')', self.ident(), ';', Nl()]
            elif k == 4:
                out += self.type() + [self.ident(), '['] + self.expr(0) + [']', ';', Nl()]
            elif k == 5:
                out += self.type(False) + [self.ident(), ',', '*', self.ident(), ';', Nl()]
            elif k == 6 and self.pcpp and self.p(self.pcpp * 2):
                self.feat('cpp-field')
                out += [Nl(), Cpp('#' + self.cppcond())] + self.type() + [self.ident(), ';', Nl(), Cpp('#endif')]
            else:
                out += self.type() + [self.ident(), ';']
                if self.pcom and self.p(self.pcom):
                    out.append(Com(self.comment_text(False)))
                out += [Nl()]
        return out

    def params(self, names=True, allow_void=True):
        n = self.r.choice([0, 1, 1, 2, 3, 5, 8])
        if n == 0:
            return ['void'] if allow_void else []
        out = []
        for i in range(n):
            if i:
                out.append(',')
            k = self.r.randrange(20)
            if k == 0:
                self.feat('func-ptr-arg')
                out += ['void', '(', '*', self.ident() if names else '', ')', '('] + self.type() + [')']
                out = [o for o in out if o != '']
            elif k == 1 and names:
                out += self.type() + [self.ident(), '[', ']']
            else:
                out += self.type() + ([self.ident()] if names else [])
        if self.p(0.08):
            out += [',', '...']
        return out

    def rettype(self):
        out = []
        if self.p(0.35):
            out.append('static')
        if self.p(0.1):
            out.append(self.ch(['inline', '__inline']))
        return out + self.type()

    def attr(self):
        self.feat('attribute')
        return self.ch([['__attribute__', '(', '(', '__unused__', ')', ')'],
                        ['__attribute__', '(', '(', '__format__', '(', 'printf', ',', '1', ',', '2', ')', ')', ')'],
                        ['__attribute__', '(', '(', 'packed', ')', ')']])

    def toplevel(self, d=3):
        r = self.r
        out = []
        if self.pcom and self.p(self.pcom):
            out.append(Com(self.comment_text(True), True))
        if self.pid and self.p(self.pid):
            return out + self.idiom_top()
        k = r.randrange(100)
        if k < 34:
            self.feat('func')
            out += self.rettype() + [self.fresh('f'), '('] + self.params() + [')', Nl(), '{', IN, Nl()]
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                out += self.localdecl()
            if self.p(0.5):
                out.append(Nl(2))
            for _ in range(r.randrange(0, 6)):
                out += self.stmt(d)
            out += [OUT, '}', Nl(2)]
        elif k < 48:
            self.feat('proto')
            for _ in range(r.randrange(1, 5)):
                out += self.rettype() + [self.fresh('p'), '('] + self.params(self.p(0.5)) + [')']
                if self.p(0.1):
                    out += self.attr()
                out += [';', Nl()]
            out += [Nl(2)]
        elif k < 60:
            self.feat('struct')
            kw = self.ch(['struct', 'struct', 'union'])
            out += ([self.ch(['static', 'typedef'])] if self.p(0.15) else [])
            td = bool(out and out[-1] == 'typedef')
            out += [kw, self.fresh('s'), '{', IN, Nl()] + self.fields(2) + [OUT, '}']
            if self.p(0.1):
                out += self.attr()
            if td:
                out += [self.fresh('t')]
            elif self.p(0.2):
                out += [self.fresh('g')]
            out += [';', Nl(2)]
        elif k < 66:
            self.feat('enum')
            out += ['enum', self.fresh('e'), '{', IN, Nl()]
            n = r.randrange(1, 7)
            for i in range(n):
                out += [self.fresh('E').upper()]
                if self.p(0.3):
                    out += ['='] + self.expr(1)
                if i + 1 < n or self.p(0.6):
                    out += [',']
                if self.pcom and self.p(self.pcom):
                    out.append(Com(self.comment_text(False)))
                out += [Nl()]
            out += [OUT, '}', ';', Nl(2)]
        elif k < 78:
            self.feat('global')
            for _ in range(r.randrange(1, 4)):
                out += (['static'] if self.p(0.4) else []) + (['extern'] if False else []) + self.type() + [self.fresh('g')]
                z = r.randrange(6)
                if z == 0:
                    out += ['[', ']', '='] + self.braces(2)
                elif z == 1:
                    out += ['='] + self.expr(1)
                elif z == 2:
                    out += ['['] + self.expr(1) + [']']
                elif z == 3 and self.p(0.5):
                    out += ['='] + self.braces(1)
                out += [';', Nl()]
            out += [Nl(2)]
        elif k < 84:
            for _ in range(r.randrange(1, 5)):
                out += [Nl(), Cpp(self.define())]
            out += [Nl(2)]
        elif k < 88:
            for _ in range(r.randrange(1, 4)):
                out += [Nl(), Cpp(self.include())]
            out += [Nl(2)]
        elif k < 91:
            self.feat('typedef')
            out += ['typedef'] + self.type() + [self.fresh('t'), ';', Nl()]
        elif k < 93:
            self.feat('forward')
            for _ in range(r.randrange(1, 4)):
                out += ['struct', self.fresh('s'), ';', Nl()]
        elif k < 95:
            self.feat('queue-head')
            out += ['TAILQ_HEAD', '(', self.fresh('h'), ',', self.ident(), ')', self.ident(), ';', Nl()]
        elif k < 97 and self.p(self.pex):
            self.feat('func-ptr-var')
            out += ['static', 'int', '(', '*', self.fresh('fp'), ')', '('] + self.params(False) + [')', ';', Nl()]
        elif self.pcpp and self.p(min(1, self.pcpp * 3)):
            self.feat('cpp-top')
            out += [Nl(), Cpp('#' + self.cppcond())] + self.toplevel(d - 1)
            if self.p(0.4):
                out += [Nl(), Cpp('#else')] + self.toplevel(d - 1)
            out += [Nl(), Cpp('#endif'), Nl(2)]
        else:
            out += ['static', 'const', 'char', '*', self.fresh('s'), '=', self.ch(STRS), ';', Nl()]
        return out

    def program(self):
        out = []
        if self.p(0.3):
            out += [Com(self.comment_text(True), True), Nl(2)]
        while True:
            out += self.toplevel()
            if sum(1 for o in out if isinstance(o, str)) >= self.size:
                return out


def _wordy(c):
    return c.isalnum() or c in '_$"\'.'


def needs_space(a, b):
    """Whether tokens a and b must be separated to stay the same tokens."""
    x, y = a[-1], b[0]
    if _wordy(x) and _wordy(y):
        return True
    if a[0].isdigit() and x in 'eEpP' and y in '+-':
        return True      # 0xE+1 is one preprocessing number
    if x in '+-*/%&|^=<>!:#' and y in '+-*/%&|^=<>!:#.':
        return True
    return False


LAYOUTS = ['canonical', 'canonical', 'dense', 'sparse', 'random', 'lines', 'crlfless']
NO_SPACE_BEFORE = {';', ',', ')', ']', '[', '++', '--', '.', '->'}
NO_SPACE_AFTER = {'(', '[', '!', '~', '.', '->'}


def render(items, rng, layout=None):
    """Source text of the items with the given layout."""
    layout = layout or rng.choice(LAYOUTS)
    out = []
    depth = 0
    bol = True           # at beginning of line
    prev = None          # previous token on this line
    glue = False

    def nl(n=1):
        nonlocal bol, prev
        if not bol:
            out.append('\n')
        for _ in range(n - 1):
            out.append('\n')
        bol = True
        prev = None

    def indent():
        if layout == 'canonical':
            out.append('\t' * max(depth, 0))
        elif layout == 'sparse':
            out.append(' ' * (4 * max(depth, 0)))
        elif layout == 'random':
            out.append(rng.choice(['', '\t' * max(depth, 0), ' ' * rng.randrange(0, 12), ' \t']))
        elif layout == 'lines':
            out.append(rng.choice(['', '\t', '  ']))

    for it in items:
        if it is IN:
            depth += 1
            continue
        if it is OUT:
            depth -= 1
            continue
        if it is BOL:
            nl()
            continue
        if it is GLUE:
            glue = True
            continue
        if isinstance(it, Nl):
            if layout == 'dense':
                continue
            if layout == 'random' and it.n == 1 and rng.random() < 0.3:
                continue
            if layout in ('sparse', 'random') and rng.random() < 0.2:
                nl(rng.randrange(1, 5))
                continue
            nl(it.n)
            continue
        if isinstance(it, Cpp):
            nl()
            out.append(it.t + '\n')
            bol, prev = True, None
            continue
        if isinstance(it, Raw):
            nl()
            out.append(it.t)
            if not it.t.endswith('\n'):
                out.append('\n')
            bol, prev = True, None
            continue
        if isinstance(it, Com):
            if it.own or (it.t.count('\n') and not bol):
                nl()
                indent()
                out.append(it.t.replace('\n', '\n' + ('\t' * max(depth, 0) if layout == 'canonical' else '')) + '\n')
                bol, prev = True, None
            else:
                if not bol:
                    out.append(rng.choice([' ', '\t', '  ']) if layout != 'dense' else ' ')
                else:
                    indent()
                out.append(it.t)
                bol = False
                prev = ' '
                if it.t.startswith('//'):
                    out.append('\n')
                    bol, prev = True, None
            continue
        t = it
        if bol:
            indent()
        elif not glue:
            need = needs_space(prev, t)
            if layout == 'dense':
                out.append(' ' if need else '')
            elif layout == 'canonical':
                if need or not (t in NO_SPACE_BEFORE or prev in NO_SPACE_AFTER or (t == '(' and prev[-1:].isalnum() and prev not in ('if', 'for', 'while', 'switch', 'return'))):
                    out.append(' ')
            elif layout == 'sparse':
                out.append(rng.choice([' ', '  ', ' ', '\t', ' ']))
            elif layout == 'lines':
                k = rng.random()
                if k < 0.25:
                    out.append('\n')
                    bol = True
                    indent()
                elif need or k < 0.6:
                    out.append(' ')
            else:
                k = rng.random()
                if k < 0.03:
                    out.append('\n' * rng.choice([1, 1, 2, 3]))
                    bol = True
                    indent()
                elif k < 0.05:
                    out.append(' \\\n ')
                elif need or k < 0.7:
                    out.append(rng.choice([' ', ' ', '  ', '\t']))
        glue = False
        out.append(t)
        bol = False
        prev = t
    s = ''.join(out)
    if not s.endswith('\n') and rng.random() < 0.9:
        s += '\n'
    return s


def program(rng, **kw):
    g = Gen(rng, **kw)
    items = g.program()
    return items, g.features


if __name__ == '__main__':
    import sys
    rng = random.Random(int(sys.argv[1]))
    it, f = program(rng, size=int(sys.argv[2]) if len(sys.argv) > 2 else 100, comments=0.1, cpp=0.1)
    sys.stdout.write(render(it, rng, sys.argv[3] if len(sys.argv) > 3 else None))
