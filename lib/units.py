"""Units of code whose layout under a style can be predicted exactly."""
import clex, styles

SLACK = 1        # a break leaves room for the blank it replaces
ALPHA = 'abcdefghijklmnopqrstuvwxyz'


def name(r, lo=1, hi=12):
    while True:
        n = ''.join(r.choice(ALPHA) for _ in range(r.randrange(lo, hi + 1)))
        if n not in ('if', 'do', 'for', 'int', 'char', 'auto', 'long', 'case', 'else', 'enum', 'goto', 'void', 'asm', 'bool', 'float', 'short',
                     'break', 'const', 'union', 'while', 'inline', 'return', 'signed', 'sizeof', 'static', 'struct', 'switch', 'double', 'extern',
                     'typeof', 'restrict', 'volatile', 'unsigned', 'register', 'typedef', 'default', 'continue'):
            return n


def sp(r):
    return r.choice(['', ' ', '  ', '\t', ' '])


def width(s, start=0):
    w = start
    for ch in s:
        w = (w // 8 + 1) * 8 if ch == '\t' else w + 1
    return w


class P:
    """One program under one style; collects expectations as functions of the output."""

    def __init__(self, r, o):
        self.r, self.o = r, o
        self.src = []
        self.exp = []           # (unit source, function(lines) -> (error or None, nontrivial))
        self.k = 0
        self.W = int(o.get('IndentWidth', 8))
        self.C = int(o.get('ContinuationIndentWidth', 4))
        self.L = int(o.get('ColumnLimit', 80)) or 10 ** 9
        w = o.get('BraceWrapping', {})
        linux = o.get('BreakBeforeBraces', 'Linux') == 'Linux'
        self.brace = {k: w.get('After' + k) == 'true' for k in ('Function', 'Struct', 'Union', 'Enum')}
        self.brace['Function'] |= linux
        self.align = o.get('AlignOperands') in ('Align', 'true')
        self.ret = o.get('AlwaysBreakAfterReturnType', 'AllDefinitions')

    def fresh(self, p):
        self.k += 1
        return '%s%dq' % (p, self.k)

    def add(self, unit, marker, fn):
        self.src.append(unit)
        self.exp.append((unit, marker, fn))

    def rtype(self):
        return self.r.choice(['int', 'static int', 'struct s *', 'static const char *', 'unsigned long', 'void', 'static inline int'])

    def proto(self):
        r = self.r
        n = self.fresh('p')
        t = self.rtype()
        args = r.choice(['void', 'int, char', 'int %s, char *%s' % (name(r, 1, 4), name(r, 1, 4)), 'struct s *'])
        brk = self.ret in ('All', 'TopLevel')

        def fn(lines, k):
            bol = lines[k].lstrip().startswith(n)
            if bol != brk:
                return 'prototype %s: return type %s' % (n, 'on a line of its own' if bol else 'not on a line of its own'), True
            return None, True
        self.add('%s%s%s%s(%s%s)%s;\n' % (t, '' if t.endswith('*') else ' ', sp(r), n, args, sp(r), sp(r)), n, fn)

    def func(self):
        r = self.r
        n = self.fresh('f')
        t = self.rtype()
        brk = self.ret != 'None'
        units = []
        fns = []
        for _ in range(r.randrange(1, 5)):
            u, f = r.choice([self.call, self.chain, self.cond, self.ternary, self.loop])(1)
            units.append(u)
            fns.append(f)
        body = ' '.join(units)

        def fn(lines, k):
            bol = lines[k].lstrip().startswith(n)
            if bol != brk:
                return 'definition %s: return type %s' % (n, 'on a line of its own' if bol else 'not on a line of its own'), True
            att = lines[k].rstrip().endswith('{')
            if att == self.brace['Function']:
                return 'definition %s: brace %s' % (n, 'on the same line' if att else 'not on the same line'), True
            if not att and lines[k + 1] != '{':
                return 'definition %s: brace not at the start of the next line' % n, True
            return None, True
        self.add('%s%s%s(void)%s{%s%s%s}\n' % (t, '' if t.endswith('*') else ' ', n, r.choice(['', ' ', '\n']), sp(r), body, sp(r)), n, fn)
        for f in fns:
            self.exp.append(f)

    def indent(self, depth):
        w = depth * self.W
        return w

    def fill(self, what, words, depth, first, cont, tail=''):
        """Expectation: words laid out greedily; a line is broken only when the next word does not fit."""
        def fn(lines, k):
            got = []
            # Collect the lines of the statement.
            text = lines[k]
            j = k
            joined = ''.join(words)
            while True:
                got.append(lines[j])
                if ''.join(''.join(got).split()).startswith(''.join(joined.split())):
                    break
                j += 1
                if j >= len(lines) or j - k > 60:
                    return what + ' not found in the output: %r' % lines[k:k + 4], False
            ind = self.indent(depth)
            for i, l in enumerate(got):
                if width(l) > self.L:
                    return '%s: line of %d columns under ColumnLimit %d: %r' % (what, width(l), self.L, l), True
                lw = width(l[:len(l) - len(l.lstrip(' \t'))])
                if i and cont is None:
                    continue
                want = ind + cont if i else ind
                # An aligned statement falls back to plain continuation where that saves a line.
                if lw != want and not (i and cont != self.C and lw == ind + self.C):
                    return '%s: line %d indented by %d instead of %d columns: %r' % (what, i + 1, lw, want, l), True
            # Break points: walk the words through the lines.
            pos = 0
            for i, l in enumerate(got):
                rest = l.strip()
                used = ''
                while pos < len(words):
                    cand = words[pos].strip() if not used else used + words[pos]
                    if rest.startswith(cand):
                        used = cand
                        pos += 1
                    else:
                        break
                if pos == len(words):
                    break
                if used != rest:
                    return '%s: line broken at another place than the operator side demands: %r (expected pieces %r)' % (what, l, words[:6]), True
                if width(l) + len(words[pos].rstrip()) + (len(tail) if pos == len(words) - 1 else 0) < self.L - SLACK:
                    return '%s: line broken although %r fits into %d columns: %r' % (what, words[pos], self.L, l), True
            return None, len(got) > 1
        return fn

    def nest(self, depth, s):
        return s

    def call(self, depth):
        r = self.r
        n = self.fresh('c')
        args = [name(r) for _ in range(r.randrange(1, 14))]
        words = [n + '(' + args[0] + (',' if len(args) > 1 else ');')]
        for i, a in enumerate(args[1:], 1):
            words.append(' ' + a + (',' if i < len(args) - 1 else ');'))
        cont = len(n) + 1 if self.o.get('AlignAfterOpenBracket') == 'Align' else self.C
        src = n + sp(r) + '(' + (sp(r) + ',' + sp(r)).join(args) + sp(r) + ')' + sp(r) + ';'
        return src, (src, n, self.fill('call', words, depth, 0, cont))

    def pieces(self, head, ops, op, tail, before):
        """Words of head ops[0] op ops[1] ... tail with breaks before or after the operator."""
        words = []
        for i, a in enumerate(ops):
            last = i == len(ops) - 1
            if before:
                words.append((head + a if i == 0 else ' ' + op + ' ' + a) + (tail if last else ''))
            else:
                words.append((head if i == 0 else ' ') + a + (' ' + op if not last else tail))
        return words

    def chain(self, depth):
        r = self.r
        op = r.choice(['+', '-', '&&', '||', '|', '&'])
        n = self.fresh('r')
        ops = [name(r) for _ in range(r.randrange(2, 14))]
        before = self.o.get('BreakBeforeBinaryOperators', 'None') != 'None'
        words = self.pieces(n + ' = ', ops, op, ';', before)
        src = n + sp(r) + '=' + sp(r) + (' ' + sp(r)).join(x for i, a in enumerate(ops) for x in ([op, a] if i else [a])) + sp(r) + ';'
        return src, (src, n, self.fill('operator chain', words, depth, 0, len(n) + 3 if self.align else self.C))

    def cond(self, depth):
        r = self.r
        op = r.choice(['&&', '||'])
        n = self.fresh('i')
        ops = [n] + [name(r) for _ in range(r.randrange(1, 12))]
        before = self.o.get('BreakBeforeBinaryOperators', 'None') != 'None'
        kw = r.choice(['if', 'while'])
        words = self.pieces(kw + ' (', ops, op, ')', before)
        # Without a style file, the indentation is the one of style(9).
        align = bool(self.o)
        src = kw + sp(r) + '(' + (' ' + sp(r)).join(x for i, a in enumerate(ops) for x in ([op, a] if i else [a])) + sp(r) + ')' + ' ' + n + 'b();'
        return src, (src, n, self.fill('condition', words, depth, 0, len(kw) + 2 if align else self.C))

    def loop(self, depth):
        r = self.r
        n, b, d = self.fresh('l'), self.fresh('m'), self.fresh('n')
        long = self.L > 60 and r.random() < .8
        a, e, g = (name(r, 12, 20) if long else name(r) for _ in range(3))
        b, d = (b + '_' + name(r, 8, 12), d + '_' + name(r, 8, 12)) if long else (b, d)
        want = self.indent(depth) + (5 if self.align else self.C)
        src = 'for' + sp(r) + '(' + n + sp(r) + '=' + sp(r) + a + sp(r) + ';' + sp(r) + b + ' < ' + e + sp(r) + ';' + sp(r) + d + ' = ' + g + ')' + ' ' + n + 'b();'

        def fn(lines, k):
            seen = False
            for j in range(k + 1, min(k + 8, len(lines))):
                l = lines[j]
                if l.lstrip(' \t').startswith((b, d)):
                    seen = True
                    lw = width(l[:len(l) - len(l.lstrip(' \t'))])
                    if lw != want:
                        return 'for: line indented by %d instead of %d columns: %r' % (lw, want, l), True
                if n + 'b' in l:
                    break
            return None, seen
        return src, (src, n, fn)

    def ternary(self, depth):
        r = self.r
        n = self.fresh('t')
        a, b, d = name(r), name(r), name(r)
        if self.L > 60:
            a, b, d = a + '_' + name(r) + '_x', b + '_' + name(r) + '_y', d + '_' + name(r) + '_z'
        before = self.o.get('BreakBeforeTernaryOperators') == 'true'
        words = ['%s = %s' % (n, a), ' ? ' + b, ' : %s;' % d] if before else ['%s = %s ?' % (n, a), ' %s :' % b, ' %s;' % d]
        src = n + sp(r) + '=' + sp(r) + a + ' ' + sp(r) + '?' + ' ' + b + sp(r) + ' :' + sp(r) + d + sp(r) + ';'
        return src, (src, n, self.fill('conditional expression', words, depth, 0, None if self.align else self.C))

    def record(self):
        r = self.r
        kind = r.choice(['struct', 'union', 'enum'])
        n = self.fresh('s')
        want = self.brace[kind.capitalize()]
        body = 'A%s, B%s' % (n, n) if kind == 'enum' else 'int %s; char *%s;' % (name(r, 2), name(r, 2))
        nl = '\n'

        def fn(lines, k):
            att = lines[k].rstrip().endswith('{')
            if att == want:
                return '%s %s: brace %s' % (kind, n, 'on the same line' if att else 'not on the same line'), True
            if not att and not lines[k + 1].startswith('{'):
                return '%s %s: brace not at the start of the next line: %r' % (kind, n, lines[k:k + 2]), True
            return None, True
        self.add('%s %s%s{%s%s%s};\n' % (kind, n, r.choice(['', ' ', '\n']), nl, body, nl), n, fn)

    def bitfield(self):
        r = self.r
        n = self.fresh('b')
        v = self.o.get('BitFieldColonSpacing', 'None')
        want = {'None': '%s:%d;', 'Both': '%s : %d;', 'Before': '%s :%d;', 'After': '%s: %d;'}[v]
        fs = [(self.fresh('m'), r.randrange(1, 9)) for _ in range(r.randrange(1, 4))]

        def fn(lines, k):
            text = '\n'.join(lines[k:k + len(fs) + 3])
            for f, w in fs:
                if want % (f, w) not in text:
                    return 'bit-field %s is not spelled %r: %r' % (f, want % (f, w), text), True
            return None, True
        self.add('struct %s {\n%s\n};\n' % (n, '\n'.join('unsigned int%s %s%s:%s%d%s;' % (sp(r), f, sp(r), sp(r), w, sp(r)) for f, w in fs)), n, fn)

    def macro(self):
        r = self.r
        n = self.fresh('M')
        rows = ['r%d' % k + ''.join(' ' + name(r, 1, 4) for _ in range(r.randrange(0, 2))) for k in range(r.randrange(3, 7))]
        mode = self.o.get('AlignEscapedNewlines', 'Right')
        # Neither aligned nor separated by single spaces, so that the option decides.
        src, wid = '', r.choice([[30, 25, 20], [20, 25, 33], [28, 20, 28], [22, 30, 21]])
        for j, x in enumerate(['#define %s%s' % (n, r.choice(['', '(a)']))] + rows[:-1]):
            x = '\t' + x if j else x
            src += x + ' ' * (wid[j % 3] - width(x)) + '\\\n'
        src += '\t' + rows[-1] + '\n'

        def fn(lines, k):
            ls = lines[k:k + len(rows)]
            if not all(l.endswith('\\') for l in ls):
                return 'macro %s: lost an escaped newline: %r' % (n, ls), True
            cols = [width(l[:-1]) for l in ls]
            if mode == 'DontAlign':
                for l in ls:
                    if not l[:-1].endswith(' ') or l[:-1].rstrip(' \t') + ' ' != l[:-1]:
                        return 'macro %s: backslash not after a single space: %r' % (n, l), True
            elif len(set(cols)) != 1:
                return 'macro %s: backslashes not aligned: %r' % (n, ls), True
            elif mode == 'Right' and self.L < 10 ** 9 and abs(cols[0] - (self.L - self.W)) > 8:
                return 'macro %s: backslash in column %d under ColumnLimit %d' % (n, cols[0] + 1, self.L), True
            return None, True
        self.add(src, n, fn)

    def build(self):
        for _ in range(self.r.randrange(3, 9)):
            self.r.choice([self.proto, self.func, self.func, self.func, self.record, self.bitfield, self.macro])()
        return '\n'.join(self.src)


def check(out, p):
    lines = out.decode('latin-1').split('\n')
    res = []
    for unit, marker, fn in p.exp:
        ks = [k for k, l in enumerate(lines) if marker in l]
        if not ks:
            res.append(('unit not found in the output', False, unit))
            continue
        e, nt = fn(lines, ks[0])
        res.append((e, nt, unit))
    return res
