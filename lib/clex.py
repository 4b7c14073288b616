"""An independent C scanner used by the oracles.

Deliberately unrelated to knfmt's lexer: splits a source file in a sequence of
(kind, text) items:

  'tok'  identifier, number, string, character constant or punctuator
  'com'  comment (block or line)
  'cpp'  one preprocessor directive, continuation lines included
"""
import re

_PUNCT = ['...', '<<=', '>>=', '->', '++', '--', '<<', '>>', '<=', '>=', '==', '!=',
          '&&', '||', '*=', '/=', '%=', '+=', '-=', '&=', '^=', '|=', '##']
_TOK = re.compile(r'''
    (?P<ws>[ \t\r\f\v]+|\n)
  | (?P<bs>\\\r?\n|\\)
  | (?P<com>/\*.*?\*/|//(?:\\\r?\n|[^\n])*)
  | (?P<str>(?:L|u8|u|U)?"(?:\\\r?\n|\\.|[^"\\\n])*")
  | (?P<chr>(?:L|u8|u|U)?'(?:\\.|[^'\\\n])*')
  | (?P<num>\.?[0-9](?:[eEpP][+-]|[A-Za-z0-9_.'])*)
  | (?P<id>[A-Za-z_$\x80-\U0010ffff][A-Za-z0-9_$\x80-\U0010ffff]*)
  | (?P<op>%s)
  | (?P<any>.)
''' % '|'.join(re.escape(p) for p in _PUNCT) , re.X | re.S)
_HASH = re.compile(r'[ \t]*#')


def _cpp_end(s, i):
    """Offset one past the directive starting at i (newline excluded).

    A block comment inside the directive may span lines and then carries the
    directive on."""
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\n':
            return i
        if c == '\\':
            if s.startswith('\\\r\n', i):
                i += 3
            else:
                i += 2
            continue
        if c == '/' and s.startswith('/*', i):
            j = s.find('*/', i + 2)
            if j < 0:
                return n
            i = j + 2
            continue
        if c == '/' and s.startswith('//', i):
            i += 2
            while i < n and s[i] != '\n':
                i += 2 if s[i] == '\\' else 1
            return min(i, n)
        if c in '"\'':
            q = c
            j = i + 1
            ok = False
            while j < n and s[j] != '\n':
                if s[j] == '\\':
                    j += 2
                    continue
                if s[j] == q:
                    ok = True
                    break
                j += 1
            i = j + 1 if ok else i + 1
            continue
        i += 1
    return n


class Item:
    __slots__ = ('kind', 'text', 'off', 'line', 'bol')

    def __init__(self, kind, text, off, line, bol):
        self.kind, self.text, self.off, self.line, self.bol = kind, text, off, line, bol

    def __repr__(self):
        return '%s:%d:%r' % (self.kind, self.line, self.text)


def scan(s):
    """List of items of the source text s (str, latin-1 decoded bytes)."""
    out = []
    i, n, line, bol = 0, len(s), 1, True
    while i < n:
        if bol:
            m = _HASH.match(s, i)
            if m:
                e = _cpp_end(s, m.end())
                out.append(Item('cpp', s[m.end() - 1:e], m.end() - 1, line, True))
                line += s.count('\n', i, e)
                i = e
                bol = False
                continue
        m = _TOK.match(s, i)
        k = m.lastgroup
        t = m.group()
        if k == 'ws':
            if t == '\n':
                bol = True
        elif k == 'bs':
            pass
        elif k == 'com':
            out.append(Item('com', t, i, line, bol))
            # a comment does not end the "beginning of line" state in C, but
            # directives after a comment are too exotic to consider
            bol = bol and False
        else:
            out.append(Item('tok', t, i, line, bol))
            bol = False
        line += t.count('\n')
        i = m.end()
    return out


_WS = re.compile(r'\s+')


def norm_comment(t):
    return _WS.sub('', t)


def norm_cpp(t):
    """Directive modulo white space and line continuations outside literals."""
    t = re.sub(r'\\\r?\n', ' ', t)
    out = []
    pos = 1
    for m in _TOK.finditer(t, 1):
        k = m.lastgroup
        if k == 'ws':
            continue
        if k == 'bs':
            continue
        if k == 'com':
            out.append(norm_comment(m.group()))
            continue
        out.append(m.group())
    return '#' + '\x01'.join(out)
