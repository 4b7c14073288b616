"""Oracles over C sources: normal forms that formatting must preserve."""
import re
import clex

CTRL = {'if', 'for', 'while', 'switch'}


def _is_ident(t):
    return t[0].isalpha() or t[0] == '_'


def dropsemi(toks):
    """Removes redundant semicolons: the ones that follow another semicolon, or
    the right brace of a statement block or function body.

    Semicolons inside parentheses (for loops) and ones that are the body of a
    statement are kept, as is the one that ends a declaration."""
    out = []
    stack = []        # (bracket, is_block, index of opening in out)
    last_rbrace_block = False
    match = {}        # index of ')' in out -> index of '('
    for t in toks:
        if t == ';':
            top = stack[-1][0] if stack else None
            j = len(out) - 1
            # directives in between do not make it less redundant
            while j >= 0 and out[j].startswith('#'):
                j -= 1
            prev = out[j] if j >= 0 else None
            if top in (None, '{') and (prev in (';', '{') or prev is None or
                                       (prev == '}' and last_rbrace_block)):
                continue
        elif t in '([{':
            block = False
            if t == '{':
                j = len(out) - 1
                while j >= 0 and out[j].startswith('#'):
                    j -= 1
                prev = out[j] if j >= 0 else None
                if prev in ('else', 'do', ';', '}', ':', '{', None):
                    # a brace after a brace or a semicolon: nested block, unless
                    # inside an initializer
                    block = prev != '{' or bool(stack and stack[-1][1])
                elif prev == ')':
                    k = match.get(j)
                    before = out[k - 1] if k else None
                    block = before is not None and (_is_ident(before) and before not in ('return', 'sizeof', 'case')
                                                    or before in (')', '{'))
                elif prev == '(':
                    block = True    # GNU statement expression
            stack.append((t, block, len(out)))
        elif t in ')]}' and len(t) == 1:
            if stack:
                b, blk, idx = stack.pop()
                if t == ')':
                    match[len(out)] = idx
                if t == '}':
                    last_rbrace_block = blk
        out.append(t)
    return out


def norm(data):
    """(code tokens and directives, comments, merged sequence) of a source."""
    items = clex.scan(data.decode('latin-1'))
    code, com, merged = [], [], []
    for x in items:
        if x.kind == 'com':
            t = clex.norm_comment(x.text)
            com.append(t)
            merged.append('/' + t)
        else:
            t = clex.norm_cpp(x.text) if x.kind == 'cpp' else x.text
            code.append(t)
            merged.append(t)
    return code, com, merged


def first_diff(a, b, ctx=4):
    n = min(len(a), len(b))
    i = 0
    while i < n and a[i] == b[i]:
        i += 1
    return 'at item %d: input ...%s, output ...%s' % (i, a[max(0, i - ctx):i + ctx], b[max(0, i - ctx):i + ctx])


def comments(data):
    """List of (number of words of code before, number of directives before,
    normalized text) for every comment and directive of a source."""
    out = []
    words = 0
    for x in clex.scan(data.decode('latin-1')):
        if x.kind == 'com':
            out.append((words, clex.norm_comment(x.text)))
        elif x.kind == 'cpp':
            out.append((words, clex.norm_cpp(x.text)))
        elif x.text[0].isalnum() or x.text[0] in '_"\'$':
            words += 1
    return out
