"""Workload for the memory safety monitors: hostile inputs run through
AddressSanitizer + UndefinedBehaviorSanitizer builds (and memcheck)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import difflib, re
import vlib, gen, mutate, styles

FLAGS = [[], [], ['-s'], ['-s'], ['-d'], ['-ds'], ['-taaa'], ['-s', '-taa']]

CORPUS = [d for _, d in vlib.corpus() if len(d) < 16000]


def special(r):
    """Hand shaped hostile texts: sizes at powers of two, unterminated
    constructs, deep nesting, long tokens, odd bytes."""
    k = r.randrange(24)
    n = r.choice([1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097,
                  8191, 8192, 16384, 65535, 65536])
    m = min(n, 400)
    if k == 0:
        return b'x' * n
    if k == 1:
        return b'int ' + b'a' * n + b';\n'
    if k == 2:
        return b'/*' + b'c' * n
    if k == 3:
        return b'"' + b's' * n
    if k == 4:
        return b"int x = '" + b'\\' * n
    if k == 5:
        return b'int x[] = ' + b'{' * m + b'1' + b'}' * m + b';\n'
    if k == 6:
        return b'int f(void)\n{\n\tx = ' + b'(' * min(n, 120) + b'1' + b')' * min(n, 120) + b';\n}\n'
    if k == 7:
        return b'#define A \\\n' + b'\tx \\\n' * m
    if k == 8:
        return b'#if 1\n' * m + b'int x;\n' + b'#endif\n' * r.choice([m, m - 1, m + 1, 0])
    if k == 9:
        return b'int x;' + b'\n' * n
    if k == 10:
        return b'int f(void)\n{\n' + b'\tif (a)\n' * min(n, 60) + b'\t\tx();\n}\n'
    if k == 11:
        return b'int f(void)\n{\n' + b'if (a) {\n' * min(n, 100) + b'}' * min(n, 100) + b'\n}\n'
    if k == 12:
        return b'struct s {\n' + b'\tint a;\n' * m + b'};\n'
    if k == 13:
        return b'enum e {\n' + b''.join(b'\tE%d,\t/* c */\n' % i for i in range(m)) + b'};\n'
    if k == 14:
        return b'int f(void)\n{\n\tfoo(' + b', '.join([b'a' * r.choice([1, 10, 90])] * m) + b');\n}\n'
    if k == 15:
        return bytes(r.randrange(256) for _ in range(min(n, 2000)))
    if k == 16:
        return b'\\\n' * min(n, 2000) + b'int x;\n'
    if k == 17:
        return b'int x; // ' + b'\\\n' * m
    if k == 18:
        return b'int f(void)\n{\n\tx = a' + b' ? b : c' * min(n, 60) + b';\n}\n'
    if k == 19:
        return b'int f(void)\n{\n\tx = a' + b''.join(r.choice([b' + ', b' && ', b' == ', b'=', b', ', b' . ', b'->']) + b'b' for _ in range(min(n, 150))) + b';\n}\n'
    if k == 20:
        src = r.choice(CORPUS)
        return src.replace(b'\n', b'\r\n') if r.random() < .5 else src.replace(b' ', b'\t' * r.choice([1, 3]))
    if k == 21:
        body = r.choice([b'{\n\t\tx();\n\t}', b'\n\t\tx();\n\t', b'{ x(); y(); }'])
        return b'int f(void)\n{\n\tif (a) ' + b''.join(body + b' else if (b%d) ' % i for i in range(min(n, 130))) + body + b'\n}\n'
    if k == 22:
        return b'int f(void)\n{\n\tswitch (a) {\n' + b''.join(b'\tcase %d: %s\n' % (i, r.choice([b'', b'x();', b'{ x(); }', b'break;'])) for i in range(min(n, 300))) + b'\t}\n}\n'
    return r.choice(CORPUS)[:n]


def source(r):
    """One C source, valid or hostile; returns (class, bytes)."""
    k = r.random()
    if k < 0.60:
        return 'mutant', mutate.mutate(r, r.choice(CORPUS), CORPUS)
    if k < 0.70:
        return 'special', special(r)
    items, _ = gen.program(r, size=r.choice([20, 60, 200]), comments=r.choice([0, .15]), cpp=r.choice([0, .15]))
    s = gen.render(items, r).encode('latin-1')
    if k < 0.85:
        return 'generated', s
    return 'generated-mutant', mutate.mutate(r, s, CORPUS)


def style_text(r):
    return styles.style(r, include=True)[1]


# ---------------------------------------------------------------- style files
_STY = []


def style_corpus():
    global _STY
    if _STY:
        return _STY
    for _, t in vlib.corpus(('style',)):
        m = re.match(rb'/\*\n(.*?)\*/', t, re.S)
        if m and b':' in m.group(1):
            _STY.append(re.sub(rb'(?m)^ \*( |$)', b'', m.group(1)))
    import random
    for i in range(60):
        _STY.append(styles.style(random.Random(i), include=True, based=.5)[1].encode())
    ic = (b"IncludeBlocks: Regroup\nSortIncludes: CaseSensitive\nIncludeCategories:\n  - Regex: '^<'\n    Priority: 1\n"
          b"    SortPriority: 2\n    CaseSensitive: true\n  - Regex: '.*'\n    Priority: -2\n")
    _STY += [ic] * 10 + [ic + s for s in _STY[:20]]
    _STY += [b'IncludeGuards: 1\n', b'IncludeGuards: 2\n', b'IncludeGuards: 9\n']
    return _STY


STYLE_DICT = [b'Regex', b'Priority', b'IncludeCategories:\n', b'- ', b"'", b':', b'---\n', b'...\n', b'#', b'-',
              b'Language: Cpp\n', b'Language: Java\n', b'true', b'ColumnLimit: 0\n', b'IndentWidth: 0\n',
              b'ContinuationIndentWidth: 0\n', b'IncludeGuards: 1\n', b'99999999999', b'-1', b"Regex: '['\n",
              b'BraceWrapping:\n', b'\n', b'BasedOnStyle: ', b'UseTab', b'  - Regex: x\n    Priority: 3\n', b'"', b'\\', b'\x00',
              b"'\\'", b'4294967296', b'2147483648', b'18446744073709551616', b'[', b'{', b'\t', b'\r\n'] + \
    [k.encode() for k in list(styles.ENUMS) + styles.WRAP] + [b'BasedOnStyle: ' + s.encode() + b'\n' for s in styles.BASED]


def style_mutant(r):
    sty = style_corpus()
    save = mutate.DICT[:]
    mutate.DICT[:] = STYLE_DICT + save[:20]
    try:
        return mutate.mutate(r, r.choice(sty), sty)
    finally:
        mutate.DICT[:] = save


STYLE_SRC = [b'/* c */\n#include "b.h"\n#include <a.h>\n\n#include "x/a.h"\n#include <z.h>\n\n#define A(x) do { \\\n\tx; \\\n} '
             b'while (0)\n\nstatic int foo(int a, char *b)\n{\n\tif (a && b || aaaaaaaaaaaaaaaaaaaaaaaaaaa && '
             b'bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb && cccccccccccccccccccccc) {\n\t\tx = a ? b : c;\n\t}else{y();}\n'
             b'\tdo{ }while(0);\n}\nstruct s { int a:1; };\nextern "C" {\nint x;\n}\n',
             b'#ifndef A_H\n#define A_H\nint x;\n#endif\n']

# ------------------------------------------------------------------- diffs
DIFF_DICT = [b'@@ -1,3 +1,4 @@\n', b'@@ -1 +1 @@\n', b'@@ -0,0 +1,5 @@\n', b'+++ b/a.c\n', b'+++ a.c\n', b'--- a/a.c\n',
             b'+\n', b'-\n', b' \n', b'\\ No newline at end of file\n', b'@@ -1 +4294967295,5 @@\n',
             b'@@ -1 +1,4294967295 @@\n', b'@@ -3,0 +3,0 @@\n', b'+int x;\n', b'1', b'0', b'9999', b'+++ b/../a.c\n', b'+++ /a.c\n',
             b'+++ b/\n', b'+++ \n', b'+++ a/a.c\n', b'@@ -1 +99999999999999999999,1 @@\n', b'@@ -5 +2 @@ foo(\n']


def diff_case(r):
    """(source, diff, mutated?)"""
    if r.random() < .5:
        src = r.choice([c for c in (r.choice(CORPUS) for _ in range(4)) if len(c) < 5000] or [CORPUS[0]])
    else:
        it, _ = gen.program(r, size=r.choice([20, 60, 150]), comments=.1, cpp=.1)
        src = gen.render(it, r).encode('latin-1')
    ls = src.decode('latin-1').split('\n')
    old = []
    p = r.choice([.02, .15, .5])
    for l in ls:
        k = r.random()
        if k < p:
            continue
        if k < p + .1:
            old.append('xx')
        old.append(l)
    df = ('\n'.join(difflib.unified_diff(old, ls, 'a/a.c', 'b/a.c', lineterm='', n=r.choice([0, 1, 3]))) + '\n').encode('latin-1')
    kind = 'exact'
    if r.random() < .6:
        save = mutate.DICT[:]
        mutate.DICT[:] = DIFF_DICT
        try:
            df = mutate.mutate(r, df, [df])
        finally:
            mutate.DICT[:] = save
        kind = 'mutated-diff'
    if r.random() < .3:
        src = mutate.mutate(r, src, CORPUS)
        kind += '+mutated-source'
    return src, df, kind
