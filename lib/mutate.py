"""Byte and token level mutation of source texts."""
import re

_SPLIT = re.compile(rb'[A-Za-z_]\w*|\d+|[ \t]+|\n|"(?:\\.|[^"\\\n])*"|/\*.*?\*/|.', re.S)

DICT = [b'(', b')', b'{', b'}', b'[', b']', b';', b',', b':', b'?', b'=', b'==', b'*', b'&', b'&&', b'->', b'.',
        b'...', b'\\', b'\\\n', b'\n', b'\n\n\n', b'\t', b' ', b'\r', b'\r\n', b'\x00', b'\xff', b'"', b"'", b'/*', b'*/',
        b'//', b'/* clang-format off */', b'/* clang-format on */', b'// clang-format off\n', b'// clang-format on\n',
        b'#', b'#if 0\n', b'#if X\n', b'#ifdef A\n', b'#else\n', b'#elif B\n', b'#endif\n', b'#define A(x) \\\n\tx \\\n',
        b'#include <a.h>\n', b'#include "b.h"\n', b'#undef X\n', b'#pragma once\n', b'if', b'else', b'for', b'while', b'do',
        b'switch', b'case', b'default', b'return', b'goto', b'struct', b'union', b'enum', b'typedef', b'static', b'const',
        b'extern', b'inline', b'int', b'char', b'void', b'unsigned', b'sizeof', b'__attribute__((x))', b'asm', b'__asm',
        b'volatile', b'break', b'continue', b'TAILQ_FOREACH', b'TAILQ_HEAD(a, b)', b'FOREACH', b'A(', b'_Pragma',
        b'extern "C" {', b'namespace', b'class', b'L"x"', b"'\\''", b'0x', b'1e+', b'1.', b'.5', b'++', b'--', b'<<=', b'>>',
        b'register', b'signed', b'restrict', b'_Alignas', b'x', b'.x = 1,', b'[0] = 1,', b'int x;', b'};', b'})', b'({']


def mutate(rng, data, corpus, n=None):
    """One mutant of data."""
    toks = _SPLIT.findall(data)
    n = n or rng.choice([1, 1, 1, 2, 2, 3, 5, 8])
    for _ in range(n):
        k = rng.randrange(14)
        L = len(toks)
        if L == 0:
            toks = [rng.choice(DICT)]
            continue
        i = rng.randrange(L)
        if k == 0:
            del toks[i]
        elif k == 1:
            toks.insert(i, toks[i])
        elif k == 2:
            toks.insert(i, rng.choice(DICT))
        elif k == 3:
            toks[i] = rng.choice(DICT)
        elif k == 4:
            j = rng.randrange(L)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == 5:
            j = min(L, i + rng.choice([2, 4, 8, 16, 64]))
            del toks[i:j]
        elif k == 6:
            j = min(L, i + rng.choice([2, 4, 8, 16, 64]))
            p = rng.randrange(L)
            toks[p:p] = toks[i:j] * rng.choice([1, 1, 2, 4])
        elif k == 7:
            t = bytearray(toks[i])
            if t:
                t[rng.randrange(len(t))] = rng.choice([0, 9, 10, 13, 32, 34, 35, 39, 47, 92, 123, 125, 128, 255, rng.randrange(256)])
            toks[i] = bytes(t)
        elif k == 8:
            toks = toks[:i]
        elif k == 9:
            toks = toks[i:]
        elif k == 10 and corpus:
            o = _SPLIT.findall(rng.choice(corpus))
            if o:
                a = rng.randrange(len(o))
                b = min(len(o), a + rng.choice([1, 4, 16, 64, 256]))
                toks[i:i] = o[a:b]
        elif k == 11 and corpus:
            o = _SPLIT.findall(rng.choice(corpus))
            if o:
                toks = toks[:i] + o[rng.randrange(len(o)):]
        elif k == 12:
            # delete the white space around, or add a line break
            toks[i] = toks[i].strip() or rng.choice([b'', b'\n'])
        else:
            m = rng.choice([2, 16, 100])
            toks[i] = toks[i] * m if len(toks[i]) * m < 400 else toks[i]
    out = b''.join(toks)
    return out[:20000]
