"""C17: include guards."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib

c = vlib.Check('C17', 'exploration',
               'generated headers (leading and trailing comments, no guard, the right guard, a guard of another name, conditionals that only look like a guard, '
               'nested conditionals, directives and declarations in any order) in directories of any depth x IncludeGuards 0 to 40 and absent x relative, '
               'absolute, dotted and symbolic paths x other extensions x standard output or -i; monitored: every line of the output against an independent '
               'prediction (guard named after the last path components around the body, an existing guard replaced, body and comments kept), '
               'and a second run changes nothing; non-trivial: distinct header whose prediction differs from the input',
               ['paths are made of letters, digits, underscores, dots and dashes', 'bodies are written the way knfmt prints them'])
EXE = c.build('plain')
DIRS = ['lib', 'sub', 'a-b', 'x.y', 'UP', 'v2', 'd_e', 'include', 'sys']
NAMES = ['foo', 'bar-baz', 'a.b', 'UPPER', 'x1', 'Foo_Bar', 'h', 'foo.h', 'config']


def comment(r):
    return r.choice([['/* one */'], ['// SPDX-License-Identifier: ISC'], ['/*', ' * Copyright', ' *', ' * text', ' */'], ['/* two', '   lines */']])


def unit(r, k, depth=0):
    t = r.randrange(12)
    n = 'n%d' % k[0]
    k[0] += 1
    if t == 0:
        return ['#define %s 1' % n.upper()]
    if t == 1:
        return ['#include <%s.h>' % n]
    if t == 2:
        return ['struct %s {' % n, '\tint x;', '};']
    if t == 3:
        return ['int %s(int, char *);' % n]
    if t == 4:
        return ['extern int %s;' % n]
    if t == 5:
        return ['#undef %s' % n]
    if t == 6:
        return ['#ifndef %s' % n.upper(), '#define %s%s' % (n.upper(), r.choice(['', '', ' 1', '(x) x'])), '#endif']
    if t == 7 and depth < 2:
        a, b = body(r, k, depth + 1), body(r, k, depth + 1)
        e = ['', '#else', ''] + b if r.random() < .5 else []
        return [r.choice(['#ifdef %s', '#if %s', '#ifndef %s', '#if !defined(%s)']) % n.upper(), ''] + a + e + ['', '#endif']
    if t == 8:
        return comment(r)
    if t == 9:
        return ['#pragma once']
    if t == 10:
        return ['typedef int %s_t;' % n]
    return ['static inline int', '%s(int x)' % n, '{', '\treturn x;', '}']


def body(r, k, depth=0):
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 5] if depth else [0, 1, 1, 2, 3, 5, 8])):
        if out:
            out.append('')
        out += unit(r, k, depth)
    return out


def guard(path, n):
    p = path.split('/')[1:]
    s = '/'.join(p[len(p) - n:]) if n <= len(p) else path
    return ''.join('_' if ch in './-' else ch.upper() for ch in s)


def generate(r, root):
    dirs = [r.choice(DIRS) for _ in range(r.randrange(4))]
    ext = r.choice(['.h'] * 9 + ['.c', '.hh', '.hpp', '.H'])
    real = '/'.join([root] + dirs + [r.choice(NAMES) + ext])
    n = r.choice([1, 1, 2, 2, 3, 4, 5, 40, 0, None])
    active = bool(n) and ext == '.h'
    g = guard(real, n or 1)
    k = [0]
    lead = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        lead += comment(r) + ([''] if r.random() < .6 else [])
    if lead and lead[-1]:
        lead.append('')
    b = body(r, k)
    kind = r.choice(['none', 'right', 'other', 'bare', 'differ', 'valued', 'early', 'late'])
    # A comment that starts the body belongs in front of the guard when there is none; same for a body that is itself a guard.
    if kind == 'none':
        while b and remark(b[0]):
            b = b[1:]
        src = lead + b
        head, inner = lead, b
        if looks_guarded(b):
            return None
    else:
        nm = g if kind == 'right' else r.choice(['OLD_H', '_X_', 'FOO_H_', g + 'X', g[:-1] or 'Q'])
        if not b:
            b = ['int x;']
        nv = nm
        if kind == 'differ':
            nv = nm + '2'
        if kind == 'valued':
            nv = nm + ' 1'
        end = '#endif' + (' /* !%s */' % nm if kind in ('right', 'other') else r.choice(['', ' /* %s */' % nm, ' // x']))
        g0 = ['#ifndef ' + nm, '#define ' + nv, ''] + b + ['', end]
        if kind == 'early':
            g0 = ['#include <early.h>', ''] + g0
        if kind == 'late':
            g0 = g0 + ['', r.choice(['#define LATE 1', '#undef LATE', 'int late;', '#include "late.h"'])]
        src = lead + g0
        head = lead
        inner = b if kind in ('right', 'other', 'bare') else g0
    if active:
        exp = head + ['#ifndef ' + g, '#define ' + g, ''] + inner + ([''] if inner else []) + ['#endif /* !%s */' % g]
    else:
        exp = src[:-1] if src and not src[-1] else src
    return real, n, '\n'.join(src) + '\n' if src else '', '\n'.join(exp) + '\n' if exp else '', kind


def remark(l):
    return not l or l[:2] in ('/*', '//', ' *', '  ')


def looks_guarded(b):
    """The body is one conditional that defines what it tests."""
    while b and remark(b[-1]):
        b = b[:-1]
    if len(b) < 3 or not b[0].startswith('#ifndef ') or b[1] != b[0].replace('#ifndef', '#define') or not b[-1].startswith('#endif'):
        return False
    d = 0
    for j, l in enumerate(b):
        if l.startswith('#if'):
            d += 1
        elif l.startswith('#else') and d == 1:
            return False
        elif l.startswith('#endif'):
            d -= 1
            if d == 0:
                return j == len(b) - 1
    return False


def one(i):
    r = vlib.rng('C17', i)
    root = os.path.realpath(vlib.fresh_dir())
    try:
        g = generate(r, root)
        if g is None:
            return None
        real, n, src, exp, kind = g
        d = os.path.dirname(real)
        os.makedirs(d, exist_ok=True)
        os.makedirs(root + '/other/q', exist_ok=True)
        if n is not None:
            vlib.write(root + '/.clang-format', 'IncludeGuards: %d\n' % n if n or r.random() < .5 else 'IncludeGuards: 0\n')
        vlib.write(real, src)
        rel = os.path.relpath(real, root)
        how = r.choice(['rel', 'abs', 'dot', 'up', 'link'])
        cwd, arg = root, rel
        if how == 'abs':
            arg = real
        elif how == 'dot':
            arg = './' + rel
        elif how == 'up':
            cwd, arg = root + '/other/q', '../../' + rel
        elif how == 'link':
            os.symlink(d, root + '/lnk')
            arg = 'lnk/' + os.path.basename(real)
        opt = r.choice([[], [], ['-i'], ['-s']])
        if '-s' in opt and '#include' in src:
            opt = []
        x = vlib.run([EXE] + opt + [arg], b'', cwd=cwd)
        out = vlib.read(real) if opt == ['-i'] else x.out
        vlib.write(real, out)
        y = vlib.run([EXE] + [o for o in opt if o == '-s'] + [arg], b'', cwd=cwd)
        return real[len(root):], n, kind, how, opt, src, exp, x, out, y
    finally:
        vlib.rmtree(root)


for res in c.map(one, range(c.n(25000, 300000)), as_limit=3 << 30, chunk=64):
    if res is None:
        continue
    path, n, kind, how, opt, src, exp, x, out, y = res
    if x.timeout or y.timeout:
        c.inconclusive += 1
        continue
    key = vlib.digest(src, path, str(n), how, str(opt))
    c.stats['%s, %s' % (kind, 'to change' if src != exp else 'as is')] += 1
    c.observe(key if src != exp else None, {'path': path, 'IncludeGuards': n, 'source': src[:300]})
    o = out.decode('latin-1')
    what = None
    if x.rc != 0 or x.err:
        what = 'exit %s %r' % (x.rc, x.err[:100])
    elif o != exp:
        a, b = o.split('\n'), exp.split('\n')
        k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
        what = 'line %d is %r instead of %r' % (k + 1, a[k:k + 1], b[k:k + 1])
    elif y.rc != 0 or y.out != out:
        what = 'a second run changes the file'
    if what:
        c.violation(key, '%s (%s)' % (what, kind), {'input.h': src, 'clang-format': 'IncludeGuards: %s\n' % n, 'expected': exp, 'output': out,
                                                   'args': '%s %s %s\n' % (' '.join(opt), path, how)})
c.finish(minimum=5000)
