"""C11: what clang-format off protects is reproduced byte for byte."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, oracle, gen

c = vlib.Check('C11', 'exploration',
               'programs with one to three regions between clang-format off and on comments (block and C99 form, with trailing text, at top level, '
               'among statements, struct fields and enumerators, in any layout, with stray white space, branches, macros and comments inside, among them ones that only resemble an on comment), comments that only resemble an off comment, '
               'regions left open at end of file, installed C sources behind an off comment; x styles x -s; monitored: the bytes of each region '
               'occur exactly once, directly between the same two comments, code outside is kept and formatted again; non-trivial: distinct '
               'accepted input whose region differs from how knfmt would format it',
               ['blank characters on the first line after the off comment belong to that comment'])
EXE = c.build('plain')
MARK = b'\n\tint zz_mark ;\n'


NEAR = ['/* clang-format %s\n * x */', '/*clang-format %s*/', '//clang-format %s', '/* clang format %s */', '/* x clang-format %s */', '/* clang-format: %s */',
        '/*\n * clang-format %s\n */', '/* Clang-Format %s */', '/** clang-format %s */', '/* clang-format-%s */', '/* knfmt %s */', '// clang-format',
        '/* clang-format o */', '/* "clang-format %s" */']


def near(r, word):
    """A comment that only resembles one which turns formatting on or off."""
    s = r.choice(NEAR)
    return s % word if '%s' in s else s


def parts(r):
    """Alternating plain and protected parts, and the text around them."""
    g = gen.Gen(r, size=20, comments=r.choice([0, .1, .3]), cpp=r.choice([0, .1, .3]), idiom=r.choice([0, .2]))
    kind = r.choice(['top', 'top', 'stmt', 'stmt', 'fields', 'enum'])
    pre = post = ''
    if kind == 'top':
        unit = g.toplevel
    elif kind == 'stmt':
        unit = lambda: g.stmt(2, nodecl=True)
        pre, post = 'int\nmain(void)\n{\n', '\treturn 0;\n}\n'
    elif kind == 'fields':
        unit = lambda: [*g.type(), g.fresh('m'), ';', gen.Nl()]
        pre, post = 'struct zz {\n', '};\n'
    else:
        unit = lambda: [g.fresh('E'), ',', gen.Nl()]
        pre, post = 'enum zz {\n', '};\n'

    def text(n, lay):
        it = []
        for _ in range(n):
            it += unit()
        s = gen.render(it, r, lay)
        return s if not s or s.endswith('\n') else s + '\n'

    def ugly(s):
        if '\\\n' in s:
            return s
        out = []
        for l in s.split('\n')[:-1]:
            if r.random() < .2:
                out.append('')
            if out and r.random() < .1:
                out.append('\t')
            out.append(l + ('  ' if r.random() < .1 else ''))
        return ''.join(l + '\n' for l in out)

    src, regions = pre, []
    for _ in range(r.choice([1, 1, 2, 3])):
        src += text(r.randrange(0, 3), r.choice(['canonical', 'random', 'lines']))
        ind = r.choice(['', '\t', ' '])
        tail = r.choice(['', '', '', ': why', ' yes'])
        off, on = r.choice([('/* clang-format off%s */', '/* clang-format on%s */'), ('// clang-format off%s', '// clang-format on%s')])
        off, on = off % tail, on % tail
        reg = ugly(text(r.randrange(1, 4), r.choice(gen.LAYOUTS)))
        if r.random() < .2:
            k = r.choice([0] + [k + 1 for k, ch in enumerate(reg) if ch == '\n']) if '\\\n' not in reg and '/*' not in reg and '//' not in reg else 0
            reg = reg[:k] + near(r, 'on') + '\n' + reg[k:]
        if reg[:1].isspace() and reg[:1] != '\n' and not reg.split('\n')[0].strip():
            reg = 'x' if kind == 'never' else '\n' + reg.split('\n', 1)[1]
        regions.append((off.encode('latin-1'), reg.encode('latin-1'), on.encode('latin-1')))
        src += ind + off + '\n' + reg + ind + on + '\n'
    src += text(r.randrange(0, 3), 'canonical') + post
    if kind == 'top' and r.random() < .3:
        src = near(r, 'off') + r.choice(['\n', '\n\n']) + '\tint zz_near ;\n\n' + src
    return kind, src.encode('latin-1'), regions


def one(i):
    r = vlib.rng('C11', i)
    kind, src, regions = parts(r)
    opened = kind == 'top' and r.random() < .15
    if opened:
        # drop the last on comment: protected until the end
        off, reg, on = regions[-1]
        cut = src.rindex(off)
        tailpart = src[cut + len(off) + 1:].replace(on + b'\n', b'\n')
        src = src[:cut + len(off) + 1] + tailpart
        openwant = (off + b'\n' + tailpart).rstrip()
        regions = regions[:-1]
    mark = not opened
    if mark:
        src += MARK
    sty = work.style(r)
    fl = ['-s'] if r.random() < .35 else []
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        x = vlib.run([EXE] + fl, src, cwd=d)
        plain = None
        if x.timeout:
            return kind, src, sty, 'timeout', '', 0
        if x.rc != 0:
            return kind, src, sty, 'rejected', '', 0
        out, bad, pos = x.out, '', 0
        for off, reg, on in regions:
            want = off + b'\n' + reg
            j = out.find(want, pos)
            if j == -1:
                bad = 'region not reproduced: %r' % reg[:120]
                break
            pos = j + len(want)
            rest = out[pos:].lstrip(b' \t')
            if not rest.startswith(on + b'\n'):
                bad = 'region followed by %r rather than its end' % out[pos:pos + 60]
                break
        if not bad and opened and not out.rstrip().endswith(openwant):
            bad = 'open region not reproduced until end of file: %r' % out[-100:]
        if not bad and mark and not (out.endswith(b'zz_mark;\n') and b'\tint zz_mark' not in out[-20:]):
            bad = 'formatting is not resumed: %r' % out[-60:]
        if not bad and b'int zz_near' in src and b'\nint zz_near;\n' not in out:
            bad = 'formatting turned off by another comment: %r' % out[:80]
        if not bad and not fl:
            a, b = oracle.norm(src)[0], oracle.norm(out)[0]
            if a != b and oracle.dropsemi(a) != oracle.dropsemi(b):
                bad = 'code changed: ' + oracle.first_diff(oracle.dropsemi(a), oracle.dropsemi(b))
        # Would the region survive without protection?
        live = 0
        if not bad:
            y = vlib.run([EXE] + fl, src.replace(b'clang-format', b'clang_format'), cwd=d)
            live = y.rc != 0 or any(reg not in y.out for _, reg, _ in regions) or opened
        return kind + (' open' if opened else ' x%d' % len(regions)), src, sty, 'bad' if bad else 'ok', bad, live
    finally:
        vlib.rmtree(d)


def real(p):
    src = vlib.read(p)
    if b'clang-format' in src or not src.endswith(b'\n'):
        return 'real', b'', '', 'skipped', '', 0
    r = vlib.rng('C11r', p)
    off = r.choice([b'/* clang-format off */\n', b'// clang-format off\n'])
    src = off + b'\n' + src.lstrip()
    x = vlib.run([EXE] + r.choice([[], ['-s']]), src, cwd='/')
    if x.timeout:
        return 'real', src, '', 'timeout', '', 0
    if x.rc:
        return 'real', src, '', 'rejected', '', 0
    return 'real', src, '', 'ok' if x.out.rstrip() == src.rstrip() else 'bad', '' if x.out.rstrip() == src.rstrip() else p + ': not reproduced behind an off comment', 1


def take(res):
    kind, src, sty, k, w, live = res
    if k == 'timeout':
        c.inconclusive += 1
        return
    c.stats['%s %s' % (kind, k)] += 1
    c.observe(vlib.digest(src, sty) if live else None, {'class': kind, 'style': sty, 'source': src[:400].decode('latin-1')})
    if k == 'bad':
        c.violation(vlib.digest(src, sty), w, {'input.c': src, 'clang-format': sty})


for res in c.map(one, range(c.n(14000, 300000)), as_limit=3 << 30, chunk=32):
    take(res)
fs = work.real_files()
vlib.rng('C11files').shuffle(fs)
for res in c.map(real, [f for f in fs if f.startswith(vlib.REPO)] + [f for f in fs if not f.startswith(vlib.REPO)][:c.n(2000, 100000)],
                 as_limit=3 << 30, chunk=16):
    take(res)
c.finish(minimum=3000)
