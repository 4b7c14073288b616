"""C08: a source that cannot be parsed is reported, never half written."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, work, gen, clex, mutate, san_common

c = vlib.Check('C08', 'exploration',
               'mutated corpus and generated sources, valid programs cut inside a function body or literal, broken bytes, missing and unreadable '
               'files, x modes (standard output, -d, -i, -D) x -s x styles; monitored: standard output, file identity and content, diagnostics, exit '
               'status; non-trivial: distinct rejected input',
               ['which of the malformed inputs are accepted is knfmt\'s choice (it is forgiving), apart from cut function bodies and '
                'unterminated literals, which must be rejected'])
EXE = c.build('plain')


def cut(r):
    """A valid program, cut inside the last function body or in a literal;
    knfmt cannot have seen a complete program."""
    items, _ = gen.program(r, size=r.choice([20, 60]), comments=0, cpp=0, idiom=0)
    s = gen.render(items, r, 'canonical')
    toks = [x for x in clex.scan(s)]
    kind = r.choice(['body', 'string', 'char'])
    tail = 'int\nzfunc(int a)\n{\n\tint b = 0;\n\n\tif (a > b) {\n\t\tfoo(a, b);\n\t\tb++;\n\t}\n\twhile (a--)\n\t\tbar(&b);\n\treturn (a + b);\n}\n'
    if kind == 'body':
        cutat = r.randrange(tail.index('{') + 1, tail.rindex('}'))
        return (s + tail[:cutat] + r.choice(['', '\n'])).encode('latin-1'), kind
    q = '"' if kind == 'string' else "'"
    pos = r.choice([0, len(s)])
    junk = q + r.choice(['', 'abc', 'abc\nint x;\n', 'a\\' + q + '\nint y;\n', '\n\n\n'])
    if pos == 0:
        junk += re.sub('["\']', '', s)     # stays open until the end
        return junk.encode('latin-1'), kind
    return (s + junk).encode('latin-1'), kind


def one(i):
    r = vlib.rng('C08', i)
    k = r.random()
    must = False
    if k < .25:
        src, kind = cut(r)
        must = True
        kind = 'cut ' + kind
    elif k < .9:
        kind, src = san_common.source(r)
    else:
        src, kind = mutate.mutate(r, r.choice(san_common.CORPUS), san_common.CORPUS)[:r.choice([50, 200, 1000])], 'truncated'
    sty = san_common.style_text(r) if r.random() < .3 else ''
    fl = ['-s'] if r.random() < .4 else []
    mode = r.choice(['stdout', 'stdout', '-i', '-i', '-d', '-D'])
    d = vlib.fresh_dir()
    bad = []
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        p = d + '/a.c'
        vlib.write(p, src)
        os.utime(p, ns=(10 ** 18, 10 ** 18))
        st = os.stat(p)
        inp = b''
        if mode == 'stdout':
            cmd = [EXE] + fl + ['a.c']
        elif mode == '-D':
            n = src.count(b'\n') + (0 if src.endswith(b'\n') else 1)
            cmd = [EXE, '-D'] + r.choice([[], ['-i']]) + fl
            inp = b'--- a/a.c\n+++ b/a.c\n@@ -0,0 +1,%d @@\n' % n + b''.join(b'+' + l + b'\n' for l in src.split(b'\n')[:n])
        else:
            cmd = [EXE, mode] + fl + ['a.c']
        x = vlib.run(cmd, inp, cwd=d)
        if x.timeout:
            return i, src, sty, 'timeout', []
        if x.rc not in (0, 1):
            return i, src, sty, 'crash', []
        now = os.stat(p)
        same = vlib.read(p) == src and (now.st_ino, now.st_mtime_ns) == (st.st_ino, st.st_mtime_ns)
        if sorted(os.listdir(d)) != sorted(['a.c'] + (['.clang-format'] if sty else [])):
            bad.append('directory now holds %s' % sorted(os.listdir(d)))
        diag = re.match(rb'(a\.c):(\d+): \S', x.err)
        # -d: exit 1 also reports a difference
        rejected = bool(x.err) if mode == '-d' else x.rc == 1
        if x.err and mode == '-D' and not diag and x.rc == 1:
            # the diff itself was not accepted
            rejected = True
            if not same or x.out:
                bad.append('diff rejected but output produced')
            return i, src, sty, 'diff rejected', bad
        if rejected:
            if x.rc != 1:
                bad.append('diagnostics but exit %s' % x.rc)
            if x.out:
                bad.append('rejected, but %d bytes on standard output' % len(x.out))
            if not same:
                bad.append('rejected, but the file was modified or replaced')
            if not diag:
                bad.append('no "path:line:" diagnostic but %r' % x.err[:100])
            elif not 1 <= int(diag.group(2)) <= src.count(b'\n') + 1:
                bad.append('diagnostic names line %s of %d' % (diag.group(2).decode(), src.count(b'\n') + 1))
        else:
            if x.err:
                bad.append('accepted with diagnostics %r' % x.err[:100])
            if mode != '-i' and '-i' not in cmd and not same:
                bad.append('file modified without -i')
            if must and mode != '-D':
                bad.append('incomplete source (%s) accepted, %d of %d bytes written' % (kind, len(x.out), len(src)))
        return i, src, sty, ('rejected ' if rejected else 'accepted ') + kind + ' ' + mode, bad
    finally:
        vlib.rmtree(d)


for i, src, sty, k, bad in c.map(one, range(c.n(22000, 400000)), as_limit=3 << 30, chunk=32):
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats[k] += 1
    c.observe(vlib.digest(src, sty, k) if k.startswith('rejected') else None, {'source': src[-200:].decode('latin-1'), 'class': k})
    if bad:
        c.violation(vlib.digest(i), '%s: %s' % (k, '; '.join(bad)), {'a.c': src, 'clang-format': sty})

# files that cannot be read at all
d = vlib.fresh_dir()
vlib.write(d + '/ok.c', b'int  x;\n')
os.mkdir(d + '/dir.c')
for args in (['missing.c'], ['dir.c'], ['-i', 'missing.c'], ['-d', 'missing.c'], ['-i', 'dir.c'], ['nodir/a.c'], ['-i', 'ok.c/x.c']):
    x = vlib.run([EXE] + args, cwd=d)
    c.observe(vlib.digest(*args), None)
    c.stats['unreadable'] += 1
    if x.rc != 1 or x.out or args[-1].encode() not in x.err or sorted(os.listdir(d)) != ['dir.c', 'ok.c']:
        c.violation('unreadable-' + '-'.join(args).replace('/', '_'), 'unreadable %s: exit %s, output %r, diagnostics %r' % (args, x.rc, x.out[:50], x.err[:100]))
c.finish(minimum=5000)
