"""C13: layout of the output: blanks, blank lines, block indentation."""
import os, sys, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, clex, styles, exgen, gen

c = vlib.Check('C13', 'exploration',
               'generated programs (all statement and declaration forms, comments, arbitrary input layout, blank lines anywhere) x styles with random '
               'IndentWidth, UseTab and other options, with and without -s; monitored on every output: no line ends in white space, no two blank lines '
               'in a row, no blank line at the start or end, final newline present, no space before a tab in the indentation of a statement, every '
               'statement and field of a block starts a line of its own, indented by exactly one IndentWidth more than the closing brace of its block '
               '(case labels: as the closing brace), in tabs or spaces as UseTab demands; non-trivial: distinct accepted source with at least one block '
               'statement judged',
               ['sources without a blank line in the middle of a statement or declaration or a comment before a semicolon, and without conditional directives: knfmt passes a function it cannot parse per branch through unchanged',
                'a case on one line is kept so; goto labels, initialisers, enumerators and continuation lines are not judged for indentation'])
EXE = c.build('plain')


def width(lead):
    w = 0
    for ch in lead:
        w = w + 1 if ch == ' ' else (w // 8 + 1) * 8
    return w


def lead(l):
    return l[:len(l) - len(l.lstrip(' \t'))]


def judge(out, o):
    """(list of (rule, line), number of statements judged)"""
    bad = []
    s = out.decode('latin-1')
    if not s:
        return bad, 0
    items = clex.scan(s)
    lines = s.split('\n')
    inner = set()
    for it in items:
        for k in range(it.line, it.line + it.text.count('\n') + 1):
            if k > it.line or '\n' in it.text:
                inner.add(k)
    for k, l in enumerate(lines, 1):
        if l != l.rstrip(' \t'):
            bad.append(('white space at the end of a line', k))
    for k in range(1, len(lines) - 1):
        if not lines[k - 1] and not lines[k] and k not in inner and k + 1 not in inner:
            bad.append(('two blank lines', k))
    if not s.endswith('\n'):
        bad.append(('no newline at the end', len(lines)))
    if s.endswith('\n\n') or s == '\n':
        bad.append(('blank line at the end', len(lines)))
    if s.startswith('\n'):
        bad.append(('blank line at the beginning', 1))
    W = int(o.get('IndentWidth', 8))
    tab = o.get('UseTab') != 'Never'
    toks = [t for t in items if t.kind == 'tok']
    incom = set(t.line + t.text.count('\n') for t in items if t.kind == 'com')
    st, blocks, rec = [], [], set()
    for i, t in enumerate(toks):
        if t.text in ('(', '[', '{'):
            if t.text == '{' and st and toks[i - 1].text in ('{', ';', '}'):
                st[-1][2].append(i)
            pt = toks[i - 1].text if i else ''
            st.append((t.text, i, [], t.text != '{' and bool(st) and st[-1][3] or t.text == '{' and pt != '(' and
                       (pt in ('=', ',') or bool(st) and st[-1][3])))
            continue
        if t.text in (')', ']', '}'):
            if not st:
                return bad, 0
            k, j, body, init = st.pop()
            if k == '{' and any(toks[q].text in ('struct', 'union', 'enum') for q in (j - 1, j - 2) if q >= 0):
                rec.add(i)
            if k == '{' and t.bol and not init:
                blocks.append((j, i, body))
            continue
        if st and toks[i - 1].text in ('{', ';', '}'):
            st[-1][2].append(i)
    n = 0
    for j, i, body in blocks:
        pv = toks[j - 1].text if j else ''
        nx = toks[i + 1].text if i + 1 < len(toks) else ''
        if pv.startswith('"') or pv in ('=', ',', '(') or pv == ')' and nx in (';', ',', ')'):
            continue
        if toks[i - 1].text not in (';', '}', '{', ':'):
            continue
        if j + 1 == i or any(toks[b].text in ',.[' for b in body):
            continue
        switch = [b for b in body if toks[b].text in ('case', 'default')]
        if switch and any(not toks[b].bol for b in body):
            continue
        base = width(lead(lines[toks[i].line - 1]))
        for b in body:
            t = toks[b]
            nxt = toks[b + 1].text
            if b - 1 in rec or t.text in ('else', 'while', ';') or nxt == ':' and t.text != 'default':
                continue
            if not t.bol:
                if t.line not in incom:
                    bad.append(('statement not on a line of its own: ' + t.text, t.line))
                continue
            ld = lead(lines[t.line - 1])
            want = base if t.text in ('case', 'default') else base + W
            n += 1
            if width(ld) != want:
                bad.append(('indented by %d instead of %d columns: %s' % (width(ld), want, t.text), t.line))
            elif ld != ('\t' * (want // 8) + ' ' * (want % 8) if tab else ' ' * want):
                bad.append(('indented with %r under UseTab %s' % (ld, o.get('UseTab', 'Always')), t.line))
    return bad, n


def odd(src):
    """Whether a blank line splits a statement or declaration."""
    s = src.decode('latin-1')
    items = clex.scan(s)
    pt = None
    for a, b in zip(items, items[1:]):
        if a.kind == 'tok':
            pt = a
        elif a.kind == 'cpp':
            pt = None
        if a.kind == 'com' and b.text == ';':
            return True
        if s.count('\n', a.off + len(a.text), b.off) < 2:
            continue
        if pt and pt.text not in ('{', '}', ';', ':') or b.kind == 'tok' and not (b.text[0].isalpha() or b.text[0] in '_{}*('):
            return True
    return False


def one(i):
    r = vlib.rng('C13', i)
    if r.random() < .25:
        src = exgen.source(r, ['canonical', 'random', 'sparse', 'lines', 'dense'], nf=2, comments=r.choice([0, .1]))[0].encode()
        lay = 'executable'
    else:
        src, lay, _ = work.program(r, comments=r.choice([0, .1, .3]), cpp=0)
        if b'#if' in src:
            return None
    if r.random() < .15:
        src = ('#define %s %s\n\n' % (r.choice(['X', 'GLOB']), r.choice(gen.LITERALS))).encode() + src
    if odd(src):
        return None
    o, sty = styles.style(r, based=0) if r.random() < .6 else ({}, '')
    flags = ['-s'] if r.random() < .3 else []
    d = vlib.fresh_dir()
    try:
        if sty:
            vlib.write(d + '/.clang-format', sty)
        x = vlib.run([EXE] + flags, src, cwd=d)
        if x.timeout:
            return 'timeout', src, sty, [], 0, lay, flags
        if x.rc != 0:
            return 'rejected', src, sty, [], 0, lay, flags
        b, n = judge(x.out, o)
        return 'judged', src, sty, [(w, k, x.out.decode('latin-1').split('\n')[max(0, k - 2):k + 1]) for w, k in b[:3]], n, lay, flags
    finally:
        vlib.rmtree(d)


for res in c.map(one, range(c.n(36000, 500000)), as_limit=3 << 30, chunk=32):
    if res is None:
        continue
    k, src, sty, bad, n, lay, flags = res
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats['%s %s' % (lay, k)] += 1
    c.stats['statements and fields judged'] += n
    key = vlib.digest(src, sty, ' '.join(flags))
    c.observe(key if n else None, {'layout': lay, 'style': sty, 'flags': flags, 'judged': n, 'source': src[:300].decode('latin-1')})
    if bad:
        c.violation(key, 'layout: ' + '; '.join('%s at line %d %r' % b for b in bad), {'input.c': src, 'clang-format': sty})
c.finish(minimum=5000)
