"""C28: columns that are lined up stay lined up, tabs line columns up, single blanks stay single."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, units

c = vlib.Check('C28', 'exploration',
               'blocks of declarations (fields of structures and unions, nested or not, file scope variables and prototypes, local variables), designated '
               'initialisers, enumerators and rows of initialisers, in three layouts: lined up with blanks or tabs, tabs put anywhere after the column, single '
               'blanks. Monitored in the output: the visual column of every name, `=` or element; distinct: context x layout x widths',
               ['tab stops of eight columns', 'lines short enough to need no break'])
PLAIN = c.build('plain')
TYPES = ['int', 'char', 'long', 'size_t', 'unsigned', 'unsigned int', 'struct foo', 'const char', 'uint8_t', 'struct buffer', 'unsigned long long', 'enum x',
         'const struct token', 'volatile int', 'foo_t', 'struct a_rather_long_one', 'bool', 'double', 'struct abc']


def vis(s, upto):
    w = 0
    for ch in s[:upto]:
        w = (w // 8 + 1) * 8 if ch == '\t' else w + 1
    return w


def pad(r, w, to, tabs):
    """White space from column w to column to."""
    if not tabs:
        return ' ' * (to - w)
    s = ''
    while w // 8 < to // 8:
        s += '\t'
        w = (w // 8 + 1) * 8
    return s + ' ' * (to - w)


class U:
    """One block: rows of cells, joined by alignable gaps."""

    def __init__(u, r, ctx=None):
        u.r = r
        u.ctx = ctx or r.choice(['struct', 'struct', 'union', 'nested', 'file', 'file', 'local', 'local', 'inner', 'proto', 'init', 'init', 'enum', 'rows', 'rows'])
        u.mode = r.choice(['blanks', 'tabs', 'tabs', 'mixed', 'single', 'single'])
        u.n = r.choice([2, 2, 3, 3, 4, 6, 9])
        u.decl = u.ctx not in ('init', 'enum', 'rows')
        u.depth = {'struct': 1, 'union': 1, 'nested': 2, 'file': 0, 'local': 1, 'inner': 2, 'proto': 0, 'init': 1, 'enum': 1, 'rows': 1}[u.ctx]
        u.wrong = u.mode != 'tabs' and r.random() < .4      # the input is indented otherwise
        seen = set()
        u.rows = []
        for k in range(u.n):
            nm = units.name(r, 1, 10)
            while nm in seen:
                nm = units.name(r, 2, 10)
            seen.add(nm)
            if u.decl:
                stars = '*' * r.choice([0, 0, 0, 1, 1, 2]) if u.stars(k) else ''
                if u.ctx == 'proto':
                    tail = r.choice(['(void)', '(int)', '(struct foo *, const char *)', '(int a, char *b)'])
                elif u.ctx in ('file', 'local', 'inner'):
                    tail = r.choice(['', '', '', '[3]', ' = 1', ' = %s' % units.name(r), ', %s' % units.name(r), ' = "a\\tb"'])
                else:
                    tail = r.choice(['', '', '', '[3]', '[A][B + 1]', ', %s' % units.name(r), ', *%s' % units.name(r)])
                u.rows.append(([r.choice(TYPES)], [stars], [nm], tail + ';'))
            elif u.ctx == 'rows':
                pass
            else:
                first = '.' + nm if u.ctx == 'init' else nm.upper()
                if u.ctx == 'init' and r.random() < .15:
                    first = '[%s]' % nm.upper()
                u.rows.append(([first], [''], ['= ' + r.choice(['1', '0x%x' % r.randrange(1, 1 << 20), 'NULL', 'a + b', '"str"', nm.upper()])], ','))
        if u.ctx == 'rows':
            m = r.choice([2, 2, 3, 4])
            for k in range(u.n):
                cells = [r.choice(['1', '0x%x' % r.randrange(1, 1 << 16), '"%s"' % units.name(r), 'NULL', units.name(r).upper(), '-1', "'x'", 'A | B']) for _ in range(m)]
                u.rows.append(([x + ',' for x in cells[:-1]], [''] * (m - 1), cells[1:], ' },'))
        u.lay()

    def stars(u, k):
        return getattr(u, '_s', None) or setattr(u, '_s', u.r.choice(['y', 'y', 'n'])) or u._s == 'y'

    def lay(u):
        r = u.r
        ncol = len(u.rows[0][0])
        ind = '\t' * u.depth
        u.open = '{ ' if u.ctx == 'rows' else ''
        inw = r.choice(['', ' ', '  ', '    ', '\t', '   \t']) if u.wrong else ind
        text = [''] * u.n
        want = [''] * u.n
        for k in range(u.n):
            text[k] = inw + u.open
            want[k] = ind + u.open
        for col in range(ncol):
            heads = [row[0][col] if col == 0 else '' for row in u.rows]
            for k, row in enumerate(u.rows):
                h = row[0][col] if col == 0 else row[2][col - 1] + ','
                text[k] += h
                want[k] += h
            S = max(len(row[1][col]) for row in u.rows)
            ends = [vis(t, len(t)) for t in text]
            if u.mode == 'blanks':
                to = max(e + 1 for e in ends)
                # the longest one must leave room for its own stars
                to += r.choice([0, 0, 1, 3, 7])
                wends = [vis(t, len(t)) for t in want]
                wto = to - max(ends) + max(wends)
                for k, row in enumerate(u.rows):
                    p = S - len(row[1][col])
                    text[k] += ' ' * (to - ends[k] + p)
                    want[k] += ' ' * (wto - wends[k] + p)
            elif u.mode == 'tabs':
                to = (max(ends) // 8 + 1) * 8 + 8 * r.choice([0, 0, 0, 1, 2])
                for k, row in enumerate(u.rows):
                    text[k] += pad(r, ends[k], to, 1) + ' ' * (S - len(row[1][col]))
                    want[k] = text[k]
            elif u.mode == 'mixed':
                for k in range(u.n):
                    text[k] += r.choice(['\t', '\t', '\t\t', '\t ']) if k % 2 == 0 or r.random() < .5 else r.choice([' ', '\t'])
            else:
                for k in range(u.n):
                    text[k] += ' '
                    want[k] += ' '
            for k, row in enumerate(u.rows):
                text[k] += row[1][col]
                want[k] += row[1][col]
        for k, row in enumerate(u.rows):
            text[k] += row[2][-1] + row[3]
            want[k] += row[2][-1] + row[3]
        u.lines, u.want = text, want

    def wrap(u, lines):
        pre, post = {'struct': ('struct s {', '};'), 'union': ('union s {', '};'), 'nested': ('struct s {\n\tstruct {', '\t} zz;\n};'), 'file': ('', ''),
                     'proto': ('', ''), 'local': ('int\nmain(void)\n{', '\n\treturn 0;\n}'),
                     'inner': ('int\nmain(void)\n{\n\tif (x) {', '\n\t\tfoo();\n\t}\n}'), 'init': ('struct s v = {', '};'),
                     'rows': ('struct s v[] = {', '};'), 'enum': ('enum e {', '};')}[u.ctx]
        return (pre + '\n' if pre else '') + '\n'.join(lines) + '\n' + (post + '\n' if post else '')


def accident(u):
    """A later column that lines up in the source although an earlier one does not: neither layout."""
    if u.mode != 'single' or u.ctx != 'rows':
        return False
    ragged = False
    cur = [len(u.open)] * u.n
    for col in range(len(u.rows[0][0])):
        cur = [w + len(row[0][col] if col == 0 else row[2][col - 1] + ',') + 1 for w, row in zip(cur, u.rows)]
        if len(set(cur)) > 1:
            ragged = True
        elif ragged:
            return True
    return False


def part(u, lines, ind):
    """The lines of the block in the output against the demand; None if fine."""
    if u.mode != 'mixed':
        for l, w in zip(lines, u.want):
            n = len(w) - len(w.lstrip('\t'))
            w = ind * n + w[n:]
            if l != w:
                return '%s, %s: line %r, expected %r' % (u.ctx, u.mode, l, w)
        return None
    pos = [[] for _ in u.rows[0][0]]
    for k, (row, l) in enumerate(zip(u.rows, lines)):
        at = len(l) - len(l.lstrip('\t'))
        if at != u.depth or not l[at:].startswith(u.open):
            return '%s, mixed: line %r is indented wrongly' % (u.ctx, l)
        at += len(u.open)
        for col in range(len(row[0])):
            h = row[0][col] if col == 0 else row[2][col - 1] + ','
            if not l[at:].startswith(h):
                return '%s, mixed: %r not found in %r' % (u.ctx, h, l)
            at += len(h)
            m = re.compile(r'[ \t]+').match(l, at)
            if not m:
                return '%s, mixed: no blank after %r in %r' % (u.ctx, h, l)
            at = m.end() + len(row[1][col])
            pos[col].append(vis(l, at))
        if l[at:] != row[2][-1] + row[3]:
            return '%s, mixed: %r not at the end of %r' % (u.ctx, row[2][-1] + row[3], l)
    for p in pos:
        if len(set(p)) > 1:
            return '%s, mixed: the column is not lined up: %s' % (u.ctx, p)
    return None


def check(us, out, ind):
    body = []
    for k, u in enumerate(us):
        body += ([''] if k else []) + ['@%d' % k] * u.n
    frame = us[0].wrap(body).split('\n')
    lines = out.split('\n')
    if len(frame) != len(lines):
        return '%s: %d lines instead of %d' % (us[0].ctx, len(lines), len(frame))
    for f, l in zip(frame, lines):
        if not f.startswith('@'):
            n = len(f) - len(f.lstrip('\t'))
            if l != ind * n + f[n:]:
                return '%s: line %r, expected %r' % (us[0].ctx, l, ind * n + f[n:])
    for k, u in enumerate(us):
        bad = part(u, [l for f, l in zip(frame, lines) if f == '@%d' % k], ind)
        if bad:
            return bad
    return None


def one(i):
    r = vlib.rng('C28', i)
    us = [U(r)]
    if us[0].ctx in ('file', 'proto', 'local', 'inner') and r.random() < .4:
        for _ in range(r.choice([1, 2])):
            us.append(U(r, us[0].ctx))
    if any(map(accident, us)):
        return None
    body = []
    for k, u in enumerate(us):
        body += ([''] if k else []) + u.lines
    src = us[0].wrap(body)
    if any(vis(l, len(l)) > 79 for l in (src + '\n'.join(l for u in us for l in u.want)).split('\n')):
        return None
    ind, sty = '\t', ''
    if all(u.mode in ('blanks', 'single') for u in us) and r.random() < .5:
        w = r.choice([2, 3, 4, 8])
        ind, sty = ' ' * w, 'IndentWidth: %d\nContinuationIndentWidth: %d\nUseTab: Never\n' % (w, r.choice([2, 4]))
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/.clang-format', sty) if sty else None
        x = vlib.run([PLAIN], src.encode(), cwd=d)
    finally:
        vlib.rmtree(d)
    if x.timeout:
        return 'timeout'
    out = x.out.decode('latin-1')
    if x.rc != 0 or x.err:
        bad = '%s, %s: refused: %d %s' % (u.ctx, u.mode, x.rc, x.err[:100])
    else:
        bad = check(us, out, ind)
    return dict(cls=['%s, %s' % (u.ctx, u.mode) for u in us], bad=bad, key=vlib.digest(src, sty), src=src, out=out, sty=sty, n=sum(u.n for u in us))


for x in c.map(one, range(c.n(12000, 250000)), chunk=32):
    if x is None:
        c.stats['set aside, too wide or lined up by accident'] += 1
        continue
    if x == 'timeout':
        c.inconclusive += 1
        continue
    for k in x['cls']:
        c.stats['blocks: ' + k] += 1
    c.stats['rows observed'] += x['n']
    c.observe(x['key'], {'class': x['cls'], 'source': x['src'][:200]})
    if x['bad']:
        c.violation(x['key'], x['bad'], {'src.c': x['src'], 'clang-format': x['sty'], 'out.c': x['out'], 'what': x['bad'] + '\n'})
c.finish(minimum=3000)
