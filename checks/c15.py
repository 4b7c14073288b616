"""C15: what is not understood in a style file does not disturb what is."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, styles, work, gen

c = vlib.Check('C15', 'exploration',
               'random styles written plainly and rewritten with unknown options (scalars, numbers, quoted strings, sequences, flow collections, block scalars, nested mappings, nothing), comments, '
               'blank lines, quoted values, other orders, earlier values overridden by later ones, invalid values, invalid include categories, documents for other languages, '
               'document markers; found through -c, in the current directory or in an ancestor shadowing another one further up; monitored: output and '
               'exit status equal to those under the plain style; non-trivial: distinct (plain, rewritten) pair for which the style changes the output '
               'compared to no style',
               ['flow collections are not used for options that knfmt knows'])
EXE = c.build('plain')
UNKNOWN = ['AccessModifierOffset', 'AlignArrayOfStructures', 'AlignTrailingComments', 'AllowShortBlocksOnASingleLine', 'BinPackArguments',
           'CompactNamespaces', 'Cpp11BracedListStyle', 'DerivePointerAlignment', 'FixNamespaceComments', 'IndentCaseLabels', 'IndentPPDirectives',
           'KeepEmptyLinesAtTheStartOfBlocks', 'MaxEmptyLinesToKeep', 'NamespaceIndentation', 'PenaltyBreakComment', 'PointerAlignment',
           'ReflowComments', 'SpaceAfterCStyleCast', 'SpacesInParentheses', 'Standard', 'TabWidth', 'UnknownOption', 'X', 'ColumnLimits',
           'IndentWidthX', 'UseTabs', 'indentwidth', 'Column_Limit', 'StatementMacros', '_private']
VALUES = ['true', 'false', 'Never', 'Leave', 'c++11', 'Latest', '0', '8', '-1', '100000', "'quoted'", "'^ IWYU pragma:'", "''", "'(Test)?$'", "'a\\'", "'\\'", "'it''s'", 'None',
          'Always', 'LLVM', 'x', '"quoted"', '"a \\" b"', '"^ IWYU pragma:"', '[a, b]', '[]', "['foreach', Q_FOREACH]", '[a, [b, c], {d: 1}]', '{a: 1, b: [c]}',
          'a b', 'a b c', 'two words: three', '', '1.5', '^foo|bar', '@x', '~', '*', '&x y', '!!str 3', '%d', '[\n  a,\n  b ]', '|\n  IndentWidth: 3\n  text', '>-\n    some\n    IndentWidth']
KNOWN = ['UseTab', 'AlignOperands', 'BreakBeforeBraces', 'BitFieldColonSpacing', 'AlignAfterOpenBracket', 'SortIncludes', 'IndentWidth', 'ColumnLimit', 'ContinuationIndentWidth', 'IncludeBlocks',
         'BreakBeforeTernaryOperators']


def scalar(r):
    return '%s: %s%s\n' % (r.choice(UNKNOWN), r.choice(['', ' ', '     ']), r.choice(VALUES))


def noise(r):
    k = r.random()
    if k < .35:
        return scalar(r)
    if k < .5:
        return '%s:\n' % r.choice(UNKNOWN) + ''.join('  - %s\n' % r.choice(['foreach', 'Q_FOREACH', 'BOOST_PP', '__capability', "'a b'"]) for _ in range(r.randrange(1, 4)))
    if k < .54:
        # A sequence of mappings.
        d = r.choice(['', '  '])
        return '%s:\n' % r.choice(UNKNOWN) + ''.join('%s- %s: %s\n%s  %s: %s\n' % (d, r.choice(['Name', 'Regex', 'IndentWidth']), r.choice(["'x'", '3']), d, r.choice(['Priority', 'Kind', 'UseTab']), r.choice(['1', 'Never', 'y z']))
                                                       for _ in range(r.randrange(1, 4)))
    if k < .58:
        # Deeper nesting holding names that are known elsewhere.
        return '%s:\n  %s: %s\n  %s:\n     %s: 3\n     %s: Never\n' % (r.choice(UNKNOWN), r.choice(['IndentWidth', 'Other', 'AfterFunction']), r.choice(['5', 'true', '[1]']), r.choice(UNKNOWN),
                                                                        r.choice(['ColumnLimit', 'IndentWidth']), r.choice(['UseTab', 'x']))
    if k < .60:
        return r.choice(['- x\n', 'IncludeGuards: 0\n',
                         "IncludeCategories:\n  - Regex: '('\n    Priority: 2\n", "IncludeCategories:\n  - Priority: 2\n  - Regex: '['\n", "IncludeCategories:\n- Regex: '('\n  Priority: 2\n- Regex: '*('\n"])
    if k < .68:
        return '%s:\n' % r.choice(UNKNOWN) + ''.join('  %s: %s\n' % (r.choice(['Enabled', 'AcrossEmptyLines', 'AcrossComments', 'Minimum', 'Maximum', 'AfterIfMacros']),
                                                                       r.choice(['true', 'false', '1', '-1'])) for _ in range(r.randrange(1, 5)))
    if k < .8:
        return r.choice(['# a comment\n', '# IndentWidth: 3\n', '#\n', '    # ColumnLimit: 20\n', "# it's\n"])
    if k < .9:
        return r.choice(['\n', '\n\n', '   \n'])
    # Known option with a value it does not take.
    return '%s: %s\n' % (r.choice(KNOWN), r.choice(['Bogus', 'x1', "'nope'", 'LLVM', '', '[Never]', '"nope"', '{a: 1}', '\n  Enabled: Always\n  Other: x', '\n  - x\n  - y', 'Bogus Never', '~']))


def value(r, v):
    return r.choice(["'%s'", '"%s"']) % v if r.random() < .25 else v


def rewrite(r, o):
    """Another spelling of the same options."""
    keys = list(o)
    r.shuffle(keys)
    s = r.choice(['', '---\n', '# head\n---\n', '\n'])
    if r.random() < .25:
        s = '---\nLanguage: %s\n' % r.choice(['Java', 'JavaScript', 'Proto', 'ObjC', 'Json']) + 'IndentWidth: 5\nColumnLimit: 33\nUseTab: Never\nBreakBeforeBraces: Attach\n' + '---\n'
        if r.random() < .5:
            s += 'Language: Cpp\n'
    if r.random() < .15 and s.find('Language') < 0:
        s += 'Language: Cpp\n'
    for k in keys:
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            s += noise(r)
        v = o[k]
        if isinstance(v, dict):
            ks = list(v)
            r.shuffle(ks)
            s += k + ':\n'
            ind = r.choice(['  ', '    ', ' '])
            for q in ks:
                if r.random() < .25:
                    s += r.choice(['  # inner\n', '\n', ind + 'AfterNothing: true\n', ind + 'Other: [a]\n', ind + 'Deep:\n' + ind + '  x: 1\n', ind + 'Empty:\n', ind + 'AfterEnumX: "a b"\n'])
                s += '%s%s: %s\n' % (ind, q, v[q])
            continue
        if r.random() < .15 and k in styles.ENUMS:
            s += '%s: %s\n' % (k, r.choice([x for x in styles.ENUMS[k]]))      # overridden below
        s += '%s:%s%s%s\n' % (k, r.choice([' ', '  ', '      ']), value(r, str(v)), r.choice(['', '', '  ', ' # why']))
        if r.random() < .05:
            # Known within some other option only.
            s += r.choice(['AfterFunction: true\n', 'AfterFunction: false\n', 'AfterStruct: true\n', 'AfterEnum: true\n', 'AfterUnion: true\n', "Regex: 'x'\n", 'Priority: 3\n',
                           'SortPriority: 1\n', 'CaseSensitive: true\n'])
    for _ in range(r.choice([0, 1, 2])):
        s += noise(r)
    s += r.choice(['', '...\n', ''])
    if r.random() < .15:
        s += '---\nLanguage: Java\nIndentWidth: 5\nColumnLimit: 33\n'
    return s


def text(r):
    inc = ['#include %s\n' % r.choice(['<%s.h>', '"%s.h"']) % n for n in r.sample(['b', 'a', 'sys/c', 'd', 'E', 'f/g'], r.randrange(0, 5))]
    return ''.join(inc).encode() + b'\n' * bool(inc) + work.program(r, cpp=0, comments=.05)[0]


def one(i):
    r = vlib.rng('C15', i)
    o, plain = styles.style(r, include=True, based=0)
    if not o:
        return None
    alt = rewrite(r, o)
    src = text(r)
    where = r.choice(['-c', 'cwd', 'parent', 'grandparent'])
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/plain', plain)
        none = vlib.run([EXE], src, cwd=d)
        want = vlib.run([EXE, '-c', d + '/plain'], src, cwd=d)
        sub = d + '/a/b/c'
        os.makedirs(sub)
        if where == '-c':
            vlib.write(d + '/alt', alt)
            # A file in the current directory does not count then.
            vlib.write(sub + '/.clang-format', 'IndentWidth: 5\nColumnLimit: 44\n')
            got = vlib.run([EXE, '-c', d + '/alt'], src, cwd=sub)
        else:
            up = {'cwd': sub, 'parent': d + '/a/b', 'grandparent': d + '/a'}[where]
            vlib.write(up + '/.clang-format', alt)
            # The closest file counts.
            vlib.write(d + '/.clang-format', 'IndentWidth: 5\nColumnLimit: 44\n')
            got = vlib.run([EXE], src, cwd=sub)
        if none.timeout or want.timeout or got.timeout:
            return 'timeout', where, src, plain, alt, '', False
        w = ''
        if (want.rc, want.out) != (got.rc, got.out):
            la, lb = want.out.split(b'\n'), got.out.split(b'\n')
            k = next((k for k in range(min(len(la), len(lb))) if la[k] != lb[k]), 0)
            w = 'style found through %s: exit %s instead of %s, line %d %r instead of %r' % (where, got.rc, want.rc, k + 1, lb[k:k + 1], la[k:k + 1])
        return 'bad' if w else 'same', where, src, plain, alt, w, none.out != want.out
    finally:
        vlib.rmtree(d)


for res in c.map(one, range(c.n(20000, 200000)), as_limit=3 << 30, chunk=32):
    if res is None:
        continue
    k, where, src, plain, alt, w, nt = res
    if k == 'timeout':
        c.inconclusive += 1
        continue
    c.stats['%s: %s' % (where, k)] += 1
    key = vlib.digest(src, plain, alt)
    c.observe(key if nt else None, {'plain': plain, 'rewritten': alt, 'found': where})
    if k == 'bad':
        c.violation(key, w, {'input.c': src, 'plain': plain, 'rewritten': alt})
c.finish(minimum=3000)
