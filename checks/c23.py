"""C23: values of style options are interpreted as documented."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, work, styles
from units import P
import san_common as S

c = vlib.Check('C23', 'exploration',
               'random styles in which one option has an unsupported value, a synonym or its default against the same style with the documented interpretation or without '
               'the option, on generated programs, predictable units and repository sources, with and without -s; monitored: the same output and exit status; '
               'non-trivial: distinct (style, source) for which another value of that option gives another output',
               ['the interpretations are those of knfmt.1, apart from AlignEscapedNewlines: Left, which the manual calls unsupported although it is supported and tested'])
EXE = c.build('plain')

# option: value, as documented
SAME = [('AlignAfterOpenBracket', 'AlwaysBreak', 'DontAlign'), ('AlignAfterOpenBracket', 'BlockIndent', 'DontAlign'),
        ('AlignOperands', 'AlignAfterOperator', 'DontAlign'), ('AlignOperands', 'true', 'Align'), ('AlignOperands', 'false', 'DontAlign'),

        ('AlwaysBreakAfterReturnType', 'TopLevel', 'All'), ('AlwaysBreakAfterReturnType', 'TopLevelDefinitions', 'AllDefinitions'),
        ('SortIncludes', 'CaseInsensitive', 'Never'), ('IncludeBlocks', 'Merge', 'Preserve')]
SAME += [('UseTab', v, 'Always') for v in ('ForIndentation', 'ForContinuationAndIndentation', 'AlignWithSpaces')]
SAME += [('BreakBeforeBraces', v, 'Custom') for v in ('Allman', 'Attach', 'GNU', 'Mozilla', 'Stroustrup', 'WebKit', 'Whitesmiths')]
# defaults: explicit or absent
SAME += [(k, v, None) for k, v in (('AlignAfterOpenBracket', 'DontAlign'), ('AlignEscapedNewlines', 'Right'), ('AlignOperands', 'DontAlign'), ('AlwaysBreakAfterReturnType', 'AllDefinitions'),
                                   ('BitFieldColonSpacing', 'None'), ('BreakBeforeBinaryOperators', 'None'), ('BreakBeforeBraces', 'Linux'), ('BreakBeforeTernaryOperators', 'false'),
                                   ('ColumnLimit', '80'), ('ContinuationIndentWidth', '4'), ('IncludeBlocks', 'Preserve'), ('IndentWidth', '8'), ('SortIncludes', 'Never'), ('UseTab', 'Always'))]
OTHER = {'AlignAfterOpenBracket': ('Align', 'DontAlign'), 'AlignOperands': ('Align', 'DontAlign'), 'AlignEscapedNewlines': ('Right', 'DontAlign'),
         'AlwaysBreakAfterReturnType': ('All', 'None', 'AllDefinitions'), 'SortIncludes': ('CaseSensitive', 'Never'), 'IncludeBlocks': ('Regroup', 'Preserve'),
         'UseTab': ('Never', 'Always'), 'BreakBeforeBraces': ('Linux', 'Custom'), 'BitFieldColonSpacing': ('Both', 'None'), 'BreakBeforeBinaryOperators': ('NonAssignment', 'None'),
         'BreakBeforeTernaryOperators': ('true', 'false'), 'ColumnLimit': ('60', '80'), 'ContinuationIndentWidth': ('2', '4'), 'IndentWidth': ('3', '8'), 'IncludeGuards': ('2', '1')}

def text(o, opt, val):
    l = ['%s: %s' % (k, v) for k, v in o.items() if k != opt and not isinstance(v, dict)]
    if val is not None:
        l.insert(0, '%s: %s' % (opt, val))
    w = o.get('BraceWrapping')
    if isinstance(w, dict):
        l.append('BraceWrapping:')
        l += ['  %s: %s' % x for x in w.items()]
    return '\n'.join(l + ['# end', '']) if l else 'Language: Cpp\n'

def one(i):
    r = vlib.rng('C23', i)
    opt, val, as_ = r.choice(SAME)
    o = dict(styles.style(r, include=True, based=0)[0])
    k = r.random()
    if k < .5:
        src = P(r, o).build().encode()
    elif k < .8:
        src = work.program(r)[0]
    else:
        src = r.choice(S.CORPUS)
        src = src if isinstance(src, bytes) else src.encode('latin-1')
    if opt in ('SortIncludes', 'IncludeBlocks'):
        src = b'#include <stdio.h>\n#include <b.h>\n\n#include <a.h>\n\n' + src
    fl = r.choice([[], [], ['-s']]) if opt != 'SortIncludes' else []
    name = 'a.h' if opt == 'IncludeGuards' else r.choice(['a.c', 'a.h'])
    d = vlib.fresh_dir()
    try:
        vlib.write(d + '/' + name, src)
        out = []
        for v in (val, as_) + OTHER[opt]:
            vlib.write(d + '/.clang-format', text(o, opt, v))
            x = vlib.run([EXE] + fl + [name], b'', cwd=d)
            if x.timeout:
                return None
            out.append((x.rc, x.out))
        return opt, val, as_, fl, name, src, text(o, opt, val), text(o, opt, as_), out
    finally:
        vlib.rmtree(d)

for res in c.map(one, range(c.n(16000, 300000)), chunk=32):
    if res is None:
        c.inconclusive += 1
        continue
    opt, val, as_, fl, name, src, t0, t1, out = res
    work_ = len(set(out[1:])) > 1
    key = vlib.digest(src, t0, t1, name, *fl)
    c.stats['%s %s' % (opt, val)] += work_
    c.observe(key if work_ else None, {'option': opt, 'value': val, 'as': as_, 'flags': fl, 'source': src[:120].decode('latin-1')})
    if out[0] != out[1]:
        c.violation(key, '%s: %s differs from %s' % (opt, val, as_ or 'the option left out'),
                    {name: src, 'clang-format.a': t0, 'clang-format.b': t1, 'out.a': out[0][1], 'out.b': out[1][1]})
# documented as the default, rejected by the code
d = vlib.fresh_dir()
out = []
for t in ('IndentWidth: 4\nUseTab: Never\n', 'IncludeGuards: 0\nIndentWidth: 4\nUseTab: Never\n'):
    vlib.write(d + '/.clang-format', t)
    vlib.write(d + '/a.c', b'int\nmain(void)\n{\n\treturn 0;\n}\n')
    out.append(vlib.run([EXE, 'a.c'], b'', cwd=d))
vlib.rmtree(d)
if not any(x.timeout for x in out) and (out[0].rc, out[0].out) != (out[1].rc, out[1].out):
    c.violation('IncludeGuards-0', '`IncludeGuards: 0` (documented as the default) differs from the option left out', {'out.a': out[0].out, 'out.b': out[1].out})
c.finish(minimum=1000)
