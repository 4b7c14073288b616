"""Random .clang-format configurations."""

ENUMS = {
    'AlignAfterOpenBracket': ['Align', 'DontAlign', 'AlwaysBreak', 'BlockIndent'],
    'AlignEscapedNewlines': ['DontAlign', 'Left', 'Right'],
    'AlignOperands': ['Align', 'DontAlign', 'AlignAfterOperator', 'true', 'false'],
    'AlwaysBreakAfterReturnType': ['None', 'All', 'TopLevel', 'AllDefinitions', 'TopLevelDefinitions'],
    'BitFieldColonSpacing': ['Both', 'None', 'Before', 'After'],
    'BreakBeforeBinaryOperators': ['None', 'NonAssignment', 'All'],
    'BreakBeforeBraces': ['Attach', 'Linux', 'Mozilla', 'Stroustrup', 'Allman', 'Whitesmiths', 'GNU', 'WebKit', 'Custom'],
    'BreakBeforeTernaryOperators': ['true', 'false'],
    'UseTab': ['Never', 'ForIndentation', 'ForContinuationAndIndentation', 'AlignWithSpaces', 'Always'],
}
INTS = {
    'ColumnLimit': [0, 40, 60, 79, 80, 81, 100, 132],
    'ContinuationIndentWidth': [2, 4, 8],
    'IndentWidth': [2, 3, 4, 8],
}
INCLUDE = {
    'IncludeBlocks': ['Merge', 'Preserve', 'Regroup'],
    'SortIncludes': ['Never', 'CaseSensitive', 'CaseInsensitive'],
}
WRAP = ['AfterCaseLabel', 'AfterClass', 'AfterControlStatement', 'AfterEnum', 'AfterExternBlock', 'AfterFunction',
        'AfterNamespace', 'AfterStruct', 'AfterUnion', 'BeforeCatch', 'BeforeElse', 'BeforeWhile', 'IndentBraces',
        'SplitEmptyFunction', 'SplitEmptyRecord']
BASED = ['LLVM', 'Google', 'Chromium', 'Mozilla', 'WebKit', 'Microsoft', 'GNU', 'OpenBSD', 'InheritParentConfig']


def style(rng, include=False, based=0.15):
    """Returns (dict of options, text)."""
    o = {}
    if rng.random() < based:
        o['BasedOnStyle'] = rng.choice(BASED)
    for k, v in ENUMS.items():
        if rng.random() < 0.35:
            o[k] = rng.choice(v)
    for k, v in INTS.items():
        if rng.random() < 0.35:
            o[k] = rng.choice(v)
    if include:
        for k, v in INCLUDE.items():
            if rng.random() < 0.5:
                o[k] = rng.choice(v)
    w = {}
    if rng.random() < 0.3:
        for k in WRAP:
            if rng.random() < 0.4:
                w[k] = rng.choice(['true', 'false'])
        if w:
            o['BraceWrapping'] = w
    return o, text(o)


def text(o):
    s = '---\n'
    for k, v in o.items():
        if isinstance(v, dict):
            s += k + ':\n' + ''.join('  %s: %s\n' % kv for kv in v.items())
        else:
            s += '%s: %s\n' % (k, v)
    return s
