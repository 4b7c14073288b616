NOT_APPLICABLE = []


def q(over, text):
    return {'over': over, 'text': text}


def anch(files, mech, observe=()):
    d = {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}
    if observe:
        d['observe_at'] = list(observe)
    return d


PROPS = [
 dict(id='C01', title='No memory error, undefined behaviour or crash on any C source',
      statement='Whatever bytes knfmt is given as a C source file, with any combination of its options, it never reads or writes outside '
                'of live memory, never executes undefined behaviour or branches on uninitialised memory, and never ends by signal, abort or '
                'failed assertion. It always ends by exiting with status 0 or 1.',
      quantifier=q(['inputs', 'configurations'], 'all byte sequences as source file or standard input x {-d,-i,-s,-t} x style files'),
      why_tests_cant='The tests feed about 900 small well behaved files to an uninstrumented binary; malformed, truncated, nested or oversized '
                     'sources number beyond any sample, and most memory errors are silent without instrumentation.',
      anchors=anch(['lexer.c', 'clang.c', 'parser*.c', 'doc.c', 'expr.c', 'ruler.c', 'simple*.c', 'libks/arena.c', 'libks/buffer.c'],
                   [('arena scopes own all parse memory', 'libks/arena.c'), ('lexer buffer bounds', 'lexer.c lexer_getc/lexer_buffer'),
                    ('parser error recovery', 'parser.c parser_fail/parser_exec')], ['process exit status', 'sanitizer reports']),
      technique='ASan+UBSan and memcheck builds under mutated, generated and boundary-shaped sources', level='exploration',
      note='Held on the executions observed: ~14k instrumented runs per quick run; sanitizers see instrumented code only.'),
 dict(id='C02', title='No memory error, undefined behaviour or crash on any style file',
      statement='Whatever bytes a .clang-format file (found by search or given with -c) contains, knfmt never reads or writes outside of live '
                'memory, never executes undefined behaviour and never ends by signal, abort or failed assertion, neither while reading it '
                'nor while formatting with the resulting style.',
      quantifier=q(['inputs', 'configurations'], 'all byte sequences as style file x sources that exercise the options'),
      why_tests_cant='The tests contain about 200 well formed styles; malformed YAML, odd nesting, extreme numbers and broken regular expressions are not sampled.',
      anchors=anch(['style.c', 'cpp-include.c', 'cpp-align.c', 'cpp-include-guard.c', 'doc.c'],
                   [('style lexer and option parsers', 'style.c'), ('include categories', 'style.c/cpp-include.c')], ['process exit status', 'sanitizer reports']),
      technique='ASan+UBSan build under mutated style files', level='exploration',
      note='Held on the executions observed: 12k instrumented runs per quick run.'),
 dict(id='C03', title='No memory error, undefined behaviour or crash on any diff given to -D',
      statement='Whatever bytes -D reads as unified diff, and whatever the files it names contain (also when they do not match the diff), '
                'knfmt never reads or writes outside of live memory, never executes undefined behaviour and never ends by signal, abort '
                'or failed assertion.',
      quantifier=q(['inputs', 'configurations'], 'all byte sequences as diff x contents of the named file x {-d,-i,-s}'),
      why_tests_cant='The tests hold about 140 matching diffs; hunks at arbitrary places, stale or malformed diffs are not sampled.',
      anchors=anch(['diff.c', 'doc.c', 'clang.c', 'lexer.c'], [('chunk parsing', 'diff.c diff_parse'), ('diff mode walk', 'doc.c doc_diff_*')],
                   ['process exit status', 'sanitizer reports']),
      technique='ASan+UBSan build under generated and mutated diffs', level='exploration',
      note='Held on the executions observed: 12k instrumented runs per quick run.'),
 dict(id='C04', title='Formatting never changes the code',
      statement='Without -s, whenever knfmt accepts a C source, its output consists of the same tokens and preprocessor directives in the same '
                'order as the input: nothing is dropped, duplicated, reordered, split, fused or altered inside literals, under any style. '
                'Only white space, line breaks, line continuations, and redundant semicolons after another semicolon or a block may differ '
                '(and the order of includes, if the style asks for it).',
      quantifier=q(['inputs', 'configurations'], 'all accepted C sources in any layout x all styles'),
      why_tests_cant='The tests compare some 900 fixed outputs; whether a token survives depends on combinations of construct, layout, branch and '
                     'style that no list of examples covers (eleven such defects were present at the pinned commit).',
      anchors=anch(['parser*.c', 'expr.c', 'doc.c', 'clang.c', 'lexer.c', 'cpp-align.c', 'ruler.c'],
                   [('every consumed token becomes a doc', 'parser-*.c parser_doc_token'), ('unmute and recover', 'clang.c, parser.c'),
                    ('spacing between tokens', 'expr.c, doc.c')], ['standard output']),
      technique='offline monitor: independent C scanner compares token streams of input and output', level='exploration',
      note='Held on the executions observed: 30k generated programs and ~3.9k installed sources per quick run.'),
 dict(id='C05', title='Every comment and directive survives, in place',
      statement='Whenever knfmt accepts a C source, every comment and every preprocessor directive of the input occurs in the output exactly once, '
                'its text unchanged but for white space, between the same words of code as before, under any style. With -s each still '
                'occurs exactly once.',
      quantifier=q(['inputs', 'configurations'], 'all accepted C sources with comments and directives anywhere x all styles'),
      why_tests_cant='A comment can stand between any two tokens; each grammar rule has to carry it over, and tests place comments at a few of those spots.',
      anchors=anch(['lexer.c', 'clang.c', 'parser*.c', 'comment.c', 'doc.c', 'token.c'],
                   [('comments and directives are token prefixes and suffixes', 'clang.c clang_read/token.c'), ('redundant tokens hand over theirs', 'lexer.c lexer_remove')],
                   ['standard output']),
      technique='offline monitor: comment and directive positions in input against output', level='exploration',
      note='Held on the executions observed: 25k generated programs and ~3.4k installed sources per quick run.'),
 dict(id='C06', title='In-place formatting replaces a file completely or not at all',
      statement='With -i, at every instant, including a crash or a failing system call at any point, each named file holds either its complete '
                'old or its complete new content with its old permissions and owner, and no other file is touched. knfmt exits 0 only if '
                'every file has its formatted content; if it fails it leaves the old content and no temporary file behind; a file that needs no '
                'change is not replaced.',
      quantifier=q(['crash_points', 'fault_sequences', 'inputs'], 'all system calls of a run as crash or fault point x files, modes, owners'),
      why_tests_cant='The tests run -i on a writable file with nothing failing; the guarantee is about what remains when a write, chmod, rename or the '
                     'process itself fails half way.',
      anchors=anch(['knfmt.c', 'fs.c', 'file.c'], [('write to temporary, copy attributes, rename', 'knfmt.c filewrite/fileattr'), ('temporary name', 'fs.c tmptemplate')],
                   ['file system state after the run']),
      technique='system call fault injection and crash points (strace), size limits and short I/O under a file system state monitor', level='exploration',
      note='Held on the executions observed: ~3000 fault and crash points over 44 scenarios per quick run; power loss is not modelled.'),
 dict(id='C07', title='All output modes agree on one result and report it by exit status',
      statement='For any source and style, the text printed for a file, printed for the same text on standard input, written by -i, and obtained by '
                'applying the patch printed by -d is the same. -d exits 1 exactly if that text differs from the source and prints nothing '
                'otherwise; without -d the status is 0 exactly if the source was accepted and fully written, however reads and writes are split.',
      quantifier=q(['inputs', 'configurations', 'schedules'], 'all sources x styles x modes x splits of reads and writes'),
      why_tests_cant='Each test checks one mode of one file.',
      anchors=anch(['knfmt.c', 'file.c', 'libks/buffer.c', 'libks/tmp.c'], [('dispatch by mode', 'knfmt.c fileformat'), ('diff child', 'knfmt.c filediff'), ('short writes', 'knfmt.c fileprint/filewrite')],
                   ['standard output', 'files', 'exit status']),
      technique='differential monitor across output modes, with short I/O and full devices injected', level='exploration',
      note='Held on the executions observed: 4500 inputs x 4-7 modes per quick run.'),
 dict(id='C08', title='A source that cannot be parsed is reported and left alone',
      statement='If knfmt cannot make sense of a file it prints a diagnostic that starts with the path and a line number of that file, exits 1, '
                'writes nothing to standard output and does not touch the file in any mode. Sources cut inside a function body and unterminated '
                'string or character literals are never accepted; an accepted source produces no diagnostics.',
      quantifier=q(['inputs', 'configurations'], 'all byte sequences x modes x styles'),
      why_tests_cant='The tests hold a few dozen broken files; a partial output is possible at any point of any broken file.',
      anchors=anch(['parser.c', 'error.c', 'lexer.c', 'knfmt.c', 'clang.c'], [('output is buffered until the whole file parsed', 'parser.c parser_exec, knfmt.c fileformat'), ('diagnostics', 'error.c, lexer.c')],
                   ['standard output', 'diagnostics', 'files', 'exit status']),
      technique='process boundary monitor under malformed and truncated inputs', level='exploration',
      note='Held on the executions observed: 22k inputs, ~15k of them rejected, per quick run.'),
 dict(id='C09', title='Files given together are formatted as if given alone',
      statement='Running knfmt on several files gives, for each of them, the same output, diagnostics and file content as running it on that file alone, '
                'in the order given, also when others among them are malformed, missing or repeated. The exit status is 1 exactly if it is '
                'for one of them alone.',
      quantifier=q(['histories', 'inputs', 'configurations'], 'all sequences of files x modes x -s x styles'),
      why_tests_cant='The tests pass one file per run; state that survives from file to file shows only in sequences.',
      anchors=anch(['knfmt.c', 'simple*.c', 'clang.c', 'cpp-include.c', 'libks/arena.c'], [('shared buffers and arenas reset per file', 'knfmt.c main/fileformat'), ('simple passes state', 'simple.c')],
                   ['standard output', 'files', 'exit status']),
      technique='differential monitor: joint run against one run per file', level='exploration',
      note='Held on the executions observed: 5000 sequences of 2 to 6 files per quick run.'),
 dict(id='C10', title='-D formats the changed lines and nothing else',
      statement='Given a unified diff, -D leaves every top-level declaration and statement the diff adds no line to byte for byte as it is, and '
                'formats declarations and expression statements made of added lines as formatting the file would. Whatever lines are '
                'marked, in however many files and hunks, with or without -i, no code or comment is lost, repeated or altered, and a file '
                'without added lines is unchanged.',
      quantifier=q(['inputs', 'configurations'], 'all diffs (context sizes, removed lines, prefixes, several files, no newline at end of file) x accepted sources in any layout x styles x {-D, -Di} x working directory'),
      why_tests_cant='About 140 fixed diffs of small files; the result depends on where marks fall relative to groups, lines and comments in the layout of the source (six defects at the pinned commit lost or repeated code).',
      anchors=anch(['diff.c', 'doc.c', 'lexer.c', 'clang.c', 'parser.c'], [('chunk parsing and paths', 'diff.c diff_parse/matchpath'), ('chunk enter and leave', 'doc.c doc_diff_*'), ('token marking', 'lexer.c/clang.c TOKEN_FLAG_DIFF')],
                   ['standard output', 'files']),
      technique='offline monitor: exact expectation per top-level unit and statement, token and comment streams for arbitrary marks', level='exploration',
      note='Held on the executions observed: 20k diffs per quick run. For arbitrary marks sources have no preprocessor conditionals and styles do not move operators across lines.'),
 dict(id='C11', title='Regions under clang-format off are reproduced byte for byte',
      statement='The bytes between a clang-format off comment and the matching on comment (or the end of the file) occur unchanged, exactly once and '
                'between the same two comments in the output, whatever they contain, with and without -s and under any style. Code before and '
                'after such a region is kept and formatted as usual.',
      quantifier=q(['inputs', 'configurations'], 'all accepted sources with protected regions of any content at any place between declarations, statements, fields or enumerators x styles x -s'),
      why_tests_cant='Six tests hold one small region each; the region is reproduced by muting and unmuting the output while the parser may branch, recover and start over (six defects at the pinned commit lost regions or the rest of the file).',
      anchors=anch(['parser.c', 'clang.c', 'doc.c', 'lexer.c'], [('mute, verbatim, unmute', 'parser.c clang_format_off/on/verbatim'), ('recognition of the comments', 'clang.c sense_clang_format_comment'), ('recovery and branches', 'parser.c parser_exec')],
                   ['standard output']),
      technique='offline monitor: byte comparison of protected regions between input and output', level='exploration',
      note='Held on the executions observed: 14k generated programs with 1 to 3 regions and ~2.5k installed sources per quick run.'),
    dict(id='C12', title='Simplification (-s) never changes what a program does',
      statement='For every program that knfmt -s accepts, the simplified program compiles whenever the original does and behaves the same: regrouping and '
                'sorting of declarations, removal or insertion of braces and parentheses, rewriting of empty loops, default cases, sizeof operands, '
                'storage class and implicit int never alter the meaning.',
      quantifier=q(['inputs', 'configurations'], 'all accepted C programs (except macros whose expansion depends on their spelling) x styles'),
      why_tests_cant='The -s tests compare text for one construct each; whether a rewrite keeps the meaning depends on what surrounds it (dangling else, dependent initialisers, fallthrough; six defects at the pinned commit changed the meaning or broke compilation).',
      anchors=anch(['simple-stmt.c', 'simple-decl.c', 'simple-expr-printf.c', 'simple-stmt-switch.c', 'simple-stmt-empty-loop.c', 'simple-implicit-int.c', 'simple-static.c', 'simple-decl-proto.c', 'simple-decl-forward.c', 'expr.c', 'parser-stmt.c'],
                   [('brace insertion and removal', 'simple-stmt.c'), ('declaration grouping', 'simple-decl.c'), ('parentheses and sizeof', 'expr.c expr_doc_parens, expr_doc_sizeof')],
                   ['behaviour of the compiled output']),
      technique='differential execution: step traces of the original and the simplified program, recorded at run time and compared', level='exploration',
      note='Held on the executions observed: 1300 generated programs (about 8k functions) per quick run, compiled and run before and after.'),
 dict(id='C13', title='Blocks are indented by depth and the output carries no stray blanks',
      statement='In every output, whatever the layout of the input, no line ends in white space, no two blank lines follow each other, the first line and the last '
                'one are not blank and the last one ends in a newline. Every statement and field of a block starts a line of its own, indented by exactly '
                'one IndentWidth more than the closing brace of the block (case labels: as the closing brace), in tabs or spaces as UseTab demands.',
      quantifier=q(['inputs', 'configurations'], 'all accepted sources (comments in any place, any layout; no blank line inside of a statement, no conditional directives; the text of directives is kept as is) x styles x -s'),
      why_tests_cant='Indentation and blanks are decided while documents of any nesting are printed, with trimming of pending white space; tests show about 700 of those documents.',
      anchors=anch(['doc.c', 'parser-stmt.c', 'parser-decl.c', 'lexer.c', 'clang.c'], [('indent, trim and newline handling', 'doc.c doc_exec_*, doc_trim*'), ('block indentation', 'parser-stmt.c, parser-decl.c'), ('tabs or spaces', 'doc.c doc_indent*')],
                   ['standard output']),
      technique='offline monitor of every output: white space rules and indentation per block', level='exploration',
      note='Held on the executions observed: 36k generated programs x styles per quick run, every block statement judged.'),
 dict(id='C14', title='Style options have their documented effect',
      statement='For every unit of code the output obeys the style: return types, braces, bit-field colons, escaped newlines, binary and ternary operators at line breaks are '
                'placed as AlwaysBreakAfterReturnType, BreakBeforeBraces/BraceWrapping, BitFieldColonSpacing, AlignEscapedNewlines, BreakBeforeBinaryOperators, '
                'BreakBeforeTernaryOperators, AlignAfterOpenBracket and AlignOperands demand. Code made of plain names never exceeds ColumnLimit and is broken no earlier than '
                'the limit forces, with continuation lines indented by ContinuationIndentWidth or aligned as the style demands.',
      quantifier=q(['inputs', 'configurations'], 'all definitions, prototypes, calls, operator chains, conditions, structures, enumerations and macros built of plain names x styles'),
      why_tests_cant='The tests show one or two lengths per option; whether a line fits depends on every length, depth and option together.',
      anchors=anch(['style.c', 'doc.c', 'expr.c', 'parser-func.c', 'parser-decl.c', 'cpp-align.c'], [('fits and soft lines', 'doc.c doc_fits, doc_exec_softline'), ('style parsing', 'style.c'), ('operators', 'expr.c expr_doc_binary, expr_doc_ternary')],
                   ['standard output']),
      technique='offline monitor: exact prediction of every unit under the style', level='exploration',
      note='Held on the executions observed: 40k programs with about 300k units per quick run.'),
 dict(id='C15', title='What is not understood in a style file does not disturb what is',
      statement='Unknown options (scalars, sequences, nested mappings), comments, blank lines, quoting, the order of options, values overridden by later ones, invalid values and documents '
                'for other languages in a .clang-format file have no effect on the result. The nearest .clang-format in the current directory or an ancestor, or the one given by -c, '
                'decides alone, and a style file never makes an accepted source fail.',
      quantifier=q(['configurations', 'inputs'], 'all spellings of a style x sources x ways to find it'),
      why_tests_cant='The tests hold a few dozen style files; an option that is skipped wrongly swallows another one only in certain neighbourhoods.',
      anchors=anch(['style.c', 'clang.c', 'lexer.c'], [('parsing of options', 'style.c style_parse_yaml, parse_*'), ('lookup', 'style.c style_parse, libks searchpath')],
                   ['standard output', 'exit status']),
      technique='differential monitor: the same source under a plain and a rewritten style', level='exploration',
      note='Held on the executions observed: 20k pairs of style files per quick run.'),
 dict(id='C16', title='Include directives are all kept, sorted and grouped as demanded',
      statement='Sorting (SortIncludes: CaseSensitive or -s) keeps every include directive exactly once and moves it only within its block, the main header staying first, blocks mixing angle '
                'brackets with quotes or directories are left alone. IncludeBlocks: Regroup merges adjacent blocks and orders them by the Priority and SortPriority of the first matching '
                'IncludeCategories entry with one blank line between groups, and everything that is not an include directive is untouched.',
      quantifier=q(['inputs', 'configurations'], 'all sequences of include blocks between other code x sort options x categories x file names'),
      why_tests_cant='About 30 tests with fixed lists; the order is a function of every directive, category and the path.',
      anchors=anch(['cpp-include.c', 'style.c', 'simple.c'], [('collecting and sorting blocks', 'cpp-include.c cpp_include_*'), ('categories', 'style.c parse_IncludeCategories, style_include_priority')],
                   ['standard output']),
      technique='offline monitor: exact prediction of the whole file by an independent model', level='exploration',
      note='Held on the executions observed: 60k generated files per quick run.'),
 dict(id='C17', title='Include guards are named after the path and enclose the whole header',
      statement='With IncludeGuards: N a header is enclosed in a guard named after the last N components of its real path, however the path is given; an existing guard '
                '(right or wrong name) is replaced and never duplicated, and a second run changes nothing. Everything else (leading comments, every directive and '
                'declaration, conditionals that only look like a guard) is kept, and files that are no headers or N being 0 are left alone.',
      quantifier=q(['inputs', 'configurations'], 'all headers x paths x N x ways to name the file'),
      why_tests_cant='Eleven tests, all of them for the same path; whether a conditional is the guard depends on what surrounds it (defines were lost at the pinned commit).',
      anchors=anch(['cpp-include-guard.c', 'util.c', 'style.c'], [('recognition of a guard', 'cpp-include-guard.c sense_include_guards'), ('name', 'cpp-include-guard.c path_to_guard, util.c path_slice')],
                   ['standard output', 'files']),
      technique='offline monitor: exact prediction of the whole header by an independent model', level='exploration',
      note='Held on the executions observed: 25k generated headers per quick run.'),
 dict(id='C18', title='Containers and helpers behave as their models',
      statement='For every sequence of operations the vector, map, buffer and list containers hold exactly what a plain model would hold, in the same order, arena allocations are '
                'aligned, never overlap and keep their content until their scope is left, when cleanups run once each in reverse order. String matching and splitting, reading '
                'of files and overflow-checked arithmetic return the mathematically right result for every operand and never read beyond their input.',
      quantifier=q(['histories', 'inputs'], 'all operation sequences x element sizes x lengths and alignments x operands'),
      why_tests_cant='libks comes without tests here; reallocation, expansion and vector code paths depend on sizes and histories.',
      anchors=anch(['libks/vector.c', 'libks/map.c', 'libks/buffer.c', 'libks/arena.c', 'libks/list.h', 'libks/string.c', 'libks/string-x86_64.S', 'libks/arithmetic.c', 'libks/tmp.c'],
                   [('growth', 'vector_reserve1, buffer_reserve'), ('reallocation in place', 'arena_realloc_fast'), ('bucket expansion', 'HASH_EXPAND_BUCKETS'), ('vectorised matching', 'KS_str_match_native')],
                   ['library interface']),
      technique='model-based stress under ASan, UBSan and guard pages', level='exploration',
      note='Held on the executions observed: 240k operation sequences with about 230 million judged operations per quick run.'),
 dict(id='C19', title='Nothing is written that was not asked for and nothing accumulates',
      statement='Without -i no run creates, changes or touches any file, with -i only the named files that need a change are replaced, and no temporary file is left anywhere. '
                'The outcome for many files equals the outcome for each of them alone, however many there are: descriptors and memory are given back after each file.',
      quantifier=q(['inputs', 'configurations', 'histories'], 'all lists of good, malformed, empty and missing files x options x limits of open files'),
      why_tests_cant='Every test formats one file in a fresh process and looks at its output only; leaks and stray writes need long lists and a look at everything else.',
      anchors=anch(['knfmt.c', 'file.c', 'parser.c', 'clang.c', 'libks/tmp.c', 'libks/buffer.c'], [('per file life cycle', 'knfmt.c fileformat, filelist'), ('scratch files', 'libks/tmp.c KS_tmpfd'), ('arena scopes', 'knfmt.c')],
                   ['files', 'open descriptors', 'peak memory']),
      technique='offline monitor of the whole tree before and after, descriptor limits and peak memory', level='exploration',
      note='Held on the executions observed: 8k runs over trees of files per quick run.'),
 dict(id='C20', title='The result depends on source, style and options alone',
      statement='The same source, style, path and options give the same output, diagnostics and exit status in every run: whatever stale memory holds, whichever compiler and '
                'optimisation level built the program, with any tracing (-t) enabled, in any locale, environment, directory or time.',
      quantifier=q(['inputs', 'configurations'], 'all sources (accepted or not) x styles x options x environments'),
      why_tests_cant='The tests run each source once in one environment; a decision taken on uninitialised or freed memory or on tracing code shows only in a comparison.',
      anchors=anch(['trace.c', 'lexer.c', 'doc.c', 'parser.c', 'expr.c', 'options.c'], [('tracing', 'trace.c, trace.h'), ('state of parsers', 'lexer.c, parser.c, doc.c')],
                   ['standard output', 'standard error', 'exit status']),
      technique='differential monitor: repeated runs under filled memory, another compiler, tracing and environment', level='exploration',
      note='Held on the executions observed: 7k sources in 5 runs each per quick run.'),
 dict(id='C21', title='What knfmt has laid out is left alone',
      statement='Formatting the output of knfmt again under the same style and options changes nothing, for definitions, prototypes, structures, enumerations, macros, calls, operator chains, '
                'conditions and assignments built of plain names under styles that do not align. Then -d is silent with exit 0 and -i leaves the file alone.',
      quantifier=q(['inputs', 'configurations'], 'all such units in any spacing x styles without alignment x -s'),
      why_tests_cant='The tests check fixed points for about 400 samples at fixed lengths; whether a second run breaks a line elsewhere depends on every length.',
      anchors=anch(['doc.c', 'expr.c', 'lexer.c', 'parser-decl.c', 'parser-stmt.c', 'cpp-align.c'], [('honoured line breaks', 'doc.c doc_optional, lexer.c'), ('fits', 'doc.c doc_fits')],
                   ['standard output', 'exit status', 'files']),
      technique='monitor of a fixed point: every output is formatted again', level='exploration',
      note='Held on the executions observed: 39k programs per quick run. Does not hold for arbitrary sources (see DESIGN.md).'),
 dict(id='C22', title='Every run ends and the work stays in proportion to the source',
      statement='Every run ends, for any source and style. The work for a source made of complete definitions is proportional to their number, '
                'doubling the depth or length of any construct multiplies work and memory by a constant (polynomial growth), and the size of the output is in proportion to the source and its nesting.',
      quantifier=q(['inputs', 'configurations'], 'all sources, malformed or not (the four kinds of nesting in known-findings.txt excluded) x styles x -s'),
      why_tests_cant='The tests are small; an endless loop or repeated parsing needs particular neighbourhoods or depth (4 GB of white space were emitted at the pinned commit).',
      anchors=anch(['lexer.c', 'parser.c', 'parser-expr.c', 'doc.c', 'expr.c', 'simple-stmt.c', 'cpp-align.c'], [('recovery and branches', 'parser.c, lexer.c lexer_recover, lexer_branch'), ('fits and minimising', 'doc.c doc_fits, doc_exec_minimize')],
                   ['number of executed basic blocks', 'peak memory', 'size of the output']),
      technique='instrumented build counting basic blocks with a budget: growth and proportion monitors', level='exploration',
      note='Held on the executions observed: 10k measured sources and families per quick run; nested statement expressions, compound literals, aligned calls and initialisers are known findings.'),
 dict(id='C23', title='Values of style options mean what the manual says',
      statement='A value which the manual calls unsupported or a synonym is taken for the value the manual names, and an option set to its documented default acts as if it were absent, '
                'whatever the other options, the source and -s are.',
      quantifier=q(['inputs', 'configurations'], 'all such options and values x all settings of the other options x all sources'),
      why_tests_cant='The tests set a few options one at a time on a single sample; the substitution of values meets every place that asks for the option.',
      anchors=anch(['style.c', 'clang.c', 'doc.c', 'expr.c', 'parser-func.c', 'cpp-include.c', 'knfmt.1'], [('defaults', 'style.c style_defaults'), ('interpretation', 'style.c style, style_align, style_use_tabs')],
                   ['standard output', 'exit status']),
      technique='metamorphic monitor: runs under documented equivalent styles are compared', level='exploration',
      note='Held on the executions observed: 16k pairs of styles per quick run.'),
 dict(id='C24', title='-s carries out its simplifications everywhere and nothing else',
      statement='With -s, redundant braces around single line statements are removed and missing ones added when another branch needs them, redundant parentheses go, sizeof gets parentheses, empty loops get continue, '
                'empty default cases break, err(3) style messages lose their newline, implicit int is spelled out, static comes first, multi-line designated initialisers get a trailing comma, uninitialised local '
                'declarations of a type are merged and sorted, forward declarations are sorted and partly named prototypes lose the names. '
                'This happens at every nesting and the result equals what knfmt makes of the source written in simplified form in the first place; a source in that form is not changed by -s.',
      quantifier=q(['inputs', 'configurations'], 'all programs with any number of these constructs at any nesting x styles of indentation'),
      why_tests_cant='Each simplification has a few samples at the top of a function; passes exclude each other, so they interact at every nesting (inside loops and cases none took place at the pinned commit).',
      anchors=anch(['simple.c', 'simple-stmt.c', 'simple-decl.c', 'simple-decl-forward.c', 'simple-decl-proto.c', 'simple-expr-printf.c', 'simple-implicit-int.c', 'simple-static.c', 'simple-stmt-empty-loop.c', 'simple-stmt-switch.c', 'parser-stmt.c', 'expr.c', 'parser-braces.c'],
                   [('passes', 'simple.c simple_enter'), ('braces', 'simple-stmt.c'), ('documentation', 'CHANGELOG.md')],
                   ['standard output', 'exit status']),
      technique='differential monitor against a generator that knows both forms of every program', level='exploration',
      note='Held on the executions observed: 24k programs per quick run.'),
 dict(id='C25', title='Blank lines are kept where they separate and dropped where they do not',
      statement='One blank line is kept wherever the input has some between two statements, declarations, fields, enumerators, initialisers, cases, labels, comments or directives, and none is invented there; after a function one is always '
                'present unless a directive or the end of the file follows. None is left after the left brace of a statement, structure or enumeration, after a case label, in front of declarations that open a function, inside the head of a '
                'function, between a statement and the head of its if, for, while or switch or between a right brace and else, nor in front of a right brace unless a comment precedes it.',
      quantifier=q(['inputs', 'configurations'], 'all files of such items with any number of blank lines in any gap x styles'),
      why_tests_cant='The tests sample a few gaps; which lines are trimmed is decided token by token, by prefixes, suffixes and the kind of both neighbours at any depth.',
      anchors=anch(['lexer.c', 'clang.c', 'token.c', 'parser.c', 'parser-stmt.c', 'parser-decl.c', 'parser-braces.c', 'parser-func.c'],
                   [('blank lines as suffixes', 'clang.c clang_read, token.c token_has_line'), ('trimming', 'parser.c parser_token_trim_before, parser_token_trim_after'), ('after functions', 'parser-func.c want_line_after_func_impl')],
                   ['standard output']),
      technique='differential monitor against a generator that predicts the blank lines of every gap', level='exploration',
      note='Held on the executions observed: 20k files per quick run.'),
 dict(id='C26', title='-D with -s simplifies only what the diff covers and keeps the meaning',
      statement='With -D and -s together, whatever lines of a file the diff marks, the resulting program compiles and behaves as before: no include, declaration, brace, parenthesis or statement is lost, repeated or left half rewritten when the '
                'marked lines cut through a construct. Top-level definitions without a marked line are reproduced byte for byte, and definitions marked as a whole read, up to white space, as -s alone makes them.',
      quantifier=q(['inputs', 'configurations'], 'all programs x all sets of marked lines x all layouts and styles'),
      why_tests_cant='A handful of diffs in tests/ mark complete constructs; every simplification has to agree with the line bookkeeping of the diff for each way a chunk can cut through it (one program in six was broken at the pinned commit).',
      anchors=anch(['doc.c', 'lexer.c', 'diff.c', 'simple.c', 'simple-stmt.c', 'simple-decl.c', 'simple-decl-forward.c', 'simple-static.c', 'simple-stmt-switch.c', 'cpp-include.c', 'expr.c'],
                   [('chunks while printing', 'doc.c doc_diff_group_enter, doc_diff_leave, doc_diff_emit_before'), ('coverage by one chunk', 'lexer.c lexer_is_diffchunk'), ('moved and removed tokens', 'lexer.c lexer_remove, lexer_move_before')],
                   ['standard output', 'exit status', 'behaviour of the formatted program']),
      technique='execution monitor: original and formatted program are compiled, run and their traces compared', level='exploration',
      note='Held on the executions observed: 2.4k programs with marked lines per quick run.'),
 dict(id='C27', title='Well-formed C is accepted',
      statement='Well-formed C source, declarations, definitions, statements and expressions of every kind in whatever layout, with comments, directives and the usual macros written as usual, is formatted and never refused: the exit status is 0, nothing is '
                'printed on standard error and the output is not empty. The same goes for -s, for -D and for every supported style.',
      quantifier=q(['inputs', 'configurations'], 'all well-formed programs (short of the ambiguities of parsing C without types and macros listed in DESIGN.md) x layouts x styles x {plain, -s, -D}'),
      why_tests_cant='tests/ has some 500 short accepted inputs, mostly one construct each in KNF layout; acceptance depends on lookahead that weighs neighbours, columns and line breaks of constructs in combination.',
      anchors=anch(['parser.c', 'parser-decl.c', 'parser-type.c', 'parser-func.c', 'parser-stmt.c', 'parser-braces.c', 'parser-cpp.c', 'parser-expr.c', 'expr.c', 'lexer.c', 'clang.c'],
                   [('lookahead for types', 'parser-type.c parser_type_peek'), ('lookahead for macros', 'parser-cpp.c parser_cpp_peek_x, parser_cpp_peek_decl'), ('errors', 'parser.c parser_fail, lexer.c lexer_error')],
                   ['exit status', 'standard error', 'standard output']),
      technique='online monitor of exit status and diagnostics over generated well-formed programs', level='exploration',
      note='Held on the executions observed: 6k programs, three runs each, per quick run.'),
 dict(id='C28', title='Columns that are lined up stay lined up',
      statement='In a block of declarations (fields, variables, prototypes), of designated initialisers or enumerators with values, or of rows of initialisers, a column that the source lines up, with blanks or tabs, is lined up in the output, '
                'stars hanging to the left of the names and at the same distance from the longest line as before. If at least half of the lines put a tab in front of the column it is lined up even though it was not before; if only single blanks '
                'are found there, single blanks remain. Blocks separated by a blank line do not affect each other.',
      quantifier=q(['inputs', 'configurations'], 'all blocks of lines that need no break x all widths, stars and tails x all alignments x IndentWidth and UseTab'),
      why_tests_cant='The tests show some fifty blocks; whether columns meet depends on the lengths modulo the tab width, the largest number of stars and which line has it, in combination.',
      anchors=anch(['ruler.c', 'parser-decl.c', 'parser-type.c', 'parser-braces.c', 'doc.c', 'token.c'],
                   [('sensing the column', 'ruler.c ruler_column_alignment, ruler_column_length'), ('tabs without waste', 'ruler.c minimize'), ('printing', 'doc.c doc_exec_align'), ('extent of a block', 'parser-decl.c parser_decl1')],
                   ['standard output']),
      technique='monitor of the visual column of every aligned element against a generator that knows the layout of its input', level='exploration',
      note='Held on the executions observed: 12k blocks per quick run.'),
]
