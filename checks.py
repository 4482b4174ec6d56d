"""What run.py needs to know about each check: the monitor, how much work each tier does
(cases, seconds), what counts as distinct, and the least that must have been observed."""

CHECKS = {
    'M01': dict(
        crate='mon-g', quick=(60_000, 120), thorough=(3_000_000, 700),
        rule='distinct pairs of operand shapes and contents whose every operation was compared with exact integer arithmetic',
        need={'a * b': 1000, 'refused': 1000, 'transpose': 1000, 'subset': 1000, 'matrices without values': 200},
        assumptions=['entries are small integers, so that every operation is exact in every element type']),
    'M02': dict(
        crate='mon-g', quick=(3_000_000, 120), thorough=(75_000_000, 700),
        rule='distinct matrices that were inverted, or refused, and judged by multiplying back',
        need={'integers, n = 3': 100, 'integers, n = 4': 100, 'singular: zero': 100, 'zero diagonal, n > 4': 100},
        assumptions=['matrices whose condition number exceeds 1e8 are not judged']),
    'M03': dict(
        crate='mon-g', quick=(3_000_000, 120), thorough=(75_000_000, 700),
        rule='distinct (shape, index) pairs',
        need={'inside': 1000, 'outside': 1000, 'outside, lands on another element': 1000}),
    'M04': dict(
        crate='mon-g', flavour='asan', quick=(5_000, 200), thorough=(125_000, 700),
        rule='distinct states of the set of live matrices after a call',
        need={'calls': 10_000, 'failing calls': 1000, 'freed': 1000},
        assumptions=['callers pass pointers that the library gave them and did not take back']),
    'M05': dict(
        kind='cpp', script='gmat.cpp', libs=['gmatlib'], quick=(8_000, 90), thorough=(200_000, 700),
        rule='distinct shapes of the set of live matrices after a step',
        need={'headers compiled': 6, 'multiply': 1000, 'transpose': 1000, 'refused': 1000, 'copy': 1000, 'assign': 1000, 'invert': 500,
              'print': 500, 'containers': 500, 'C calls': 500, 'memory balanced': 500},
        assumptions=['matrices of at least one row and one column']),
    'E01': dict(
        crate='mon-e', quick=(800_000, 150), thorough=(20_000_000, 700),
        rule='distinct shapes of expressions whose value was judged',
        need={'numbers': 10_000, 'division by zero': 50, 'long or deep': 1000, 'not a number': 100},
        assumptions=['values that rounding alone may move further than the tolerance are not judged']),
    'E02': dict(
        crate='mon-e', quick=(1_000_000, 150), thorough=(25_000_000, 700),
        rule='distinct malformed texts (up to names and numbers)',
        need={'refused': 10_000, 'equations refused': 1000, 'still valid': 100, 'equations accepted': 100}),
    'E03': dict(
        crate='mon-e', quick=(1_200_000, 150), thorough=(30_000_000, 700),
        rule='distinct shapes of compiled expressions',
        need={'calls': 10_000, 'calls of one variable': 1000, 'context changed': 500, 'calls at infinity': 5000}),
    'E04': dict(
        crate='mon-e', quick=(4_000_000, 150), thorough=(100_000_000, 700),
        rule='distinct histories of operations on a variable, and constrained problems',
        need={'points seen': 100_000, 'operations': 10_000, 'kept inside': 1000, 'solved': 500, 'systems solved': 200, 'guesses outside': 1000},
        assumptions=['NaN is not stored into a variable']),
    'S01': dict(
        crate='mon-e', quick=(2_500_000, 150), thorough=(62_500_000, 700),
        rule='distinct functions, texts and settings',
        need={'answers': 1000, 'equations solved': 1000, 'faults met': 500, 'refused settings': 500, 'roots': 1000,
              'other numbers of unknowns': 500, 'long searches': 50}),
    'S02': dict(
        crate='mon-e', quick=(1_000_000, 150), thorough=(25_000_000, 700),
        rule='distinct systems whose answers were put back into every equation',
        need={'answers of functions': 1000, 'answers of texts': 1000, 'faults met': 300, 'refused': 300, 'long searches': 20}),
    'S03': dict(
        crate='mon-e', quick=(1_000_000, 150), thorough=(25_000_000, 700),
        rule='distinct linear systems with a known solution',
        need={'of functions': 1000, 'of texts': 1000, 'size 8': 100}),
    'S04': dict(
        crate='mon-e', quick=(800_000, 150), thorough=(20_000_000, 700),
        rule='distinct histories of constraining a system',
        need={'added': 10_000, 'full': 1000, 'malformed': 500, 'built': 1000, 'not built': 300, 'too many unknowns': 300, 'batches with malformed equations': 1000}),
    'S05': dict(
        crate='mon-e', flavour='asan', quick=(80_000, 200), thorough=(3_000_000, 700),
        rule='distinct states of the objects that the caller holds',
        need={'calls': 10_000, 'replays': 1},
        assumptions=['callers follow the ownership rules of the header']),
    'S06': dict(
        kind='cpp', script='geqs.cpp', libs=['gmatlib', 'geqslib'], defines=['-DWITH_GEQSLIB'], quick=(6_000, 90), thorough=(200_000, 700),
        rule='distinct states of a builder (unknowns, equations, answer) and numbers of live objects',
        need={'headers compiled': 6, 'solutions judged': 500, 'constrained': 1000, 'over-constrained': 500, 'not constrained': 100,
              'malformed': 300, 'dropped system': 100, 'solve again': 100, 'C calls': 500, 'memory balanced': 500}),
    'X01': dict(
        crate='mon-x', quick=(200_000, 150), thorough=(5_000_000, 700),
        rule='distinct structures of programs whose solution was put back into every equation',
        need={'linear solved': 5000, 'nonlinear solved': 1000}),
    'X02': dict(
        crate='mon-x', quick=(160_000, 150), thorough=(4_000_000, 700),
        rule='distinct variants of programs compared with the program itself',
        need={'CRLF': 1000, 'blank lines': 1000, 'comments after lines': 1000, 'comments on lines': 1000, 'order': 1000, 'spaces': 1000}),
    'X03': dict(
        crate='mon-x', quick=(1_500_000, 150), thorough=(37_500_000, 700),
        rule='distinct texts with constants',
        need={'expressions': 10_000, 'programs': 5000, 'texts': 1000, 'unknown constants': 1000}),
    'X04': dict(
        crate='mon-x', quick=(40_000, 150), thorough=(1_000_000, 700),
        rule='distinct pairs of units, and texts with conversions',
        need={'conversions': 10_000, 'chains': 5000, 'composed conversions': 1000, 'powers': 500, 'impossible conversions': 1000, 'programs': 5000}),
    'X05': dict(
        crate='mon-x', quick=(240_000, 150), thorough=(6_000_000, 700),
        rule='distinct paths through conditionals, and kinds of wrong comparisons',
        need={'programs': 10_000, 'nested': 5000, 'equal operands': 5000, 'part of a system': 1000, 'wrong comparisons': 1000, 'branches that are no equations': 1000, 'guards': 2000, '==y': 500, '!=n': 500},
        assumptions=['each branch is one line', 'operands of inequalities are exact or well apart']),
    'X06': dict(
        crate='mon-x', quick=(1_500_000, 150), thorough=(37_500_000, 700),
        rule='distinct programs with declarations',
        need={'bounded': 10_000, 'chosen': 10_000, 'pairs': 5000, 'nothing within the bounds': 1000, 'no system within the bounds': 1000},
        assumptions=['lower bounds lie below upper bounds']),
    'X07': dict(
        crate='mon-x', quick=(120_000, 150), thorough=(3_000_000, 700),
        rule='distinct texts',
        need={'answers': 3000, 'errors': 10_000, 'stages': 5000, 'soup': 1000, 'long searches': 10}),
    'X08': dict(
        crate='mon-x', flavour='asan', quick=(60_000, 200), thorough=(1_500_000, 700),
        rule='distinct histories of calls',
        need={'calls': 50_000, 'answers': 5000, 'no answers': 5000},
        assumptions=['callers follow the ownership rules of the interface']),
    'X09': dict(
        crate='mon-x', tools=[('nexsys', 'nxc')], quick=(10_000, 150), thorough=(300_000, 700),
        rule='distinct invocations',
        need={'solved': 1000, 'not solved': 300, 'wrong options': 300, 'missing files': 50, 'verbose': 300, 'written to files': 300, 'nowhere to write to': 50}),
    'X10': dict(
        crate='mon-x', tools=[('nexsys', 'nxc')], quick=(120_000, 150), thorough=(3_000_000, 700),
        rule='distinct structures of programs and of the steps that were reported for them',
        need={'programs': 20_000, 'steps for one unknown': 10_000, 'steps for systems': 20_000, 'conditionals': 3000, 'procedures of the tool': 300}),
    'R01': dict(
        crate='mon-r', kind='both', threads=4, quick_stable=(40_000, 60), quick_tsan=(2_000, 60),
        thorough_stable=(1_500_000, 350), thorough_tsan=(100_000, 350),
        rule='distinct orders in which the calls of a case ran in its threads',
        need={'cases with the race detector': 150, 'calls beside other calls': 3000, 'one thread': 200, 'several threads': 500, 'refusals': 2000, 'failing functions': 1000, 'programs': 2000, 'networks': 500, 'long histories': 50}),
    'N01': dict(
        crate='mon-n', quick=(320_000, 150), thorough=(8_000_000, 700),
        rule='distinct topologies of networks with elements of every kind',
        need={'dc_circuit': 10_000, 'heat_transfer': 10_000, 'several fixed nodes': 5000, 'solved': 50_000, 'sources': 50_000, 'wide': 5000, 'from a node to itself': 10_000},
        assumptions=['conductances are finite and positive', 'networks with very different conductances may be refused under tight margins']),
    'N02': dict(
        crate='mon-n', quick=(250_000, 150), thorough=(6_250_000, 700),
        rule='distinct pairs of a network and a way to describe it differently',
        need={'elements in another order': 1000, 'elements the other way around': 1000, 'nodes in another order': 1000,
              'one conductor for two': 1000, 'potentials shifted': 1000, 'sources scaled': 1000, 'again': 1000}),
    'N03': dict(
        crate='mon-n', tools=[('neapolitan', 'neapolitan')], quick=(800_000, 150), thorough=(20_000_000, 700),
        rule='distinct senseless or strange models',
        need={'too many sources': 1000, 'unknown element': 1000, 'wrong number of gains': 1000, 'texts': 10_000,
              'strange, answered': 5000, 'strange, refused': 5000, 'long chains': 2}),
    'N04': dict(
        crate='mon-n', tools=[('neapolitan', 'neapolitan')], quick=(60_000, 150), thorough=(1_500_000, 700),
        rule='distinct models written and read, and invocations of the tool',
        need={'round trips': 3000, 'solution files': 1000, 'bad models': 100, 'missing files': 50, 'nowhere to write to': 200, 'loose precision in few steps': 300, 'few steps do not do': 50}),
    'N05': dict(
        crate='mon-n', quick=(150_000, 150), thorough=(5_000_000, 700),
        rule='distinct configurations and histories of nodes and elements',
        need={'more than one dimension': 5000, 'admittance': 3000, 'cubic': 1000, 'soft': 1000, 'fluxes': 10_000, 'balances': 10_000,
              'fluxes refused': 500, 'nodes dropped': 1000, 'the same name twice': 500}),
    'J01': dict(
        kind='node', script='js/ui.mjs', quick=(3_000, 150), thorough=(120_000, 700),
        rule='distinct histories of building, removing and finding tags',
        need={'sources': 1000, 'compiled': 1000, 'tags built': 10_000, 'callbacks': 1000, 'renewed': 1000, 'gone': 500, 'registered already': 500},
        assumptions=['a tag is built under an id that the page does not contain']),
    'J02': dict(
        kind='node', script='js/ui.mjs', quick=(3_000, 150), thorough=(120_000, 700),
        rule='distinct histories of clicks',
        need={'sources': 1000, 'compiled': 1000, 'opened': 3000, 'closed': 3000, 'shown': 3000, 'shown again': 1000},
        assumptions=['files are added while the files are shown', 'file names contain no markup']),
    'J03': dict(
        kind='node', script='js/serve.mjs', quick=(160, 150), thorough=(6_000, 700),
        rule='distinct histories of requests',
        need={'resources': 800, 'pages': 100, 'files': 150, 'refused': 80, 'at once': 300, 'new pages': 60, 'new files': 60, 'other requests': 60},
        assumptions=['the web framework, which is not installed here, is replaced by a stand-in that serves files the same way', 'the server is asked over the loopback network']),
}
