#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (for the properties in checks.py)."""
import json, os
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


MAT = 'gmatlib/src/lib.rs'
prop('M01', 'Matrix operations have their textbook meaning',
     'Every matrix operation (construction, products, sums, differences, scaling, transposition, sub-matrices, augmentation, row '
     'operations, determinant, trace and printing) gives exactly the result that its mathematical definition gives, in its owning, borrowing and '
     'in-place forms alike. Operands that are only read keep their contents. Operands whose shapes do not fit are refused with an error and '
     'change nothing. Shapes without rows or columns are no exception.',
     ['inputs', 'histories'], 'every shape, every content that the element type represents exactly, every element type, every sequence of in-place operations',
     'The tests compute a handful of fixed products and sums, mostly square and of one element type, so a slip in a stride, an operator form or a shape check shows only on shapes that they do not use.',
     ['gmatlib/src/lib.rs', 'gmatlib/src/trait_impls.rs'],
     [('shape checks and index arithmetic of each operation', MAT)],
     ['the contents and shapes of results and operands after each operation'],
     'differential runtime monitor against exact integer matrices, every operator form, random operation histories', 'random shapes up to 7 x 7, ten element types')
prop('M02', 'A matrix inverse is the inverse, and singular matrices are refused',
     'Inverting a square matrix that has an inverse succeeds and the product of the two is the identity to within rounding, however its rows are ordered and scaled. '
     'A matrix without an inverse, or that is not square, is refused with an error. A refused inversion leaves the matrix as it was.',
     ['inputs'], 'every square matrix of every size: dense, sparse, triangular, permuted, zero on the diagonal, badly scaled, exactly singular',
     'The tests invert one matrix of each of the closed-form sizes; whether elimination copes with zeros on the diagonal, permutations or dependent rows is a question about every matrix.',
     ['gmatlib/src/lib.rs'], [('closed forms up to 4 x 4, elimination with pivoting above', MAT)],
     ['result of the inversion and of the checked and in-place forms'],
     'runtime monitor: multiply back, compare with complete-pivoting elimination, exact integer rank for singular inputs', 'sizes 1 to 9')
prop('M03', 'An index outside a matrix reaches no element of it',
     'Reading or writing an element by row and column touches exactly that element when both lie inside the matrix. When either lies outside, the '
     'access is refused and no element is read or changed, even if the position computed from the two would fall inside the storage.',
     ['inputs'], 'every shape and every pair of indices up to the largest representable',
     'The tests index valid positions only; an out-of-range column that wraps to another row is silent.',
     ['gmatlib/src/lib.rs'], [('bounds checks of the indexing operators', MAT)], ['value read, contents after the access, panic or error'],
     'runtime monitor with a shadow of every element; hostile index generation', 'random shapes up to 6 x 6 and hostile indices')
prop('M04', 'The C matrix interface keeps memory and callers\' matrices intact',
     'Over every sequence of calls through the C interface, matrices keep the contents that the calls gave them, a call that fails says so and changes nothing, and each matrix stays valid until its owner frees it. '
     'No call reads or writes memory outside live matrices, frees anything twice, or keeps memory once all matrices were freed.',
     ['histories', 'inputs'], 'every sequence of calls with every mix of valid and out-of-range arguments',
     'No test calls the C interface at all; ownership errors on failing calls need a particular call to fail and the argument to be used afterwards.',
     ['gmatlib/src/ffi.rs', 'gmatlib/gmatlib.h'], [('borrowing of the caller\'s pointers', 'gmatlib/src/ffi.rs')],
     ['results of every call, contents of every live matrix after it', 'AddressSanitizer reports', 'bytes and blocks held by the allocator'],
     'AddressSanitizer plus a shadow-state monitor over random call histories and a counting allocator', 'histories of up to 25 calls over up to 6 live matrices')

SH = 'geqslib/src/shunting.rs'
prop('E01', 'The value of an expression is the value that its text denotes',
     'Evaluating a well-formed expression gives the value that ordinary arithmetic gives it: the usual precedence, left association of equal operators, unary minus, parentheses, '
     'decimal and scientific literals, and the built-in or supplied functions applied to their arguments in order. White space, redundant parentheses, length and depth make no difference. '
     'What has no value because of a division by zero is reported as an error.',
     ['inputs'], 'every well-formed expression over every set of supplied names and functions, in every spelling of it',
     'The tests evaluate about a dozen fixed strings; the interaction of precedence, sign, grouping and names has unboundedly many shapes.',
     ['geqslib/src/shunting.rs', 'geqslib/src/context.rs'], [('tokenizer, shunting-yard and RPN evaluation', SH)],
     ['value or error of the evaluation'], 'differential runtime monitor: generated syntax trees, independent evaluator with an error bound, random printing',
     'trees of depth up to 5, chains of up to 300 operators, nesting up to several hundred; a numeric tolerance derived per expression')
prop('E02', 'Text that is not an expression or equation is refused, never misread',
     'Text that does not denote an expression (or an equation with exactly two sides) is answered with an error by evaluation, compilation and every solver entry point; it is never given a value, and it never brings the caller down. '
     'A refused text leaves the caller\'s names and the system under construction as they were.',
     ['inputs'], 'every text: near misses of valid expressions by deletion, insertion, exchange and duplication of tokens and characters, and arbitrary characters',
     'The tests refuse no malformed text except an unmatched parenthesis; malformed inputs are unboundedly many and their effects are silent numbers.',
     ['geqslib/src/shunting.rs', 'geqslib/src/lib.rs', 'geqslib/src/system.rs'], [('operand and argument counting of the parser', SH)],
     ['result of every entry point; context afterwards'], 'runtime monitor with an independent recognizer over mutated texts', 'one to three mutations of generated expressions and raw character noise')
prop('E03', 'A compiled expression equals direct evaluation everywhere and always',
     'Calling a compiled expression at a point gives the value that evaluating its text at that point gives, for every point and in every order of calls. '
     'Neither earlier calls, nor other expressions compiled from the same names, nor later changes to the caller\'s names make a difference to it.',
     ['inputs', 'histories'], 'every expression, every sequence of points, every interleaving of calls to several compiled expressions that share names',
     'The tests call one compiled function at one or two points; state shared between compiled functions shows only across interleaved calls.',
     ['geqslib/src/shunting.rs', 'geqslib/src/variable.rs'], [('variables shared through reference-counted cells', SH)],
     ['value of each call'], 'differential runtime monitor over interleaved call histories', 'one to three functions, up to dozens of calls each')
prop('E04', 'A variable never leaves its domain',
     'Whatever is assigned to a variable with a lower and an upper bound, its value lies inside the bounds afterwards and the assignment of a value inside is exact; a guess outside counts as the nearest bound. '
     'No solver evaluates the caller\'s functions at a value outside the bounds, and no solution that is reported lies outside.',
     ['inputs', 'histories'], 'every pair of bounds, every sequence of assignments and arithmetic, every constrained equation and system',
     'The tests set one bounded variable once; whether iteration steps and reported answers respect bounds depends on the equation, the guess and the bounds together.',
     ['geqslib/src/variable.rs', 'geqslib/src/newton.rs', 'geqslib/src/system.rs'], [('clamping on assignment', 'geqslib/src/variable.rs'), ('final answers checked against domains', 'geqslib/src/newton.rs')],
     ['values after each operation', 'points at which a spy function is called', 'solutions'], 'runtime monitor with spy functions inside the equations that log every point seen by the solver', 'systems of up to three unknowns')

NW = 'geqslib/src/newton.rs'
prop('S01', 'A solution of one equation satisfies it to the requested margin',
     'When the solver of one unknown reports a solution, the equation holds there to within the requested margin, and the caller\'s other names are as before; with a reachable root near the guess it does report one. '
     'Failures of the function, unusable settings, exhausted iterations and the wrong number of unknowns are reported as errors, never as a number.',
     ['inputs', 'fault_sequences'], 'every equation, function, guess, margin and iteration limit, and every point at which the function may fail',
     'The tests solve three fixed equations; wrong answers appear for particular slopes, signs, margins or failures during iteration.',
     ['geqslib/src/newton.rs', 'geqslib/src/lib.rs'], [('Newton-Raphson with its stopping rule', NW), ('choice of the unknown', 'geqslib/src/lib.rs')],
     ['answer and function values along the way', 'number of evaluations'], 'runtime monitor: residual oracle, recorded evaluations, injected faults at the n-th evaluation', 'function families with known roots')
prop('S02', 'A solution of a system satisfies every equation to the requested margin',
     'When the solver of a system reports a solution, the vector of all equations\' errors there is no longer than the requested margin and every unknown has a value. '
     'Failures of any equation at any point, unusable settings and exhausted iterations are reported as errors, never as numbers.',
     ['inputs', 'fault_sequences'], 'every square system, guess, margin and limit, and every evaluation at which an equation may fail',
     'The tests solve two fixed systems with one margin.',
     ['geqslib/src/newton.rs', 'geqslib/src/system.rs'], [('multivariate Newton-Raphson', NW)], ['answers put back into every equation', 'evaluations'],
     'runtime monitor: residual oracle over random nonlinear systems, injected faults', 'systems of up to 5 unknowns')
prop('S03', 'Every well-conditioned linear system is solved',
     'A system of linear equations with exactly one solution is solved to within the margin from any finite guess, whatever the order of its equations, the order and names of its unknowns, and the way each equation is written. '
     'A system of linear equations without exactly one solution never yields values that do not satisfy it.',
     ['inputs'], 'every regular coefficient matrix, right-hand side, guess, naming and ordering',
     'The tests solve one linear system with a benign ordering; failures depend on where zeros fall in the Jacobian.',
     ['geqslib/src/newton.rs', 'gmatlib/src/lib.rs', 'geqslib/src/system.rs'], [('numeric Jacobian and its inversion', NW)], ['answers against an independently computed solution'],
     'differential runtime monitor against complete-pivoting elimination', 'sizes 1 to 8; ill-conditioned matrices are not judged')
prop('S04', 'A system under construction holds exactly the equations that constrain it',
     'Adding a well-formed equation to a system is answered by whether the system is already fully constrained (refused as over-constraining), whether it brings more than one new unknown (refused as not constraining), or neither (accepted), and only acceptance changes the system. Connecting an equation is accepted, however many unknowns it brings, exactly if the system is not fully constrained and they share an unknown. '
     'A batch of equations is used in whatever order makes progress, until the system is constrained or nothing more can be added. A malformed equation is never accepted: where a well-formed one with its unknowns would be, it is an error, alone as in a batch. A system counts as constrained, and can be built and its variables specified, exactly when it has as many equations as unknowns.',
     ['histories'], 'every sequence of additions, of well-formed, malformed, redundant and unrelated equations',
     'The tests add two or three equations in one order.',
     ['geqslib/src/system.rs'], [('unknown bookkeeping of the builder', 'geqslib/src/system.rs')], ['result of each addition, constrained or not, build result, context'],
     'model-based runtime monitor over random histories', 'pools of up to 8 names, dozens of equations',
     state=[('unknowns of the builder', 'the names that the accepted equations introduced', 'geqslib/src/system.rs')])
prop('S05', 'The C equation interface keeps memory, objects and results intact',
     'Over every sequence of calls through the C interface, contexts, builders and systems stay valid until the call that consumes them, results equal those of the library, and failures are reported and change nothing. '
     'No call reads or writes freed or foreign memory, frees anything twice, or keeps memory once everything was given back.',
     ['histories', 'inputs'], 'every sequence of calls with every mix of good and bad arguments',
     'No test calls the C interface.',
     ['geqslib/src/ffi.rs', 'geqslib/geqslib.h'], [('ownership of boxed objects behind pointers', 'geqslib/src/ffi.rs')],
     ['result of each call against a twin driven through the library', 'AddressSanitizer', 'allocator balance'],
     'AddressSanitizer plus a twin-object monitor over random call histories and allocator balance', 'histories of dozens of calls')

exec(open(os.path.join(HERE, 'meta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'meta_more.py')) else None

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        if p['id'] in CHECKS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('technique', 'note')}, ensure_ascii=False) + '\n')
    for p, _ in NA:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
assert {p['id'] for p in P} >= set(CHECKS), set(CHECKS) - {p['id'] for p in P}
m = dict(version=1, setup_cmd='python3 setup.py', checks=[
    dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
         technique=p['technique'], level='exploration', level_note=p['note']) for p in P if p['id'] in CHECKS],
    not_applicable=[dict(property=p['id'], reason=r) for p, r in NA],
    notes='No hooks were needed: everything is observed through public interfaces, files and sanitizers. Repairs are the fix: commits in /repo.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
