CPG, CPQ = 'gmatlib/gmatlib.h', 'geqslib/geqslib.h'
prop('M05', 'C++ matrices are values',
     'In C++, a matrix owns its contents: copies, wherever they are made (assignment, arguments, containers), have the same elements and are independent of the original from then on. '
     'Every operation gives what the matrix library gives and leaves its operands alone. What cannot be done throws an error that says what it was, and changes nothing. '
     'Reading, writing and printing reach exactly the elements named. All memory is given back once, when the last owner is gone. The header also serves C, and compiles in every standard from C11 and C++11.',
     ['histories', 'inputs'], 'every sequence of operations on C++ matrices, with every mix of valid and impossible arguments, aliases included',
     'No test compiles the header.',
     [CPG, 'gmatlib/src/ffi.rs'], [('copying, assignment and destruction of the owner of a pointer', CPG), ('error codes turned into exceptions', CPG)],
     ['elements and shape of every live matrix after each step', 'exceptions and their texts', 'AddressSanitizer, UndefinedBehaviorSanitizer, bytes held'],
     'AddressSanitizer and UBSan plus a model-based monitor in C++ over random histories against the compiled header and library', 'histories of up to 40 steps over up to 6 matrices',
     state=[('the pointer of a matrix', 'the contents it owns', CPG)])
prop('S06', 'C++ contexts, builders and systems of equations are kept intact',
     'In C++, contexts, system builders and systems accept the equations and values that the library accepts, report the status that the library has (also for over-constrained systems), and find the solutions that the library finds. '
     'Equations that are malformed and systems that cannot be built or solved are reported as errors. Objects that are moved, dropped, used up or left over free their memory once, and none is used after it was used up. The header also serves C, and compiles in every standard from C11 and C++11.',
     ['histories', 'inputs'], 'every sequence of operations on contexts, builders and systems',
     'No test compiles the header.',
     [CPQ, 'geqslib/src/ffi.rs'], [('ownership of contexts, builders and systems', CPQ), ('statuses as numbers', CPQ)],
     ['status after each equation', 'solutions put back into the equations', 'exceptions', 'AddressSanitizer, UndefinedBehaviorSanitizer, bytes held'],
     'AddressSanitizer and UBSan plus a model-based monitor in C++ over random histories against the compiled header and library', 'systems of up to 4 unknowns',
     state=[('pointers of contexts, builders and systems', 'who owns what, and what is used up', CPQ)])

NXL, NXP, NXC, NXU = 'nexsys/src/lib.rs', 'nexsys/src/parsing/mod.rs', 'nexsys/src/parsing/conditionals.rs', 'nexsys/src/units/mod.rs'
prop('X01', 'The solution of a program satisfies all of its equations',
     'For a program with as many independent equations as unknowns, the solver reports a value for every unknown, and at these values every equation of the program holds to within the margin and every constant has its declared value. '
     'The order in which the equations are written makes no difference beyond the margin, and what no equation determines is given no value. A program of linear equations with exactly one solution is always solved. The context of the caller afterwards holds the values that were reported.',
     ['inputs'], 'every well-posed program: every decomposition into blocks of equations, every order of its lines, every spelling, every set of names',
     'The tests solve a few fixed programs; which equations are combined into a subsystem, and what is carried from one to the next, depends on the structure and order of each program.',
     [NXL, 'geqslib/src/system.rs', 'geqslib/src/lib.rs'], [('choice and elimination of subsystems', NXL), ('constants added for what is solved', NXL)],
     ['solution put back into every equation', 'context after the call', 'log'],
     'runtime monitor: programs generated around a known solution, independent residual oracle, metamorphic reordering', 'up to four blocks of up to four unknowns',
     state=[('pool of equations and context', 'what is not yet solved, and what is known', NXL)])
prop('X02', 'Comments, white space and the order of lines mean nothing',
     'A program means the same with any comments added after or between its lines, whatever the comments contain, with blank lines between its declarations, equations and conditionals, with white space around any line, with either kind of line ending, '
     'and with its declarations, equations and conditionals in any order: the values found agree to within the margin.',
     ['inputs'], 'every program and every comment, including comments that look like declarations, constants, conversions, conditionals or equations',
     'The tests strip one comment. What a comment could be mistaken for depends on its contents and on the stage that sees it.',
     [NXP, NXC, NXL], [('comments removed before anything is interpreted', NXP)], ['solution of the program and of its variants'],
     'metamorphic runtime monitor', 'linear programs with declarations and conditionals')
prop('X03', 'Constants of nature stand for their published values',
     'In a program, the name of a known constant (such as #R) stands for its published value as one operand, whatever stands around it, and the rest of the text is untouched. A name that is no constant is reported as an error and never read as another constant followed by something else.',
     ['inputs'], 'every constant in every expression, every near miss of a name',
     'The tests replace two constants in one text; prefixes of names, signs under powers and several constants in a text are not among them.',
     [NXP, 'nexsys/src/units/consts.json', NXU], [('replacement of the tokens', NXP), ('table', 'nexsys/src/units/consts.json')], ['replaced text', 'value of expressions and programs with constants'],
     'runtime monitor: reference table, generated expressions valued independently, texts compared piece by piece', 'the table is compared to 0.1 %, use of the table exactly')
prop('X04', 'Unit conversions have the right factors and refuse what does not convert',
     'Converting between two units of one quantity gives the factor of their definitions: conversions there and back cancel, chains compose, powers and composed units convert as their parts do, and widely known pairs have their known factors. '
     'Units of different quantities, and words that are no units, are refused with an error, directly and within a program. In a text, each conversion stands for its factor and nothing else changes.',
     ['inputs'], 'every pair and chain of units, plain and composed, every expression that contains them',
     'The tests convert a few pairs. There are millions of pairs, generated by rules from the table.',
     [NXU, 'nexsys/src/units/units.json', NXP], [('generation of composed units', NXU), ('replacement of the tokens', NXP)], ['factor or refusal', 'value of expressions and programs with conversions'],
     'runtime monitor: independent composition of units, algebraic laws between executions, anchor factors', 'the table is compared to 0.1 %, the laws to rounding')
prop('X05', 'A conditional is the equation of the branch whose condition holds',
     'Where a program contains an if/else conditional whose condition is decided by constants or other equations, the equation that counts is that of the branch that the condition selects, for all six comparisons, for equal and unequal operands, '
     'nested to any depth in either branch, however its two sides are written, alone or as part of a system. A comparison that does not exist is reported as an error. So is a branch that is not an equation with two sides.',
     ['inputs'], 'every condition, every pair of branches, every nesting, every indentation, every surrounding program',
     'The tests translate three fixed conditionals and solve one; the wrong branch, a wrong sign or a swallowed operand give plausible numbers.',
     [NXC, 'geqslib/src/context.rs', NXL], [('translation into a function call', NXC), ('comparison codes of the function', 'geqslib/src/context.rs')], ['solution of the program against an independent choice of branch'],
     'runtime monitor: generated conditionals evaluated by an independent interpreter, residual of the selected branch', 'branches of one line, nesting up to twelve',)
prop('X06', 'Guesses select among solutions and domains bound them',
     'When an equation or system has several solutions, a guess close to one leads to that one. When a variable is declared to stay within bounds, no value outside them is ever reported, and a program that has no solution within the bounds is answered with an error. '
     'Declarations apply to exactly the variable that they name, in every accepted spelling of words and numbers, wherever they stand in the program.',
     ['inputs'], 'every set of declarations for every set of variables, also with names that begin with one another, alone and in systems',
     'The tests parse one declaration of each kind and solve one program with them.',
     [NXP, NXL, 'geqslib/src/newton.rs', 'geqslib/src/system.rs', 'geqslib/src/variable.rs'], [('extraction of declarations', NXP), ('handing them to the solvers', NXL)], ['which solution is reported, or the error'],
     'runtime monitor over equations with known, well separated solutions', 'polynomials of degree up to 4, sines, products and sums of two unknowns')
prop('X07', 'No text makes the interpreter panic or hang',
     'For every text, margin and iteration limit, each stage of the interpreter and the solver as a whole return a result or an error. None panics, overflows or fails to return.',
     ['inputs'], 'every text: programs with lines, tokens and characters removed, repeated, exchanged and inserted, and fragments in any order',
     'The tests pass well-formed programs only.',
     [NXP, NXC, NXL, NXU], [('fallible stages, unwraps behind patterns', NXP)], ['panic, time taken'],
     'mutation-driven robustness monitor with panic capture and hang watchdog', 'texts of up to about a kilobyte')
prop('X08', 'The C interpreter interface keeps memory, objects and results intact',
     'Over every sequence of calls through the C interface, contexts, maps of declarations and result strings stay valid until they are freed; results carry the values that the library finds and failures are null. '
     'No call reads or writes freed or foreign memory, frees anything twice, or keeps memory once everything was given back.',
     ['histories', 'inputs'], 'every sequence of calls with good and bad programs, also text that is not valid Unicode',
     'No test calls the C interface.',
     ['nexsys/src/ffi.rs', 'geqslib/src/ffi.rs'], [('ownership of boxed objects and strings behind pointers', 'nexsys/src/ffi.rs')], ['result of each call against a twin driven through the library', 'AddressSanitizer', 'allocator balance'],
     'AddressSanitizer plus a twin-object monitor over random call histories and allocator balance', 'histories of up to 20 calls (50 in the thorough tier)')
prop('X09', 'The command line tool answers as the library does and spares other files',
     'The tool exits with success exactly if the program is solved under the given margin and iteration limit, and then reports exactly the values that the library finds, on the terminal or in the output file. '
     'Otherwise it says what is wrong, exits with failure and writes nothing. It never changes the file that it was given, nor any other file but its output file, and printing details changes nothing about the answer.',
     ['inputs'], 'every combination of options, good and bad, in every order, every kind of file name, every program',
     'No test runs the tool.',
     ['nexsys/src/main.rs'], [('option handling and the choice of the output file', 'nexsys/src/main.rs')], ['exit status, output, every file of the directory before and after'],
     'black-box runtime monitor in a scratch directory, library as the oracle', 'one run per case')

prop('X10', 'The reported steps account for every equation once, in a workable order',
     'The steps that are reported with a solution tell how the program can be solved: every equation of the program occurs in exactly one step and nothing else does, each step has as many equations as unknowns that earlier steps did not determine, a step for one unknown names that unknown, and after the last step no unknown is left. '
     'The procedure that the command line tool gives, on the terminal or in its output file, does the same.',
     ['inputs'], 'every solvable program, in every order of its equations',
     'No test looks at the steps.',
     ['nexsys/src/lib.rs', 'nexsys/src/main.rs'], [('steps of the solver and the pool of remaining equations', 'nexsys/src/lib.rs')], ['reported steps, replayed against the equations of the program'],
     'offline checker over the reported steps (exactly-once, order, conservation of unknowns)', 'programs of up to 16 unknowns',
     state=[('pool of equations', 'what remains to be solved', 'nexsys/src/lib.rs')])

NPL, NPM, NPN, NPF = 'neapolitan/src/lib.rs', 'neapolitan/src/modelling/element.rs', 'neapolitan/src/modelling/node.rs', 'neapolitan/src/flux_formulas.rs'
NPD, NPH, NPJ = 'neapolitan/src/dc_circuits.rs', 'neapolitan/src/heat_transfer.rs', 'neapolitan/src/modelling/mod.rs'
prop('N01', 'Solutions of networks obey the laws of every element and node',
     'For every network of resistors, conductors, convection interfaces (of positive conductances that do not differ by many orders of magnitude), sources of potential differences and sources of flux that has exactly one solution, the nodal analysis study finds it: every fixed node keeps its potential, every conductor carries its conductance times the difference of potentials from input to output, '
     'every source of a difference makes that difference, every source of flux its flux, and at every other node what flows in flows out, to within the margin.',
     ['inputs'], 'every topology, with any number of fixed nodes and chains or trees of sources, in both studies, every order and orientation of the elements',
     'The tests solve a few circuits of up to four nodes. How sources drive nodes, and through one another, depends on topology, order and orientation.',
     [NPL, NPF, NPD, NPH, NPN, 'geqslib/src/newton.rs'], [('driven nodes and observed fluxes', NPF), ('order in which elements are built', NPL)],
     ['potential of every node', 'flux of every element'],
     'runtime monitor: random networks, element laws and balances checked on the reported solution, independent modified nodal analysis', 'up to 30 nodes',
     state=[('locked and driven nodes', 'which element decides the potential of which node', NPD)])
prop('N02', 'How a network is written down does not matter',
     'The solution of a network does not depend on the order of its elements or the numbering of its nodes, nor on the run. Exchanging the ends of an element reverses its flux, scaling all sources scales the solution, shifting all fixed potentials shifts all potentials, and a conductor may be replaced by parallel ones with the same total.',
     ['inputs'], 'every network, every permutation, orientation and equivalent description',
     'The tests contain one description of each circuit.',
     [NPL, NPF, NPD, NPH], [('order in which elements are built', NPL), ('orientation of sources', NPF)], ['solutions of a network and of its equivalent'],
     'metamorphic runtime monitor', 'up to 30 nodes')
prop('N03', 'Models that make no sense are refused, and no model panics the engine',
     'Models that refer to missing nodes, unknown elements or studies, give the wrong number of values, or fix one potential twice are answered with an error, and so is text that is no model; the builder refuses an element at a missing node as soon as it is added. For every other model, however strange (nothing fixed, islands, no elements, negative, zero or huge values, any margin and limit), the study returns without panicking, and whatever it reports is finite and obeys the laws.',
     ['inputs'], 'every defect in every model, every strange model and setting',
     'The tests give well-posed models only.',
     [NPL, NPD, NPH, NPJ], [('checks before and while the model is built', NPL), ('finite results', NPL)], ['error or result', 'panic', 'laws at the result'],
     'fault-injection monitor over models, settings and texts', 'up to 30 nodes')
prop('N04', 'Models and solutions survive being written down, and the tool spares other files',
     'A model that is saved, at any point of its construction, says what it consists of, is read back as the same model by either reader, and has the same solution. The command line tool writes the solution of a model next to it, in the documented form, and exits with success exactly if there is one under the given precision and iteration limit; otherwise it exits with failure and writes nothing. It never changes the model or another file.',
     ['inputs'], 'every model, every combination of options, good and bad, every kind of file name',
     'No test saves a model or runs the tool.',
     [NPJ, NPL, 'neapolitan/src/main.rs'], [('serialization of the model', NPJ), ('option handling and the name of the solution file', 'neapolitan/src/main.rs')], ['saved text, reloaded model and solutions', 'exit status, every file of the directory before and after'],
     'round-trip monitor, and black-box monitor of the tool in a scratch directory with the library as the oracle', 'up to 30 nodes')
prop('N05', 'The engine serves elements of the user\'s own, in any dimension, part by part',
     'A study that is configured with elements of the user\'s own, nonlinear, coupled between components, or failing, in any number of dimensions, obeys the laws of these elements or reports an error. Names and studies that collide or do not exist are refused. Nodes and elements used on their own keep potentials and locks as set, report fluxes and balances by their definition, sources drive the right node, '
     'and nodes that are gone or in use elsewhere cause errors and not panics.',
     ['histories', 'inputs'], 'every configuration of the engine, every sequence of operations on nodes and elements',
     'The tests use the built-in configuration in one dimension.',
     [NPL, NPM, NPN, NPF, NPD, NPH], [('configurators', NPL), ('weak references to nodes', NPM), ('balance of a node', NPN)], ['solutions against the laws', 'state of every node after every operation against a model'],
     'runtime monitor: model-based histories over nodes and elements, residual oracle for elements of the user\'s own, fault injection', 'up to seven dimensions, histories of up to 40 operations',
     state=[('nodes and elements', 'potentials, locks, and who is connected to whom', NPN)])

UIT, UIL, UIP, UIC, UID = ('ngineer_js/src/%s.ts' % f for f in ('tagbuilder', 'leftRibbonMenu', 'panelManager', 'common', 'debugRibbon'))
prop('J01', 'Tags keep their ids, contents and callbacks whatever happens around them',
     'In the browser interface, every id that is generated is unused, an id cannot be registered twice, and an id is dropped exactly if it is registered and its element is gone. A tag that is built is put where it was asked for, with its id, class, content and callbacks; appending another leaves the existing ones and their callbacks intact. '
     'Getting a tag finds the current element and wires its callbacks up again, and reports a tag that is gone.',
     ['histories'], 'every sequence of building, registering, dropping, removing and re-creating tags',
     'The interface has no tests.',
     [UIT, UIC, 'ngineer_js/target/tagbuilder.js'], [('register of ids', UIT), ('injection into the document', UIT)], ['the document after each step', 'callbacks that ran for an event', 'errors'],
     'model-based runtime monitor in Node, over a small document, of the sources and of the committed scripts', 'histories of up to 34 steps',
     state=[('register of ids', 'ids that are in use', UIT), ('document', 'elements and their callbacks', UIT)])
prop('J02', 'Tabs and panels of the browser interface show what was asked for',
     'Clicking a file opens one tab for it, once; its X closes that tab and no other, in any order, and it can be opened again. Switching between files and modelling tools, also to the one that is shown already, keeps the contents of both, marks the one that is shown and says so; files still open after that. Messages appear with the mark of their kind.',
     ['histories'], 'every sequence of clicks, every set of files',
     'The interface has no tests.',
     [UIL, UIP, UID, UIT, 'ngineer_js/src/index.ts', 'index.html'], [('callbacks of files and tabs', UIL), ('swapping of panel contents', UIP)], ['tabs, files and messages in the document after each click'],
     'model-based runtime monitor in Node, over a small document, of the sources and of the committed scripts', 'histories of up to 34 clicks',
     state=[('panel contents', 'what the panel that is not shown contains', UIP)])

prop('J03', 'The server serves the interface as it is on disk',
     'The server answers a request for / with the page index.html as it is on disk at that time, and every script, style sheet and picture that the page, its scripts or its style sheets refer to exactly as the file has it and as what it is, so that the interface loads completely. Every file of the project and every file that is added to it is served under its path, any number at once; what does not exist is not found. '
     'No request changes a file, and none brings the server down.',
     ['histories', 'inputs'], 'every sequence of requests, every set of files',
     'The server has no tests, and the page is never loaded by one: a reference to a file that was moved breaks the interface silently.',
     ['server.js', 'index.html', 'ngineer_js/target/index.js', UIT], [('routes of the server', 'server.js'), ('references of the page', 'index.html')], ['status, type and bytes of each answer against the file on disk'],
     'runtime monitor that runs the server as a process over a stand-in for its web framework, follows all references of the page and compares each answer with the file on disk', 'histories of up to 30 requests, up to 13 at once')

prop('R01', 'What one call does leaves nothing behind for another',
     'The answer of every call of the libraries depends on its arguments and on the objects that it was given, and on nothing else: not on calls made before, whether these succeeded, were refused, or were cut short by a function of the caller that failed or panicked; not on calls that other threads make at the same time with objects of their own; and not on calls that the caller\'s own functions make while they are called. '
     'Texts and names mean for each caller what that caller\'s objects give them. No two threads ever touch the same memory without synchronization.',
     ['schedules', 'histories', 'fault_sequences'], 'every history and every interleaving of calls with separate objects',
     'Each test makes a few calls in a process of its own thread; state that is left behind shows in a later call with another meaning, after a failure, or under another schedule.',
     ['geqslib/src/shunting.rs', 'geqslib/src/newton.rs', 'geqslib/src/system.rs', 'nexsys/src/lib.rs', 'nexsys/src/parsing/mod.rs', 'nexsys/src/parsing/conditionals.rs', 'nexsys/src/units/mod.rs', 'gmatlib/src/lib.rs', 'neapolitan/src/lib.rs'],
     [('expressions that are compiled while others are', 'geqslib/src/shunting.rs'), ('expressions that are shared by all programs', 'nexsys/src/parsing/mod.rs'), ('configuration of studies', NPL)],
     ['answers of calls in several threads against what they are by construction', 'calls in flight together', 'ThreadSanitizer'],
     'runtime monitor over random histories in several threads with answers known by construction, failing and reentrant callbacks; ThreadSanitizer with an instrumented standard library', 'up to 4 threads of up to 14 calls each')
