import json
P=[]
def add(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
D='wicked/diagrams/';A='wicked/algebra/';H='wicked/helpers/';API='wicked/api/'
PC=D+'wick_theorem_process_contractions.cc'
add('C01','contract() equals the generalized Wick expansion under every schedule',
 "Contracting a product of normal-ordered operators returns exactly the terms of the generalized Wick theorem whose number of uncontracted second-quantized operators lies in the requested window, each with its exact rational weight and fermionic sign, over any combination of occupied, unoccupied and general orbital spaces and any cumulant limit. This holds whatever order or interleaving the worker threads of the default execution mode run in.",
 ['schedules','inputs','configurations'],
 "all interleavings of the per-contraction workers at memory-access granularity, all operator products, orbital-space tables, rank windows and cumulant limits",
 "The tests compare a few dozen hand-written expressions (no elementary contraction repeated more than twice, one schedule per run chosen by the OS); a wrong weight, a lost term or a schedule-dependent sum needs other products and other interleavings.",
 [D+'wick_theorem.cc',D+'wick_theorem_elementary_contractions.cc',D+'wick_theorem_composite_contractions.cc',PC,D+'wick_theorem_canonicalize_graph.cc',D+'contraction.cc',D+'graph_matrix.cc',D+'operator.cc',H+'combinatorics.cc'],
 [('elementary contractions per space','WickTheorem::generate_elementary_contractions'),('backtracking over composite contractions','WickTheorem::generate_contractions_backtrack'),('one asynchronous task per contraction, results summed by the caller','WickTheorem::process_contractions_threads'),('sign and combinatorial factor','WickTheorem::evaluate_contraction, combinatorial_factor')],
 [('contractions_','the composite contractions the workers read','wicked/diagrams/wick_theorem.h'),('elementary_contractions_','read-only during step 3','wicked/diagrams/wick_theorem.h')],
 ['WickTheorem.contract return value'])
add('C02','Execution mode, graph canonicalization and printing never change the result',
 "For the same operators, contraction returns the same expression whether it runs with worker threads or single-threaded and at every diagnostic print level, and an expression of equal value with graph canonicalization on or off. The settings apply to the next call and do not affect each other.",
 ['configurations','schedules','inputs'],
 "all settings of the engine's switches, in any order of setting them, all schedules of the workers, all operator products",
 "One test file compares one example in single-threaded mode; the two modes are separate copies of the same loop, so they can drift apart on inputs and schedules no test runs.",
 [D+'wick_theorem.cc',PC,D+'wick_theorem_canonicalize_graph.cc',API+'wick_theorem.cc'],
 [('serial path','WickTheorem::process_contractions'),('threaded path','WickTheorem::process_contractions_threads, process_single_contraction'),('graph canonicalization','WickTheorem::canonicalize_contraction_graph')],
 [('single_threaded_','selects the path','wicked/diagrams/wick_theorem.h'),('do_canonicalize_graph_','canonicalize each contraction graph first','wicked/diagrams/wick_theorem.h')],
 ['WickTheorem.contract return value under each configuration'])
add('C03','Workers of a contraction never race on shared state or touch freed memory',
 "While a contraction runs on several threads, no two threads access the same memory without synchronization when at least one writes, and no thread reads or writes memory after it has been released. Workers only read the operators, the contraction lists and the orbital-space table, and everything they hand back is handed over through synchronization.",
 ['schedules','inputs'],
 "all interleavings of the workers with each other and with the calling thread, for every operator product, print level and failure path",
 "A data race needs two accesses in an unlucky order; the tests run whatever order the OS picks, without a race detector, and their expected values do not depend on the raced data.",
 [PC,D+'wick_theorem.h',D+'wick_theorem.cc',H+'orbital_space.cc',H+'timer.hpp'],
 [('workers take the operators and lists by reference and write only locals','lambda in WickTheorem::process_contractions_threads'),('timers guarded by a lock','WickTheorem::add_time'),('futures joined before the lists go out of scope','WickTheorem::process_contractions_threads')],
 [('timers_','accumulated by every worker','wicked/diagrams/wick_theorem.h'),('orbital_subspaces','process-wide table read by every worker','wicked/helpers/orbital_space.cc')],
 ['every memory access made by the instrumented extension'])
add('C04','A failed thread launch or allocation in contract() never yields a partial result',
 "If starting a worker thread or allocating memory fails at any point during a contraction, the call either still returns the complete exact expression or raises an exception; it never returns a partial or altered expression, aborts the process or hangs. Afterwards no worker of that call is still running, its memory has been released, and repeating the call without the fault returns the exact result.",
 ['fault_sequences','schedules','crash_points'],
 "every allocation and every thread launch of a contraction failing (singly or in combination), combined with all interleavings",
 "No test makes a thread launch or an allocation fail; the error paths of the threaded mode are never executed.",
 [PC,D+'wick_theorem.cc',D+'wick_theorem_composite_contractions.cc',API+'wick_theorem.cc'],
 [('each task owned by a future that joins on destruction','WickTheorem::process_contractions_threads'),('exceptions of a worker rethrown to the caller','fut.get() in process_contractions_threads'),('work lists cleared at the start of each call','WickTheorem::contract')],
 [('futures','tasks in flight','process_contractions_threads')],
 ['return value or exception of contract, exit status, live threads, heap balance'])
add('C05','A Wick engine reused after any history behaves like a fresh one',
 "The result of a contraction depends only on the operators, the factor, the rank window, the engine's current settings and the current orbital spaces. Earlier contractions on the same engine, earlier failures, changed settings and redefined orbital spaces leave no trace in later results.",
 ['histories','fault_sequences','schedules'],
 "all sequences of contractions, setting changes, orbital-space redefinitions and injected failures on one or several engines",
 "The tests use each engine for a handful of successful calls in one fixed order; leftovers of a failed or differently configured call need a history to show.",
 [D+'wick_theorem.cc',D+'wick_theorem.h',PC],
 [('per-call state cleared on entry','WickTheorem::contract')],
 [('elementary_contractions_, contractions_, ncontractions_','per-call work lists kept in the engine','wicked/diagrams/wick_theorem.h')],
 ['WickTheorem.contract return value after a history, compared with a fresh process'])
add('C06','Timers stay non-negative, monotone and bounded by elapsed time',
 "The timers an engine reports are never negative, never decrease from one call to the next, and account for every contraction made; each per-call phase grows by no more than the time that really elapsed during the call, and each per-contraction phase by no more than that time multiplied by the number of threads at work. Steps of the wall clock, in either direction and at any instant, and slow or stalled workers change neither this nor any result.",
 ['fault_sequences','schedules','histories'],
 "all wall-clock steps (forward and backward) and stalls placed anywhere inside a contraction, all interleavings of workers updating the timers",
 "No test reads the timers, and a clock step or a lost concurrent update cannot be produced by a test on a real clock.",
 [H+'timer.hpp',D+'wick_theorem.cc',PC],
 [('monotonic clock','timer'),('locked accumulation','WickTheorem::add_time')],
 [('timers_','accumulated seconds per phase','wicked/diagrams/wick_theorem.h')],
 ['WickTheorem.timers()'])
add('C07','Orbital-space definitions are all-or-nothing',
 "Defining an orbital space either succeeds completely or raises an exception and leaves the set of spaces, their order, labels, indices and types exactly as they were, so the same definition can be corrected and retried. After any sequence of definitions, failures and resets, labels and indices are unique, the table equals the successful definitions since the last reset, and every label resolves to its own space.",
 ['histories','fault_sequences','inputs'],
 "all sequences of valid and invalid definitions and resets, with an allocation failing at any point inside any of them",
 "The tests check that three invalid definitions raise, not what state they leave behind, and never fail an allocation half way.",
 [H+'orbital_space.cc',API+'orbital_space_api.cc'],
 [('validate, then commit','OrbitalSpaceInfo::add_space'),('reset','OrbitalSpaceInfo::reset')],
 [('space_info_, label_to_pos_, indices_to_pos_','three tables that must stay consistent','wicked/helpers/orbital_space.h')],
 ['osi(), num_spaces(), index(), op(), add_space(), reset_space()'])
add('C08','In-place operations on expressions are all-or-nothing',
 "Adding to, subtracting from, scaling, or canonicalizing an expression or operator expression in place either completes or raises an exception and leaves the object with exactly its previous value or its complete new value. No term is ever lost, duplicated or left with a partial coefficient, including when an object is combined with itself or changed while it is being iterated.",
 ['fault_sequences','histories','inputs'],
 "every allocation inside every in-place operation failing, in any history of operations and any aliasing of the operands",
 "No test fails an allocation; the tests look at objects only after operations that succeeded.",
 [H+'algebra.hpp',H+'helpers.h',A+'expression.cc',D+'operator_expression.cc',API+'expression_api.cc',API+'operator_api.cc'],
 [('build aside, then move into place','Expression::canonicalize, OperatorExpression::canonicalize, OperatorExpression::add2'),('single-key map update','add_to_map')],
 [('terms_','the map from term to coefficient','wicked/helpers/algebra.hpp')],
 ['str(), len(), ==, iteration of the object after the failure'])
add('C09','Value-returning operations never disturb their operands, even when they fail',
 "Operations that return a new value (parsing, sums, products, commutators and similarity expansions, adjoints, normal ordering, equations, code generation, printing) leave every operand exactly as it was whether they succeed or fail. When memory runs out at any point they raise an exception, leak nothing, and give the exact result when repeated.",
 ['fault_sequences','inputs','histories'],
 "every allocation inside every value-returning operation failing, on generated expressions and operators",
 "No test fails an allocation or re-examines operands afterwards, so half-moved operands, poisoned caches and leaks on the error path are invisible.",
 [A+'expression.cc',A+'expression_normal_order.cc',A+'symbolic_term_normal_order.cc',A+'equation.cc',A+'tensor.cc',A+'index.cc',D+'operator_expression.cc',H+'helpers.cc',API+'expression_api.cc',API+'operator_api.cc','wicked/utils.py'],
 [('operands taken by value or const reference','operator bindings in wicked/api'),('exceptions propagate through value types with destructors','wicked/algebra, wicked/diagrams')],
 (),['results, operands and heap balance of each call'])
add('C10','Concurrent callers see each API call as atomic and isolated',
 "When several threads of one program use the library at once, every call has the effect and result it would have had in some one-at-a-time order of the calls. Objects used by one thread only are unaffected by the others, additions to a shared expression are never lost, and iterating over a shared expression never crashes or yields a term that was not there.",
 ['schedules','histories','inputs'],
 "all interleavings of calls from several threads, on private and shared expressions, shared engines and the shared orbital-space table, with thread switches at any point where a call can be preempted",
 "All tests are single-threaded callers.",
 [API+'wick_theorem.cc',API+'expression_api.cc',API+'operator_api.cc',API+'orbital_space_api.cc',API+'term_api.cc',H+'orbital_space.cc',D+'wick_theorem.cc'],
 [('calls hold the interpreter lock from entry to return','wicked/api bindings (no call releases it)'),('iteration over a snapshot','Expression.__iter__ binding')],
 [('orbital_subspaces','shared by all callers','wicked/helpers/orbital_space.cc')],
 ['return values and final object values of every caller thread'])
add('C11','Diagnostic output and its failures never influence results',
 "Turning diagnostics on at any level, and any failure of the stream they go to (disk full, closed descriptor, broken pipe, short or refused writes), leaves every returned value and every later call unchanged. A contraction with diagnostics off writes nothing.",
 ['fault_sequences','configurations','schedules'],
 "all print levels with every kind of output failure starting at any write, in both execution modes and all interleavings",
 "The tests leave diagnostics off and the output stream healthy.",
 [D+'wick_theorem.cc',D+'wick_theorem_elementary_contractions.cc',D+'wick_theorem_composite_contractions.cc',PC,D+'wick_theorem_canonicalize_graph.cc',D+'wick_theorem_helpers.cc'],
 [('diagnostics only read state','PRINT blocks'),('stream errors are recorded in the stream, not thrown','std::cout with default exception mask')],
 (),['contract return value, bytes written'])
add('C12','Objects that outlive their orbital spaces give errors, never crashes',
 "Operators, expressions, indices, equations and engines may be used after the orbital spaces they were built with were reset or redefined, and spaces may be queried at any position: each such call returns or raises an exception, and never crashes, hangs, or corrupts other objects. Once spaces equal to the original ones are defined again, the old objects give the same results as before.",
 ['histories','inputs'],
 "all histories of building objects, resetting and redefining spaces (from the same or another thread) and then using the old objects in any operation",
 "The tests reset spaces only between self-contained computations and drop the old objects first.",
 [H+'orbital_space.cc',D+'graph_matrix.cc',A+'index.cc',A+'tensor.cc',A+'symbolic_term.cc',A+'sqoperator.cc'],
 [('bounds-checked table access','OrbitalSpaceInfo accessors, GraphMatrix, num_indices_per_space')],
 [('space_info_','the table positions refer to','wicked/helpers/orbital_space.h')],
 ['exit status, exceptions and results of every call after a reset'])
add('C13','Library functions are history-independent',
 "Parsing, printing, LaTeX and code generation, canonicalization, normal ordering, products, commutators and the equation builder return values that depend only on their arguments and the current orbital spaces. The same call gives the same answer in a fresh process and after any history of other calls, failed calls and orbital-space changes.",
 ['histories','fault_sequences','inputs'],
 "all histories of API calls, including calls that raised and calls that ran out of memory, followed by any call",
 "Each test file runs one fixed sequence in one process; state carried over in statics, caches or global tables is only visible to other sequences.",
 [A+'expression.cc',A+'symbolic_term.cc',A+'tensor.cc',A+'index.cc',A+'equation.cc',A+'sqoperator.cc',D+'operator_expression.cc',D+'operator.cc',H+'helpers.cc','wicked/utils.py'],
 [('no mutable state besides the orbital-space table','whole library')],
 (),['every return value, compared with the same call in a pristine process'])
add('C14','Every contraction completes: no deadlock, lost wakeup or stranded worker',
 "Whatever order the threads are scheduled in, and however long any of them is stalled, a contraction returns (or raises) once the stalled threads run again, within a number of steps bounded by the work. When it returns no thread is still working on that call, so its operands and engine can be destroyed at once.",
 ['schedules','fault_sequences'],
 "all interleavings, stalls of any worker at any point, any number of processors, failed thread launches, repeated calls",
 "The tests wait for whatever the OS schedules and cannot place a stall or tell a rare deadlock from a slow machine.",
 [PC,D+'wick_theorem.cc'],
 [('every task is awaited before the call returns','futures in process_contractions_threads'),('locks held only across a map update','WickTheorem::add_time')],
 (),['completion of each simulated run within its step bound, live threads at return'])
add('C15','Values are the same in every process environment',
 "Every value the library returns, text included, depends on its arguments, the settings and the current orbital spaces alone: not on what fresh memory happens to contain, where blocks are placed or whether they are reused, the number of processors, clocks, sources of randomness, the thread schedule or the locale of the process.",
 ['schedules','configurations','inputs'],
 "all contents and placements of memory, processor counts, clock readings, random sources, schedules and locales, for every program of calls",
 "The tests run in one environment, where fresh memory is mostly zero, addresses ascend and the locale is C; a value read from uninitialised memory, an order taken from addresses or a decimal point taken from the locale looks right there.",
 [PC,D+'contraction.cc',D+'operator.cc',A+'symbolic_term.cc',A+'equation.cc',H+'helpers.cc','wicked/utils.py'],
 [('ordered containers keyed by value','Expression, SymbolicTerm, Operator'),('members initialised where declared','WickTheorem, GraphMatrix')],
 (),['every value and text returned by a program of calls'])
add('C16','Repeating work does not accumulate memory, threads or descriptors',
 "A session that repeats the same calls, whether they succeed, are rejected or fail for lack of memory or threads, uses a bounded amount: after each repetition, once the results are dropped, no more memory, threads and file descriptors are in use than after the one before, whatever the schedule.",
 ['histories','fault_sequences','schedules'],
 "all programs of calls repeated any number of times, with the same failures each time, under all schedules",
 "The tests run each call once and end; growth of an engine, a table or a cache only shows over repetitions and mostly on the failure paths.",
 [D+'wick_theorem.h',PC,'wicked/diagrams/orbital_space.cc',A+'expression.cc','wicked/api'],
 [('buffers of the engine are cleared per call','WickTheorem::contract'),('owners are values and smart pointers','whole library')],
 (),['blocks and bytes allocated by library and bindings, live threads and open descriptors after every repetition'])
add('C17','No call ends, hangs or damages the process, whatever its arguments',
 "Every public call returns or raises an exception, whatever the values and sizes of its arguments (empty, negative, repeated, contradictory or malformed ones; operators of hundreds of legs, terms with hundreds of indices, tens of orbital spaces, strings of thousands of characters, numbers at the limits of their type) and whichever allocations or thread launches fail or signals arrive in it. It never ends the process, hangs or touches memory that it does not own; other objects keep their values and later calls behave as in a fresh process.",
 ['inputs','fault_sequences','histories'],
 "all values of the documented argument types up to the stated sizes, with any failures, followed by any calls",
 "The tests call each function with a few small well-formed arguments; a buffer that is large enough for them, or a failure path that ends the process, is never reached.",
 [D+'wick_theorem_composite_contractions.cc',PC,D+'graph_matrix.cc',A+'symbolic_term.cc',A+'tensor.cc',A+'index.cc',A+'equation.cc',H+'orbital_space.cc',H+'combinatorics.cc',H+'rational.cc','wicked/utils.py'],
 [('containers grow with the work','WickTheorem::make_move'),('checked access to tables and counts','GraphMatrix, OrbitalSpaceInfo, num_indices_per_space')],
 (),['outcome of every call, memory accesses of the instrumented extension, objects and calls afterwards'])
NA=[
('C20','Canonicalizing an expression preserves its value and is idempotent',"Canonicalization rewrites an expression into one of equal value under the antisymmetry of its tensors and operators, and canonicalizing twice equals canonicalizing once.",[A+'symbolic_term.cc',A+'tensor.cc',A+'index.cc']),
('C21','Vacuum normal ordering preserves the operator',"Normal ordering with respect to the true vacuum yields an expression equal, as an operator, to its input, for fermions and bosons.",[A+'symbolic_term_normal_order.cc',A+'sqoperator.cc']),
('C22','Rational coefficients follow exact field arithmetic',"Sums, differences, products and quotients of coefficients are exact and kept in lowest terms with a positive denominator, for all magnitudes up to 1024 bits.",[H+'rational.cc']),
('C23','Parsing inverts printing',"Reading back the printed form of an index, tensor, rational or expression gives an equal object.",[A+'expression.cc',A+'tensor.cc',A+'index.cc',H+'rational.cc','wicked/utils.py']),
('C24','Many-body equations partition the expression',"The equations extracted from an expression contain each of its terms exactly once, filed under the signature of its free indices.",[A+'expression.cc',A+'equation.cc']),
('C25','Generated code computes the equation',"The einsum and ambit code generated from an equation evaluates to the value of its right-hand side for every assignment of the tensors.",[A+'equation.cc','wicked/utils.py']),
('C26','Commutator and similarity expansions obey their identities',"The commutator is bilinear and antisymmetric and satisfies the Jacobi identity, and the n-th order similarity expansion equals the truncated nested-commutator series.",[D+'operator_expression.cc',H+'algebra.hpp']),
('C27','The adjoint is an involution that reverses products',"Taking the adjoint twice gives the original operator or expression, and the adjoint of a product is the product of the adjoints in reverse order.",[H+'product.hpp',A+'expression.cc',D+'operator.cc']),
('C28','Operator generators enumerate every component once',"The many-body operator generator and the integer partitions list every admissible component exactly once.",['wicked/utils.py',H+'combinatorics.cc']),
]
for id,t,s,f in NA:
    add(id,t,s,['inputs'],'all inputs of a deterministic pure function','The tests sample a few inputs.',f,[('pure function of its arguments',f[0])],(),['return value'])
with open('/verif/properties.jsonl','w') as fo:
    for p in P: fo.write(json.dumps(p)+'\n')
