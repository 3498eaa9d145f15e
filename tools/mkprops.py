#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that anchors stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

p('C01', 'Values always reflect the current inputs',
  "After any history of edits (assigning data to a variable as a whole, by item, through a slice/reshape/transpose view or with a new shape; changing an operation's options; connecting an operation to a different input), interleaved in any order with value and derivative reads and with garbage collection at any moment, reading an expression gives the value the current expression has at the current inputs. Reading never changes an input, and the arrays handed out as values cannot be written to.",
  ['histories', 'schedules', 'inputs'], 'every expression graph, every sequence of edits and reads on it, every moment at which unreachable expressions are collected, every order in which sets of inputs are visited',
  'The tests make one edit after one read on a few fixed graphs; lazy caches at every node, weak parent links and iteration marks only go wrong for particular edit/read/collection orders.',
  ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/extras.py', 'chumpy/logic.py'],
  [('upward invalidation over weak parent links', 'chumpy/ch.py clear_cache, __setattr__, set, __setitem__'), ('change notification before computing', 'chumpy/ch.py _call_on_changed, r'), ('per-operation memo tables', 'chumpy/reordering.py, chumpy/ch_ops.py on_changed/compute_*')],
  ['value reads (.r, str, float, shape) of every expression'],
  [('value cache', 'last computed value of a node', 'Ch._cache["r"], ["rview"]'), ('parents', 'weak links used for invalidation', 'Ch._parents'), ('dirty set', 'inputs changed since last notification', 'Ch._dirty_vars'), ('iteration mark', 'suppresses repeated invalidation', 'Ch._itr')])

p('C02', 'Derivatives always reflect the current inputs',
  "Under the same histories of edits, reads and garbage collections, the derivative of any expression with respect to any variable, intermediate expression or slice of a variable equals the true derivative at the current inputs, with one row per output element and one column per input element (a plain number stands for that multiple of the identity); it is reported as absent only when it is zero. The forward-mode, reverse-mode and left-product forms of the derivative agree.",
  ['histories', 'schedules', 'inputs'], 'every expression graph, edit/read history, collection moment and differentiation target',
  'The tests differentiate freshly built graphs, nearly always once; derivative caches (per node and per operation) are reused or dropped depending on how many parents are alive, on shapes seen before and on which derivatives were asked for earlier.',
  ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/extras.py'],
  [('derivative cache filled unless exactly one parent is alive', 'chumpy/ch.py dr_wrt'), ('slicing of derivatives', 'chumpy/ch.py _compute_dr_wrt_sliced'), ('per-operation Jacobian tables', 'chumpy/reordering.py Reorder.dr_lookup, Select._dr_cached, Concatenate.dr_cached; chumpy/ch_ops.py sum.dr_cache, _bs_setup_data1/2')],
  ['dr_wrt (forward, reverse_mode), lop'],
  [('derivative cache', 'Jacobians by differentiation target', 'Ch._cache["drs"]')])

p('C03', 'A failed computation leaves no trace',
  "If reading a value or a derivative fails part-way (a user-defined node raises in any of its methods, a linear-algebra routine rejects its input, memory cannot be allocated) at any node and any point, the error reaches the caller and no input changes. Every later read, including a retry once the cause is gone, gives exactly what it would have given had the failed read never been attempted.",
  ['fault_sequences', 'histories'], 'every graph and history, every node and every call inside the evaluation at which the failure strikes, any number of failures',
  'No test makes a computation fail; half-filled caches and consumed change notifications are only visible after a failure at one particular point.',
  ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py'],
  [('cache published only after computing; notification cleared only after delivery', 'chumpy/ch.py r, dr_wrt, _call_on_changed'), ('cached properties marked current only after computing', 'chumpy/ch.py depends_on')],
  ['exception seen by the caller', 'reads after the failure'])

p('C04', 'A rejected edit leaves the graph consistent',
  "If an edit raises (a value that cannot be converted, a bad index or shape, one bad item in a multi-item edit, an edit of something that is not editable), every individual setting keeps its old value or takes the new one, and from then on all reads reflect the settings actually in force. Later valid edits take full effect.",
  ['fault_sequences', 'histories', 'inputs'], 'every graph, history and failing edit, at any position among valid edits',
  'No test makes an edit fail; the invalidation bookkeeping of a multi-item edit is left half-way only when a later item fails.',
  ['chumpy/ch.py', 'chumpy/reordering.py'],
  [('set() applies items one by one with a shared iteration mark', 'chumpy/ch.py set, __setattr__, clear_cache'), ('item assignment', 'chumpy/ch.py __setitem__')],
  ['inputs as the objects report them', 'reads after the failure'])

p('C05', 'Interrupts never corrupt a graph',
  "If execution is interrupted (Ctrl-C, out of memory) between any two steps while an expression is being built, read, differentiated, edited or restructured, each input holds its previous or its new setting, and every later read reflects exactly those settings. No existing expression becomes permanently stale or unusable.",
  ['crash_points', 'histories'], 'every graph and history, every line of the library at which an interrupt can be delivered, one or more interrupts per history',
  'Tests never interrupt anything, and the outcome depends on the exact line; interactive users interrupt long evaluations routinely and carry on with the same objects.',
  ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py'],
  [('invalidate before store, link before unlink, publish after compute', 'chumpy/ch.py __setattr__, __setitem__, clear_cache, r, set')],
  ['inputs as the objects report them', 'reads after the interrupt'])

p('C06', 'The dogleg minimizer never loses ground',
  "For any residuals, free variables (whole variables or disjoint, possibly nested, slices of them), options and linear-solver behaviour (even wrong or non-finite answers), the sum of squares at successive progress callbacks never increases, a rejected trial step is completely undone, and at return the free variables hold exactly the last accepted point with every expression reading accordingly. Variables and elements that are not free are never changed.",
  ['fault_sequences', 'inputs', 'configurations'], 'every residual graph, choice of free variables, option setting and sequence of solver answers and objective anomalies',
  'Three fixed problems are minimized with a correct solver and only the end point is compared; rejection, slices of a shared variable and bad solver answers need particular sequences.',
  ['chumpy/optimization_internal.py', 'chumpy/optimization.py'],
  [('trial/accept/undo loop', 'chumpy/optimization_internal.py minimize_dogleg, DoglegState.Trial'), ('copying the flat vector to the free variables', 'chumpy/optimization_internal.py ChInputsStacked.on_changed')],
  ['progress callback', 'free variables and expressions during and after the call'])

p('C07', 'The dogleg minimizer always stops and makes progress',
  "Every dogleg minimization ends after a bounded number of objective evaluations (within the iteration and evaluation limits given) even when trial evaluations or linear solves yield non-finite results or linear solves fail. Once such disturbances stop, it still reaches the minimum of a well-conditioned problem.",
  ['fault_sequences', 'configurations'], 'every sequence of non-finite evaluations and solver failures, every limit setting, on well-conditioned problems for the progress part',
  'No test lets an evaluation or solve go wrong or checks the limits; a non-terminating trust-region loop appears only when a trial lands outside the domain.',
  ['chumpy/optimization_internal.py'],
  [('stopping rules and trust-region update', 'chumpy/optimization_internal.py minimize_dogleg, DoglegState.updateRadius, update_step, updateGN')],
  ['number of objective evaluations and callbacks', 'final sum of squares'])

p('C08', 'An aborted minimization leaves a usable state',
  "If a minimization is cut short by an exception from the objective, the progress callback, the linear solver or the progress output, at any point, that exception reaches the caller, inputs that are not free are unchanged and the free variables hold a point that was accepted or was being tried. All expressions read consistently with it, and a new minimization started from there behaves like one on a freshly built problem with the same values.",
  ['crash_points', 'fault_sequences'], 'every point at which user code or output called by the minimizer can raise, for the dogleg method and the scipy-backed methods',
  'No test aborts a minimization; stale caches and half-copied variables show only after an abort at one particular call.',
  ['chumpy/optimization.py', 'chumpy/optimization_internal.py', 'chumpy/ch.py'],
  [('no state outside the graph and the call', 'chumpy/optimization_internal.py setup_objective, minimize_dogleg'), ('free-variable update marks', 'chumpy/optimization_internal.py _giter')],
  ['exception at the caller', 'variables and expressions after the abort', 'second minimization'])

p('C09', 'Solvers are answered for the point they ask about',
  "With every scipy-backed method, whatever the order and repetition in which the solver asks for objective, gradient, Hessian or Hessian-product, and even if it reuses and overwrites the array holding the point, each answer is the true one for the point passed in that request (for Hessians: the Gauss-Newton form, twice the squared Jacobian). At return the free variables hold the solver's answer, and nothing else has changed.",
  ['schedules', 'inputs'], 'every sequence of solver requests and every problem',
  'One method is exercised on one problem; answers are memoized across requests and only go wrong for call orders that other solvers (or versions) produce.',
  ['chumpy/optimization.py'],
  [('moving the variables to the requested point; memo of the last gradient/Jacobian/Hessian', 'chumpy/optimization.py changevars, scalar_jacfunc, ns_jacfunc, hessp, hess')],
  ['every answer handed to the solver', 'variables after return'])

p('C10', 'Copies and saved graphs are faithful and independent',
  "At any point of a history, a graph that is copied, or saved and loaded back (also after a crash that loses everything else), has the values, derivatives and sharing it had when saved and responds to later edits as the original would. Copying or saving, also when the write fails part-way, has no effect on the original, later edits of either side never show in the other, and a truncated save is rejected instead of loading as a graph.",
  ['crash_points', 'fault_sequences', 'histories'], 'every history, save point, crash point, write failure and truncation',
  'One two-node graph is pickled and loaded once; operations with extra state, shared inputs, warmed caches, failed writes and edits after loading are not reached.',
  ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/reordering.py'],
  [('stripping and rebuilding of parent links and caches', 'chumpy/ch.py __getstate__, __setstate__; chumpy/reordering.py Concatenate.__getstate__; chumpy/ch_ops.py copy')],
  ['reads on the reloaded graph', 'reads on the original'])

p('C11', 'Independent graphs can be used from different threads',
  "Threads that build, evaluate, differentiate, edit and minimize expressions which share no objects get, under every interleaving, exactly the results each would get alone. This includes the first use of any operation or user-defined node type in the process.",
  ['schedules'], 'every interleaving of two or more threads, switching between any two steps inside the library',
  'Everything is tested on one thread; lookup tables, type set-up and the iteration counter shared by all graphs are touched in windows of a few instructions.',
  ['chumpy/ch.py', 'chumpy/ch_ops.py', 'chumpy/optimization_internal.py'],
  [('idempotent lazily filled process-wide tables', 'chumpy/ch.py _props_for, _dep_props_for, setup_terms; chumpy/ch_ops.py _bs_setup_data1/2'), ('global iteration counter', 'chumpy/optimization_internal.py _giter')],
  ['every read in every thread'])

p('C12', 'Clock, diagnostics and set order never affect results',
  "Values, derivatives and minimization results are the same whatever the system clock does (standing still, jumping forwards or backwards), whether debugging and verbose output are on or off, and in whatever order the interpreter happens to iterate over sets. Failing diagnostic output surfaces as an error or not at all, never as different results.",
  ['configurations', 'schedules', 'fault_sequences'], 'every clock behaviour, diagnostic setting, output failure and set order, for every program',
  'Tests run with diagnostics off and an ordinary clock; one interpreter gives one set order.',
  ['chumpy/ch.py', 'chumpy/utils.py', 'chumpy/monitor.py', 'chumpy/optimization_internal.py'],
  [('timers only feed messages', 'chumpy/utils.py timer; chumpy/ch.py pif'), ('profiler reads, never writes, the graph', 'chumpy/monitor.py')],
  ['all reads and minimization results under two environments'])

p('C13', 'Randomness is reproducible and drawn only on request',
  "Random variables come from NumPy's global generator and from nowhere else: seeding or restoring its state reproduces them, and interleaved NumPy draws continue the same stream. A drawn variable keeps its data until edited, and building, reading, differentiating, copying and minimizing expressions consumes no random numbers.",
  ['histories'], 'every interleaving of seeding, state save/restore, draws by either library, reads, copies and minimizations',
  'Tests use random data but never look at the stream.',
  ['chumpy/ch_random.py', 'chumpy/ch_ops.py', 'chumpy/ch.py'],
  [('thin wrappers over numpy.random', 'chumpy/ch_random.py')],
  ['drawn data', 'generator state before and after each operation'])

p('C14', 'Restructuring preserves meaning under later edits',
  "Substituting one input for another throughout an expression makes the expression, and every expression sharing the affected parts, read and differentiate (with respect to any variable) as if it had been built with the new input. Merging redundant parts changes no value or derivative. Both keep holding under all later edits and garbage collections.",
  ['histories', 'schedules'], 'every graph with sharing, every substitution and merge, every later edit, read and collection',
  'The tests look at identity or value straight after one substitution or merge and never edit afterwards.',
  ['chumpy/ch.py', 'chumpy/reordering.py'],
  [('re-linking of parents', 'chumpy/ch.py replace, remove_redundancy, __setattr__'), ('operations with stored input lists', 'chumpy/reordering.py Concatenate')],
  ['reads of all expressions after restructuring and later edits'])

p('C15', 'User-defined nodes are told of every change',
  "Before a user-defined node computes anything, it has been notified of the names of all its inputs and options that changed, directly or through anything they depend on, since its last successful notification; a notification that raises is repeated on the next use. Once it has caught up with a change it is neither notified nor is its value computed again until something it depends on changes or is assigned to, and its cached properties are recomputed exactly when one of their declared dependencies has changed.",
  ['histories', 'fault_sequences'], 'every history of direct and indirect changes, reads and failing notifications',
  'One test counts calls for one fixed sequence; lost or repeated notifications depend on the order of edits, reads and failures.',
  ['chumpy/ch.py'],
  [('dirty-name propagation and delivery', 'chumpy/ch.py clear_cache, _call_on_changed, _invalidate_cacheprop_names, depends_on')],
  ['calls of the node\'s own methods'])

p('C16', 'Discarded expressions are released',
  "An expression that the user no longer references, directly or through another expression, is freed by garbage collection although its inputs live on (once expressions that were given another input in its place have been read again), after any history of reads, derivatives, edits, copies, minimizations and failures. Its disappearance at any moment changes nothing about the expressions that remain.",
  ['histories', 'schedules', 'fault_sequences'], 'every history and every moment at which expressions are dropped and collected',
  'No test drops anything; leaks and dependence on dead parents need long-lived inputs with changing sets of expressions.',
  ['chumpy/ch.py', 'chumpy/reordering.py', 'chumpy/optimization.py', 'chumpy/optimization_internal.py'],
  [('weak parent links and weakly keyed derivative caches', 'chumpy/ch.py _parents, _cache; chumpy/reordering.py dr_cached')],
  ['weak references held by the observer', 'reads of survivors'])

p('C17', 'Operations match NumPy on every single input',
  "Each operation evaluated once on a fresh graph gives NumPy's result for every admissible shape, including empty and high-dimensional arrays, non-finite data and ties. ",
  ['inputs'], 'every operation and every input array',
  'Tests sample a few shapes.',
  ['chumpy/ch_ops.py', 'chumpy/reordering.py', 'chumpy/linalg.py', 'chumpy/logic.py'],
  [('direct calls to NumPy', 'chumpy/ch_ops.py compute_r methods')], ['value of one operation'])

p('C18', 'Derivative formulas at singular points follow one convention',
  "At points where an operation is not differentiable (ties in extrema, zero of the absolute value, clip bounds, repeated singular values) a derivative is returned that is a valid one-sided or sub-derivative. ",
  ['inputs'], 'every operation and every non-smooth point',
  'Only equal arguments of maximum are tested.',
  ['chumpy/ch_ops.py', 'chumpy/linalg.py', 'chumpy/reordering.py'],
  [('closed formulas', 'chumpy/ch_ops.py compute_dr_wrt methods')], ['derivative of one operation'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for q in P: 
        q['statement']=q['statement'].strip()
        f.write(json.dumps(q) + '\n')
