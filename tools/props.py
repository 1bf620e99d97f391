#!/usr/bin/env python3
"""The properties.  Running this file rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None, note=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
               'why_tests_cant': why, 'anchors': a}, na, note))


SF = ['schedules', 'fault_sequences', 'inputs']
prop('C01', 'Parallel task execution runs every task once and returns only when all are done',
     'A call that executes a list of tasks in parallel runs each task exactly once, never runs more of them at a time than the given limit, lets that many tasks run at the same time, and returns only after all have finished, with their effects visible to the caller and no thread left behind. '
     'Joining a started thread returns only after its function has finished, with its effects visible. '
     'Failure to start a thread never ends the process, loses a task or leaves a task running.',
     SF, 'All task lists and limits, all interleavings of the workers, nested and concurrent calls, and thread-creation failure at any point.',
     'The test runs a handful of lists on whatever interleaving the machine gives; a duplicated or unfinished task needs two workers to interleave inside the counter update, and thread-creation failure never happens in a test.',
     ['arolla/util/threading.cc', 'arolla/util/threading.h'],
     [('shared atomic task counter', 'ExecuteTasksInParallel in arolla/util/threading.cc'), ('join of every worker', 'ExecuteTasksInParallel'), ('shared thread handle', 'StdThreading::StartThread')],
     observe=['task effects after return', 'concurrency level', 'live threads'])
prop('C02', 'A reference-counted object dies once, with its last reference, never earlier',
     'An object shared through counted references is destroyed exactly once, by whoever drops the last reference, whatever mix of copies, moves, swaps, self-assignments, chained assignments and resets the owners perform. '
     'Everything any owner did with the object while holding a reference happens before its destruction, and no owner ever observes a destroyed object.',
     ['schedules', 'programs'], 'All interleavings of any number of owners on different threads and all sequences of reference operations, including the fast path for a count expected to be one.',
     'A wrong memory order or a check-then-act on the counter is only visible in a particular interleaving, mostly only on weakly ordered hardware; the unit tests are single threaded.',
     ['arolla/util/refcount.h', 'arolla/util/refcount_ptr.h'],
     [('relaxed increment, acquire-release decrement, acquire fast path', 'arolla/util/refcount.h'), ('ownership transfer', 'RefcountPtr in arolla/util/refcount_ptr.h')])
prop('C03', 'A cancellation is irrevocable, consistently seen, and runs callbacks once',
     'A cancellation context is cancelled at most once: the first cancellation wins, its status never changes, a context once seen cancelled stays so and then always reports a proper error status, and it is never cancelled without a request. '
     'Every callback subscribed on a context that gets cancelled runs exactly once unless its handle was given up before the cancellation, none runs on a context that is not cancelled, and whatever a callback captured is released exactly once.',
     ['schedules', 'histories'], 'All interleavings of cancelling, subscribing, dropping, moving and detaching handles and polling from any number of threads, including re-entrant use of the context from inside a callback.',
     'The tests exercise each operation alone on one thread; lost or doubled callbacks need a subscription or a dropped handle to race with the cancellation.',
     ['arolla/util/cancellation.cc', 'arolla/util/cancellation.h'],
     [('flag published under the mutex together with the status', 'CancellationContext::Cancel'), ('doubly linked subscription list handed over to the canceller', 'CancellationContext::Subscribe, Subscription::~Subscription')])
prop('C04', 'Each thread sees exactly its own innermost cancellation scope',
     'Inside nested cancellation scopes a thread always observes exactly its own innermost context (or none), leaving a scope restores the enclosing one, and a new thread starts with none. '
     'A context handed to a task on another thread keeps working there while its owner leaves its scope: the cancellation made by one is seen by the other, and the context lives as long as any scope uses it.',
     ['schedules', 'programs'], 'All nestings of scopes (with contexts, without, with fresh ones) on any number of threads, with cancellations arriving at any point.',
     'The tests nest two scopes on one thread; leaks between threads or a scope outliving its context need concurrent scopes.',
     ['arolla/util/cancellation.cc', 'arolla/util/cancellation.h'],
     [('thread-local innermost guard', 'CancellationContext::ScopeGuard'), ('owning reference held by the guard', 'ScopeGuard::cancellation_context_')])
prop('C05', 'A permanent event never wakes early, never loses a notification, never reverts',
     'No wait on a permanent event succeeds before somebody notified it; once any notification has returned, the event reports being set for ever and every wait, pending or new, succeeds. '
     'A wait with a deadline reports a timeout only when its deadline has passed without a notification, and notifying any number of times from any number of threads is safe and publishes what was done before the first notification.',
     ['schedules', 'histories', 'fault_sequences'], 'All interleavings of notifiers and waiters, all deadlines on a simulated clock, spurious wake-ups, and release of the event by its users in any order.',
     'Tests use real sleeps and one notifier; a second notifier overtaking the first, or a timeout racing with a notification, needs control over scheduling and time.',
     ['arolla/util/permanent_event.h'],
     [('test-and-set in front of a one-shot notification', 'PermanentEvent::Notify')])
prop('C06', 'A thread-safe shared pointer cell behaves as one atomic variable',
     'Concurrent loads, stores and null tests of a thread-safe shared pointer are linearizable: each load returns the value of the latest store in some order consistent with real time. '
     'A loaded value stays alive while its reader holds it, a replaced value is destroyed once nobody holds it, and its destructor may use the cell again.',
     ['schedules', 'histories'], 'All interleavings of any number of readers and writers.',
     'The test is single threaded; linearizability and re-entrant destruction are only visible under concurrent stores.',
     ['arolla/util/thread_safe_shared_ptr.h'],
     [('mutex around a swap; the old value dies outside the lock', 'ThreadSafeSharedPtr::store')])
prop('C07', 'The operator registry never loses, replaces or shows a half-made operator',
     'Registering operators concurrently keeps exactly one per name: one registration of a name succeeds and all others report that it exists, every name is looked up as the operator that won from the moment its registration returned, and listings contain each name once. '
     'An operator looked up while others are being registered is fully usable, keeps its identity, and whatever is derived from it and cached (attributes, overload choice, revision) matches the current registrations.',
     SF, 'All interleavings of registrations, lookups, listings, attribute inference, overload additions and un-registrations by any number of threads.',
     'Tests register operators from one thread before use; stale caches, lost overloads and torn entries need registration to race with use.',
     ['arolla/expr/registered_expr_operator.cc', 'arolla/expr/registered_expr_operator.h'],
     [('registry map behind a mutex with per-operator singleton entries', 'ExprOperatorRegistry in arolla/expr/registered_expr_operator.cc'), ('revision counter invalidating cached decays', 'ExprOperatorRegistry::RevisionIdFn')])
prop('C08', 'A compiled model gives the reference answer under every thread-safety policy',
     'A model compiled once and called by many threads at once under any thread-safety policy, output form and compilation option returns for every call exactly the value and side outputs that evaluating its expression on that call\'s inputs alone gives, unaffected by other calls. '
     'When an operator, input loader or side-output listener fails, that call and no other reports the failure, and the model remains usable. '
     'Returned values stay valid and unchanged after later calls and after the model is gone.',
     SF, 'All expressions of a generated grammar, all assignments of calls to threads and their interleavings, all policies, and failures at any operator, loader or listener.',
     'Tests call each policy with one or two fixed expressions; an evaluation leaking through a shared frame, arena or pool shows only when calls overlap or fail half way.',
     ['arolla/expr/eval/model_executor.h', 'arolla/expr/eval/thread_safe_model_executor.h', 'arolla/serving/expr_compiler.h', 'arolla/expr/eval/executable_builder.cc', 'arolla/expr/eval/dynamic_compiled_expr.cc'],
     [('thread-safety policies (pool, clone per call, unsafe)', 'arolla/serving/expr_compiler.h, arolla/expr/eval/thread_safe_model_executor.h'), ('frame and arena ownership per evaluation', 'ModelExecutor in arolla/expr/eval/model_executor.h'), ('slot reuse', 'arolla/expr/eval/slot_allocator.cc')])
prop('C09', 'Cancelling a compilation or evaluation ends it soon and harms nothing else',
     'When the cancellation context of a thread that compiles or evaluates a model is cancelled, the operation ends within a bounded amount of further work (an evaluation starts at most one more operation) with the cancellation status or with its correct result, never a wrong value. '
     'Without a cancellation an operation never reports one, operations outside the scope are unaffected, and a model whose evaluation or compilation was cancelled works as before when used again.',
     SF, 'All points at which a cancellation can arrive from another thread during compilation or evaluation, under all thread-safety policies, including evaluations that would never end on their own.',
     'Tests cancel before starting or inside one operator; a cancellation lost between two checks or leaving a model broken needs it to arrive at a particular step.',
     ['arolla/util/cancellation.cc', 'arolla/qexpr/eval_context.h', 'arolla/expr/eval/model_executor.h', 'arolla/expr/eval/prepare_expression.cc'],
     [('periodic cancellation check in the bound-operator loop', 'RunBoundOperators in arolla/qexpr/bound_operators.h, EvaluationContext in arolla/qexpr/eval_context.h'), ('checks inside expression transformations', 'arolla/expr/expr_visitor.h')])
prop('C10', 'A type is one object however many threads ask for it first',
     'Asking for a simple, tuple, named-tuple, slice, optional or other composed type from any number of threads at once yields the same fully built type object to all, with the properties that follow from its components, and different composition always yields different types. '
     'Values built from such types compare, hash and print the same from every thread, and lazily computed fingerprints and names never vary.',
     SF, 'All sets and orders of requested types over several threads and all interleavings of their first construction.',
     'Tests create each type on one thread; duplicated or half-built types appear only when two threads race on first use.',
     ['arolla/qtype/tuple_qtype.cc', 'arolla/qtype/named_field_qtype.cc', 'arolla/qtype/slice_qtype.cc', 'arolla/qtype/simple_qtype.h', 'arolla/qtype/typed_value.h'],
     [('type registries behind mutexes', 'TupleQTypeRegistry in arolla/qtype/tuple_qtype.cc and its siblings'), ('static local singletons', 'QTypeTraits in arolla/qtype/simple_qtype.h'), ('once-computed fingerprint', 'TypedValue::GetFingerprint in arolla/qtype/typed_value.cc')])
prop('C12', 'Releasing shared, arbitrarily deep expressions is safe from any thread',
     'A node of an expression is released exactly once, when the last expression, operator or thread holding it lets go, never earlier. '
     'Releasing an expression of any depth, from any thread and including expressions owned by its operators, uses a bounded amount of stack.',
     ['schedules', 'inputs', 'histories'], 'All shapes and depths of expressions, all ways of sharing them between threads, and all interleavings of the releases.',
     'A test releases one deep chain on one thread; sharing, nesting and racing releases decide which thread unwinds what.',
     ['arolla/expr/expr_node.cc', 'arolla/expr/expr_node.h'],
     [('deferred destruction list', 'ExprNode::~ExprNode in arolla/expr/expr_node.cc')])
prop('C15', 'Initialization runs every initializer once, in dependency order, before any user',
     'However many threads ask for initialization at once, every registered initializer runs exactly once, after everything it depends on, and every caller returns only after all of them have finished with their effects visible. '
     'A missing or cyclic dependency, a duplicated name, or an initializer that fails is reported and never ignored, and initializers of libraries loaded later run once too, without running earlier ones again.',
     SF, 'All dependency graphs of initializers (valid and not), all interleavings of the callers, later registrations, and failure of any initializer.',
     'The process initializes once per test binary in one fixed graph; concurrent first use and late libraries cannot be repeated inside a test.',
     ['arolla/util/init_arolla.cc', 'arolla/util/init_arolla.h', 'arolla/util/init_arolla_internal.cc', 'arolla/util/init_arolla_internal.h'],
     [('static initializer registry and coordinator', 'Coordinator in arolla/util/init_arolla_internal.cc'), ('guarded one-time start', 'InitArolla in arolla/util/init_arolla.cc')])
prop('C20', 'A thread-local member gives every thread its own, stable, private value',
     'Each thread that uses a thread-local member object first sees the initial value and then only what it stored itself, whatever other threads do. '
     'A reference it obtained stays valid while other threads create or replace their values.',
     ['schedules', 'programs'], 'All interleavings of first use, reads, writes through pointers and replacement by threads that are alive together, for copyable and move-only value types.',
     'The test uses two threads at most once each; growth of the shared table while another thread holds a pointer needs a particular interleaving.',
     ['arolla/util/threadlocal.h'],
     [('mutex-protected node-based map keyed by thread', 'ThreadLocal::GetThreadItem')])
prop('C21', 'Shared registries never lose, mix up or half-show an entry while in use',
     'Every process-wide registry (serialization codecs, operator metadata, operator and label representations, compiler extensions, code-generation types and optimizers, shape types) may be extended while other threads use it: each look-up returns the entry that its documented rule selects among the registrations in some order consistent with real time, or reports that there is none. '
     'A second registration is refused or replaces the first exactly as documented, a refused one changes nothing, and a listing or a snapshot shows one consistent moment.',
     SF, 'All interleavings of registrations, refused registrations, look-ups, listings and snapshots by any number of threads.',
     'Tests register from one thread before use; a look-up that misses the lock, or an entry that is visible half made, needs a registration to run at the same moment.',
     ['arolla/serialization_codecs/registry.cc', 'arolla/qexpr/operator_metadata.cc', 'arolla/expr/operator_repr_functions.cc', 'arolla/expr/eval/extensions.cc', 'arolla/codegen/expr/types.cc', 'arolla/codegen/expr/optimizations.cc', 'arolla/jagged_shape/qtype/qtype.cc', 'arolla/derived_qtype/labeled_qtype.cc'],
     [('maps behind mutexes', 'ValueEncoderRegistry, ValueDecoderRegistry, QExprOperatorMetadataRegistry, OpReprRegistry, CompilerExtensionRegistry, TypeMap, OptimizationMap, LabeledQTypeReprRegistry')])
prop('C24', 'Backend operator look-up always finds the best operator registered so far',
     'Looking up a backend operator by name and types returns the operator of highest priority registered for the exact types, else the one matching after derived types are reduced to their base or widened, whatever is being registered meanwhile, and once a registration has returned every look-up takes it into account. '
     'A registration that conflicts with an earlier one, mixes single operators with a family, or has an invalid priority is refused and leaves everything as it was.',
     SF, 'All interleavings of registrations (single operators, families, overwrites, refused ones), look-ups and listings by any number of threads.',
     'Tests register and look up on one thread in one order; races between a look-up and the growth of the same operator are out of their reach.',
     ['arolla/qexpr/operators.cc', 'arolla/qexpr/operators.h', 'arolla/qexpr/casting.cc', 'arolla/qexpr/qexpr_operator_signature.cc'],
     [('registry of families behind a mutex', 'OperatorRegistry in arolla/qexpr/operators.cc'), ('operators of one name with priorities', 'CombinedOperatorFamily in arolla/qexpr/operators.cc'), ('interned signatures', 'QExprOperatorSignature::Get')])
prop('C23', 'Composed input loaders and listeners stay correct when shared by threads',
     'A loader or listener put together from accessors, prefixes, patterns, filters, chains and parts made on demand may be asked for types, bound and run by many threads at once: each load fills exactly the requested slots from its own input and nothing else, or reports the error of a failing accessor, and each listener receives its own values once. '
     'A part made on demand is made at most once, a failure to make it is reported to the calls that needed it and later calls succeed, and what was bound remains usable after the loader is gone.',
     SF, 'All compositions, interleavings of type queries, bindings and loads, and failures of accessors and of the making of parts.',
     'Tests bind and load on one thread with parts that never fail at a chosen moment.',
     ['arolla/io/input_loader.h', 'arolla/io/delegating_input_loader.h', 'arolla/io/wildcard_input_loader.h', 'arolla/io/accessors_input_loader.h', 'arolla/io/chain_slot_listener.h', 'arolla/io/delegating_slot_listener.h'],
     [('parts created on demand under a mutex', 'DynamicDelegatingInputLoader::GetDelegateLoader'), ('bound loaders hold all they need', 'BindImpl in each loader'), ('a chain claims each name once', 'BindInputLoaderList')])

prop('C13', 'A compiled decision forest, shared by threads, computes the sum of its leaves',
     'Every compiled form of a decision forest (whichever of its algorithms is used, row by row or in batches over arrays, whole or by disjoint groups of trees), used by any number of threads at once, gives each caller for each row the sum of adjustment times weight of the leaf that each selected tree leads to, for all inputs including missing, infinite and not-a-number ones. '
     'Columns of unequal length are refused, and one evaluation changes nothing for another.',
     SF, 'All forests whose split bounds are numbers (up to 25 trees of up to 128 leaves in the runs), rows, batch sizes, group selections and interleavings of evaluations and compilations by several threads.',
     'Tests draw values between 0 and 1 on one thread; the borders between algorithms, mask widths, batch borders, extreme values and concurrent use are not met.',
     ['arolla/decision_forest/pointwise_evaluation/forest_evaluator.cc', 'arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc', 'arolla/decision_forest/pointwise_evaluation/bitmask_eval.cc', 'arolla/decision_forest/pointwise_evaluation/single_input_eval.cc', 'arolla/decision_forest/pointwise_evaluation/oblivious.cc', 'arolla/decision_forest/batched_evaluation/batched_forest_evaluator.cc', 'arolla/decision_forest/decision_forest.cc'],
     [('choice of algorithm per tree', 'ForestEvaluator::Compile'), ('piecewise constant tables', 'PiecewiseConstantCompiler::Build'), ('bit masks of reachable leaves', 'BitmaskBuilder, BitmaskEvalImpl'), ('batches split over several evaluators', 'BatchedForestEvaluator::EvalBatch')])

prop('C14', 'Row-by-row evaluation handles each row once, with any number of threads',
     'Iterating over arrays row by row calls the given function exactly once for every row, with that row\'s inputs in the frame, and stores its results at the same row of the output arrays, for every array form (dense, sparse, sliced), number of rows, number of frame buffers and number of threads. '
     'All work, also that of the other threads, is finished and visible when the iteration returns, and arrays of unequal length are refused.',
     SF, 'All interleavings of the worker threads, thread counts (also above the number of frames), buffer counts, row counts and array forms; two iterations over the same arrays at once.',
     'A batch handed on before the last worker is done with it, or a barrier replaced too early, shows only in particular schedules; tests run one.',
     ['arolla/qtype/array_like/frame_iter.h', 'arolla/qtype/array_like/frame_iter.cc', 'arolla/array/qtype/copier.h', 'arolla/dense_array/qtype/copier.h'],
     [('two barriers per batch, replaced by the last thread to leave', 'FrameIterator::ForEachFrame(fn, threading, thread_count)'), ('copying rows in and out', 'BatchToFramesCopier, BatchFromFramesCopier')])

prop('C11', 'Stored models and values are read back exactly, or refused',
     'A set of values and expressions that has been stored is read back as exactly what was stored, by any number of threads, also from the older layout of the format and with usage hints, and storing the same content again gives the same bytes. '
     'A failure of the storage is reported to the caller, and a file of which a crash has left only a part is refused as a whole. '
     'Damaged data is refused or read as something valid that can itself be used, stored and read; it never crashes the process.',
     SF, 'All values of the stored types, expressions and operators, sessions of reading and writing by several threads, and storage faults: full disk, failing close, read errors, cuts at any byte, lost, repeated, swapped and damaged records, bytes and fields.',
     'Tests read back a handful of handwritten values on one thread from storage that never fails; sharing, deduplication and the treatment of damaged data depend on combinations they do not sample.',
     ['arolla/serialization/encode.cc', 'arolla/serialization/decode.cc', 'arolla/serialization/riegeli.cc', 'arolla/serialization_base/encoder.cc', 'arolla/serialization_base/decoder.cc', 'arolla/serialization_base/container.cc', 'arolla/serialization_codecs', 'arolla/array/id_filter.cc'],
     [('values and nodes stored once, by fingerprint', 'Encoder::EncodeValue, Encoder::EncodeExpr in arolla/serialization_base/encoder.cc'), ('step by step decoding with checked indices', 'Decoder::OnDecodingStep'), ('end of file marker', 'DecodeFromRiegeliData in arolla/serialization/riegeli.cc'), ('one codec per kind of value', 'arolla/serialization_codecs')])

prop('C16', 'A cancellable task settles once, and cancelling it takes effect without harm',
     'A task given to an executor settles exactly once, with the value or error its function produced or as cancelled, and keeps that outcome for every observer; each completion callback runs exactly once, with the outcome already available. '
     'Cancelling settles the future before the call returns: a task that has not started never runs, a running one sees its cancellation signal at once, and only if it has not stopped after the 30 second grace period is it interrupted, once, and no other task or worker with it. '
     'Failing callbacks, interrupts, executor shutdown and threads that cannot be started lose no task, leave the executor working, and keep nothing of a finished task alive.',
     SF, 'All programs of submissions, waits, callbacks, cancellations and shutdown over several workers; all interleavings of the Python threads at any bytecode; all task durations around the grace period, early timers, spurious wake-ups and thread creation failures.',
     'The tests use real threads with a shortened grace period and a few fixed orders; an interrupt or a cancellation that strikes between two bytecodes of the bookkeeping cannot be placed there.',
     ['py/arolla/experimental/_tasks/submit.py', 'py/arolla/abc/cancellation.py', 'py/arolla/abc/py_cancellation.cc'],
     [('state machine of a task', '_State in py/arolla/experimental/_tasks/submit.py'), ('public future', 'TaskFuture in py/arolla/experimental/_tasks/submit.py'), ('submission', 'submit in py/arolla/experimental/_tasks/submit.py')])
prop('C17', 'The cancellation-aware lock excludes, hands over, and lets cancelled waiters go',
     'At most one holder has the lock at any time, a blocking acquire succeeds once the lock is free, and a non-blocking one fails only if the lock is held or in use. '
     'A thread whose cancellation context is cancelled, before it asks or while it waits, leaves with that cancellation error and without the lock, even if the lock is never released; no wake-up is lost, no other waiter suffers, and the lock stays usable. '
     'Releasing a lock that is held always works, from any thread and also after cancellation, and releasing a free one is refused.',
     SF, 'All programs of acquiring, trying, handing over and releasing in threads with and without cancellation contexts, cancellations at any moment, all interleavings at any bytecode and any native memory access, spurious wake-ups and early timers.',
     'The tests cancel one waiter that has long been asleep; a cancellation or a release that falls between the test of the condition and the sleep, or on both at once, cannot be placed there.',
     ['py/arolla/experimental/_tasks/py_lock.cc', 'py/arolla/experimental/_tasks/locks.py'],
     [('acquiring with and without a context', 'PyLock_internal_acquire in py/arolla/experimental/_tasks/py_lock.cc'), ('releasing', 'PyLock_release in py/arolla/experimental/_tasks/py_lock.cc')])
prop('C18', 'A Python callback on cancellation runs once, on its bridge, and is let go',
     'A callback subscribed to a cancellation context is called exactly once if the context is cancelled, before or after the subscription, on the worker thread of its bridge and one at a time; never if the subscription was ended before the cancellation, and never after the bridge has been closed. '
     'A callback that fails, cancels, subscribes or unsubscribes harms no other one, also when warnings are errors. '
     'The callback and its result are released once they are not needed: after the call, the end of the subscription, the end of the context or the closing of the bridge, whose worker ends too.',
     SF, 'All programs of subscriptions (given or current context), cancellations, unsubscriptions, dropped handles, dropped contexts and closings over several bridges and threads; failing and re-entrant callbacks; all interleavings of the Python threads and of native code.',
     'The tests wait in real time for a few callbacks in order; the races of cancellation with unsubscription and closing, and lifetimes after them, cannot be arranged.',
     ['py/arolla/experimental/_tasks/python_callback_bridge.cc', 'py/arolla/experimental/_tasks/clib.cc', 'py/arolla/experimental/_tasks/callbacks.py'],
     [('worker loop and registry', 'PythonCallbackBridge::Impl in py/arolla/experimental/_tasks/python_callback_bridge.cc'), ('subscriptions', 'PyCancellationContextSubscription in py/arolla/experimental/_tasks/clib.cc'), ('default bridge', 'default_callback_bridge in py/arolla/experimental/_tasks/callbacks.py')])
prop('C19', 'An interrupt cancels what the main Python thread runs, and nothing else',
     'An interrupt signal, whichever thread it strikes and whenever, soon cancels the cancellation context that computations on the main Python thread were last given by default, exactly that one; contexts of other threads and contexts given explicitly are left alone, none is cancelled without an interrupt, and the next computation starts in a fresh one. '
     'The handler that was installed before still sees every signal, with its arguments, and the code that was interrupted is not disturbed: no deadlock, no allocation, no changed error number. '
     'If the mechanism cannot be set up, or SIGINT is ignored, the program is told by a warning and goes on as before, also when warnings are errors.',
     SF, 'All moments of up to dozens of signals, simulated interrupts and handler changes, over several threads with default, explicit and nested scopes and locks; all interleavings; and failures of each system call of the set-up and of the thread.',
     'A test sends one signal to a program that waits for it; the effects of one that strikes inside the bookkeeping, of bursts that fill the pipe, and of failing system calls do not show.',
     ['py/arolla/py_utils/py_cancellation_controller.cc', 'py/arolla/py_utils/py_utils.cc', 'py/arolla/abc/py_cancellation.cc', 'py/arolla/abc/cancellation.py'],
     [('worker thread and signal handler', 'Worker, InstallSignalHandler in py/arolla/py_utils/py_cancellation_controller.cc'), ('default scopes', 'PyCancellationScope in py/arolla/py_utils/py_utils.cc'), ('default and explicit contexts', 'PyRunInDefaultCancellationContext in py/arolla/abc/py_cancellation.cc')])
prop('C22', 'Python evaluation gives what the expression means, whatever the caches hold',
     'Evaluating an expression or an operator from Python gives the value, or raises the error, that the expression itself determines for the given inputs and options, whatever other threads evaluate, compile, clear or evict meanwhile, and even when Python code run by an evaluation, a compilation or the destruction of a cached model evaluates something itself. '
     'Inputs may sit in containers that other threads change: each evaluation uses the values of one moment during the call, and other Python threads keep running meanwhile. '
     'The Python objects held by a compiled model are released once it has left the caches.',
     SF, 'All expressions from a grammar with Python functions, folded constants and failures; all inputs and options; sequences of evaluations, clears and evictions from empty and full caches; all interleavings and re-entries.',
     'Tests evaluate one expression at a time with small caches; what goes wrong when a model is destroyed or an input replaced in the middle of another call depends on the interleaving, and a wrong cached model looks like an ordinary result.',
     ['py/arolla/abc/py_cached_eval.cc', 'py/arolla/abc/py_eval.cc', 'py/arolla/abc/py_compiled_expr.cc', 'arolla/util/lru_cache.h', 'py/arolla/operators/py/operator_py_call.cc', 'py/arolla/abc/py_object_qtype.cc'],
     [('compile cache', 'CCache in py/arolla/abc/py_cached_eval.cc'), ('inputs and expression info', 'PyEvalExpr, PyInvokeOp, ExprInfoCache in py/arolla/abc/py_eval.cc'), ('shared compiled expressions', 'PyCompiledExpr_execute in py/arolla/abc/py_compiled_expr.cc'), ('eviction', 'LruCache::Put in arolla/util/lru_cache.h')])
prop('C25', 'An operator call from Python is bound by one version of its policy',
     'Calling an operator from Python matches the given arguments to its parameters, converts them and makes constants as the binding policy the operator names says: one version of that policy that was registered at some moment during the call decides all of it, even when the policy is replaced or removed meanwhile by another thread or by the policy itself. '
     'Errors of the policy reach the caller as themselves (or as the documented wrapping, with the argument named), a missing policy or an answer that does not fit the parameters is an error, and the caller\'s own argument containers are never changed. '
     'A policy that was replaced or removed is released once no call uses it.',
     SF, 'All policies of the three kinds (class, classic with custom conversion, ad hoc), with and without their own constants, answering rightly, wrongly or with errors; all calls with positional, keyword, missing, repeated and surplus arguments; all sequences of registrations, removals and calls by several threads and re-entries from policy code and finalisers.',
     'Tests register a policy once and call it from one thread; what a call sees when the policy changes in the middle of it depends on the interleaving and on re-entry, and a freed policy often still looks right.',
     ['py/arolla/abc/py_aux_binding_policy.cc', 'py/arolla/abc/py_abc_binding_policies.cc', 'py/arolla/abc/py_bind.cc', 'py/arolla/abc/py_eval.cc', 'py/arolla/abc/aux_binding_policy.py'],
     [('policy registry', 'AuxBindingPolicyRegistry in py/arolla/abc/py_aux_binding_policy.cc'), ('argument matching', 'AuxBindArguments in py/arolla/abc/py_aux_binding_policy.cc'), ('calls', 'PyAuxBindOp, PyAuxBindArguments in py/arolla/abc/py_bind.cc; PyAuxEvalOp in py/arolla/abc/py_eval.cc')])
prop('C26', 'Expressions and values in Python look as the current registrations say',
     'The attributes, calls, subscripts, comparisons and arithmetic of an expression object come from the views registered at some moment during the access, with the documented precedence (type or else its family, then the topmost annotations and operator by name or else by family, then the binding policy), also after views or operators were replaced or removed by another thread or by the code that was just run or released. '
     'A value gets the class registered for it at that moment (own key, type, type family, or the general one) and is initialised by that class before anybody sees it. '
     'Replaced or removed views are released once nothing uses them.',
     SF, 'All sequences of registrations and removals of members and whole views for types, type families, operators, operator families and policies, of operator (un)registrations and of value classes, by several threads and from finalisers, members and initialisers; leaves, literals, operator nodes, annotation chains; all accesses.',
     'Tests register views in one thread and never change them in the middle of an access; stale or freed views depend on what is released when, and usually still look right.',
     ['py/arolla/abc/py_expr_view.cc', 'py/arolla/abc/py_expr_view.h', 'py/arolla/abc/py_expr.cc', 'py/arolla/abc/expr_view.py', 'py/arolla/abc/py_qvalue_specialization.cc', 'py/arolla/abc/py_qvalue.cc'],
     [('view registry', 'ExprViewRegistry in py/arolla/abc/py_expr_view.cc'), ('views of an expression', 'ExprViewProxy::Actualize, RecomputeExprViews in py/arolla/abc/py_expr_view.cc'), ('accesses', 'PyExpr_getattro, PyExpr_call, PyExpr_as_number_* in py/arolla/abc/py_expr.cc'), ('value classes', 'QValueSpecializationRegistry in py/arolla/abc/py_qvalue_specialization.cc')])
prop('C27', 'Texts of expressions and values come from the printers registered then',
     'The text of an expression or value is made, part by part, of what the printer registered for that operator (by name or family) or label at some moment during the call gave, with the texts of the parts it was given, brackets by precedence, repeated and named parts written once as statements; without a printer, or when it raises or declines, the canonical text appears. '
     'Printers may print other things and register, replace or remove printers, and so may the code that runs when a replaced printer is released: nothing deadlocks, a printer lives while it runs, is released once replaced, and a label that has a printer keeps it unless overriding is asked for.',
     SF, 'All sequences of registrations, replacements, refusals and removals of printers by operator name, operator family and label, by several threads and from printers and finalisers, while other threads make texts with and without the interpreter lock; expressions with shared, named and labelled parts, normal and verbose.',
     'Tests register one printer in one thread and print; what happens to a printer replaced while in use, or to locks held while it is released, depends on the schedule and on what its release runs.',
     ['arolla/expr/operator_repr_functions.cc', 'arolla/expr/expr_debug_string.cc', 'arolla/derived_qtype/labeled_qtype.cc', 'arolla/qtype/derived_qtype.cc', 'py/arolla/abc/py_expr.cc', 'py/arolla/abc/py_qvalue.cc', 'py/arolla/abc/clib.cc'],
     [('printers of operators', 'OpReprRegistry, FormatOperatorNodePretty in arolla/expr/operator_repr_functions.cc'), ('text of an expression', 'ToDebugString in arolla/expr/expr_debug_string.cc'), ('printers of labels', 'LabeledQTypeReprRegistry in arolla/derived_qtype/labeled_qtype.cc')])
prop('C28', 'Boxing Python data gives one moment of it, element by element, or its error',
     'A typed array made from Python data holds exactly what the source held at one moment during the call, in order, missing where an element is None or a missing value, each element being what its own conversion gave; otherwise the call raises the error of the first element (or of the source) that cannot be converted, and nothing else. '
     'Element conversions may run any Python code, which may change or empty the source list, release elements, box other data or be interleaved with other threads doing so: no freed memory is read, each conversion runs once and in order, no element is kept alive, equal content gives equal fingerprints, and scalars, array items and lists read back are the same values.',
     SF, 'All mixtures of plain values, missing values, boxed values of other types, out-of-range numbers and objects with user-defined conversions (giving values, wrong types or errors), in lists that several threads and the conversions themselves change, in tuples, iterators and list subclasses, for all ten element types, dense and sparse; user code at every conversion, iteration step, buffer release and finaliser.',
     'Tests box constant lists in one thread; what happens when the data changes or dies in the middle depends on when user code or another thread gets to run.',
     ['py/arolla/types/qtype/array_boxing.cc', 'py/arolla/types/qtype/scalar_boxing.cc', 'py/arolla/abc/py_qvalue_specialization.cc', 'py/arolla/py_utils/py_utils.cc', 'arolla/dense_array/dense_array.h', 'arolla/array/array.h'],
     [('arrays from values', 'PyDenseArrayTFromValues in py/arolla/types/qtype/array_boxing.cc'), ('values of arrays', 'PyGetArrayItem, PyGetArrayPyValue in py/arolla/types/qtype/array_boxing.cc'), ('scalar conversions', 'ParsePyBytes and the other ParsePy functions in py/arolla/types/qtype/scalar_boxing.cc')])
prop('C29', 'An operator with cases picks the one that applies as cases come and go',
     'A generic or dispatch operator answers as the one case whose condition holds for the input types, with the attributes and the lowering of that case; if none or several hold it fails and names them, and while an input type a condition needs is unknown it answers "not known yet" and stays as it is. '
     'A case whose registration returned before the call is always considered, each call sees every name as it was at some moment of the call, operators outside the namespace never matter, and type constraints give the first violated one with its message. '
     'A call that fails or is cancelled, and calls made by other threads or while a condition is being evaluated, change nobody else\'s answer.',
     SF, 'All interleavings of registering, removing and re-registering cases (also from inside a condition, also aliases and operators that are no cases) with attribute inference and lowering by any number of threads, for random signatures, conditions and known, unknown and unsupported input types; failures of any condition evaluation or of the chosen case, and cancelled callers.',
     'Tests register all cases first and then ask from one thread; a stale or half-built snapshot of the cases, a shared executor that is busy, and an error that is remembered all need registrations, evaluations and failures to overlap.',
     ['arolla/expr/operator_loader/generic_operator.cc', 'arolla/expr/operator_loader/dispatch_operator.cc', 'arolla/expr/operator_loader/qtype_inference.cc', 'arolla/expr/operator_loader/backend_operator.cc', 'arolla/expr/operator_loader/restricted_lambda_operator.cc', 'arolla/expr/operator_loader/helper.cc', 'arolla/expr/operator_loader/parameter_qtypes.cc', 'arolla/expr/registered_expr_operator.cc', 'arolla/expr/eval/thread_safe_model_executor.h'],
     [('snapshot of the cases by revision', 'GenericOperator::GetSnapshot, BuildSnapshot in arolla/expr/operator_loader/generic_operator.cc'), ('selection', 'GetOverload in generic_operator.cc and dispatch_operator.cc'), ('constraints', 'MakeQTypeInferenceFn in arolla/expr/operator_loader/qtype_inference.cc')])
TECH = 'deterministic simulation with fault injection: seeded search over schedules and faults'
NOTE = ('Sampled evidence: seeded runs of the real code under a simulator that decides every interleaving, clock reading and fault; '
        'violations are minimised and replayed exactly before they are reported. Trusts the simulator, its stand-ins for absl and libc '
        'synchronisation, and sequentially consistent execution plus happens-before race detection.')


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(verif, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, reason, note in P:
        if p['id'] in specs.SPECS:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 tools/check.py ' + p['id'],
                           'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'exploration',
                           'level_note': (note + ' ' if note else '') + NOTE})
        else:
            na.append({'property': p['id'], 'reason': reason or 'no check built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: every seam is at the libc/absl level. properties.jsonl and this file are written by tools/props.py.'}
    with open(os.path.join(verif, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
