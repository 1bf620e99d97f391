"""What each property's check runs."""
import build
ICU = ['-licuuc', '-licudata']

COMMON_STUBS = (
    'Stand-ins: libc/pthread synchronisation, thread creation, clocks, sleeping, futex, getrandom and the allocator are the '
    "simulator's; absl::Mutex, Notification, Barrier, BlockingCounter and call_once (absent or older in the installed Abseil) "
    'are re-implemented on them; headers newer than the installed Abseil (nullability, NoDestructor, log/check, status macros), '
    'cityhash, double-conversion, re2 and utf8_range are small stand-ins. Everything under arolla/ is the real code, compiled '
    'from the current tree.')
COMMON_ASSUMPTIONS = [
    'One simulated thread runs at a time and memory is sequentially consistent; orderings weaker than that are judged by a '
    'happens-before race detector that follows the C++ memory orders in the source, not by executing a weak memory model.',
    'Sampling: a clean batch is evidence over the seeds run, not proof.',
    'Preemption happens at instrumented memory accesses, atomics and synchronisation calls in code compiled from the repository.',
]

SPECS = {}


def sim(pid, *components, **kw):
    SPECS[pid] = dict(components=list(components), **kw)


def C(name, quick_runs, quick_secs=40, **kw):
    d = dict(name=name, cc=name + '.cc', quick_runs=quick_runs, quick_secs=quick_secs,
             thorough_runs=quick_runs * 60, thorough_secs=600)
    d.update(kw)
    return d


sim('C01', C('threading', 120000, need_probes=['parallel', 'more-tasks-than-threads', 'rendezvous', 'std-threading', 'fault:pthread_create-EAGAIN']),
    real='arolla/util/threading.{h,cc}')
sim('C02', C('refcount', 120000, need_probes=['raw-counter', 'refcount-ptr', 'shared-const', 'walk-chain', 'skewed-last', 'skewed-not-last', 'not-last', 'last']),
    real='arolla/util/refcount.h, refcount_ptr.h')
sim('C03', C('cancel', 120000, need_probes=['callback', 'cancelled', 'reentrant-subscribe', 'reentrant-cancel', 'dropped', 'moved']),
    real='arolla/util/cancellation.{h,cc}, refcount_ptr.h')
sim('C04', C('scopes', 60000, need_probes=['scopes', 'fresh-scope', 'cancel-in-scope', 'handed-over']),
    real='arolla/util/cancellation.{h,cc}, refcount_ptr.h')
sim('C05', C('event', 100000, need_probes=['wait-returned', 'deadline-passed', 'deadline-notified', 'has-been', 'fault:spurious-wakeup']),
    real='arolla/util/permanent_event.h, refcount_ptr.h')
sim('C06', C('sharedptr', 80000, need_probes=['reentrant-destructor', 'ends-null']),
    real='arolla/util/thread_safe_shared_ptr.h')
sim('C20', C('threadlocal', 60000, need_probes=['set', 'stable-pointer']),
    real='arolla/util/threadlocal.h')
sim('C07', C('registry', 100000, need_probes=['registered', 'already-exists', 'cache-built', 'cache-hit', 'listed', 'unregister']),
    real='arolla/expr/registered_expr_operator.cc')
sim('C08', C('eval', 25000, dirs=build.EVAL_DIRS, need_probes=['value', 'side-output', 'error', 'compiled-concurrently', 'fault:loader-failure', 'fault:operator-failure', 'fault:listener-failure', 'literal-failure']),
    real='arolla/{serving,expr,expr/eval,io,qexpr,qtype,memory,util} and everything below them')
sim('C09', C('evalcancel', 25000, dirs=build.EVAL_DIRS, need_probes=['evaluation-cancelled', 'evaluation-finished', 'endless-cancelled', 'compilation-cancelled', 'compilation-survived', 'without-context', 'reused']),
    C('boundops', 60000, quick_secs=20, need_probes=['finished', 'failed', 'cancelled', 'endless-cancelled', 'cancelled-by-operator']),
    real='arolla/{serving,expr,expr/eval,io,qexpr,qtype,memory,util} and everything below them')
sim('C10', C('qtypes', 60000, need_probes=['same-type-again', 'static-init-contended', 'value']),
    real='arolla/qtype')
sim('C12', C('exprnode', 15000, dirs=build.EVAL_DIRS, need_probes=['released', 'deep', 'nested']),
    real='arolla/expr/expr_node.{h,cc}, expr_node_ptr.h, util/refcount*.h')
sim('C15', C('init', 100000, need_probes=['valid-graph', 'invalid-graph', 'failing', 'late-library', 'registered', 'static-init-contended', 'fault:initializer-failure']),
    real='arolla/util/init_arolla.{h,cc}, init_arolla_internal.{h,cc}')
sim('C21', C('regmaps', 25000, dirs=build.EVAL_DIRS, need_probes=['refused', 'value-encoders', 'value-decoders', 'operator-metadata', 'operator-repr', 'compiler-extensions', 'codegen-types', 'codegen-optimizers', 'jagged-shape-types', 'label-repr', 'static-init-contended']),
    real='arolla/serialization_codecs/registry.cc, qexpr/operator_metadata.cc, expr/operator_repr_functions.cc, expr/eval/extensions.cc, codegen/expr/{types,optimizations}.cc, jagged_shape/qtype/qtype.cc, derived_qtype/labeled_qtype.cc and what they use')
sim('C24', C('qexprops', 30000, need_probes=['found', 'derived', 'other-result', 'priority', 'bad-priority', 'refused']),
    real='arolla/qexpr/{operators,casting,qexpr_operator_signature}.cc and what they use')
sim('C23', C('inputs', 25000, need_probes=['part-made', 'loaded', 'load-failed', 'factory-failed', 'bad-name', 'shared-binding', 'listened', 'binding-outlives-loader', 'parallel-load', 'fault:accessor-failure', 'fault:factory-failure']),
    real='arolla/io, arolla/memory, arolla/qtype and what they use')
FOREST_DIRS = ('util', 'memory', 'qtype', 'dense_array', 'array', 'decision_forest')
sim('C13', C('forest', 10000, quick_secs=45, dirs=FOREST_DIRS, need_probes=['default', 'regular', 'bitmask', 'single-input', 'no-regular', 'batch', 'more-than-one-batch', 'sparse-input', 'naive', 'compiled-concurrently', 'wide-tree', 'oblivious', 'two-input-condition', 'nan', 'size-mismatch', 'forest-gone', 'evaluated']),
    real='arolla/decision_forest/{pointwise,batched}_evaluation, split_conditions, decision_forest.cc, qtype/array_like/frame_iter.cc and what they use')
sim('C14', C('frameiter', 30000, dirs=('util', 'memory', 'qtype', 'dense_array', 'array'), need_probes=['threads', 'one-thread', 'plain', 'more-threads-than-frames', 'several-batches', 'sparse', 'checked', 'stored-twice', 'refused']),
    real='arolla/qtype/array_like/frame_iter.{h,cc}, array_like_qtype.cc, {array,dense_array}/qtype/copier.h, util/threading.h and what they use')
sim('C11', C('s11n', 20000, quick_secs=45, dirs=build.S11N_DIRS, extra=build.S11N_EXTRA(), need_probes=['container', 'records', 'older-layout', 'same-bytes', 'hints', 'fault:wrong-hints', 'fault:disk-full', 'fault:close-failed', 'fault:read-error', 'fault:lost-tail', 'fault:torn-record', 'damaged-refused', 'damaged-readable', 'fault:damaged-field', 'lost-record-refused', 'fault:shortened', 'without-inference', 'set', 'parallel', 'parts', 'sparse', 'object', 'lambda', 'backend-operator', 'dispatch', 'generic', 'restricted-lambda', 'while-loop', 'forest-model']),
    real='arolla/{serialization,serialization_base,serialization_codecs}, arolla/*/s11n, protobuf and everything below them; the record files are a stand-in for riegeli')
# The Python side: the interpreter itself runs on the simulator's threads.
PY = dict(extra=['py/arolla/experimental/_tasks/clib.cc'], skip=('py/arolla/abc/pybind11_utils.h',), libs=('-lpython3.12',),
          flags=('-I/usr/include/python3.12', '-iquote', build.VERIF + '/shim/py', '-I' + build.VERIF + '/shim/py'))
sim('C16', C('pytasks', 8000, quick_secs=45, need_probes=['interrupted', 'settled-value', 'settled-error', 'settled-cancelled', 'cancelled-while-running', 'cancelled-while-queued', 'executor-reused', 'shutdown', 'rejected', 'result-timed-out', 'fault:gil-preemption', 'fault:early-timer', 'fault:spurious-wakeup', 'fault:pthread_create-EAGAIN'], **PY),
    real='py/arolla/experimental/_tasks/submit.py, py/arolla/abc/{cancellation.py,py_cancellation.cc}, util/cancellation and the CPython 3.12 interpreter with its threads, locks, executors and event loop; pybind11 and the event loop\'s file selector are stand-ins')
sim('C17', C('pylock', 15000, quick_secs=45, need_probes=['duel', 'held-throughout', 'cancelled-while-waiting', 'already-cancelled', 'acquired', 'refused', 'handed-over', 'fault:gil-preemption', 'fault:early-timer', 'fault:spurious-wakeup'], **PY),
    real='py/arolla/experimental/_tasks/{py_lock.cc,locks.py}, py/arolla/abc/py_cancellation.cc, util/cancellation and the CPython 3.12 interpreter')
sim('C18', C('pybridge', 10000, quick_secs=45, need_probes=['called', 'called-late-subscription', 'unsubscribed', 'closed', 'callback-cancels', 'callback-subscribes', 'callback-unsubscribes', 'callback-fails', 'subscribed-twice', 'fault:gil-preemption', 'fault:early-timer', 'fault:spurious-wakeup'], **PY),
    real='py/arolla/experimental/_tasks/{python_callback_bridge.cc,clib.cc,callbacks.py}, py/arolla/abc/py_cancellation.cc, util/cancellation and the CPython 3.12 interpreter; pybind11 is a stand-in')
sim('C19', C('pysigint', 15000, quick_secs=45, need_probes=['signal', 'interrupted-in-scope', 'interrupted-before-body', 'lock-interrupted', 'handler-overridden', 'slow-callback', 'no-handler', 'non-functional', 'handler-despite-faults', 'handler-installed-later', 'pending-queue-full', 'fault:pipe-EMFILE', 'fault:fcntl-EINVAL', 'fault:sigaction-EINVAL', 'fault:read-EINTR', 'fault:read-short', 'fault:pthread_create-EAGAIN', 'fault:gil-preemption', 'fault:early-timer', 'fault:spurious-wakeup'], **PY),
    real='py/arolla/py_utils/{py_cancellation_controller,py_utils}.cc, py/arolla/abc/{py_cancellation.cc,cancellation.py}, py_lock.cc, util/cancellation and the CPython 3.12 interpreter with its signal module; the pipe, signal dispositions and masks are simulated')
PYEVAL = dict(PY, extra=PY['extra'] + ['py/arolla/operators/py/operator_py_call.cc', 'py/arolla/abc/error_converters.cc'],
              dirs=build.EVAL_DIRS + ('serialization', 'serialization_base', 'serialization_codecs'))
_pe = ['value', 'error', 'cached', 'compiled', 'changing-inputs', 'blocked-evaluation', 'reentered-from-death', 'reentered-from-call', 'reentered-from-make', 'fault:gil-preemption']
sim('C22', C('pyeval', 6000, quick_secs=30, need_probes=_pe + ['clear', 'folding-error'], **PYEVAL), C('pyevict', 3000, quick_secs=25, need_probes=_pe, **PYEVAL),
    real='py/arolla/abc/{py_eval,py_cached_eval,py_compiled_expr,py_object_qtype,py_expr,py_bind,...}.cc, lru_cache.h, py.call, the expression compiler and evaluator, and the CPython 3.12 interpreter; the harness brings arithmetic operators')
sim('C25', C('pypolicy', 8000, quick_secs=40, need_probes=['bound', 'error', 'note', 'shared-tuple', 'signature', 'concurrent-change', 'reentered-from-boxing', 'reentered-from-binding', 'reentered-from-death', 'reentered-from-literal', 'fault:gil-preemption'], **PYEVAL),
    real='py/arolla/abc/{py_aux_binding_policy,py_abc_binding_policies,py_bind,py_eval,py_signature,py_operator,...}.cc, aux_binding_policy.py, the operator registry, and the CPython 3.12 interpreter; the harness brings the policies and a few operators')
sim('C26', C('pyviews', 9000, quick_secs=45, need_probes=['attr', 'dir', 'operator', 'shown', 'missing', 'bound', 'view-class', 'value-class', 'operator-changed', 'concurrent-change', 'reentered-from-death', 'reentered-from-member', 'reentered-from-init', 'fault:gil-preemption'], **PYEVAL),
    real='py/arolla/abc/{py_expr_view,py_expr,py_qvalue,py_qvalue_specialization}.cc, expr_view.py, py_utils.cc, the operator registry, and the CPython 3.12 interpreter; the harness brings the views, classes and a few operators')
sim('C27', C('pyrepr', 12000, quick_secs=40, need_probes=['value', 'expression', 'printed', 'printer-gave-nothing', 'several-printers', 'statement', 'taken', 'refused', 'reentered-from-printer', 'reentered-from-death', 'fault:gil-preemption'], **PYEVAL),
    real='expr_debug_string.cc, operator_repr_functions.cc, labeled_qtype.cc, derived and tuple types, py/arolla/abc/{py_expr,py_qvalue}.cc, py_utils.cc, and the CPython 3.12 interpreter; the harness brings the printers, a few operators and, in place of pybind11, what turns a Python function into a printer')
sim('C28', C('pyboxing', 12000, quick_secs=40, need_probes=['boxed', 'refused', 'scalar', 'unboxed', 'item', 'listed', 'long', 'changed', 'changed-meanwhile', 'redefined', 'reentered-from-conversion', 'reentered-from-iterator', 'reentered-from-death', 'reentered-from-release', 'fault:gil-preemption'], **PYEVAL),
    real='py/arolla/types/qtype/{array_boxing,scalar_boxing}.cc, py/arolla/abc/py_qvalue*.cc, py_utils.cc, arrays and dense arrays, and the CPython 3.12 interpreter; the harness brings the data and its conversions')
sim('C29', C('overloads', 20000, dirs=build.EVAL_DIRS, quick_secs=40, need_probes=['case', 'none', 'multi', 'wait', 'constraint', 'type', 'injected', 'base-failed', 'cancelled', 'nested', 'changed-inside', 'ambiguous', 'removed', 'alias', 'lowered', 'nothing']),
    real='arolla/expr/operator_loader, arolla/expr (registry, nodes, lambda), expr/eval and serving below the conditions, qexpr bootstrap operators')
