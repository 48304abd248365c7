#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

SAMPLE = "The existing tests run each scenario once on whatever schedule the OS produces and sleep for seconds around it; "

prop("X01", "Every submitted operation runs exactly once, and eventually",
 "Each operation accepted by a serial, parallel, global, main or pool-backed queue, directly or through a group, is executed exactly once, never zero times and never twice. It is executed even if every handle to the queue or group is dropped right after submission. Once no other work is running ahead of it, it starts promptly rather than only after some unrelated later event or an idle timeout.",
 ["schedules", "programs", "fault_sequences", "configurations"],
 "all interleavings of submitters, workers, worker expiry/respawn and queue teardown; all mixes of queues; all pool sizes; stalled threads and spurious wake-ups",
 SAMPLE + "a lost wake-up, a dropped notification or a double dequeue needs a particular interleaving of submitter, worker going idle and queue teardown.",
 ["src/naive/naive_threadpool.cpp", "src/naive/naive_operation_queue.cpp", "src/naive/naive_semaphore.cpp", "src/naive/naive_parallel_queue.cpp", "src/naive/naive_serial_queue.cpp", "src/naive/naive_manual_thread.cpp", "src/naive/naive_concurrentqueue.h"],
 [("counting semaphore paired with lock-free operation buckets", "threadpool::execute / worker::run"), ("notify only when the job list was empty, re-notify after a bounded drain", "operation_queue::async_unsafe / drain"), ("final detach operation keeps the queue alive until drained", "operation_queue::detach")],
 [("pending operations", "operations accepted and not executed yet", "operation_queue::m_jobs, threadpool::data::m_operations")],
 ["count of executions per submitted operation", "virtual time between becoming eligible and running"])

prop("X02", "Serial queues run one operation at a time in submission order",
 "Operations submitted to one serial queue (a user-created queue, the main queue or a serial queue bound to a custom pool) never overlap in time. They execute in submission order whenever the submissions are ordered, i.e. made by one thread or with one submission completing before the other begins. This holds for plain submissions, group submissions and the iterations of an apply alike.",
 ["schedules", "programs", "configurations"],
 "all interleavings of submitters and pool workers, any number of serial queues sharing a pool, queues drained in several slices, submissions from inside operations",
 SAMPLE + "overlap or reordering needs a second worker to pick up the same queue at the moment a drain slice ends.",
 ["src/naive/naive_operation_queue.cpp", "src/naive/naive_serial_queue.cpp", "src/naive/naive_threadpool.cpp"],
 [("one outstanding drain per queue; entries stay queued until executed", "operation_queue::drain / async_unsafe")],
 [("job list", "operations in order, front entry is the running one", "operation_queue::m_jobs")],
 ["begin/end events of operations per queue"])

prop("X03", "Submission, execution and completion publish memory without data races",
 "Everything a thread wrote before submitting an operation is visible to that operation without further synchronisation; everything an operation wrote is visible to the next operation of the same serial queue, to the caller of apply, of a group wait or of a completion-barrier wait that returned success, and to a group's notification operation. The library itself performs no conflicting unsynchronised memory accesses when its objects are used concurrently as documented.",
 ["schedules", "programs"],
 "all interleavings, under the C++ memory model's happens-before relation (not merely x86 behaviour), for all library entry points that hand work or completion across threads",
 "Missing ordering is invisible to value-based tests on x86 and to any single schedule; the guarantee is about happens-before on every schedule.",
 ["src/naive/naive_threadpool.cpp", "src/naive/naive_operation_queue.cpp", "src/naive/naive_consumable.cpp", "src/lightweight_barrier.cpp", "src/naive/naive_semaphore.cpp", "src/naive/naive_group.cpp"],
 [("lock-free bucket enqueue/dequeue", "threadpool::execute, worker::run"), ("queue mutex", "operation_queue"), ("resource counter and completion barrier", "consumable::consume_resource / wait_for_consumed")],
 observe=["vector-clock race detection over every instrumented access to user payload and library memory"])

prop("X04", "Operations and queues live exactly as long as needed",
 "A pending operation and the queue it was submitted to stay alive until the operation has run, even if the user dropped every handle, and neither is ever used after destruction. After it has run, the library releases its reference promptly, so an operation is destroyed exactly once and not kept until unrelated later activity. An operation's destructor, and the dropping of the last queue handle from inside an operation, may call back into the library without deadlock.",
 ["schedules", "programs", "histories"],
 "all interleavings of handle destruction with submission, drain, worker exit; handles dropped from other threads or from inside the queue's own operations; destructors that submit more work or drop queues",
 SAMPLE + "use-after-free and leaks at teardown depend on who releases the last reference when, and the tests leak or outlive almost everything.",
 ["src/naive/naive_operation_queue.cpp", "src/naive/naive_operation_queue_manager.cpp", "src/naive/naive_operations.cpp", "src/naive/naive_threadpool.cpp", "src/queue.cpp"],
 [("manager thread keeps queues, pools and workers alive until detached", "operation_queue_manager::attach/detach"), ("operation released outside the queue lock right after it ran", "operation_queue::drain"), ("worker drops its operation before idling", "threadpool::worker::run")],
 observe=["construction/destruction counts of operation objects", "use-after-free detection on the simulated heap"])

prop("X05", "apply runs every index exactly once and returns only afterwards",
 "A parallel-for over n iterations invokes the operation exactly once for each index from 0 to n-1 and returns only after all invocations have finished; with n equal to zero it returns at once. It completes for any pool size and load, including when called from inside operations of the pool it runs on or nested within another apply. On a serial queue the indices run in ascending order and never overlap.",
 ["schedules", "programs", "inputs", "configurations"],
 "all n, all interleavings of caller and workers, any number of concurrent and nested calls, pools smaller than the nesting depth",
 SAMPLE + "early return or starvation of a nested call depends on the race of the last iteration with the waiting caller and on pool saturation.",
 ["src/naive/naive_parallel_queue.cpp", "src/naive/naive_serial_queue.cpp", "src/naive/naive_consumable.cpp", "src/naive/naive_operations.cpp", "src/waitable_queue.cpp"],
 [("resource counter consumed after each iteration", "apply_operation, consumable"), ("blocked-thread accounting lets the pool grow", "ithreadpool::block_scope")],
 observe=["per-index execution counts", "running iterations at the moment of return"])

prop("X06", "A group wait reports completion truthfully",
 "Waiting on a group returns success only when every operation submitted to the group before the wait began has finished executing, and returns failure only if the given time really has elapsed; a timed wait never outlasts its time by much. It succeeds promptly once all those operations finish, for any number of concurrent or repeated waiters, after earlier waits that timed out, and when the group is reused for further operations. Waiting on a group without outstanding operations succeeds immediately. The handler invocations of a signal that was given a group count as such operations.",
 ["schedules", "programs", "histories", "fault_sequences"],
 "all interleavings of submissions, completions and several waiters with and without timeouts, repeated use of one group, spurious wake-ups and stalls",
 SAMPLE + "one group is used by one thread once; a wait racing a completion, a second wait after a timed-out one and reuse after reaching zero are not exercised on more than one schedule.",
 ["src/naive/naive_group.cpp", "src/naive/naive_consumable.cpp", "src/lightweight_barrier.cpp", "src/group.cpp"],
 [("per-generation resource counter chained to the previous generation", "group_impl::async / wait, consumable")],
 [("outstanding operations", "submitted and not finished", "consumable::m_resources")],
 ["begin/end of every group operation against begin/return of every wait"])

prop("X07", "A group notification fires once, after the group is complete",
 "A notification operation registered on a group is executed exactly once on the requested queue, and only after every operation submitted to the group before the registration has finished executing. If nothing is outstanding it is submitted immediately. Several notifications on the same group, and dropping the group handle after registering, behave alike.",
 ["schedules", "programs"],
 "all interleavings of registration with submissions and completions, any number of notifications, any target queue, long-running group operations",
 SAMPLE + "the notification tests only look that it runs eventually, on operations that finish almost immediately.",
 ["src/naive/naive_group.cpp", "src/naive/naive_consumable.cpp", "src/group.cpp"],
 [("a pool thread waits for the group and then submits the notification", "group_impl::notify")],
 observe=["end of group operations against begin of the notification", "thread/queue of the notification"])

prop("X08", "Completion barriers never report early, late or lose a waiter",
 "A wait on a completion barrier returns success only after the barrier's operation was executed, and every waiter, however many and whenever they arrive, is released promptly once it was. A timed wait returns failure only after its full timeout has passed without completion, independent of wall-clock changes and spurious wake-ups, and later waits still succeed. The non-blocking completion test turns true exactly when the barrier was executed and never turns back.",
 ["schedules", "fault_sequences", "inputs"],
 "all interleavings of any number of waiters (blocking, timed, polling) with the completing thread, spurious wake-ups and compare-exchange failures, wall-clock jumps, any timeout",
 SAMPLE + "no test has two waiters, a waiter racing completion or a spuriously failing weak compare-exchange (impossible on x86, allowed by the language and real on ARM).",
 ["src/lightweight_barrier.cpp", "src/barrier_operation.cpp"],
 [("atomic owner word: none / waiter / completed", "lightweight_barrier::wait / complete")],
 [("owner", "completion state and shared waiter", "lightweight_barrier::m_owner")],
 ["barrier_operation::wait / has_passed results against the completion event"])

prop("X09", "Delayed operations run once, never early, and are released",
 "An operation submitted with a delay is executed exactly once on the chosen queue, never before the delay has elapsed and promptly afterwards when the queue has capacity. Dropping every queue handle before the delay elapsed does not lose it. After it has run, neither the operation nor the queue is retained by the library any longer.",
 ["schedules", "inputs", "fault_sequences"],
 "all delays including zero, all queue kinds including a waitable queue, any number of concurrent delayed operations, wall-clock jumps, interrupted sleeps, stalled threads",
 SAMPLE + "only multi-second delays on an otherwise idle process are tested, with no look at release or at interrupted sleeps.",
 ["src/naive/naive_operations.cpp", "src/naive/naive_timer.cpp", "src/naive/naive_serial_queue.cpp", "src/naive/naive_parallel_queue.cpp", "src/waitable_queue.cpp"],
 [("self-owned delayed operation cancels and releases its timer when run", "delayed_operation")],
 observe=["virtual time of submission and execution", "destruction of the operation object and of the queue"])

prop("X10", "Timers never fire early, never overlap themselves, and keep firing",
 "A resumed timer first fires no earlier than the requested start delay, on its target queue, and successive firings are at least one interval apart. Two invocations of the same timer's handler never overlap, however slow the handler is. While it stays resumed and its queue has capacity it keeps firing at its interval plus the handler's own duration; it never stops on its own.",
 ["schedules", "inputs", "fault_sequences", "programs"],
 "all intervals and delays, slow handlers, several timers sharing serial and parallel queues, wall-clock jumps, interrupted sleeps, stalls",
 SAMPLE + "the timer tests count ticks over seconds of real time with coarse tolerances on one schedule.",
 ["src/naive/naive_timer.cpp", "src/timer.cpp"],
 [("one pool thread per running timer sleeps, submits the handler and waits for it", "timer_impl::resume")],
 [("running count", "balance of resume and suspend", "timer_impl::m_running")],
 ["begin/end of handler invocations on the virtual clock"])

prop("X11", "Suspending, resuming and cancelling a timer takes full effect",
 "After a cancel call has returned no handler invocation is running or will ever start, except that a cancel made from inside the handler lets that one invocation finish and does not deadlock. After a suspend at most the invocation already on its way still runs and firing then stops until the next resume. Any sequence of suspend and resume leaves exactly one stream of firings at the configured interval, never two. A handler set with handler() replaces the previous one from the next firing on: at most an invocation already on its way still uses the old handler, which is then released. A single-shot timer fires once per resume unless it was made periodic with interval(). The handler of a cancelled or suspended timer is released once its last handle has been dropped and its current wait has elapsed.",
 ["schedules", "histories", "programs"],
 "all interleavings of control calls (from any thread, including the handler itself, repeated and concurrent) with the timer's thread and its handler on serial and parallel queues",
 SAMPLE + "cancel is tested once from outside with long idle gaps; concurrent cancels, cancel during a running handler and quick suspend/resume are not.",
 ["src/naive/naive_timer.cpp", "src/cancelable.cpp"],
 [("cancel gate around each invocation", "cancelable::enter/leave/disable"), ("running counter checked by the timer loop", "timer_impl")],
 observe=["handler begin/end events against return of cancel/suspend", "spacing of firings after resume"])

prop("X12", "Socket notifiers fire exactly while the socket is ready and resumed",
 "A resumed notifier invokes its handler on its target queue, with the right socket (whatever its descriptor's number) and direction, whenever the socket is readable respectively writable and never when it was not ready since the last invocation finished; readiness that persists keeps producing invocations, one at a time. After a suspend at most the invocation already on its way still runs, and a later resume reports readiness again through a single stream of invocations. A handler that replaces another takes over from the next invocation on and the old one is released without being destroyed while it runs. An interrupted wait or readiness that arrives at any moment is not lost.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of data arrival, draining, suspend/resume and the notifier's thread; interrupted system calls; sockets that become ready while suspended",
 SAMPLE + "one socket pair is exercised with sleeps between the steps; races of suspend/resume with readiness and interrupted system calls are not.",
 ["src/naive/naive_socket_notifier.cpp", "src/socket_notifier.cpp"],
 [("select loop guarded by a generation cookie", "socket_notifier_impl::resume/suspend")],
 [("worker cookie", "generation that owns the socket", "socket_notifier_impl::m_worker_cookie")],
 ["handler events against simulated socket readiness history"])

prop("X13", "Cancelling a socket notifier is final and a dead socket is given up",
 "After a cancel call on a socket notifier has returned no handler invocation is running or will ever start, except that cancelling from inside the handler lets that one invocation finish and does not deadlock; a cancelled notifier ignores later resumes. If the monitored descriptor is closed, the notifier stops watching instead of spinning on the error. Both release the pool thread the notifier occupied.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of cancel (from any thread, including the handler, repeated and concurrent) and descriptor close with the notifier's thread and handler",
 SAMPLE + "cancel is tested once on an idle notifier; a closed descriptor is never tested.",
 ["src/naive/naive_socket_notifier.cpp", "src/cancelable.cpp"],
 [("cancel gate around each invocation", "cancelable"), ("negative resume counter marks cancelled", "socket_notifier_impl::cancel"), ("bad-descriptor check after select", "socket_notifier_impl::resume")],
 observe=["handler events against return of cancel", "number of select calls after close", "pool progress"])

prop("X14", "Every emit reaches every single-update connection exactly once",
 "For each emit of a signal, every connection in single-update mode that was established before the emit and is not disconnected gets its handler invoked exactly once, on the connection's queue and with the emitted values. On a serial queue the invocations occur in emit order. Chained signals forward each emit in the same way.",
 ["schedules", "programs", "configurations"],
 "all interleavings of concurrent emitters, connects, disconnects of other connections and handlers on serial and parallel queues of any size",
 SAMPLE + "signals are emitted from one thread to handlers on idle queues; overlapping invocations on a parallel queue never happen in the tests.",
 ["include/xdispatch/signals.h", "src/signals.cpp", "src/cancelable.cpp"],
 [("handler list under lock, one submission per emit", "signal::operator()"), ("cancel gate around each invocation", "cancelable")],
 observe=["handler invocations per emit id and connection"])

prop("X15", "Batched connections coalesce emits but never miss the last one",
 "For a connection in batch mode, after any emit at least one handler invocation begins after that emit started, so no update is permanently missed and the connection never falls silent. The number of invocations never exceeds the number of emits, and emits made while an invocation is still pending do not add further invocations. Each invocation carries values that some emit supplied.",
 ["schedules", "programs", "configurations"],
 "all interleavings of bursts of emits with handler execution on serial and parallel queues, slow handlers",
 SAMPLE + "a fixed burst is emitted to a blocked queue; the race of an emit with a starting handler is not explored.",
 ["include/xdispatch/signals.h", "src/signals.cpp"],
 [("pending counter decremented when an invocation starts", "signal::operator(), connection_handler::m_pending")],
 observe=["emit and invocation events"])

prop("X16", "Disconnecting a handler is final",
 "When a disconnect call has returned, the connection's handler is not executing and will never be invoked again, however many invocations were queued or running, except that a disconnect made from inside the handler returns at once and lets only invocations already running finish. Exactly one of several competing disconnects reports that it disconnected something, and other connections keep receiving every emit. This also holds for scoped connections, connection managers and the destruction of the signal itself.",
 ["schedules", "programs", "histories"],
 "all interleavings of disconnects (from outside, from the handler, concurrent, via scope, manager or signal destruction) with emits and handlers on serial and parallel queues",
 SAMPLE + "disconnects happen on an idle queue, at most one thread disconnects.",
 ["src/signals.cpp", "src/cancelable.cpp", "include/xdispatch/signals.h"],
 [("disable waits for a running invocation", "cancelable::disable"), ("handler removed from list under the signal lock", "signal_p::disconnect")],
 [("active state", "enabled / running / disabled", "cancelable::m_active")],
 ["handler begin/end against disconnect return", "return values of competing disconnects"])

prop("X17", "Signals never deadlock against their own handlers",
 "Emitting, connecting, disconnecting, skipping queued calls or destroying a signal completes even while handlers of that signal are running that themselves emit, connect or disconnect on it. Skipping suppresses only invocations queued before the skip: an emit made afterwards reaches every connection again. A signal barrier is released by the first emit after its construction, with exactly that emit's values, and later emits do not change them.",
 ["schedules", "programs"],
 "all interleavings of handlers that call back into the signal with external control calls; barrier construction, wait and destruction racing emits",
 SAMPLE + "recursive use is tested on one schedule only, skipping and concurrent barriers are not tested at all.",
 ["src/signals.cpp", "include/xdispatch/signals.h", "include/xdispatch/signals_barrier.h", "src/cancelable.cpp"],
 [("handlers disabled outside/inside the signal lock", "signal_p::~signal_p, skip_all, disconnect"), ("one-shot connection in the barrier", "signal_barrier")],
 observe=["virtual time of every signal call", "values returned by the barrier"])

prop("X18", "A waitable queue can always be waited for",
 "Every operation submitted to a waitable queue runs exactly once, one at a time and in submission order, either on the inner queue or on a thread that waits for it. Waiting for all returns only when every operation submitted before the call has finished; waiting for one returns only when some operation has completed that no other wait has claimed, or nothing was pending. Neither wait can deadlock even when every pool thread is blocked or busy.",
 ["schedules", "programs", "configurations"],
 "all interleavings of submitters, inner-queue workers and several waiters; saturated or blocked inner queues; waits from inside pool threads",
 SAMPLE + "one waiter, one submitter; stealing by the waiter racing the inner queue's worker is a matter of luck.",
 ["src/waitable_queue.cpp", "include/xdispatch/waitable_queue.h"],
 [("private operation list drained by inner queue or waiter", "waitable_queue_operation::drain_one / wait_for_one")],
 [("completed count", "completions not yet claimed by a wait", "waitable_queue_operation::m_completed")],
 ["operation begin/end against wait begin/return"])

prop("X19", "Independent operations make progress side by side",
 "As long as a pool has spare capacity, a pending operation starts without waiting for any other running operation to finish, so operations that wait for one another through the library's blocking calls or inside declared blocking sections complete whatever the pool's nominal size. Capacity lent out while a thread is blocked is taken back afterwards, so the number of simultaneously unblocked workers stays bounded.",
 ["schedules", "programs", "configurations"],
 "all interleavings of submission bursts, workers going idle and blocking sections; dependency chains across queues; pool sizes from one up",
 SAMPLE + "starvation behind a busy thread shows only when a submission meets a worker in the narrow window between wake-up and bookkeeping (three of the project's own group tests fail intermittently for it).",
 ["src/naive/naive_threadpool.cpp", "include/xdispatch/backend_naive_ithreadpool.h", "src/naive/naive_consumable.cpp"],
 [("idle/active/maximum thread accounting", "threadpool::schedule, notify_thread_blocked/unblocked")],
 [("idle and active counters", "workers parked / alive", "threadpool::data")],
 ["start of pending operations against duration of running ones", "peak number of unblocked operations"])

prop("X20", "Idle workers expire and come back without losing work",
 "Worker threads without work end after their idle period and later submissions create new ones: work arriving at any moment around the expiry is executed promptly, the pool never loses capacity for good, and the bookkeeping never drifts so far that the process is terminated. The number of workers alive stays within the pool's limit plus the number of threads declared blocked, up to the short-lived excess of simultaneous submissions.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of submissions with workers timing out, over many idle periods of virtual time; stalled workers",
 "The idle period is thirty seconds, so no test reaches expiry at all, let alone a submission racing it.",
 ["src/naive/naive_threadpool.cpp", "src/naive/naive_semaphore.cpp", "src/naive/naive_operation_queue_manager.cpp"],
 [("re-check of the counter after giving up the slot", "threadpool::worker::run"), ("timed acquire", "semaphore::wait_acquire")],
 observe=["threads alive", "start latency of submissions around multiples of the idle period"])

prop("X21", "Operations run only where their queue says",
 "Operations of the main queue run only on the thread that executes the main loop, and operations of a queue bound to a caller-supplied pool or thread run only through that pool, with the queue's priority passed on, never on the submitting or any other thread. Timer, notifier, signal and delayed handlers obey their target queue in the same way. The pool current at any point is the one executing the operation.",
 ["schedules", "programs", "configurations"],
 "all interleavings and mixes of submissions from operations, foreign threads and the main loop; user-implemented pools",
 SAMPLE + "thread identity is checked for a handful of submissions from one thread.",
 ["src/naive/naive_serial_queue.cpp", "src/naive/naive_parallel_queue.cpp", "src/naive/naive_manual_thread.cpp", "src/backend.cpp", "src/naive/naive_threadpool.cpp"],
 [("main loop thread drains its own list", "manual_thread::run"), ("queue hands operations to the given pool only", "parallel_queue_impl::async, operation_queue::notify_unsafe")],
 observe=["executing thread and current pool in every operation"])

prop("X22", "Pending work is picked by priority and in order",
 "When a worker of a saturated pool becomes free it takes, among the operations pending at that moment, one of the highest pending priority. Operations of equal priority submitted by the same thread to one parallel queue are started in submission order.",
 ["schedules", "programs"],
 "all interleavings of submitters and workers, all priority mixes, pools of any size under saturation",
 SAMPLE + "the priority tests measure rough proportions on a lightly loaded machine.",
 ["src/naive/naive_threadpool.cpp", "src/backend.cpp"],
 [("buckets scanned from the highest priority", "threadpool::worker::run"), ("priority to bucket mapping", "threadpool::execute")],
 observe=["order of operation starts against the set pending"])

prop("X23", "Qt-backed queues keep the same promises on Qt threads",
 "Operations submitted to a queue bound to a Qt thread run exactly once, in submission order, one at a time and only on that thread, also if submitted before the thread was started; operations submitted to a queue bound to a Qt thread pool run exactly once on threads of that pool, by priority once all of them are busy. Capacity lent while a thread of the pool is blocked is taken back. apply, delayed operations, timers and groups on such queues keep their guarantees. Dropping the queue with work pending loses nothing while the thread's event loop runs.",
 ["schedules", "programs"],
 "all interleavings of submitters, Qt event loops and Qt pool threads",
 "The Qt tests sleep and sample one schedule; ordering, teardown and not-yet-started threads are each tried once.",
 ["src/qt5/qt5_serial_queue.cpp", "src/qt5/qt5_parallel_queue.cpp", "src/qt5/qt5_threadpool.cpp", "src/qt5/qt5_backend.cpp"],
 [("events posted to a proxy object living in the thread", "qt5 threadpool proxies")],
 observe=["operation events and executing thread"])

prop("X24", "Qt-managed connections end with their object",
 "Once a Qt object's destruction has completed, no handler connected to a signal on behalf of that object is running or will be invoked again, and explicitly disconnecting an object from a signal has the same effect for that signal only. Connections of other objects and signals are unaffected. Handlers run on the requested queue, the main queue by default.",
 ["schedules", "programs"],
 "all interleavings of emits from any thread with object destruction and explicit disconnects",
 "Tested once per call on one thread with no emit in flight.",
 ["src/qt5/qt5_signals.cpp", "src/qt5/qt5_signals.h", "include/xdispatch/backend_qt.h", "src/signals.cpp"],
 [("connection list attached to the object", "qt5_signals.cpp")],
 observe=["handler events against end of object destruction"])

prop("X25", "Mixing backends is refused rather than misbehaving",
 "Constructing a timer, notifier or group submission whose implementation belongs to a different backend than its target queue is refused instead of silently running on the wrong backend.",
 ["inputs", "configurations"],
 "all pairs of backend types",
 "Only same-backend pairs are constructed in the tests.",
 ["src/timer.cpp", "src/socket_notifier.cpp", "src/group.cpp", "src/trace_utils.cpp"],
 [("backend comparison on construction", "trace_utils::assert_same_backend")],
 observe=["outcome of construction"])

prop("X26", "Operation wrappers call exactly what was wrapped",
 "Wrapping a function object, a member function or an existing operation yields an operation that, when executed, invokes exactly that callable once with exactly the parameters given, and wrapping an operation yields the same operation.",
 ["inputs"],
 "all callables and parameter values",
 "A few callables are wrapped in the tests.",
 ["include/xdispatch/operation.h", "src/operation.cpp"],
 [("template wrappers", "make_operation, parameterized_operation::make")],
 observe=["invocation count and arguments"])

prop("X27", "Repeated use does not accumulate objects, memory or threads",
 "However often queues, groups, delayed operations, timers, socket notifiers, signals, barriers, waitable queues and connections of Qt objects are created, used and given up, or the same ones used again - also while busy, suspended, timed out, cancelled inside their handler or with the socket closed underneath - nothing piles up: soon after the last handle is gone and the pending work has run, everything captured by operations, handlers and emitted values is destroyed, a caller-supplied pool is released together with its last queue, ended worker threads have been joined or detached, and the memory held by the library does not grow with the number of repetitions.",
 ["schedules", "histories", "programs"],
 "all repetitions of any program of library calls, under all schedules, with or without the worker threads expiring in between",
 "Every test builds its objects once and ends; nothing observes what is left behind afterwards or after many repetitions.",
 ["src/naive/naive_operation_queue.cpp", "src/naive/naive_operation_queue_manager.cpp", "src/naive/naive_threadpool.cpp", "src/naive/naive_timer.cpp", "src/naive/naive_socket_notifier.cpp", "src/signals.cpp", "src/lightweight_barrier.cpp"],
 [("queues and workers detach from the manager when done", "operation_queue::detach, worker::run"), ("helpers hold their object only while active", "timer_impl::resume, socket_notifier_impl::resume")],
 observe=["captured objects and pools alive, unjoined threads and allocations per call site at the end of each round"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
