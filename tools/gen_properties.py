#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

TH = "threadpp/thread.cpp"; THH = "threadpp/thread.h"; FU = "threadpp/future.hpp"
FS = "threadpp/detail/future_state.hpp"; SEM = "threadpp/detail/semaphore.cpp"
CV = "threadpp/condition_variable.hpp"; MX = "threadpp/mutex.hpp"
TP = "threadpp/thread_pool.cpp"; TPH = "threadpp/thread_pool.h"; WH = "threadpp/when_all_any.hpp"

prop("C01", "An accepted task runs exactly once, on the thread it was sent to",
 "Every task for which invoke (or a queued dispatch) returned true, sent to a registered thread that keeps processing and has not been told to exit, is executed exactly once, on that thread and on no other. No number of concurrent senders, nested senders or queue growth loses, duplicates or misroutes a task.",
 ["schedules", "inputs", "histories"], "all interleavings of senders and the receiving thread, all small mixes of senders/targets/queue capacities, tasks sent from tasks",
 "The tests send a few tasks and only print; nothing counts executions and the OS scheduler shows a handful of interleavings.",
 [TH, THH], [("queue append under the target's lock plus wakeup", TH + " detail::invoke_packaged_task"), ("batch swap and one-at-a-time processing", TH + " prepare_tasks/process_one")],
 [("tasks / processing_tasks / processing_idx", "queued and in-progress batches", TH + " thread_context")], ["execution count and executing thread of each task"])
prop("C02", "Tasks start in the order in which they were accepted",
 "For any one target thread, if one accepted send completed before another accepted send began (same sender, or causally ordered senders), the earlier task starts first. This also holds when a running task blocks in a library wait and later tasks are processed from inside it, and when batches are processed by different processing calls.",
 ["schedules", "histories"], "all interleavings of up to two senders and one receiver, all mixes of nested processing",
 "No test checks order; reordering needs a batch swap to coincide with a send or a nested wait.",
 [TH], [("FIFO batches, nested processing continues the current batch", TH + " prepare_tasks/process_one")], [], ["start order of tasks per target"])
prop("C03", "A thread blocked in the library keeps serving tasks and misses no wakeup",
 "A registered thread blocked in any library blocking call (thread wait, timed wait, sleep, condition variable wait, future wait/get, mutex lock, pool wait) that is sent a task runs that task without waiting for the awaited event or for a timeout. A send, a notify or an exit notification that happens at any moment before or during the blocking call is never slept through. A thread wait with no task or notification received and no exit request does not return.",
 ["schedules", "configurations"], "every blocking call x every moment at which the task, notify or exit request can arrive",
 "Lost wakeups need the event to land between the emptiness check and the sleep; the tests cannot force that window and would only see a slow run.",
 [TH, SEM, CV, FS, MX], [("check-then-sleep under the task lock with a wakeup flag", TH + " this_thread::detail::wait/wait_for"), ("blocking calls loop over this_thread::wait", SEM + " semaphore::wait")],
 [("wakeup", "event pending since last check", TH + " thread_context")], ["task has run once all threads are quiescent, with no time elapsed"])
prop("C04", "An exit notification releases every blocking call and lets the thread join",
 "Once a registered thread has been notified for exit, every library blocking call it is in or later makes (wait, timed wait, sleep, condition variable wait, future wait/get) returns without its event or timeout, notified_for_exit reports true, and joining or destroying its thread object completes. A task that is already running is allowed to finish first; no thread is told to exit unless somebody asked for it.",
 ["schedules", "configurations"], "every blocking call x every moment of the exit request, including before the thread body has started",
 "Tests join idle threads only; the window between checking the exit flag and sleeping is never exercised.",
 [TH, THH, SEM, FS], [("exit flag set with wakeup under the task lock", TH + " notify_for_exit"), ("exit checks in the wait loops", SEM), ("join notifies first", TH + " thread::join")], [], ["joins complete; no deadlock"])
prop("C05", "A task that cannot run is never run and is destroyed exactly once",
 "Sending to an unknown, invalid or finished thread returns false and the task never runs; a task accepted by a thread that exits first is either run exactly once before the exit or never run. In all cases the callable and its arguments are destroyed exactly once and no later than when the target thread is gone and the send has returned.",
 ["schedules", "inputs"], "all interleavings of a send with unregistration/exit of the target, all kinds of invalid target",
 "The race between a send and the end of the target thread is not in the tests, and they do not count destructions.",
 [TH], [("context kept alive by shared ownership while a sender pushes", TH + " invoke_packaged_task"), ("remaining tasks destroyed with the context", TH + " unregister_thread_impl")], [], ["return value, execution and destruction counters"])
prop("C06", "Inline or queued execution follows the documented rule",
 "dispatch, and async/then with the deferred or default policy, run the callable immediately on the calling thread when the target is the calling thread and otherwise queue it; invoke, and async/then with policy async, always queue it, also when the target is the calling thread; invoke and dispatch return true in both cases. The caller placeholder id means the thread that launches the task.",
 ["configurations", "inputs"], "all combinations of entry point, policy, caller and target thread, before and after readiness of the parent future",
 "Tests use the default policy from one thread only and never look at where or when the callable ran.",
 [THH, FU], [("same-thread shortcut", THH + " dispatch"), ("policy switch", FU + " detail::launch")], [], ["thread and moment of execution relative to the return of the call"])
prop("C07", "Registration gives each thread one unique id for exactly its lifetime",
 "Registering a thread from inside, from outside, or from both concurrently yields one and the same id, distinct from the id of every other thread ever registered and never the invalid id; the id is listed and can be sent to from the first registration until the thread unregisters or its thread object is joined, and not afterwards. A new thread never inherits the id, the pending tasks or the exit state of an earlier thread, even if the operating system reuses the native thread id.",
 ["schedules", "histories"], "all interleavings of inside/outside registration, all short register/unregister/join sequences with native id reuse",
 "Native id reuse and the two-sided registration race depend on timing that the tests neither force nor observe.",
 [TH, THH], [("native id to id map and context map under one lock", TH + " register_thread_impl/unregister_thread_impl")],
 [("id_map, contexts, id_generator", "who is registered under which id", TH + " program_context")], ["ids returned by every registration call and by get_all_registered_threads"])
prop("C08", "Shutdown waits for all threads and reports exactly those left",
 "Only the shutdown matching the first init takes effect (an unmatched or inner call returns -1 and leaves threads alone); it asks every registered thread to exit and returns 0 only when no registered thread is left, otherwise, after the given time, the number of threads still registered. It never returns before all threads are gone or the time is over, and the library can be initialised again afterwards, by any thread, which then is the main one.",
 ["schedules", "histories"], "all interleavings of shutdown with exiting, blocked and stubborn threads; all init/shutdown nestings up to depth 3",
 "The tests call shutdown once at the end of main and ignore its result.",
 [TH], [("reference count, exit notifications, cleanup event", TH + " init/shutdown"), ("notification when the last context is removed", TH + " unregister_thread_impl")], [], ["return value, virtual time, registered set"])
prop("C09", "Timed waits end neither early nor late, and report the reason correctly",
 "To within a microsecond, sleep_for/sleep_until return only when the full duration is over or the thread was told to exit; wait_for/wait_until report timeout only when the duration is over with nothing received, and no_timeout when a task or notification was served; future and condition-variable timed waits report timeout only after the duration, ready or no_timeout when the event came first. With nothing arriving, none of them waits longer than the duration, also when unrelated tasks are served meanwhile; process_for starts no task once its duration is over.",
 ["schedules", "inputs"], "all interleavings of expiry, events and unrelated tasks; durations zero, negative, sub-microsecond and longer, several clocks",
 "Real time makes such assertions flaky, so the tests have none; virtual time makes every expiry point explorable.",
 [TH, THH, SEM, FS, CV], [("deadline loops", THH + " sleep_for; " + SEM + " wait_for_impl"), ("status of the timed condition wait", TH + " detail::wait_for")], [], ["virtual clock at call and return, returned status"])
prop("C10", "Task counters equal what is queued and running",
 "At any moment the pending task count reported for a registered thread equals the number of tasks accepted for it whose execution has not completed (queued plus currently running, nested ones included), it is 0 for an unknown thread, and the processing depth seen inside a task equals its nesting level. A thread's name is reported as given, or as its id when none was given.",
 ["schedules", "histories"], "all sequences of sends, processing and nested processing up to a bound; all interleavings with a remote observer",
 "No test reads the counters.",
 [TH], [("count under the task lock", TH + " get_pending_task_count_detailed"), ("depth counter", TH + " process_one")], [], ["counts compared with a reference model"])
prop("C11", "A future yields exactly what its promise stored, once and for all",
 "A promise can be satisfied once, with a value or an exception; every later or concurrent attempt throws promise_already_satisfied and changes nothing, and get returns or rethrows exactly what was stored, to every holder of a shared future. Validity, readiness, error state, single retrieval of the future and no-state errors follow std::future/std::promise.",
 ["schedules", "inputs", "histories"], "all operation sequences on promise/future/shared_future up to a bound against a reference state machine; all interleavings of racing setters and getters",
 "The tests exercise one happy path per type and no racing setters.",
 [FU, FS], [("status checked and set under the state lock", FS + " set_value/set_exception/set_ready"), ("retrieved flag", FU + " check_retrieved_flag")], [("status, value, exception", "result of the shared state", FS + " basic_state/future_state")], ["results and error codes of every call"])
prop("C12", "Waiters on a future are released when, and only when, it is ready",
 "Every registered thread waiting on a future or shared future returns from wait, timed wait or get once the result is set, whatever the interleaving, also when several threads wait, when one thread waits on the same state again from a task served during its wait, or when a timed wait on it expired earlier. No wait returns and no get succeeds before the result is set, unless the waiting thread was told to exit, in which case get throws instead of producing a result.",
 ["schedules"], "all interleavings of setters with up to two waiting threads and nested waits on one thread",
 "Nested waits on the same state and waits racing with the setter are not in the tests, and a hang shows only in rare schedules.",
 [FS, SEM, CV, FU], [("readiness re-checked under the state lock, waiter registered before release", FS + " wait/wait_for; " + SEM + " add_waiter"), ("notify_all on set", FS + " set_ready")], [("waiters_", "threads to wake", "threadpp/detail/semaphore.h semaphore")], ["all waiters return; values seen"])
prop("C13", "An abandoned result always surfaces as broken_promise",
 "When the producer of a future disappears without a result (promise destroyed or overwritten, task rejected, dropped at thread exit, continuation target gone, pool job stopped or pool destroyed) the future becomes ready with a broken_promise error and its waiters and continuations proceed. A future whose producer has delivered is never turned into a broken one.",
 ["schedules", "histories"], "every way of losing a producer, at every moment relative to waits, continuations and delivery",
 "No test drops a producer.",
 [FU, FS, TH, TP], [("abandon in the promise destructor", FU + " ~basic_promise"), ("promise owned by the queued task", FU + " package_future_task")], [], ["readiness and error of the future, no hang"])
prop("C14", "A continuation runs exactly once, after readiness, where it was asked to",
 "A continuation attached with then runs exactly once, on the requested thread, only after its parent is ready, and receives that ready parent, no matter whether it was attached before, after or while the result was set; all continuations of a shared future run. The future returned by then delivers the continuation's value or exception, and errors propagate along chains.",
 ["schedules", "inputs"], "all interleavings of attaching and setting, value/exception/abandon outcomes, all future kinds and policies",
 "The tests attach continuations but never race the attachment against the setter nor count executions.",
 [FU, FS], [("attach-or-run decision under the state lock", FS + " set_continuation/set_ready"), ("launch on the requested thread", FU + " detail::launch")], [("callbacks", "continuations waiting for the result", FS + " basic_state")], ["execution count, thread, parent state, resulting future"])
prop("C15", "async runs its function once in the right place and delivers the outcome",
 "async with a target thread runs the function exactly once there, async and then without a target run it exactly once on a fresh thread that is registered meanwhile and unregistered after the task, and the returned future delivers the value or the thrown exception. After the results are delivered, and after a call that fails with an exception, nothing of the fresh threads remains registered, so that shutdown succeeds.",
 ["schedules", "inputs"], "all interleavings of the launching thread and the fresh thread; value, void and throwing functions",
 "The tests never use async without a target and do not check where a function ran.",
 [FU, TH], [("one-shot detached thread", FU + " async(policy)/then(policy)"), ("packaged task stores result or exception", FU + " package_future_task")], [], ["thread of execution, outcome, registered set after quiescence"])
prop("C16", "when_all is ready exactly when all inputs are, and returns them intact",
 "The future from when_all becomes ready after, and only after, every input is ready (immediately for no inputs), and holds the inputs in their original order, each valid and carrying its own value or exception. This holds for every completion order and interleaving, for tuples and ranges, unique and shared futures.",
 ["schedules", "inputs"], "all completion orders and interleavings of up to three inputs of mixed kinds and outcomes",
 "Only one single-input when_all is live in the tests; the rest is commented out.",
 [WH], [("counter under the context lock", WH + " when_all"), ("one continuation per input", WH + " when_inner_helper")], [], ["readiness over time, values and positions"])
prop("C17", "when_any names a ready input and keeps all inputs usable",
 "The future from when_any becomes ready as soon as one input is ready, its index denotes an input that is ready (size_t(-1) for no inputs), and it returns all inputs in their original order, each valid and still delivering its own value or exception, now or later. This holds for every completion order and interleaving, for tuples and ranges, unique and shared futures.",
 ["schedules", "inputs"], "all completion orders and interleavings of up to three inputs of mixed kinds and outcomes, inputs ready before, during and after the call",
 "All when_any tests are commented out.",
 [WH], [("first completion wins under the context lock; late delivery if construction is still going on", WH + " when_any"), ("input states kept aside and restored", WH + " recover_input_futures")], [], ["index, validity, values"])
prop("C18", "Condition variable: no notification is lost and the lock is held on return",
 "A thread that calls wait while holding the lock is released by any notify_all, and one waiter by any notify_one, that happens after it released that lock, even if it serves tasks, or waits on the same condition variable again from such a task, in between; the lock is held again whenever wait returns, and it is free while the thread is blocked or serving tasks. A thread that is not notified, not told to exit and not past its deadline stays blocked.",
 ["schedules"], "all interleavings of up to two waiters and a notifier under the lock, nested waits, timed waits",
 "The tests only use unlocked timed waits and print the status.",
 [CV, SEM], [("waiter entry added while the lock is held", SEM + " add_waiter before before_wait"), ("token set then thread notified", SEM + " notify_one/notify_all")], [("waiters_", "registered waiters, oldest first", "threadpp/detail/semaphore.h")], ["who returns, lock ownership, quiescence"])
prop("C19", "Mutex: mutual exclusion, no lost handover, ownership errors",
 "At most one registered thread owns the mutex at a time; a thread in lock acquires it once it is free, serving tasks while it waits; try_lock succeeds exactly when the mutex is free. Locking again by the owner throws resource_deadlock_would_occur, unlocking by a non-owner throws and leaves the mutex owned as before.",
 ["schedules", "histories"], "all interleavings of two to three threads, all lock/try_lock/unlock sequences up to a bound against a reference model",
 "tpp::mutex has no test at all.",
 [MX, SEM], [("test-and-set flag plus owner id", MX), ("waiters woken on unlock", MX + " unlock")], [("flag_, owner_", "ownership", MX)], ["critical section overlap, results of each call, quiescence"])
prop("C20", "A pool job runs exactly once, on a worker entitled to it",
 "Every job scheduled on a pool that has a worker for its level and is not stopped first runs exactly once, on a worker of that pool whose level is not above the job's current level, and its future delivers the job's value or exception; also for jobs scheduled from inside jobs, by several threads at once and after priority changes. A worker reserved for a higher level never runs lower-level jobs.",
 ["schedules", "inputs", "configurations"], "all interleavings of schedulers and workers for small pools and job mixes",
 "The one pool test runs jobs that only print; it never counts executions nor checks the worker.",
 [TP, TPH], [("job table and per-level queues under one lock", TP + " add_job/check_jobs"), ("one check request per eligible worker per queue entry", TP + " notify_workers")], [("jobs_, job_priority_queues_", "jobs not finished, order of service", TP + " impl")], ["execution count and thread, futures"])
prop("C21", "Pending pool jobs are served in order of their current priority",
 "Whenever a worker takes a job, it takes one with the highest current level and, within it, the highest current priority among all pending jobs it is entitled to; change_priority of a pending job takes effect for all later choices, both raising and lowering, and has no effect on running, finished or unknown jobs.",
 ["histories", "inputs"], "all sequences of schedule/change_priority/stop up to a bound over a small set of levels and priorities, against a reference model",
 "The test prints job names; order is never checked and change_priority is commented out.",
 [TP], [("highest non-empty queue at or above the worker's level", TP + " get_highest_priority_queue_above"), ("new queue entry on change", TP + " change_priority")], [], ["order of execution"])
prop("C22", "Stopping a pending job cancels it; stopping a running one does nothing",
 "A job stopped while pending never runs and its future becomes ready with broken_promise; stopping a running, finished or unknown job changes nothing and its future delivers the normal outcome; stop_all does this for every pending job. No job both runs and is reported broken, and none neither runs nor is reported, in any race between stopping and starting.",
 ["schedules", "histories"], "all interleavings of stop/stop_all with workers picking up jobs; jobs stopped via pool, future or shared future",
 "stop and stop_all are commented out in the tests.",
 [TP, TPH], [("callable taken out under the pool lock when a worker starts a job", TP + " check_jobs/clear")], [], ["ran / broken, exactly one of them"])
prop("C23", "Pool waits return exactly when the jobs are done; the count is exact",
 "wait(id) returns once that job has finished or was stopped (at once for unknown jobs) and wait_all once all jobs that were in the pool at the call have; neither returns earlier unless the caller is told to exit, neither hangs. The job count includes every job neither finished nor stopped, and once the workers are idle it is exactly the number of pending jobs.",
 ["schedules"], "all interleavings of waiters, workers and stops for small pools",
 "The test calls wait_all once and checks nothing afterwards.",
 [TP], [("per-job completion future", TP + " add_job/wait/wait_all"), ("removal after the call", TP + " check_jobs clear")], [], ["job side effects visible at return, counts"])
prop("C24", "Destroying or moving a pool is orderly at any moment",
 "Destroying a pool lets running jobs finish, runs no job afterwards, breaks the futures of all pending jobs and joins all workers, at any moment and whatever its jobs do; moving a pool keeps its jobs, workers and job handles working. Job handles outliving the pool are harmless.",
 ["schedules", "histories"], "destruction or move at every moment relative to starting, running and nested-scheduling jobs",
 "Tests destroy only idle pools and never move one.",
 [TP, TPH], [("clear, then join workers without the lock", TP + " ~impl"), ("sentinel checked by job handles", TPH + " job_future_storage")], [], ["futures, registered threads, no hang or memory error"])
prop("C25", "User code is never called with library locks held",
 "Continuations, tasks, destructors of tasks and captured values, and logging callbacks may call back into the library (send, attach, wait, schedule, stop, count, query) from wherever the library calls them, without deadlock. This includes continuations run by when_all/when_any completion, by stopping pool jobs, by dropping tasks and by init/shutdown logging.",
 ["histories", "schedules"], "every place where the library calls user code x every re-entrant library call",
 "Re-entrant callbacks are absent from the tests.",
 [TH, FS, WH, TP, SEM], [("callbacks moved out and called after unlocking", FS + " set_ready; " + TH + " process_one; " + TP + "; " + WH)], [], ["no deadlock, callbacks complete"])
prop("C26", "The library is free of data races and memory errors under concurrent use",
 "In any program that uses the library's thread-safe operations concurrently (sending, registering, exiting, futures, continuations, when_*, condition variables, pools, introspection), no two conflicting unsynchronised memory accesses and no use of freed or out-of-bounds memory happen inside the library. Data written before a send, a set, an unlock or a notify is visible to the code that runs after the corresponding delivery.",
 ["schedules"], "all interleavings (bounded preemptions) of a mix of concurrent API uses, with happens-before race detection honouring the memory orders in the code",
 "A race shows up in tests only by luck and often without symptom.",
 ["threadpp/"], [("locks and atomics throughout", "threadpp/")], [], ["race and heap checker on every instrumented access"])
prop("C27", "Callables, arguments and results pass through intact and unshared",
 "Arguments given to invoke, dispatch, async and schedule reach the callable with the values they had at the call, by owned copy or move, move-only callables, arguments and results included; lvalues of the caller are left untouched, an object is copied at most once, and not at all when passed as an rvalue, and every instance is destroyed exactly once. Function pointers, member functions, string literals, callables and arguments wrapped in std::ref (used by reference), member functions of the future given to then, and values given to make_ready_future behave the same. If copying a callable, an argument or a promised value throws, the exception reaches the caller, nothing is sent or set, and later calls work as usual.",
 ["inputs", "configurations"], "all combinations of entry point, execution mode, value category and callable kind",
 "One overhead test prints constructor calls and compares nothing.",
 [THH, FU, "threadpp/detail/utility/capture.hpp", "threadpp/detail/utility/apply.hpp", "threadpp/detail/utility/invoke.hpp"], [("decay-capture with move-on-copy", "threadpp/detail/utility/capture.hpp"), ("forwarding calls", THH + " package_simple_task; " + FU + " package_future_task")], [], ["values, identity, copy/move/destroy counters"])
prop("C28", "An exception leaving a task leaves the thread's machinery consistent",
 "If a task sent with invoke throws, the exception reaches the caller of the processing or blocking call that ran it, the task is not run again and is destroyed, and afterwards the thread continues correctly: depth and pending counts are right, remaining tasks run in order, and a condition variable wait that was interrupted this way holds its lock and leaves no registration behind.",
 ["inputs", "schedules"], "every processing and blocking call x throwing task at every position in the queue",
 "No test throws out of a plain task.",
 [TH, SEM, CV], [("scope of the depth counter and of waiter registration", TH + " process_one; " + SEM + " wait/wait_for_impl")], [], ["counts, order, later notifications"])

prop("C29", "Visiting by index calls the function on exactly that element",
 "Visiting a tuple at a runtime index calls the given function exactly once, in place, with the element of that index itself (no copy), and lets its exceptions through; an index that is not below the number of elements, however large, throws a runtime_error and calls nothing. Applied to the outcome of when_any with its index, this reaches the input that is ready.",
 ["inputs", "schedules"], "all indices of tuples of 0 to 20 elements and out-of-range indices, all value categories; all interleavings of setters with when_any",
 "The only uses in the tests are commented out.",
 [WH], [("recursion over the index", WH + " visit_impl")], [], ["calls, address and value seen, exceptions"])
prop("C30", "Init callbacks are called once, on the right thread, only while in force",
 "For every thread the library makes with a name, pool workers included, the naming and start callbacks are each called exactly once, on that thread, with its name, the start callback with the thread registered, and both before any of its tasks runs; for threads made without a name they are not called. Callbacks in force are those of the outermost initialisation, from it until its shutdown; the error callback is called for sends to the invalid id and this-thread calls from unregistered threads, and not in correct use.",
 ["schedules", "configurations"], "all interleavings of thread start, first tasks and end; all subsets of callbacks, sequences of sessions, pool sizes",
 "Tests install only logging callbacks that print.",
 [TH], [("calls at the start of made threads", TH + " make_thread"), ("configuration stored at first init, dropped at last shutdown", TH + " init/shutdown")], [("config", "callbacks in force", TH + " program_context")], ["which callback ran where, how often and when"])
prop("C31", "Unregistered threads never block and can still send",
 "On a thread that is not (or no longer) registered, the id is invalid, the depth 0, an exit is reported as requested, and every processing, waiting or sleeping call returns at once without effect: results that are ready are delivered, others reported as broken by get and as deferred by timed waits, and condition variable waits return with the lock held. Such a thread can send tasks and jobs, set results, attach continuations and notify like any other, and disturbs no registered waiter.",
 ["inputs", "schedules"], "all calls on five kinds of unregistered threads; all interleavings of an unregistered sender with the receiver",
 "Tests never call from a thread without registration.",
 [TH, SEM, FS], [("check for a registered caller in every this-thread function", TH)], [("local_data", "context of the calling thread, if any", TH)], ["return values, elapsed virtual time, effects on registered threads"])
prop("C32", "Nothing handed over is kept longer than needed and nothing accumulates",
 "Once a task or job has run or can no longer run, its callable and arguments are gone; once all handles of a result are gone and the promises involved are satisfied or destroyed, no value, exception, continuation or input of a combination remains; after shutdown no callback given at initialisation remains. Repeating any operation, failed and expired ones included, does not use more and more memory.",
 ["histories", "schedules"], "all orders of dropping the handles of a result, all fates of tasks and jobs, repeated cycles of 30 operations with a live-block count",
 "Leaks and cycles have no symptom in the tests.",
 [FS, FU, WH, TH, TP], [("continuations moved out before they are called", FS + " set_ready"), ("task and job callables moved out and destroyed after the call", TH + " process_one; " + TP + " check_jobs")], [], ["live instances of counted payloads, live memory blocks"])
prop("C33", "A thread object runs its function once and stays with its thread",
 "A thread object made from a function, with or without a name, runs it exactly once on a new thread with the arguments as given (owned copies, references through std::ref), and that thread is registered under the object's id from construction on, whether or not the function registers itself. Moving, swapping, sharing and keeping objects in containers keep object, id, name and thread together. Joining, destroying or assigning over an object asks its thread and no other to exit, returns only once the function has returned, and leaves that thread unregistered; an object without a thread can be destroyed, moved and assigned freely.",
 ["histories", "schedules"], "all sequences of three operations on three thread objects, all interleavings of construction, self-registration and end, six kinds of functions and arguments",
 "Tests only make threads with make_thread and let them go out of scope.",
 [TH], [("registration by the constructor and by the function", TH + " register_thread_impl"), ("join before assignment and destruction", TH + " thread::operator=, ~thread")], [("id_", "id that moves with the thread", TH + " thread")], ["joinable, id, name, listing, what the thread itself sees"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
