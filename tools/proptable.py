"""The properties: what is claimed, where it is anchored, and what decides it."""
NOTE = ("Sampled evidence, not proof: every run is a seeded schedule (threads, clock steps, delays, stalls) of the real library code; "
        "any data race, use after free, leak, assertion failure, deadlock or endless wait in those runs also counts as a violation. "
        "Trusts the simulator's model of threads, clocks and the heap (sim/rt.cpp) and the harness's reference model. ")
S = ["schedules"]


def p(id, title, statement, over, text, why, files, mech, oracle, note="", state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors=a, oracle=oracle, note=NOTE + note)


I = "include/librf/src/"
P = [
    p("C01", "Every started coroutine runs to its end exactly once, and empty() knows",
      "Every coroutine, generator, function object or future started with go or GO, from a coroutine or from any thread, begins and performs each of its steps exactly once and ends; the function object that created it lives until then and is destroyed once, afterwards, with the library usable from its destructor. run_until_notask() does not return and empty() does not answer true while something started earlier on that scheduler is unfinished, and both do once everything has ended.",
      ["schedules", "programs", "histories"], "all small task programs (yield, sleep, via, awaited completions, nested calls, spawning, exceptions) started in every form from several threads and schedulers, under all interleavings",
      "The tutorials start a fixed set of coroutines from one thread and wait for them; lost, duplicated or forgotten tasks need races between starting, completing and running.",
      [I + "scheduler.h", "source/scheduler.cpp", I + "rf_task.h", I + "state.h", I + "state.inl", "source/state.cpp", I + "promise.inl", I + "generator.h"],
      [("table of unfinished tasks keyed by state", "source/scheduler.cpp"), ("queue of ready states", I + "scheduler.h"), ("final suspend removes the task", I + "state.inl")],
      "an exactly-once step model of the task programs and of empty()/run_until_notask()", state=[("_ready_task / _runing_states", "unfinished tasks / states to resume", I + "scheduler.h")]),
    p("C02", "A coroutine only ever runs on its own scheduler, until it moves itself",
      "A coroutine and everything it awaits run only on the thread driving the scheduler it was started on, whichever thread completes what it waits for, until it executes via(other), after which all of them continue on the other scheduler. this_scheduler, current_scheduler, the current task and the root state seen inside, at any nesting depth, are those of the task, before and after moving.",
      ["schedules", "programs"], "all small task programs that move between up to three schedulers while other threads complete their awaits, start and finish tasks",
      "The scheduler-switch tutorial moves a few coroutines between two threads and prints the ids.",
      [I + "switch_scheduler.h", I + "current_scheduler.h", I + "state.h", "source/state.cpp", "source/scheduler.cpp", I + "promise.h", I + "promise.inl"],
      [("scheduler of a state, inherited from its parent", I + "state.h"), ("moving the task between the schedulers' tables", "source/state.cpp")],
      "a reference model of each task's home scheduler and identity"),
    p("C03", "A scheduler runs what became ready in order, one batch at a time",
      "Coroutines that become ready on a scheduler (started, yielding, completed from elsewhere, moved there) are resumed in the order in which they became ready. run_one_batch resumes exactly those that were ready when the batch was taken, each once; what becomes ready during the batch, a yield included, waits for the next one, so nobody is starved; and it reports true exactly if it ran something.",
      ["schedules", "programs"], "all small task programs with yields, awaits, starts and moves from several threads, under all interleavings",
      "Tests do not observe the relative order of coroutines that become ready concurrently.",
      ["source/scheduler.cpp", I + "scheduler.h", I + "yield.h", I + "generator.h", "source/state.cpp", I + "state.inl"],
      [("swap of the ready queue into a batch", "source/scheduler.cpp"), ("append under the queue's lock", I + "scheduler.h")],
      "an interval-order check: ready before means run before, batch by batch"),
    p("C04", "An awaited asynchronous result is delivered exactly once, whoever wins the race",
      "When an asynchronous operation hands out a future and its result or exception is set from any thread or coroutine, before, during or after the future is awaited, the awaiting coroutine resumes exactly once, on the scheduler it belongs to, and receives exactly that value, reference or exception.",
      ["schedules", "histories"], "all interleavings of the thread that sets the result or exception with the coroutine that awaits it; value, void, reference, move-only and string results",
      "The tutorials set the value from a thread that sleeps first, so the completing side always loses the race.",
      [I + "awaitable.h", I + "future.h", I + "state.h", I + "state.inl", "source/state.cpp", I + "promise.h"],
      [("state lock around result and waiter", I + "state.inl"), ("await_transform hands the scheduler to the future", I + "promise.h"), ("resume through the scheduler's queue", "source/scheduler.cpp")],
      "an exactly-once value model", state=[("_has_value / _coro", "result present / coroutine to resume", I + "state.h")]),
    p("C05", "Nested coroutines hand their result or exception to the one awaiting them",
      "A coroutine that awaits another coroutine, at any depth, continues after that one has finished and receives exactly the value (moved), reference or void it returned, or the exception it threw, which can be caught at any level above and otherwise travels on; nothing is delivered twice or lost when levels suspend or move to other schedulers in between, and every intermediate value is destroyed.",
      ["programs", "schedules"], "all call chains up to depth five over six result types with a throw and a catch at any level and a suspension or move at the bottom, run concurrently",
      "The tutorials use fixed chains of two levels with one value type.",
      [I + "future.h", I + "promise.h", I + "promise.inl", I + "state.h", I + "state.inl", "source/state.cpp"],
      [("parent link set when awaiting", I + "state.inl"), ("result kept in the state until the parent resumes", I + "state.h")],
      "an evaluation model of the call chain"),
    p("C06", "A channel passes every value on once, in order, within its capacity",
      "Every value written to a channel_t is read by exactly one reader, unchanged and never before it was written; no value is invented, lost or read twice. Values leave in the order in which their writes took effect and go to readers in the order in which those began to wait; at most capacity() writes are complete that no read has begun to take, an unbuffered channel hands over directly. All this holds for copies of the channel used by coroutines on several schedulers and by plain threads at once, for every value type including move-only ones, and after the last copy is gone nothing kept inside it survives.",
      ["schedules", "programs"], "all programs of up to five coroutines and two plain threads over one to three schedulers, capacities 0 to 4, all template variants of the channel, reads in all three spellings, ends that drop their copy while they wait",
      "Conservation and order must hold for every interleaving of readers, writers and the ring's wrap-around; a test sees one.",
      [I + "channel_v2.h", I + "channel_v2.inl", I + "ring_queue.h", I + "intrusive_link_queue.h"],
      [("ring buffer with one spare slot", I + "ring_queue.h"), ("waiting readers and writers in intrusive queues, values handed over under the lock", I + "channel_v2.inl")],
      "unique values; order by acyclicity of the precedence between (write, read) pairs; capacity and conservation counts over the history"),
    p("C07", "No reader or writer of a channel is left waiting when it could go on",
      "A read of a channel_t (or wait on a semaphore_t) waits only while the channel holds no value and no writer waits, a write only while the channel is full and no reader waits; as soon as the other side acts the waiting one is resumed, exactly once, on its own scheduler. This holds for coroutines and for plain threads that use the same statements outside any coroutine, and does not depend on who holds the last copy of the channel. (An unbuffered channel needs a coroutine on one side: two plain threads, which both only poll, never meet.)",
      ["schedules", "programs"], "as for C06, including programs in which the waiting users hold the only copies of the channel",
      "A wake-up lost between the check and the suspension needs one particular interleaving of two threads.",
      [I + "channel_v2.h", I + "channel_v2.inl", I + "state.h"],
      [("try, else enqueue, under one lock", I + "channel_v2.inl"), ("the awaiter's destructor polls when it was never awaited", I + "channel_v2.inl")],
      "exact accounting whenever the whole system has come to rest: who waits against what the channel holds; then progress when fed or drained"),
    p("C08", "A thread keeps its own scheduler; a scheduler may change drivers",
      "this_scheduler() in a thread is the scheduler its first living local_scheduler_t created or was given, however many more are nested inside, and the global one before that and again after the creator is gone; other threads are never affected. A scheduler may be driven by several threads one after another, each bound to it by a local_scheduler_t: its coroutines, timers and moves between schedulers just continue there, each step exactly once, with this_scheduler() and the coroutine's current scheduler equal to it all the time.",
      ["schedules", "programs"], "all small programs of nested local_scheduler_t scopes, schedulers handed from thread to thread at arbitrary batches, and threads that create and destroy schedulers meanwhile",
      "The tutorials bind one scheduler per thread for the thread's whole life.",
      [I + "scheduler.h", "source/scheduler.cpp", I + "current_scheduler.h", I + "switch_scheduler.h"],
      [("thread-local pointer set by the first local_scheduler_t", "source/scheduler.cpp")],
      "a stack model of each thread's binding and a step count per coroutine"),
    p("C09", "An event counts signals and wakes exactly that many waiters in arrival order",
      "Signals of an event accumulate and each is consumed by exactly one wait; a wait returns at once if a signal is pending and otherwise suspends until signalled, suspended waiters being released in the order they began to wait. signal_all releases all waiters present at that moment, reset forgets pending signals, and no signal is ever lost or used twice, from whichever threads these are called.",
      ["schedules", "histories"], "all histories of signal, signal_all, reset and wait on shared events from several coroutines, schedulers and plain threads",
      "The tutorials run a handful of waiters with one signalling thread and check the outcome by eye.",
      [I + "event_v2.h", I + "event_v2.inl", "source/event_v2.cpp", I + "intrusive_link_queue.h"],
      [("counter and waiter queue under one lock", "source/event_v2.cpp"), ("FIFO of suspended waiters", I + "intrusive_link_queue.h")],
      "a linearizability check against a counting FIFO model"),
    p("C10", "A timed event wait ends once: by a signal, or not before its deadline",
      "A wait on an event with a duration or a point in time either consumes exactly one signal and reports success, or reports a timeout no earlier than its deadline and leaves every signal to others; it always ends, even if the event disappears meanwhile. A timed-out waiter is forgotten: later signals go to waiters that are still there.",
      ["schedules", "histories", "fault_sequences"], "all interleavings of signals, deadlines and other waiters, including signals that arrive at the deadline, zero and negative timeouts, and destruction of the event",
      "The timeout tutorial samples one fixed timing in real time; the race of signal against timeout needs a particular schedule.",
      [I + "event_v2.h", I + "event_v2.inl", "source/event_v2.cpp", I + "timer.h", "source/timer.cpp"],
      [("one winner between timer callback and notify", I + "event_v2.inl"), ("removal of a timed-out waiter from the queue", "source/event_v2.cpp")],
      "a linearizability check against a counting FIFO model with deadlines"),
    p("C11", "Waiting for all of several events is all-or-nothing",
      "Waiting for all of a set of events succeeds only by taking one signal from each of them, and succeeds as soon as each has had one for it; with a timeout it either succeeds that way or reports failure no earlier than the deadline, and then the coroutine resumes exactly once and stays usable. It always returns once its events are signalled often enough or its deadline passes.",
      ["schedules", "histories"], "all histories of wait_all / wait_all_for over subsets of shared events racing with signals, other waiters and deadlines",
      "The tutorials only wait for all of a few private events with signals spaced out in time.",
      [I + "event_v2.h", I + "event_v2.inl", "source/event_v2.cpp"],
      [("shared countdown over the awaited events", I + "event_v2.inl"), ("timer that gives the partial waits back", I + "event_v2.inl")],
      "a linearizability check against a counting FIFO model"),
    p("C12", "At most one owner is inside a mutex, and only its owner can unlock it",
      "Between acquiring a mutex by any of its locking operations and releasing it, no other root coroutine or thread acquires it; the same root coroutine, including coroutines it awaits, may lock it again without blocking and must unlock it as often. Lock attempts that fail or unlocks by a non-owner change nothing, a guard releases its lock exactly once (on scope exit, early unlock or assignment), and what the previous owner wrote is visible to the next.",
      ["schedules", "histories"], "all histories of lock, try_lock, timed lock, recursive lock, unlock and guard operations from several root coroutines and plain threads",
      "The tutorial has a few coroutines incrementing a counter; exclusion must hold for every interleaving and every mix of operations.",
      [I + "mutex_v2.h", I + "mutex_v2.inl", "source/mutex_v2.cpp"],
      [("owner and counter under a lock", "source/mutex_v2.cpp"), ("ownership by root coroutine", I + "current_scheduler.h"), ("guard object", I + "mutex_v2.h")],
      "a linearizability check against an owner/recursion model and a race detector"),
    p("C13", "Every mutex waiter gets its turn, in order, or times out on time",
      "Coroutines suspended on a mutex acquire it in the order they began to wait, each as soon as its predecessor has released it, on their own scheduler; nobody waits for ever while the mutex keeps being released. All of this also when the mutex_t object is destroyed while they wait (a guard keeps the lock itself alive). A timed lock attempt either acquires or reports failure no earlier than its deadline, and after a failure it never receives the mutex and does not delay others.",
      ["schedules", "histories", "fault_sequences"], "all interleavings of waiters, releases and expiring deadlines",
      "Fairness and the release-versus-timeout race depend on schedules a test does not control.",
      [I + "mutex_v2.h", I + "mutex_v2.inl", "source/mutex_v2.cpp", I + "timer.h"],
      [("hand-off to the first waiter on unlock", "source/mutex_v2.cpp"), ("removal of a timed-out waiter", "source/mutex_v2.cpp")],
      "a linearizability check against a FIFO hand-off model with deadlines, plus bounded progress"),
    p("C14", "Locking several mutexes at once never deadlocks and holds all of them",
      "When coroutines lock sets of two or more mutexes together, in whatever order each names them, every one of them eventually proceeds as long as the owners release, holds all of its mutexes exclusively while inside, and releases each exactly once. No order of naming, thread or schedule leads to a deadlock.",
      ["schedules", "programs"], "all overlapping sets and orders of mutexes named by concurrent coroutines on several schedulers, mixed with single locks",
      "A deadlock between batch lockers needs opposite orders to meet at the wrong instant.",
      [I + "mutex_v2.h", I + "mutex_v2.inl", I + "without_deadlock_assemble.inl"],
      [("back off and retry from the mutex that was busy", I + "without_deadlock_assemble.inl")],
      "exclusion invariants and bounded progress"),
    p("C15", "A timer's callback runs exactly once: in order and never early, or cancelled",
      "Each timer added from any thread has its callback called exactly once: with an expiry, never before its deadline, in deadline order (timers with equal deadlines in the order they were added) and in the first batch that starts at or after the deadline, or as cancelled if it was stopped or cleared first or the manager is destroyed. stop() reports success at most once and only for a timer that then does not expire, and it succeeds as long as the timer is pending; callbacks may themselves add, stop or clear timers.",
      ["schedules", "histories", "fault_sequences"], "all histories of add, stop and clear from several threads and from callbacks, with clock steps and destruction of the manager",
      "The timer tutorial prints a few expiries in real time; races with stop() and equal deadlines are left to chance.",
      [I + "timer.h", "source/timer.cpp", "source/scheduler.cpp"],
      [("ordered map of running timers plus queue of additions under a lock", "source/timer.cpp"), ("target state machine", I + "timer.h")],
      "an exactly-once/deadline-order model over the callback history"),
    p("C16", "A sleeping coroutine wakes exactly once, not early, on its own scheduler",
      "A coroutine that sleeps for a duration or until a point in time resumes exactly once, on its own scheduler, not before the deadline on the clock it used; it receives a cancellation exception only if its timer was cancelled. It always wakes once the deadline has passed and its scheduler runs, whatever steps the clock made.",
      ["schedules", "fault_sequences"], "all sleeps of concurrent coroutines on several schedulers, with clock jumps forwards and backwards and timers being cleared",
      "Tests sleep in real time with margins; they cannot step the clock or order wake-ups.",
      [I + "sleep.h", "source/sleep.cpp", I + "timer.h", "source/timer.cpp"],
      [("timer completes an awaitable", "source/sleep.cpp")],
      "an exactly-once/never-early model on a simulated clock"),
    p("C17", "when_all resumes its waiter once, after all, with every result in its place",
      "co_await when_all over any number of futures, callables or awaitables, given as arguments, a container or a range, on the caller's or another scheduler, resumes the waiter exactly once, on its own scheduler, after every task has finished and not before, with each task's result in the position of that task, whatever threads and schedulers the tasks finish on and however late the combination is awaited; each task runs exactly once, and nothing the combination uses is touched after it is gone.",
      ["schedules", "programs"], "all combinations of zero to four tasks of mixed forms and types whose tasks yield, sleep, move to other schedulers, are completed by threads or are combinations themselves",
      "The tutorial combines a few sleeping tasks on one scheduler; the last task finishing while the waiter suspends, or two finishing at once on different threads, is never arranged.",
      [I + "when_v2.h", "source/when_v2.cpp", I + "state.h"],
      [("countdown of unfinished tasks and the waiter's handle under a lock", "source/when_v2.cpp"), ("a connector coroutine per task", I + "when_v2.h")],
      "an exactly-once join model with distinct values per task"),
    p("C18", "when_any resumes its waiter once with one finished task's index and result",
      "co_await when_any over any non-empty set of tasks resumes the waiter exactly once, on its own scheduler, as soon as a task has finished normally, with that task's index and its result in its own type (copied where the task returned a reference, which stays as it is); tasks still unfinished, or failed, do not keep the waiter waiting and are never reported, and the other tasks run on to their end exactly once without disturbing the waiter or touching freed memory.",
      ["schedules", "programs"], "all combinations of one to four tasks of mixed forms and types, some of which finish only after the waiter went on or fail, on one or several schedulers",
      "Which task wins, and what the losers do after the waiter has gone, depends on the schedule.",
      [I + "when_v2.h", "source/when_v2.cpp", I + "state.h"],
      [("first result kept in the shared state, later ones dropped", I + "when_v2.h"), ("counter taken to zero by the first to finish", "source/when_v2.cpp")],
      "an exactly-once first-result model with distinct values per task"),
    p("C19", "A stop request is seen by all, wins once, and runs every callback at most once",
      "For all stop_source, stop_token and stop_callback objects that share one state: exactly one request_stop() returns true; from then on every stop_requested() is true, before it none is; stop_possible() is true while a source exists or the stop was requested. Each callback registered before the request runs exactly once, in the requesting thread before request_stop() returns; one registered after it runs at once in its registering thread; one deregistered before it never runs; deregistering waits for a callback that is running in another thread but not for itself. Callbacks may register, deregister, query and request again. The shared state lives as long as any object uses it, and a task's own source and tokens behave alike.",
      ["schedules", "programs"], "all programs of copies, moves, drops, queries, registrations, deregistrations and requests by several threads over plain sources and the source of a running task, including first uses racing each other",
      "Request against registration, deregistration and the last owner's release is a race of several threads in a lock-free protocol.",
      [I + "stop_token.h", I + "rf_task.h", "source/rf_task.cpp"],
      [("one atomic word of lock, stop bit and owner counts", I + "stop_token.h"), ("callback list walked by the requester, a flag in the callback's own frame when it deletes itself", I + "stop_token.h"), ("a task creates its source on first use", I + "rf_task.h")],
      "interval rules around the one winning request over the recorded history; use-after-free, race and leak detection"),
    p("C20", "Stopping all of a scheduler's work reaches every stop-aware task and timer",
      "scheduler_t::request_stop_all_if_possible() requests the stop of every task of that scheduler that has asked for its stop source or token and has not ended, exactly as if each source had been requested, and cancels every pending timer of the scheduler: its callback runs once with canceled = true and sleeping coroutines get a timer_canceled_exception. Tasks that never asked for a token, other schedulers' tasks and work started afterwards are not affected, and stop or timer callbacks may use the scheduler freely. Afterwards the scheduler goes on working.",
      ["schedules", "programs"], "all mixes of callback, polling, sleeping, plain and timer victims on one to three schedulers, stop-all calls from the schedulers' own threads, individual requests racing with them and callbacks that start, stop or nest further work",
      "What is reached depends on which tasks have begun, ended or asked for a token at that moment of the schedule.",
      [I + "scheduler.h", "source/scheduler.cpp", I + "rf_task.h", I + "timer.h", "source/timer.cpp"],
      [("walk over the registered tasks, then clear the timers", "source/scheduler.cpp")],
      "a model of which tasks and timers were alive and aware at each stop-all call, checked over the history"),
    p("C23", "Spinlocks exclude; locking a batch of locks takes all, without deadlock",
      "At most one thread is between a successful lock()/try_lock() of a spinlock and its unlock(), the writes of one owner are visible to the next, try_lock() fails only while somebody else has the lock, and every lock() succeeds once the owners release. batch_lock_t holds every lock of its container (spinlocks, std::mutex or references to them, in any order and overlap) from construction on and releases each exactly once, by its destructor, unlock() or the guard it was moved to; threads that lock overlapping batches in any order never deadlock.",
      ["schedules", "programs"], "all small programs of two to four threads over up to five spinlocks and mutexes locked singly, by standard guards and in batches of any order, size and ownership form",
      "Exclusion, visibility and freedom from deadlock must hold for every interleaving and memory order; nothing in the test programs measures them.",
      [I + "spinlock.h", I + "without_deadlock_assemble.inl"],
      [("compare-and-swap with acquire, store with release", I + "spinlock.h"), ("hold one, try the rest, back off to the one that was busy", I + "without_deadlock_assemble.inl")],
      "exclusion invariants, happens-before race detection, interval rule for failed attempts and bounded progress"),
    p("C26", "The asio adapter delivers an operation's result or error to its coroutine",
      "An asio asynchronous operation started with asio::rf_task yields a future whose await returns exactly the values passed to the completion handler (none, one, or several as a tuple, move-only ones included) or throws exactly the error_code (as system_error) or exception passed to it, once, on the awaiting coroutine's scheduler, whichever thread calls the handler, before, while or after the coroutine awaits.",
      ["schedules", "programs"], "all interleavings of completion and await over ten completion signatures, completion at once, from I/O threads and from other coroutines",
      "The repository has no test for the adapter; its benchmark moves bytes over one connection.",
      ["asio/asio_task_1.12.2.inl", "asio/asio_task.h", I + "state.h", I + "state.inl", "source/state.cpp"],
      [("handler and future share one state", "asio/asio_task_1.12.2.inl")],
      "an exactly-once value model",
      note="Runs the installed asio headers' token machinery and the repository's adapter; the I/O itself is a simulated thread. The two older variants of the adapter are selected only by asio versions that are not installed. "),
    ]
P.sort(key=lambda q: q["id"])
NA = [
    dict(prop=p("C22", "Iterating a generator yields its values in order, once each",
                "A for loop over a generator_t receives each co_yielded value in order and ends when the generator ends; destroying the generator early destroys its frame.",
                ["programs"], "all generator bodies and loops that end early", "Covered by inspection of single threaded programs only.",
                [I + "generator.h"], [("resume in begin() and operator++", I + "generator.h")], "none"),
         reason="Iteration is a purely sequential, single threaded use of a compiler-generated frame: no schedule, clock, I/O or fault takes part, so a simulator decides nothing a unit test could not. (Generators started as tasks on a scheduler are covered by C01 and C03.)"),
]
