#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
H = ["src/lace.h", "src/lace14.h", "src/lace.sh"]
C = ["src/lace.c", "src/lace14.c"]
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Every spawned and synced task is executed exactly once",
  "For every fork-join program, number of workers and schedule, each task that is spawned and later synced is executed exactly once, by exactly one worker: never skipped, never run twice, never run by two workers at the same time. A task whose sync has finished is never executed again.",
  ["schedules", "programs"], "all well-formed spawn/call/sync programs, all worker counts, all interleavings of owner and thieves (including those of x86-TSO store buffers), all arities and both builds of the library",
  "The tests compare no value, so a task run twice or dropped goes unnoticed unless the process crashes or hangs; the racy windows (steal against split-point shrink/grow) need specific interleavings of single memory accesses.",
  H + C,
  [("split deque: owner's push/pop and split-point moves", "lace.h NAME##_SPAWN, NAME##_SYNC, NAME##_SYNC_SLOW, lace_shrink_shared"), ("thief's CAS on the tail", "lace.h lace_steal")],
  [("tail/split", "next task to steal / end of the shared part", "lace.h TailSplit"), ("allstolen, movesplit", "all shared tasks stolen; a thief asks for more", "lace.h Worker"), ("thief", "who runs the task", "lace.h Task")],
  ["start and end of user task bodies", "return of SYNC"])
p("C02", "A task receives its own arguments and SYNC returns its own result",
  "In every program and schedule, a task runs with exactly the argument values it was spawned, called or submitted with, and the matching sync, call or submission returns the value that this very execution returned, so the outcome equals that of the sequential program. This holds for every number of parameters the library offers (0-6 in lace, 0-14 in lace14), with and without a return value, whether or not the task was stolen.",
  ["inputs", "programs", "schedules"], "all argument and result values and types that fit a task, every arity, void and non-void, both library variants, stolen and not stolen, all interleavings",
  "Tests use arity 0, 1 and 2 of one variant only and check no result; arities above that are generated text nobody executes, and values of stolen tasks depend on the schedule.",
  H, [("argument packing and unpacking, result field", "lace.h TASK_n/VOID_TASK_n macros (generated by lace.sh)")],
  [("d.args / d.res", "arguments and result share storage in the task slot", "lace.h TD_NAME")], ["argument values seen by bodies", "values returned by SYNC/CALL/RUN/NEWFRAME"])
p("C03", "SYNC waits for its task, and task effects are visible after it",
  "A sync returns only after the matching task (the most recently spawned, not yet synced one) and everything it spawned has finished. Everything done before a spawn happens-before the task's execution, and everything a task did happens-before the return of its sync, in the sense of the C11 memory model, not only by virtue of strong hardware.",
  ["schedules", "programs"], "all programs, interleavings and memory-model behaviours, stolen and unstolen tasks",
  "A premature return or missing memory ordering shows only when a thief is still running at the right instant, and on x86 hardware missing orderings hardly ever show at all.",
  H, [("completion flag and its release/acquire pair", "lace.h lace_steal, lace_leapfrog"), ("publication of the deque by stores to tail/split", "lace.h NAME##_SPAWN")],
  [("thief = completed", "result may be read", "lace.h Task")], ["order of task end and SYNC return", "happens-before clocks"])
p("C04", "A dropped task never runs unless it was already stolen",
  "DROP removes the most recently spawned, not yet synced task: if no other worker had taken it, it is never executed, neither at once nor at any later time; if it was taken, DROP returns only after it finished. In both cases the other outstanding tasks of the worker are unaffected and can be synced, dropped, or re-entered from nested submissions as if the dropped task had never been spawned.",
  ["programs", "schedules", "histories"], "all programs mixing SPAWN, SYNC, DROP and nested re-entry, all interleavings, any later history of the same worker",
  "No test or benchmark uses DROP at all.",
  H + C, [("drop fast and slow path", "lace.h lace_drop, lace_drop_slow, lace_leapfrog"), ("deque head recovery", "lace.c lace_get_head")],
  [("thief", "marks which deque slots are in use", "lace.h Task")], ["starts of user task bodies", "return of DROP"])
p("C05", "RUN from any number of threads: once each, own result, after completion",
  "Each RUN issued from a thread outside Lace executes its task exactly once on a Lace worker and returns, with that task's own result, only after the task has finished. This holds for any number of threads submitting concurrently, while workers are idle, busy, waiting in a sync, or suspended, and when waits are interrupted by signals; no submission is lost, duplicated or answered with another one's result.",
  ["schedules", "histories", "fault_sequences"], "all numbers of external threads and overlapping submissions, all interleavings, interrupted semaphore waits",
  "The tests submit from one thread only, so two submissions never compete for the hand-over slot.",
  C, [("hand-over slot for external tasks", "lace.c lace_run_task, lace_run_task_exclusive, lace_steal_external")],
  [("external_task", "the one pending external task", "lace.c"), ("ExtTask.sem", "completion of the submission", "lace.c")], ["start/end of submitted tasks", "return of RUN"])
p("C06", "An exclusive submission never overlaps another external submission",
  "While a task submitted with RUNEX from outside is executing, no other externally submitted task (RUN or RUNEX) is executing, and vice versa. When it finishes, every waiting submission eventually proceeds, and submissions that are not exclusive may run concurrently with each other.",
  ["schedules", "histories"], "all mixes of concurrent RUN and RUNEX submissions from any number of threads, all interleavings, spurious wakeups",
  "RUNEX is used by no test or benchmark.",
  C, [("counter, flag and condition variable", "lace.c lace_run_task, lace_run_task_exclusive")],
  [("external_task_counter, external_task_exclusive", "running submissions; exclusive one present", "lace.c")], ["start/end of submitted tasks"])
p("C07", "NEWFRAME interrupts everything, isolates its frame, then restores the old one",
  "From the moment the body of a NEWFRAME task starts until it has finished, no worker executes code of the interrupted computation or starts one of its tasks; the workers only execute the new task and tasks belonging to it (or external submissions picked up meanwhile). Afterwards every interrupted computation continues exactly where it was and finishes with the same results, and the caller of NEWFRAME gets the task's result.",
  ["schedules", "programs"], "all interrupted computations (any set of outstanding, shared, stolen tasks on any worker), all points of interruption, all interleavings",
  "The test only checks that nested NEWFRAME/TOGETHER terminates; it observes neither overlap with the interrupted frame nor results.",
  C, [("save/reset/restore of the deque around two barriers", "lace.c lace_exec_in_new_frame"), ("announcement and joining", "lace.c lace_wrap_newframe, lace_yield, lace.h YIELD_NEWFRAME")],
  [("lace_newframe.t", "announced frame", "lace.c"), ("old tail/split/allstolen", "saved frame", "lace.c lace_exec_in_new_frame")], ["all user task events between start and end of the NEWFRAME task"])
p("C08", "TOGETHER runs one copy of the task on every worker, all together",
  "A TOGETHER call executes its task exactly once on each worker, every copy with the arguments of the call, whatever the return type of the task. No copy starts before every worker has stopped executing the interrupted computation, none of the interrupted computation continues before all copies have finished, and the call returns only then.",
  ["schedules", "programs", "configurations"], "all worker counts, all task signatures, all interleavings, called from inside tasks or from outside",
  "The test prints from each copy but checks neither number nor distinctness of workers, arguments or overlap.",
  C, [("per-worker copy, completion counter", "lace.c lace_wrap_together, lace_together_root, lace_exec_in_new_frame")],
  [("finished counter", "copies still running", "lace.c lace_together_root")], ["start/end of the copies and the worker executing them"])
p("C09", "Competing and nested interruptions are all served, one frame at a time",
  "When several workers or outside threads call NEWFRAME or TOGETHER at the same time, or from inside one another, every call is executed exactly once, the frames are properly nested (at any time only the innermost one executes), and all calls return.",
  ["schedules", "programs"], "any number of simultaneous initiators, nested to any depth, all interleavings",
  "The recursive test only shows termination under whatever timings occur; lost or doubly executed interruptions are not observed.",
  C, [("compare-and-swap on the announcement, losers join the winner's frame", "lace.c lace_wrap_newframe, lace_wrap_together, lace_yield")],
  [("lace_newframe.t", "announced frame", "lace.c")], ["start/end of NEWFRAME/TOGETHER tasks", "return of the calls"])
p("C10", "The barrier separates: nobody leaves before everybody entered",
  "When all workers call the barrier (for example from a TOGETHER task, with no further frame being opened meanwhile), no call returns before every worker has entered it, every call returns, and the barrier can be used again immediately, any number of times. Everything a worker did before entering happens-before everything any worker does after leaving (C11).",
  ["schedules", "configurations"], "all worker counts, repeated use, all interleavings and memory-model behaviours",
  "Tests exercise the barrier only implicitly and check no ordering.",
  C, [("sense-reversing counter", "lace.c lace_barrier")],
  [("lace_bar.count/leaving/wait", "arrivals, departures, phase", "lace.c")], ["entry to and return from the barrier", "happens-before clocks"])
p("C11", "Suspend really stops the workers, resume and RUN wake them, nesting counts",
  "After a suspend that balances all earlier resumes, and with no submission in progress, all workers come to rest (blocked, using no CPU) and stay so until a resume or a submission; suspends and resumes nest by counting, a submission while suspended is executed and leaves Lace suspended again, and after any such sequence all workers take part again. No sequence of suspend, resume and submissions by several threads, nor interrupted waits, loses a wake-up or leaves a worker behind.",
  ["schedules", "histories", "fault_sequences"], "all sequences and overlaps of suspend/resume/RUN from several threads, right after start, interrupted semaphore waits, all interleavings",
  "test_suspend alternates one suspend and one resume from one thread and never looks whether workers are at rest.",
  C, [("wake count with intermediate state", "lace.c lace_suspend, lace_resume"), ("parking of workers", "lace.c lace_steal_loop")],
  [("lace_awaken_count", "number of reasons to be awake, -1 in transition", "lace.c"), ("must_suspend, workers_running, suspend_semaphore", "parking protocol", "lace.c")], ["which workers are blocked", "return of suspend/resume/RUN"])
p("C12", "Start and stop can be repeated; stop leaves no worker and no resource behind",
  "Stopping waits until no worker can touch Lace's memory any more, then releases everything the session acquired: all memory and all threads. Lace can be started again any number of times with any number of workers, and each session behaves like the first; it has exactly the requested number of workers, the deque size requested (or the documented default) and the configured stack size, independent of earlier sessions.",
  ["histories", "configurations", "schedules"], "all sequences of start/stop with all parameters, stop while running or suspended, allocation by heap or mmap, all interleavings of exiting workers",
  "Tests run five identical sessions and look at nothing after stop; leaks, stale parameters and late accesses do not fail them.",
  C, [("thread creation and initialisation", "lace.c lace_start, lace_init_worker, lace_worker_thread"), ("shutdown handshake", "lace.c lace_stop")],
  [("workers_running, lace_quits", "shutdown handshake", "lace.c"), ("workers, workers_p, workers_memory", "session memory", "lace.c")], ["allocations, threads and memory accesses after stop"])
p("C13", "Deque capacity: exactly dqsize tasks fit, one more is a clean fatal error",
  "A worker can hold as many outstanding tasks as the deque size of the session, and everything works with a full deque. Spawning one more terminates the process with an error message and non-zero status before anything outside the deque is written; no program makes Lace read or write outside the memory it allocated.",
  ["inputs", "programs", "configurations"], "all deque sizes including very small ones, full deques reached by nesting, leapfrogging, interruption and nested submission, all arities",
  "No test gets near a full deque.",
  H + C, [("overflow check in every SPAWN", "lace.h NAME##_SPAWN, lace.c lace_abort_stack_overflow"), ("search of the head", "lace.c lace_get_head")],
  [("end", "end of the deque", "lace.h WorkerP")], ["process exit", "memory accesses outside allocations"])
p("C14", "Every submitted computation terminates: no deadlock, livelock or lost wake-up",
  "If all tasks terminate by themselves, then under any fair schedule every submission, sync, drop, interruption, barrier, suspend, resume and stop returns, for every worker count including one. No combination of these operations by workers and outside threads leaves a thread waiting forever.",
  ["schedules", "programs", "histories"], "all programs and mixes of operations (used as documented), all fair interleavings, any worker count",
  "A hang needs a rare interleaving; tests run a few hundred million similar steps of two programs.",
  H + C, [("leapfrogging with random stealing", "lace.h lace_leapfrog"), ("frame, external, suspend and stop protocols", "lace.c")],
  [], ["return of every operation"])
p("C15", "Idle workers get work: requests to share are honoured",
  "When a worker has outstanding unstolen tasks and another worker is idle and keeps trying, then after at most a few further spawns or unstolen syncs of that worker one of its tasks, the oldest, becomes available and is stolen and executed by an idle worker; LACE_MAKE_ALL_SHARED makes all of them available at once. The same holds inside a frame, for workers that were interrupted or have finished their copy of a TOGETHER task. A worker waiting for a stolen task helps by executing tasks of the thief or of others instead of just waiting.",
  ["schedules", "programs"], "all states of the deque (all private, partly shared, all stolen), on the spawn path and the sync path, all arities",
  "A library that never shares anything passes every test: results are right, only slower.",
  H, [("split requests and split-point growth", "lace.h NAME##_SPAWN, NAME##_SYNC_SLOW, lace_steal"), ("leapfrogging", "lace.h lace_leapfrog, lace.c lace_steal_random")],
  [("movesplit", "request to share more", "lace.h Worker")], ["which worker executes tasks"])
p("C16", "Spawning is wait-free and stealing is lock-free",
  "A spawn, and a sync or drop of a task nobody has taken, completes in a bounded number of the worker's own steps no matter at which point all other workers are halted. An attempt to steal likewise completes, taking a task or not, no matter where the victim or other thieves are halted.",
  ["schedules"], "all states and all points at which the other threads are stopped",
  "Tests never stop a thread in the middle of an operation.",
  H, [("no locks or waiting in push/pop/steal", "lace.h NAME##_SPAWN, NAME##_SYNC, lace_shrink_shared, lace_steal")],
  [], ["completion of operations while the other threads are halted"])
p("C17", "Worker identity is unique, stable and consistent; nested RUN stays inline",
  "In a session with n workers the ids observed by tasks are 0..n-1, each belonging to exactly one thread for the whole session; the worker count query returns n (all available processors when 0 was requested), the worker query says yes inside tasks and no in outside threads. RUN or RUNEX called from inside a task executes the task directly in the calling worker and returns its result.",
  ["schedules", "configurations", "histories"], "all worker counts, all tasks however started (inline, stolen, external, frames), repeated sessions",
  "Tests print worker ids but never check them, and nested RUN is called once at the top level only.",
  H + C, [("thread-local worker data", "lace.c lace_init_worker, lace_get_worker, lace_is_worker, lace_workers"), ("inline path of RUN", "lace.c lace_run_task, lace_run_task_exclusive")],
  [("current_worker", "worker of this thread", "lace.c")], ["worker id, worker and count queries in every task body"])
p("C18", "Re-entering Lace inside a task never disturbs outstanding tasks",
  "Code inside a task that re-enters Lace without the task's own context (nested RUN/RUNEX, NEWFRAME, TOGETHER, or a helper function that recovers the context) finds the correct position in the worker's deque: whatever it spawns, syncs or drops leaves the tasks outstanding before it intact, and no slot that is not an outstanding task is ever executed. This holds for any number of outstanding tasks, up to a full deque.",
  ["programs", "histories", "inputs"], "any number of outstanding tasks (small, around powers of two, full deque), any earlier history of spawns, syncs and drops, stolen and unstolen",
  "The search for the head uses a linear part and a binary search; tests re-enter with at most a handful of outstanding tasks and no history of drops.",
  C + H, [("head search", "lace.c lace_get_head"), ("slots are marked empty on pop", "lace.h NAME##_SYNC, lace_leapfrog, lace_drop")],
  [("thief = empty", "slot not in use", "lace.h Task")], ["start of task bodies, values returned by later syncs"])
p("C19", "Statistics are exact and harmless",
  "With task counting enabled the reported number of tasks equals the number of spawns since start or the last reset; with steal counting, successful steals plus leaps equal the number of spawned tasks executed by a worker other than their spawner, and tries are never fewer than successes plus busy attempts. Reset sets the counts to zero, the sums equal the per-worker figures, and enabling any statistics option never changes results or makes start, stop or report fail, however short the session.",
  ["configurations", "programs", "schedules"], "all combinations of the statistics options, all programs and schedules, sessions of any length",
  "CI never builds with any of the statistics options.",
  H + C, [("counters", "lace.h PR_COUNTTASK, PR_COUNTSTEALS, lace_time_event; lace.c lace_count_reset, lace_count_report_file")],
  [("ctr", "per-worker counters", "lace.h WorkerP")], ["text of the report"])
p("C20", "Task inspection never lies",
  "Inspecting an outstanding task reports it stolen only if another worker has taken it, and completed only if it has finished and its result is in place and visible; once reported stolen or completed it stays so until synced, and a task that has been taken, or has finished, for long enough is reported so. The result obtained by inspection of a completed task equals the one its sync returns.",
  ["schedules"], "all outstanding tasks at all times, all interleavings and memory orderings",
  "No test inspects tasks.",
  H, [("inspection macros", "lace.h TASK_IS_STOLEN, TASK_IS_COMPLETED, TASK_RESULT"), ("thief field protocol", "lace.h lace_steal")],
  [("thief", "state of the task", "lace.h Task")], ["inspection results against task events"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
