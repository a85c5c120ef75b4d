------------------------------- MODULE Lace -------------------------------
(***************************************************************************)
(* The contract of Lace: what a program that uses the library may observe.  *)
(*                                                                          *)
(* One action per event at the API: session start/stop, spawn, sync, drop,  *)
(* call, run, newframe, together, barrier, suspend, resume, the start and   *)
(* the end of every task body, inspection, statistics and the experiments   *)
(* of the conformance harness.  The guard of an action says when the event  *)
(* is allowed; the properties C01..C20 are exactly these guards (marked) and*)
(* the invariants at the end.  LaceTrace.tla replays recorded executions of *)
(* the real library through these actions, MCLace*.tla explores them.       *)
(*                                                                          *)
(* Threads are numbered: 0..7 are outside threads, 8.. are worker threads.  *)
(* vc is the vector clock of the event (<<>> when not recorded).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  sess,   \* the session: phase, number of workers, deque capacity, stack size, environment
  who,    \* worker id + 1 -> thread (-1: not seen yet)
  stk,    \* worker thread -> stack of task contexts, innermost last
  ext,    \* outside thread -> operation in progress
  tsk,    \* task id + 1 -> task record
  frs,    \* stack of frames, innermost last; frs[1] is the base frame
  nfr,    \* number of frames opened so far (frame uids)
  extrun, \* external submissions executing now
  bar,    \* thread -> number of user barriers entered, with clocks
  aw,     \* reasons to be awake: completed resumes minus completed suspends
  cnt,    \* spawns and stolen tasks since the last reset
  mark,   \* thread -> sharing experiment: marked task and threads idle since then
  wt,     \* thread -> last long wait: what was settled when it began
  must,   \* threads that can only exit now (overflow, injected fault)
  ended   \* the process has ended

vars == <<sess, who, stk, ext, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

NoOp == [k |-> "none", id |-> -1]
Op(k, id) == [k |-> k, id |-> id]
IsWorker(th) == th >= 8
DefaultCap == 100000

(* ---------------------------------------------------------------- clocks *)
\* the clock of thread th in vc; NoClk when clocks are not recorded
NoClk == 0
Own(th, vc) == IF vc = <<>> THEN NoClk ELSE vc[th + 1]
\* event with clock vc is ordered after the event of thread th with own clock c
After(vc, th, c) == IF vc = <<>> \/ th < 0 \/ c = NoClk THEN TRUE ELSE vc[th + 1] >= c

(* --------------------------------------------------------------- helpers *)
Has(th) == th \in DOMAIN stk /\ stk[th] # <<>>
Top(th) == stk[th][Len(stk[th])]
SetTop(th, c) == [stk EXCEPT ![th][Len(stk[th])] = c]
Task(id) == tsk[id + 1]
Known(id) == id >= 0 /\ id < Len(tsk)
Gone == [st |-> "gone", md |-> "-", own |-> -1, cl |-> FALSE, fr |-> 0, by |-> -1, ex |-> FALSE, sc |-> 0, ec |-> 0, cp |-> <<>>, sn |-> 0]
NewTask(md, own, fr, ex, sc) ==
  [st |-> "new", md |-> md, own |-> own, cl |-> FALSE, fr |-> fr, by |-> -1, ex |-> ex, sc |-> sc, ec |-> 0, cp |-> <<>>, sn |-> 0]
Workers == 1 .. sess.nw
ThreadOf(w) == who[w]
KnownThreads == {who[w] : w \in Workers} \ {-1}
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]

(* ---------------------------------------------------------------- frames *)
TopFr == frs[Len(frs)]
BaseFr == [uid |-> 0, kd |-> "base", root |-> -1, done |-> FALSE, cps |-> {}]
\* uids of the frames on the stack
Pos(f) == LET S == {i \in DOMAIN frs : frs[i].uid = f} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* no context of a worker still belongs to frame f
Vacated(f) == \A th \in DOMAIN stk : \A i \in DOMAIN stk[th] : stk[th][i].fr # f
\* [C07,C08,C09] code of frame f may execute now: f is the innermost frame, or all frames above it are
\* finished and nobody is executing anything in them any more
Allowed(f) == /\ Pos(f) > 0
              /\ \A i \in Pos(f) + 1 .. Len(frs) : frs[i].done /\ Vacated(frs[i].uid)
\* the frame stack after code of frame f has executed: the finished frames above it are closed
FrsAfter(f) == SubSeq(frs, 1, Pos(f))

\* the worker's context may execute
Active(th) == Has(th) /\ Allowed(Top(th).fr)
FrsOf(th) == FrsAfter(Top(th).fr)
Ready(th) == IsWorker(th) /\ Active(th) /\ Top(th).op = NoOp /\ th \notin must

(* --------------------------------------------------- interruptible states *)
\* worker th can be executing Lace code that steals, looks for external tasks and joins frames
Waits(th) ==
  IF ~Has(th) THEN TRUE ELSE LET o == Top(th).op IN TRUE = (
     \/ o.k \in {"steal", "yield", "bulk"}
     \/ /\ o.k \in {"sync", "drop"}
        /\ Task(o.id).st \in {"new", "run", "done"}
        /\ Task(o.id).by # th
     \/ /\ o.k \in {"nf", "tg"}
        /\ Task(o.id).st \in {"new", "run", "done"})
\* ... with nothing of its own left to start: required when a frame opens
Interrupted(th) ==
  IF ~Has(th) THEN TRUE ELSE LET o == Top(th).op IN TRUE = (
     \/ o.k \in {"steal", "yield", "bulk", "nf", "tg"}
     \/ o.k \in {"sync", "drop"} /\ Task(o.id).st \in {"run", "done"} /\ Task(o.id).by # th)

\* set of task ids known to be taken by a thief because thread th, waiting in a sync or drop, is seen stealing
TargetOf(th) == IF Has(th) /\ Top(th).op.k \in {"sync", "drop"} THEN {Top(th).op.id} ELSE {}
Claim(t, S) == [i \in DOMAIN t |-> IF (i - 1) \in S /\ t[i].st = "new" THEN [t[i] EXCEPT !.cl = TRUE] ELSE t[i]]

(* ---------------------------------------------------- deque capacity [C13] *)
RECURSIVE SumKids(_)
SumKids(s) == IF s = <<>> THEN 0 ELSE
  LET c == Head(s) IN Len(c.kids) + c.blk + (IF c.op.k \in {"sync", "drop"} /\ (Task(c.op.id).cl \/ Task(c.op.id).by \notin {-1, c.th}) THEN 1 ELSE 0) + SumKids(Tail(s))
Used(th) == SumKids(stk[th])

\* ids outstanding at th that are older than x in the same frame
RECURSIVE Flat(_, _)
Flat(s, f) == IF s = <<>> THEN <<>> ELSE
  (IF Head(s).fr = f THEN Head(s).kids \o (IF Head(s).op.k \in {"sync", "drop"} THEN <<Head(s).op.id>> ELSE <<>>) ELSE <<>>) \o Flat(Tail(s), f)
Older(own, x) ==
  LET l == Flat(stk[own], Task(x).fr)
      P == {j \in DOMAIN l : l[j] = x}
  IN IF P = {} THEN {} ELSE {l[j] : j \in 1 .. ((CHOOSE j \in P : TRUE) - 1)}

(* ================================================================ session *)
Init0(env) ==
  /\ sess = [ph |-> "off", nw |-> 0, cap |-> 0, req |-> 0, stack |-> 0, npus |-> env.npus, rlim |-> env.rlim, counts |-> env.counts, rep |-> 0]
  /\ who = <<>> /\ stk = <<>> /\ ext = <<>> /\ tsk = <<>>
  /\ frs = <<BaseFr>> /\ nfr = 0 /\ extrun = {} /\ bar = <<>> /\ aw = 0
  /\ cnt = [tasks |-> 0, steals |-> 0] /\ mark = <<>> /\ wt = <<>> /\ must = {} /\ ended = FALSE

ExtIdle(th) == ~IsWorker(th) /\ Get(ext, th, NoOp) = NoOp /\ th \notin must /\ ~ended
NoExtBusy == \A t \in DOMAIN ext : ext[t] = NoOp

StartInv(th, n, dq) ==
  /\ ExtIdle(th) /\ sess.ph = "off"
  /\ sess' = [sess EXCEPT !.ph = "starting", !.req = n, !.cap = IF dq = 0 THEN DefaultCap ELSE dq]
  /\ ext' = Put(ext, th, Op("start", -1))
  /\ who' = <<>> /\ stk' = <<>> /\ frs' = <<BaseFr>> /\ bar' = <<>> /\ aw' = 1 /\ mark' = <<>> /\ wt' = <<>>
  /\ cnt' = [tasks |-> 0, steals |-> 0]
  /\ UNCHANGED <<tsk, nfr, extrun, must, ended>>

\* [C12, C17] the session has the requested number of workers and the configured stack size
StartRet(th, n, created, stackkb, getkb) ==
  /\ ~IsWorker(th) /\ Get(ext, th, NoOp).k = "start" /\ sess.ph = "starting"
  /\ n = IF sess.req = 0 THEN sess.npus ELSE sess.req
  /\ created = n
  /\ getkb = sess.stack
  /\ stackkb = IF sess.stack # 0 THEN sess.stack ELSE IF sess.rlim = 0 \/ sess.rlim > 16384 THEN 16384 ELSE sess.rlim
  /\ sess' = [sess EXCEPT !.ph = "on", !.nw = n]
  /\ who' = [w \in 1 .. n |-> -1]
  /\ ext' = Put(ext, th, NoOp)
  /\ UNCHANGED <<stk, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

\* an outside thread becomes active: nobody's long wait was a calm one
Uncalm == [t \in DOMAIN wt |-> [wt[t] EXCEPT !.calm = FALSE]]
AllIdle == \A th \in DOMAIN stk : stk[th] = <<>>

StopInv(th) ==
  /\ ExtIdle(th) /\ sess.ph = "on" /\ NoExtBusy
  /\ sess' = [sess EXCEPT !.ph = "stopping"]
  /\ ext' = Put(ext, th, Op("stop", -1))
  /\ UNCHANGED <<who, stk, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>
StopMid(th) ==
  /\ ~IsWorker(th) /\ Get(ext, th, NoOp).k = "stop" /\ sess.ph = "stopping" /\ AllIdle /\ extrun = {}
  /\ sess' = [sess EXCEPT !.ph = "stopped"]
  /\ UNCHANGED <<who, stk, ext, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>
\* [C12] everything has been released: memory and threads
StopRet(th, live, zombies) ==
  /\ ~IsWorker(th) /\ Get(ext, th, NoOp).k = "stop" /\ sess.ph = "stopped"
  /\ live = 0 /\ zombies = 0
  /\ sess' = [sess EXCEPT !.ph = "off", !.nw = 0]
  /\ ext' = Put(ext, th, NoOp)
  /\ UNCHANGED <<who, stk, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

(* ================================================== events inside a task *)
SetOp(th, o) == stk' = SetTop(th, [Top(th) EXCEPT !.op = o])
Simple(th) == frs' = FrsOf(th)

\* Spawn is recorded just before the spawn is executed
Spawn(th, id, vc) ==
  /\ Ready(th) /\ id = Len(tsk)
  /\ LET c == Top(th) over == Used(th) >= sess.cap IN
     /\ tsk' = Append(tsk, NewTask("spawn", th, c.fr, FALSE, Own(th, vc)))
     /\ stk' = SetTop(th, [c EXCEPT !.kids = Append(@, id)])
     /\ must' = IF over THEN must \cup {th} ELSE must          \* [C13] one too many: nothing but the exit may follow
     /\ cnt' = [cnt EXCEPT !.tasks = @ + 1]
     /\ Simple(th)
     /\ UNCHANGED <<sess, who, ext, nfr, extrun, bar, aw, mark, wt, ended>>

\* operations that submit a task and wait for it: call, run (nested), newframe, together
Submit(th, id, op, ex, vc) ==
  /\ id = Len(tsk)
  /\ \/ /\ Ready(th)
        /\ tsk' = Append(tsk, NewTask(op, th, Top(th).fr, FALSE, Own(th, vc)))
        /\ SetOp(th, Op(op, id)) /\ Simple(th)
        /\ UNCHANGED <<ext, wt>>
     \/ /\ ExtIdle(th) /\ sess.ph = "on" /\ op # "call"
        /\ tsk' = Append(tsk, NewTask(op, th, -1, ex, Own(th, vc)))
        /\ ext' = Put(ext, th, Op(op, id)) /\ wt' = Uncalm
        /\ UNCHANGED <<stk, frs>>
  /\ UNCHANGED <<sess, who, nfr, extrun, bar, aw, cnt, mark, must, ended>>

\* [C03, C05, C07, C08] the submission returns after the task, with its result
Return(th, id, op, ok, vc) ==
  /\ Known(id) /\ ok = 1 /\ Task(id).st = "done" /\ Task(id).md = op
  /\ IF op = "tg" THEN \A i \in DOMAIN Task(id).cp : After(vc, Task(id).cp[i][1], Task(id).cp[i][2])
     ELSE After(vc, Task(id).by, Task(id).ec)
  /\ \/ /\ IsWorker(th) /\ Active(th) /\ Top(th).op = Op(op, id)
        /\ SetOp(th, NoOp) /\ Simple(th) /\ UNCHANGED ext
     \/ /\ ~IsWorker(th) /\ Get(ext, th, NoOp) = Op(op, id)
        /\ ext' = Put(ext, th, NoOp) /\ UNCHANGED <<stk, frs>>
  /\ tsk' = [tsk EXCEPT ![id + 1] = Gone]
  /\ UNCHANGED <<sess, who, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

\* only the most recently spawned task can be synced or dropped
Pop(th, id, op) ==
  /\ Ready(th)
  /\ LET c == Top(th) IN
     /\ c.kids # <<>> /\ c.kids[Len(c.kids)] = id
     /\ stk' = SetTop(th, [c EXCEPT !.kids = SubSeq(@, 1, Len(@) - 1), !.op = Op(op, id)])
  /\ Simple(th)
  /\ UNCHANGED <<sess, who, ext, tsk, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

\* [C01, C02, C03] the task has been executed, its result is returned
SyncRet(th, id, ok, vc) ==
  /\ IsWorker(th) /\ Active(th) /\ Top(th).op = Op("sync", id)
  /\ Task(id).st = "done" /\ ok = 1
  /\ After(vc, Task(id).by, Task(id).ec)
  /\ SetOp(th, NoOp) /\ Simple(th)
  /\ tsk' = [tsk EXCEPT ![id + 1] = Gone]
  /\ UNCHANGED <<sess, who, ext, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

\* [C04] the task never starts any more, or it was stolen and is finished
DropRet(th, id, vc) ==
  /\ IsWorker(th) /\ Active(th) /\ Top(th).op = Op("drop", id)
  /\ \/ Task(id).st = "new" /\ ~Task(id).cl
     \/ Task(id).st = "done" /\ After(vc, Task(id).by, Task(id).ec)
  /\ SetOp(th, NoOp) /\ Simple(th)
  /\ tsk' = [tsk EXCEPT ![id + 1] = Gone]
  /\ UNCHANGED <<sess, who, ext, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

(* ------------------------------------------------------------ task bodies *)
Ctx(th, id, fr) == [th |-> th, id |-> id, fr |-> fr, kids |-> <<>>, blk |-> 0, op |-> NoOp]

\* [C17] identity as seen by the body: own arguments (fl bit 0), worker queries (bits 1, 2), worker count
SeesItself(th, w, fl, n) ==
  /\ IsWorker(th) /\ sess.ph = "on"
  /\ fl = 7 /\ n = sess.nw
  /\ w \in 0 .. sess.nw - 1
  /\ who[w + 1] \in {-1, th}
  /\ \A v \in Workers : who[v] = th => v = w + 1
  /\ who' = [who EXCEPT ![w + 1] = th]

PushCtx(th, c, s) == Put(s, th, Append(Get(s, th, <<>>), c))

\* the owner executes its task itself: at its sync, or directly (call, nested run)
StartInline(th, id, vc) ==
  /\ Active(th) /\ Top(th).op.id = id /\ Task(id).own = th
  /\ \/ Top(th).op.k = "sync" /\ ~Task(id).cl
     \/ Top(th).op.k \in {"call", "run"}
  /\ Task(id).st = "new"
  /\ tsk' = [tsk EXCEPT ![id + 1].st = "run", ![id + 1].by = th]
  /\ stk' = PushCtx(th, Ctx(th, id, Task(id).fr), stk)
  /\ Simple(th)
  /\ UNCHANGED <<nfr, extrun, cnt>>

\* another worker executes a spawned task: it is not taken yet, the thief waits for work, and the older
\* tasks of the owner have been taken before
StartStolen(th, id, vc) ==
  /\ Task(id).md = "spawn" /\ Task(id).own # th /\ Task(id).st = "new"
  /\ Waits(th) /\ Allowed(Task(id).fr)
  /\ After(vc, Task(id).own, Task(id).sc)
  /\ LET S == Older(Task(id).own, id) \cup TargetOf(th) \cup {id} IN
     tsk' = [Claim(tsk, S) EXCEPT ![id + 1].st = "run", ![id + 1].by = th]
  /\ stk' = PushCtx(th, Ctx(th, id, Task(id).fr), stk)
  /\ frs' = FrsAfter(Task(id).fr)
  /\ cnt' = [cnt EXCEPT !.steals = @ + 1]
  /\ UNCHANGED <<nfr, extrun>>

\* [C06] an exclusive submission runs alone
Exclusive(id) == IF Task(id).ex THEN extrun = {} ELSE \A x \in extrun : ~Task(x).ex

\* [C07, C08, C09] frame of submission id can open: every other worker is interrupted (or idle), competing
\* callers wait
CanOpen(th, id) ==
  /\ Task(id).st = "new"
  /\ IF IsWorker(Task(id).own)
     THEN /\ Has(Task(id).own) /\ Top(Task(id).own).op.id = id
          /\ Allowed(Top(Task(id).own).fr)
     ELSE Exclusive(id)
  /\ \A t \in KnownThreads \cup {th} : Interrupted(t)
  /\ LET base == IF IsWorker(Task(id).own) THEN FrsOf(Task(id).own) ELSE frs
         f == base[Len(base)]
     IN /\ f.kd = "tg" => (f.done \/ Cardinality(f.cps) = sess.nw)
        /\ f.root # -1 => Task(f.root).st # "open"
OpenFrs(id) == IF IsWorker(Task(id).own) THEN FrsOf(Task(id).own) ELSE frs
AddExt(id) == IF IsWorker(Task(id).own) THEN extrun ELSE extrun \cup {id}
NewFr(id, c) == [uid |-> nfr + 1, kd |-> Task(id).md, root |-> id, done |-> FALSE, cps |-> c]
Pending == {i \in 0 .. Len(tsk) - 1 : Task(i).md = "nf" /\ Task(i).st = "new"}

\* A worker picks up an external submission.  It executes it in the frame it is waiting in: the innermost
\* one, or a lower one if those above are finished, or one that has just been opened by a NEWFRAME
\* whose body has not started yet (not visible in a trace: nondeterministic).
StartExternal(th, id, vc) ==
  /\ Task(id).md = "run" /\ ~IsWorker(Task(id).own) /\ Task(id).st = "new"
  /\ Waits(th) /\ Exclusive(id)
  /\ After(vc, Task(id).own, Task(id).sc)
  /\ LET t == Claim(tsk, TargetOf(th)) IN
     \/ \E i \in DOMAIN frs :
          /\ Allowed(frs[i].uid)
          /\ (frs[i].kd = "tg") => th \in frs[i].cps
          /\ tsk' = [t EXCEPT ![id + 1].st = "run", ![id + 1].by = th, ![id + 1].fr = frs[i].uid]
          /\ stk' = PushCtx(th, Ctx(th, id, frs[i].uid), stk)
          /\ frs' = FrsAfter(frs[i].uid)
          /\ extrun' = extrun \cup {id}
          /\ UNCHANGED nfr
     \/ \E p \in Pending :
          /\ CanOpen(th, p) /\ Task(p).own # th
          /\ IsWorker(Task(p).own) \/ ~Task(id).ex
          /\ nfr' = nfr + 1
          /\ frs' = Append(OpenFrs(p), NewFr(p, {}))
          /\ tsk' = [t EXCEPT ![p + 1].st = "open", ![id + 1].st = "run", ![id + 1].by = th, ![id + 1].fr = nfr + 1]
          /\ stk' = PushCtx(th, Ctx(th, id, nfr + 1), stk)
          /\ extrun' = AddExt(p) \cup {id}
  /\ UNCHANGED cnt

StartNewframe(th, id, vc) ==
  /\ Task(id).md = "nf"
  /\ IsWorker(Task(id).own) => Task(id).own = th
  /\ After(vc, Task(id).own, Task(id).sc)
  /\ tsk' = [tsk EXCEPT ![id + 1].st = "run", ![id + 1].by = th]
  /\ \/ /\ CanOpen(th, id)
        /\ nfr' = nfr + 1
        /\ frs' = Append(OpenFrs(id), NewFr(id, {}))
        /\ stk' = PushCtx(th, Ctx(th, id, nfr + 1), stk)
        /\ extrun' = AddExt(id)
     \/ /\ Task(id).st = "open" /\ Interrupted(th)
        /\ TopFr.root = id
        /\ stk' = PushCtx(th, Ctx(th, id, TopFr.uid), stk)
        /\ UNCHANGED <<nfr, frs, extrun>>
  /\ UNCHANGED cnt

\* the first copy opens the frame, the others join; one copy per worker
StartTogether(th, id, vc) ==
  /\ Task(id).md = "tg"
  /\ After(vc, Task(id).own, Task(id).sc)
  /\ \/ /\ CanOpen(th, id)
        /\ nfr' = nfr + 1
        /\ frs' = Append(OpenFrs(id), NewFr(id, {th}))
        /\ stk' = PushCtx(th, Ctx(th, id, nfr + 1), stk)
        /\ extrun' = AddExt(id)
        /\ tsk' = [tsk EXCEPT ![id + 1].st = "run", ![id + 1].by = th]
     \/ /\ Task(id).st = "run"
        /\ TopFr.kd = "tg" /\ TopFr.root = id /\ th \notin TopFr.cps /\ Interrupted(th)
        /\ frs' = [frs EXCEPT ![Len(frs)].cps = @ \cup {th}]
        /\ stk' = PushCtx(th, Ctx(th, id, TopFr.uid), stk)
        /\ UNCHANGED <<nfr, extrun, tsk>>
  /\ UNCHANGED cnt

Start(th, id, w, fl, n, vc) ==
  /\ Known(id) /\ th \notin must
  /\ SeesItself(th, w, fl, n)
  /\ \/ StartInline(th, id, vc)
     \/ StartStolen(th, id, vc)
     \/ StartExternal(th, id, vc)
     \/ StartNewframe(th, id, vc)
     \/ StartTogether(th, id, vc)
  /\ UNCHANGED <<sess, ext, bar, aw, mark, wt, must, ended>>

End(th, id, vc) ==
  /\ Ready(th) /\ Top(th).id = id /\ Top(th).kids = <<>> /\ Top(th).blk = 0
  /\ stk' = [stk EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)]
  /\ LET f == FrsOf(th) k == Len(f) IN
     IF Task(id).md = "tg"
     THEN LET cp == Append(Task(id).cp, <<th, Own(th, vc)>>) fin == Len(cp) = sess.nw IN
          /\ tsk' = [tsk EXCEPT ![id + 1].cp = cp, ![id + 1].st = IF fin THEN "done" ELSE "run"]
          /\ frs' = [f EXCEPT ![k].done = fin]
          /\ extrun' = IF fin THEN extrun \ {id} ELSE extrun
     ELSE /\ tsk' = [tsk EXCEPT ![id + 1].st = "done", ![id + 1].ec = Own(th, vc)]
          /\ frs' = IF Task(id).md = "nf" THEN [f EXCEPT ![k].done = TRUE] ELSE f
          /\ extrun' = extrun \ {id}
  /\ UNCHANGED <<sess, who, ext, nfr, bar, aw, cnt, mark, wt, must, ended>>

(* ------------------------------------------------------------------ bulks *)
\* n tasks of a kind that does nothing visible, spawned (1: begin, 2: end) and later synced or dropped together (3, 4),
\* or each synced or dropped at once (5, 6).  They fill the deque; others may steal and execute them without an event.
\* [C01, C02, C04] ok: every one was executed exactly once with its own result, a dropped one not at all or by a thief
\* [C19] stolen: how many were executed by others.  While a bulk is being closed its part of the deque is left open:
\* programs of the harness do not fill a deque from there.
Bulk(th, n, what, ok, stolen) ==
  /\ IF what \in {4, 6}
     THEN /\ IsWorker(th) /\ Active(th) /\ th \notin must /\ Top(th).op.k = "bulk" /\ ok = 1
          /\ SetOp(th, NoOp) /\ cnt' = [cnt EXCEPT !.steals = @ + stolen] /\ UNCHANGED must
     ELSE /\ Ready(th)
          /\ LET c == Top(th) over == Used(th) + (IF what = 1 THEN n ELSE 1) > sess.cap IN
             CASE what = 1 -> /\ stk' = SetTop(th, [c EXCEPT !.blk = @ + n]) /\ cnt' = [cnt EXCEPT !.tasks = @ + n]
                              /\ must' = IF over THEN must \cup {th} ELSE must
               [] what = 2 -> c.blk = n /\ UNCHANGED <<stk, cnt, must>>
               [] what = 3 -> c.blk = n /\ stk' = SetTop(th, [c EXCEPT !.blk = 0, !.op = Op("bulk", -1)]) /\ UNCHANGED <<cnt, must>>
               [] what = 5 -> /\ SetOp(th, Op("bulk", -1)) /\ cnt' = [cnt EXCEPT !.tasks = @ + n]
                              /\ must' = IF over THEN must \cup {th} ELSE must
  /\ Simple(th)
  /\ UNCHANGED <<sess, who, ext, tsk, nfr, extrun, bar, aw, mark, wt, ended>>

(* ---------------------------------------------- other operations of a task *)
Begin(th, op) ==
  /\ Ready(th) /\ SetOp(th, Op(op, -1)) /\ Simple(th)
  /\ UNCHANGED <<sess, who, ext, tsk, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>
Finish(th, op) ==
  /\ IsWorker(th) /\ Active(th) /\ Top(th).op = Op(op, -1) /\ SetOp(th, NoOp) /\ Simple(th)
  /\ UNCHANGED <<sess, who, ext, tsk, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

\* [C10] user barrier: generation k is left only after all workers entered it
BarRec(th) == Get(bar, th, [n |-> 0, c |-> <<0, 0>>])
Bar(th, vc) ==
  /\ Ready(th) /\ SetOp(th, Op("bar", -1)) /\ Simple(th)
  /\ LET b == BarRec(th) IN bar' = Put(bar, th, [n |-> b.n + 1, c |-> [b.c EXCEPT ![1 + (b.n % 2)] = Own(th, vc)]])
  /\ UNCHANGED <<sess, who, ext, tsk, nfr, extrun, aw, cnt, mark, wt, must, ended>>
BarRet(th, vc) ==
  /\ IsWorker(th) /\ Active(th) /\ Top(th).op.k = "bar"
  /\ LET g == BarRec(th).n IN
     \A w \in Workers : /\ who[w] # -1 /\ BarRec(who[w]).n >= g
                        /\ After(vc, who[w], BarRec(who[w]).c[1 + ((g - 1) % 2)])
  /\ SetOp(th, NoOp) /\ Simple(th)
  /\ UNCHANGED <<sess, who, ext, tsk, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

\* Thread th is about to wait for so long that every other thread completes what it is doing.  Recorded: which of
\* its tasks are taken or finished already, which workers have nothing to do, whether no outside thread is active.
NoWait == [calm |-> FALSE, taken |-> {}, done |-> {}]
WaitRec(th) == Get(wt, th, NoWait)
NoMark == [id |-> -1, idle |-> {}]
\* workers that have nothing to do but steal from th (or help th)
IdleFor(th) == {w \in Workers : who[w] # th /\
   IF who[w] = -1 THEN TRUE ELSE IF ~Has(who[w]) THEN TRUE ELSE IF Top(who[w]).fr < Top(th).fr THEN TRUE  \* interrupted
   ELSE LET o == Top(who[w]).op IN IF o.k \in {"sync", "drop"} THEN Task(o.id).st = "run" /\ Task(o.id).by = th ELSE FALSE}
\* workers that wait for a task of a third worker which has nothing to share: they also help th, though less often
HelpFor(th) == {w \in Workers : who[w] \notin {-1, th} /\ Has(who[w]) /\
   LET o == Top(who[w]).op IN IF o.k \in {"sync", "drop"} THEN
      LET t == Task(o.id) IN t.st = "run" /\ t.by \notin {th, who[w]} /\ Has(t.by) /\ Top(t.by).id = o.id /\ Top(t.by).kids = <<>> /\ Top(t.by).op = NoOp
   ELSE FALSE}
\* long: more than ten times as long, time enough for helpers
Wait(th, long) ==
  /\ IF IsWorker(th)
     THEN /\ Ready(th) /\ Simple(th)
          /\ LET K == {Top(th).kids[i] : i \in DOMAIN Top(th).kids} IN
             wt' = Put(wt, th, [calm |-> FALSE, taken |-> {x \in K : Task(x).st # "new"}, done |-> {x \in K : Task(x).st = "done"}])
          /\ mark' = IF th \in DOMAIN mark THEN [mark EXCEPT ![th].idle = @ \cap (IdleFor(th) \cup (IF long = 1 THEN HelpFor(th) ELSE {}))] ELSE mark
     ELSE /\ ExtIdle(th) /\ wt' = Put(wt, th, [NoWait EXCEPT !.calm = NoExtBusy])
          /\ UNCHANGED <<frs, mark>>
  /\ UNCHANGED <<sess, who, stk, ext, tsk, nfr, extrun, bar, aw, cnt, must, ended>>

\* [C20] inspection of an outstanding task: what = 0 stolen?, 1 completed?; settled: right after a long wait
Insp(th, id, what, ans, settled, resok, vc) ==
  /\ Ready(th) /\ Simple(th)
  /\ TRUE = (\E i \in DOMAIN Top(th).kids : Top(th).kids[i] = id)
  /\ LET t == Task(id) IN
     IF what = 0
     THEN /\ (ans = 0) => t.sn = 0 /\ ~(settled /\ id \in WaitRec(th).taken)
          /\ tsk' = IF ans = 1 THEN [Claim(tsk, Older(th, id) \cup {id}) EXCEPT ![id + 1].sn = IF @ = 2 THEN 2 ELSE 1] ELSE tsk
     ELSE /\ (ans = 0) => t.sn < 2 /\ ~(settled /\ id \in WaitRec(th).done)
          /\ (ans = 1) => t.st = "done" /\ resok = 1 /\ After(vc, t.by, t.ec)
          /\ tsk' = IF ans = 1 THEN [tsk EXCEPT ![id + 1].sn = 2] ELSE tsk
  /\ UNCHANGED <<sess, who, stk, ext, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

\* [C15] sharing experiment: a = 0 marks the oldest task of the worker nobody has taken, 2 the newest one, when all have just
\* been made available with LACE_MAKE_ALL_SHARED; then comes a long wait, (for 0) a
\* spawn or sync of the owner, and another long wait; if some worker was idle all the time, or was waiting in a sync
\* for another worker's task, the task is taken now
MyList(th) == Flat(stk[th], Top(th).fr)
Share(th, a) ==
  /\ Ready(th) /\ Simple(th)
  /\ LET l == MyList(th) U == {j \in DOMAIN l : Task(l[j]).st = "new" /\ ~Task(l[j]).cl} IN
     IF a # 1 THEN mark' = Put(mark, th, IF U = {} THEN NoMark ELSE [id |-> l[CHOOSE j \in U : \A i \in U : IF a = 0 THEN j <= i ELSE i <= j], idle |-> IdleFor(th) \cup HelpFor(th)])
     ELSE /\ LET m == Get(mark, th, NoMark) IN
             (m.id # -1 /\ TRUE = (\E j \in U : l[j] = m.id)) => m.idle \cap (IdleFor(th) \cup HelpFor(th)) = {}
          /\ UNCHANGED mark
  /\ UNCHANGED <<sess, who, stk, ext, tsk, nfr, extrun, bar, aw, cnt, wt, must, ended>>

\* [C16] outcome of an operation executed while all other threads were halted: 0 spawn, 1 sync or drop, 2 steal.
\* Only a sync or drop of a task that a thief has taken may fail to complete.
Halt(th, ok, what) ==
  /\ IsWorker(th) /\ Has(th)
  /\ IF ok = 1 THEN UNCHANGED tsk
     ELSE /\ what = 1 /\ Top(th).op.k \in {"sync", "drop"}
          /\ LET t == Task(Top(th).op.id) IN TRUE = (t.st = "new" \/ t.by # th)
          /\ tsk' = Claim(tsk, {Top(th).op.id})
  /\ UNCHANGED <<sess, who, stk, ext, frs, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>

(* =============================================== suspend and resume [C11] *)
ExtOp(th, op) ==
  /\ ExtIdle(th) /\ sess.ph = "on" /\ ext' = Put(ext, th, Op(op, -1)) /\ wt' = Uncalm
  /\ UNCHANGED <<sess, who, stk, tsk, frs, nfr, extrun, bar, aw, cnt, mark, must, ended>>
ExtOpRet(th, op, d) ==
  /\ ~IsWorker(th) /\ Get(ext, th, NoOp) = Op(op, -1) /\ ext' = Put(ext, th, NoOp) /\ aw' = aw + d
  /\ UNCHANGED <<sess, who, stk, tsk, frs, nfr, extrun, bar, cnt, mark, wt, must, ended>>
\* k workers are not blocked although everybody had plenty of time
Quiet(th, k) ==
  /\ ExtIdle(th)
  /\ (sess.ph = "on" /\ WaitRec(th).calm) => k = IF aw <= 0 THEN 0 ELSE sess.nw
  /\ UNCHANGED vars

(* ============================================================== the rest *)
\* [C17] queries from an outside thread
ExtQ(th, isw, isnull, n) ==
  /\ ExtIdle(th) /\ isw = 0 /\ isnull = 1 /\ (sess.ph = "on" => n = sess.nw) /\ UNCHANGED vars
Probe(th, n) == ExtIdle(th) /\ n = sess.npus /\ UNCHANGED vars
SetStack(th, kb, got) ==
  /\ ExtIdle(th) /\ got = kb /\ sess' = [sess EXCEPT !.stack = kb]
  /\ UNCHANGED <<who, stk, ext, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must, ended>>
Reset(th) ==
  /\ ExtIdle(th) /\ cnt' = [tasks |-> 0, steals |-> 0]
  /\ UNCHANGED <<sess, who, stk, ext, tsk, frs, nfr, extrun, bar, aw, mark, wt, must, ended>>
\* [C19] the report: number of tasks and of steals+leaps (-1: not counted in this build); fl: sums are consistent
ReportInv(th) == ~IsWorker(th) /\ UNCHANGED vars
Report(th, tasks, steals, fl) ==
  /\ ~IsWorker(th)
  /\ tasks = IF sess.counts % 2 = 1 THEN cnt.tasks ELSE -1
  /\ steals = IF (sess.counts \div 2) % 2 = 1 THEN cnt.steals ELSE -1
  /\ fl = 1
  /\ UNCHANGED vars
Fault(th) ==
  /\ must' = must \cup {th}
  /\ UNCHANGED <<sess, who, stk, ext, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, ended>>
\* [C13] the process exits only because a deque is full (or an allocation failed), with an error status and a message
Exit(th, code, msg) ==
  /\ th \in must /\ code # 0 /\ msg = 1 /\ ended' = TRUE
  /\ UNCHANGED <<sess, who, stk, ext, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must>>
\* the program has ended normally: nothing is left
Fin(th) ==
  /\ ~IsWorker(th) /\ NoExtBusy /\ AllIdle /\ must = {} /\ ended' = TRUE
  /\ \A i \in DOMAIN tsk : tsk[i].st = "gone"
  /\ UNCHANGED <<sess, who, stk, ext, tsk, frs, nfr, extrun, bar, aw, cnt, mark, wt, must>>
=============================================================================
