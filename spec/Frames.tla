------------------------------ MODULE Frames ------------------------------
(***************************************************************************)
(* The protocol behind NEWFRAME and TOGETHER (lace.c: lace_wrap_newframe,   *)
(* lace_wrap_together, lace_yield, lace_exec_in_new_frame,                  *)
(* lace_finish_frame, lace_steal_loop) with competing callers, external     *)
(* submissions that open frames, nested frames and stealing.  The deques    *)
(* are abstract (SplitDeque.tla): per worker and frame a list of tasks.     *)
(* The barrier is the one object of the library: all its uses share the     *)
(* count (its internals: Barrier.tla).                                      *)
(*                                                                          *)
(* Task bodies choose their operations nondeterministically within the      *)
(* budgets of the configuration: new frames, together, spawns.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, NFs, TGs, Spawns, Exts, Bug

Workers == 0 .. W - 1
Max == 2 + NFs + TGs + Spawns + Exts
VARIABLES nf,      \* lace_newframe.t: -1 or a frame id
          fq,      \* frame id -> kind, caller, body, finished, done, busy, alive
          bar,     \* barrier: number of arrivals, generation, place of the arrivals
          cs,      \* worker -> stack of activations
          pool,    \* worker -> stack (one entry per frame) of lists of tasks
          ext,     \* external slot: -1 or a task
          left,    \* budgets
          tk       \* task -> runs, finished, state
vars == <<nf, fq, bar, cs, pool, ext, left, tk>>

Top(w) == cs[w][Len(cs[w])]
At(w, l) == cs[w] # <<>> /\ Top(w).pc = l
Set(w, c) == cs' = [cs EXCEPT ![w][Len(cs[w])] = c]
Goto(w, l) == Set(w, [Top(w) EXCEPT !.pc = l])
Push(w, back, a) == cs' = [cs EXCEPT ![w] = Append([@ EXCEPT ![Len(@)].pc = back], a)]
\* f: frame whose code this is (0: base); q: frame whose end stops this loop; x: frame to enter; r: where to return to
Act(k, pc, f, t) == [k |-> k, pc |-> pc, f |-> f, t |-> t, kids |-> <<>>, cur |-> -1, x |-> -1, g |-> 0, r |-> "-", ex |-> FALSE]
Frame0 == [kind |-> "-", who |-> -1, t |-> -1, fin |-> 0, done |-> FALSE, busy |-> 0, alive |-> FALSE, cps |-> {}]
Task0 == [n |-> 0, fin |-> FALSE, st |-> "none"]
NFr == NFs + TGs
Init ==
  /\ nf = -1 /\ fq = [i \in 1 .. NFr |-> Frame0] /\ bar = [n |-> 0, gen |-> 0, at |-> {}]
  /\ cs = [w \in Workers |-> IF w = 0 THEN <<[Act("loop", "idle", 0, -1) EXCEPT !.x = 0], Act("task", "ops", 0, 0)>> ELSE <<[Act("loop", "idle", 0, -1) EXCEPT !.x = 0]>>]
  /\ pool = [w \in Workers |-> << <<>> >>] /\ ext = -1
  /\ left = [nf |-> NFs, tg |-> TGs, sp |-> Spawns, ex |-> Exts, fr |-> 0, tk |-> 1]
  /\ tk = [i \in 0 .. Max |-> IF i = 0 THEN [n |-> 1, fin |-> FALSE, st |-> "run"] ELSE Task0]

\* ------------------------------------------------------------ barrier
\* arrival and departure are separate; at: the places from which this generation was entered
Arrive(w, l, place, m) ==
  /\ At(w, l)
  /\ IF bar.n + 1 = W THEN /\ bar' = [n |-> 0, gen |-> bar.gen + 1, at |-> {}]
                           /\ (bar.at \cup {place}) \subseteq {place}   \* all at the same place, else stuck (checked by SamePlace)
                      ELSE bar' = [bar EXCEPT !.n = @ + 1, !.at = @ \cup {place}]
  /\ Set(w, [Top(w) EXCEPT !.pc = m, !.g = bar.gen])
  /\ UNCHANGED <<nf, fq, pool, ext, left, tk>>
Passed(w) == bar.gen # Top(w).g

\* ------------------------------------------------------------ task bodies
Depth(w) == Len(pool[w])
Mine(w) == pool[w][Depth(w)]
SetPool(w, l) == pool' = [pool EXCEPT ![w][Depth(w)] = l]
Spawn(w) == /\ At(w, "ops") /\ left.sp > 0
            /\ left' = [left EXCEPT !.sp = @ - 1, !.tk = @ + 1]
            /\ tk' = [tk EXCEPT ![left.tk].st = "new"]
            /\ SetPool(w, Append(Mine(w), left.tk))
            /\ Set(w, [Top(w) EXCEPT !.kids = Append(@, left.tk)])
            /\ UNCHANGED <<nf, fq, bar, ext>>
Sync(w) == /\ At(w, "ops") /\ Top(w).kids # <<>>
           /\ LET c == Top(w) id == c.kids[Len(c.kids)] l == Mine(w) c2 == [c EXCEPT !.kids = SubSeq(@, 1, Len(@) - 1), !.cur = id] IN
              IF l # <<>> /\ l[Len(l)] = id
              THEN /\ SetPool(w, SubSeq(l, 1, Len(l) - 1))
                   /\ tk' = [tk EXCEPT ![id].n = @ + 1, ![id].st = "run"]
                   /\ cs' = [cs EXCEPT ![w] = Append([@ EXCEPT ![Len(@)] = [c2 EXCEPT !.pc = "wait"]], Act("task", "ops", c.f, id))]
              ELSE Set(w, [c2 EXCEPT !.pc = "wait"]) /\ UNCHANGED <<pool, tk>>
           /\ UNCHANGED <<nf, fq, bar, ext, left>>
\* sync of a stolen task: wait (stealing back), join frames meanwhile
Wait(w) == /\ At(w, "wait") /\ tk[Top(w).cur].fin
           /\ Set(w, [Top(w) EXCEPT !.pc = "ops", !.cur = -1])
           /\ UNCHANGED <<nf, fq, bar, pool, ext, left, tk>>
EndTask(w) ==
  /\ At(w, "ops") /\ Top(w).kids = <<>>
  /\ tk' = [tk EXCEPT ![Top(w).t].fin = TRUE]
  /\ cs' = [cs EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<nf, fq, bar, pool, ext, left>>
\* the caller: allocate the frame descriptor (on its C stack), then try to publish it
Open(w, kind) ==
  /\ At(w, "ops") /\ (IF kind = "nf" THEN left.nf ELSE left.tg) > 0
  /\ LET f == left.fr + 1 IN
     /\ left' = [left EXCEPT !.fr = f, !.nf = IF kind = "nf" THEN @ - 1 ELSE @, !.tg = IF kind = "tg" THEN @ - 1 ELSE @, !.tk = @ + 1]
     /\ fq' = [fq EXCEPT ![f] = [kind |-> kind, who |-> w, t |-> left.tk, fin |-> W, done |-> FALSE, busy |-> W, alive |-> TRUE, cps |-> {}]]
     /\ Set(w, [Top(w) EXCEPT !.pc = "cas", !.x = f])
  /\ UNCHANGED <<nf, bar, pool, ext, tk>>
Cas(w) ==
  /\ At(w, "cas")
  /\ IF nf = -1 THEN nf' = Top(w).x /\ Goto(w, "cbar")
     ELSE /\ UNCHANGED nf
          /\ IF Bug = "spin" THEN Goto(w, "cas") ELSE Push(w, "cas", [Act("yield", "ybar", Top(w).f, -1) EXCEPT !.x = nf])
  /\ UNCHANGED <<fq, bar, pool, ext, left, tk>>
\* others: at a yield point the descriptor is seen (copied), then all meet
CanYield(w) == /\ \/ At(w, "idle") \/ At(w, "wait") \/ At(w, "fwait")
                  \/ At(w, "tsteal")
               /\ nf # -1
Yield(w) == /\ CanYield(w)
            /\ Push(w, Top(w).pc, [Act("yield", "ybar", Top(w).f, -1) EXCEPT !.x = nf])
            /\ UNCHANGED <<nf, fq, bar, pool, ext, left, tk>>
\* after the barrier of the copies: the caller resets the global; then everybody saves its deque and meets again
CReset(w) == /\ At(w, "cwait") /\ Passed(w)
             /\ nf' = -1
             /\ Push(w, "opsx", [Act("frame", "save", Top(w).f, -1) EXCEPT !.x = Top(w).x])
             /\ UNCHANGED <<fq, bar, pool, ext, left, tk>>
YSave(w) == /\ At(w, "ywait") /\ Passed(w)
            /\ cs' = [cs EXCEPT ![w][Len(cs[w])] = [Act("frame", "save", Top(w).f, -1) EXCEPT !.x = Top(w).x]]
            /\ UNCHANGED <<nf, fq, bar, pool, ext, left, tk>>
Save(w) == /\ At(w, "save") /\ pool' = [pool EXCEPT ![w] = Append(@, <<>>)] /\ Goto(w, "sbar") /\ UNCHANGED <<nf, fq, bar, ext, left, tk>>
\* the root of the frame on this worker
Root(w) ==
  /\ At(w, "swait") /\ Passed(w)
  /\ LET f == Top(w).x q == fq[f] IN
     /\ q.alive
     /\ IF q.kind = "nf" /\ q.who # w
        THEN /\ Push(w, "after", [Act("loop", "idle", f, -1) EXCEPT !.x = f])
             /\ UNCHANGED <<tk, fq>>
        ELSE /\ Push(w, "after", Act("task", "ops", f, q.t))
             /\ tk' = [tk EXCEPT ![q.t].n = @ + 1, ![q.t].fin = FALSE]
             /\ fq' = [fq EXCEPT ![f].cps = @ \cup {w}]
  /\ UNCHANGED <<nf, bar, pool, ext, left>>
\* the root has ended here
After(w) ==
  /\ At(w, "after")
  /\ LET f == Top(w).x IN
     IF fq[f].kind = "nf" THEN /\ fq' = [fq EXCEPT ![f].done = IF fq[f].who = w THEN TRUE ELSE @] /\ Goto(w, "busy")
     ELSE /\ fq' = [fq EXCEPT ![f].fin = @ - 1] /\ Set(w, [Top(w) EXCEPT !.pc = "tsteal"])
  /\ UNCHANGED <<nf, bar, pool, ext, left, tk>>
TDone(w) == /\ At(w, "tsteal") /\ fq[Top(w).x].fin = 0 /\ Goto(w, "busy") /\ UNCHANGED <<nf, fq, bar, pool, ext, left, tk>>
\* lace_finish_frame
Busy(w) == /\ At(w, "busy")
           /\ fq' = [fq EXCEPT ![Top(w).x].busy = @ - 1]
           /\ Goto(w, IF Bug = "nofinish" THEN "ebar" ELSE "fwait")
           /\ UNCHANGED <<nf, bar, pool, ext, left, tk>>
FWait(w) == /\ At(w, "fwait") /\ fq[Top(w).x].busy = 0 /\ Goto(w, IF Bug = "noexitbar" THEN "restore0" ELSE "ebar") /\ UNCHANGED <<nf, fq, bar, pool, ext, left, tk>>
Restore(w) ==
  /\ \/ At(w, "ewait") /\ Passed(w)
     \/ At(w, "restore0")
  /\ pool' = [pool EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
  /\ LET f == Top(w).x rest == SubSeq(cs[w], 1, Len(cs[w]) - 1) IN
     IF fq[f].who = w
     THEN /\ fq' = [fq EXCEPT ![f].alive = FALSE]        \* the caller returns: its C stack is gone
          /\ cs' = [cs EXCEPT ![w] = [rest EXCEPT ![Len(rest)].pc = "ops", ![Len(rest)].x = -1]]
     ELSE cs' = [cs EXCEPT ![w] = rest] /\ UNCHANGED fq
  /\ UNCHANGED <<nf, bar, ext, left, tk>>
\* ------------------------------------------------------------ stealing and external tasks
StealPc(w) == At(w, "idle") \/ At(w, "tsteal") \/ At(w, "wait")
FrameOf(w) == IF At(w, "tsteal") THEN Top(w).x ELSE Top(w).f
Steal(w) ==
  /\ StealPc(w)
  /\ \E v \in Workers \ {w} :
       LET d == Depth(v) l == pool[v][d] IN
       /\ l # <<>>
       /\ (At(w, "wait") => Top(w).cur # Head(l))      \* leapfrogging: from the thief (here: from anybody)
       /\ pool' = [pool EXCEPT ![v][d] = Tail(l)]
       /\ tk' = [tk EXCEPT ![Head(l)].n = @ + 1, ![Head(l)].st = "run"]
       /\ Push(w, Top(w).pc, Act("task", "ops", FrameOf(w), Head(l)))
  /\ UNCHANGED <<nf, fq, bar, ext, left>>
TakeExt(w) ==
  /\ (At(w, "idle") \/ At(w, "tsteal")) /\ ext # -1
  /\ ext' = -1 /\ tk' = [tk EXCEPT ![ext].n = @ + 1, ![ext].st = "run"]
  /\ Push(w, Top(w).pc, [Act("task", "ops", FrameOf(w), ext) EXCEPT !.ex = TRUE])
  /\ UNCHANGED <<nf, fq, bar, pool, left>>
LoopEnd(w) ==
  /\ At(w, "idle") /\ Top(w).x > 0 /\ fq[Top(w).x].done
  /\ cs' = [cs EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<nf, fq, bar, pool, ext, left, tk>>
Submit == /\ left.ex > 0 /\ ext = -1
          /\ ext' = left.tk /\ left' = [left EXCEPT !.ex = @ - 1, !.tk = @ + 1]
          /\ tk' = [tk EXCEPT ![left.tk].st = "new"]
          /\ UNCHANGED <<nf, fq, bar, cs, pool>>

Quiet == ext = -1 /\ nf = -1 /\ \A w \in Workers : Len(cs[w]) = 1
Step(w) == Spawn(w) \/ Sync(w) \/ Wait(w) \/ EndTask(w) \/ Open(w, "nf") \/ Open(w, "tg") \/ Cas(w) \/ Yield(w)
  \/ Arrive(w, "cbar", "copy", "cwait") \/ CReset(w) \/ Arrive(w, "ybar", "copy", "ywait") \/ YSave(w) \/ Save(w)
  \/ Arrive(w, "sbar", "enter", "swait") \/ Root(w) \/ After(w) \/ TDone(w) \/ Busy(w) \/ FWait(w) \/ Arrive(w, "ebar", "exit", "ewait")
  \/ Restore(w) \/ Steal(w) \/ TakeExt(w) \/ LoopEnd(w)
Next == (\E w \in Workers : Step(w)) \/ Submit \/ (Quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ \A w \in Workers : WF_vars(Step(w))
\* [C09, C14] everything comes to an end; states without successor are reported as deadlocks
Ends == <>[]Quiet

\* ------------------------------------------------------------ properties
Executing(w) == cs[w] # <<>> /\ Top(w).pc \in {"ops"}
\* [C07] all code that executes belongs to one frame
OneFrame == \A v, w \in Workers : Executing(v) /\ Executing(w) => Top(v).f = Top(w).f
\* [C07] the body of a frame runs while everybody else is in that frame
Entered == \A w \in Workers : Executing(w) /\ Top(w).f > 0 => \A v \in Workers : \E i \in DOMAIN cs[v] : cs[v][i].x = Top(w).f
\* [C08] the descriptor and the counters on the caller's stack are used only while it waits
Alive == \A w \in Workers : cs[w] # <<>> => \A i \in DOMAIN cs[w] : cs[w][i].x > 0 /\ cs[w][i].pc \notin {"opsx", "ewait"} => fq[cs[w][i].x].alive
\* [C07, C08] when the caller continues: every copy ended, nothing of the frame is left
Complete == \A f \in 1 .. NFr : (fq[f].kind # "-" /\ ~fq[f].alive) =>
   /\ tk[fq[f].t].n = IF fq[f].kind = "tg" THEN W ELSE 1
   /\ fq[f].kind = "tg" => fq[f].cps = Workers
   /\ \A w \in Workers : \A i \in DOMAIN cs[w] : cs[w][i].f # f
\* [C01] spawned and external tasks once
Once == \A i \in DOMAIN tk : tk[i].st \in {"new", "run"} => tk[i].n <= 1
SamePlace == Cardinality(bar.at) <= 1
=============================================================================
