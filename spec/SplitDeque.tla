---------------------------- MODULE SplitDeque ----------------------------
(***************************************************************************)
(* The work-stealing algorithm of lace.h / lace.c as it is implemented:     *)
(* split task deques, spawn, sync, drop, shrinking and growing the shared   *)
(* part, stealing, leapfrogging, LACE_MAKE_ALL_SHARED, and the saving and   *)
(* restoring of the deque around a new frame; on a machine with store       *)
(* buffers (x86-TSO).                                                       *)
(*                                                                          *)
(* Worker 0 executes a root task; every task spawns, syncs and drops tasks  *)
(* nondeterministically within the bounds of the configuration, so a run of *)
(* TLC covers every task tree within these bounds and every schedule.       *)
(* Shared locations of a worker: tail and split (one 64 bit word ts), the   *)
(* flags as (allstolen) and ms (movesplit), and per slot of the deque the   *)
(* task written there (f) and its thief field (th).                         *)
(*                                                                          *)
(* Checked: every task is executed exactly once before its sync returns, a  *)
(* dropped task never starts after the drop (C01, C04), by whoever claims   *)
(* the slot that holds it (C02), thieves' writes are seen (C03: the result  *)
(* is in the slot), the head can be found again (C18), nothing hangs (C14), *)
(* growing shares (C15), nobody waits for another worker except the owner   *)
(* of a stolen task (C16).  Bug selects a fault for the negative runs.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W,          \* number of workers 0 .. W-1
          Cap,        \* slots of a deque
          Spawns,     \* Spawns[l]: number of tasks a task of level l-1 may spawn
          MaxTasks,   \* total number of tasks, root included
          MaxFrames,  \* number of new frames
          WithDrop, WithShare, Leap,   \* features: drop; make all shared; leapfrogging
          Bug

Workers == 0 .. W - 1
EMPTY == 0  TASK == 1  DONE == 2  Thief(w) == 10 + w

VARIABLES mem,   \* worker -> shared locations
          buf,   \* worker -> store buffer
          p,     \* worker -> private data: split, as, head, registers
          cs,    \* worker -> control stack of activations
          nt,    \* number of tasks so far
          run,   \* task -> number of executions, result
          fr     \* frame protocol
vars == <<mem, buf, p, cs, nt, run, fr>>

\* ------------------------------------------------------------- memory
\* a buffered store: owner of the location, location, slot, value
Apply1(m, e) ==
  LET x == m[e.o] IN
  [m EXCEPT ![e.o] = CASE e.a = "ts" -> [x EXCEPT !.tail = e.v[1], !.split = e.v[2]]
                       [] e.a = "split" -> [x EXCEPT !.split = e.v]
                       [] e.a = "as" -> [x EXCEPT !.as = e.v]
                       [] e.a = "ms" -> [x EXCEPT !.ms = e.v]
                       [] e.a = "f" -> [x EXCEPT !.f[e.i] = e.v]
                       [] e.a = "th" -> [x EXCEPT !.th[e.i] = e.v]]
RECURSIVE ApplyAll(_, _)
ApplyAll(m, s) == IF s = <<>> THEN m ELSE ApplyAll(Apply1(m, Head(s)), Tail(s))
View(w) == ApplyAll(mem, buf[w])
St(o, a, i, v) == [o |-> o, a |-> a, i |-> i, v |-> v]
Store(w, es) == buf' = [buf EXCEPT ![w] = @ \o es]
Drained(w) == buf[w] = <<>>

Commit(w) == /\ buf[w] # <<>>
             /\ mem' = Apply1(mem, Head(buf[w])) /\ buf' = [buf EXCEPT ![w] = Tail(@)]
             /\ UNCHANGED <<p, cs, nt, run, fr>>

\* ------------------------------------------------------------- control
\* activation of a task (or k = "loop": a steal loop) on the stack of a worker
Act(id, lev, from, slot) == [k |-> "task", id |-> id, lev |-> lev, pc |-> "ops", kids |-> <<>>, left |-> Spawns[lev + 1], from |-> from, slot |-> slot, cur |-> -1, op |-> "-", ret |-> "-"]
Loop == [k |-> "loop", id |-> -1, lev |-> 0, pc |-> "idle", kids |-> <<>>, left |-> 0, from |-> -1, slot |-> -1, cur |-> -1, op |-> "-", ret |-> "-"]
Top(w) == cs[w][Len(cs[w])]
Set(w, c) == cs' = [cs EXCEPT ![w][Len(cs[w])] = c]
Goto(w, l) == Set(w, [Top(w) EXCEPT !.pc = l])
At(w, l) == cs[w] # <<>> /\ Top(w).pc = l
Task0 == [n |-> 0, st |-> "new", lev |-> 0, fin |-> FALSE]

Init ==
  /\ mem = [w \in Workers |-> [tail |-> 0, split |-> 0, as |-> FALSE, ms |-> FALSE, f |-> [i \in 0 .. Cap - 1 |-> -1], th |-> [i \in 0 .. Cap - 1 |-> EMPTY]]]
  /\ buf = [w \in Workers |-> <<>>]
  /\ p = [w \in Workers |-> [split |-> 0, as |-> FALSE, head |-> 0, v |-> 0, t |-> 0, s |-> 0, ns |-> 0, sv |-> <<>>]]
  /\ cs = [w \in Workers |-> IF w = 0 THEN <<Act(0, 0, -1, -1)>> ELSE <<Loop>>]
  /\ nt = 1 /\ run = [i \in 0 .. MaxTasks - 1 |-> [Task0 EXCEPT !.n = IF i = 0 THEN 1 ELSE 0]]
  /\ fr = [n |-> 0, req |-> -1, in |-> {}, bar |-> [b \in 1 .. 3 |-> {}], done |-> FALSE, body |-> -1]

\* ------------------------------------------------------------- spawn
CanSpawn(w) == LET c == Top(w) IN c.left > 0 /\ nt < MaxTasks /\ p[w].head < Cap
Spawn(w) ==
  /\ At(w, "ops") /\ CanSpawn(w)
  /\ LET c == Top(w) h == p[w].head m == View(w)[w].ms s == p[w].split IN
     /\ nt' = nt + 1 /\ run' = [run EXCEPT ![nt].lev = c.lev + 1]
     /\ Set(w, [c EXCEPT !.kids = Append(@, nt), !.left = @ - 1])
     /\ LET w0 == <<St(w, "f", h, nt), St(w, "th", h, TASK)>> IN
        IF p[w].as
        THEN /\ LET pub == (IF m THEN <<St(w, "ms", 0, FALSE)>> ELSE <<>>) \o <<St(w, "ts", 0, <<h, h + 1>>), St(w, "as", 0, FALSE)>> IN
                Store(w, IF Bug = "early" THEN pub \o w0 ELSE w0 \o pub)
             /\ p' = [p EXCEPT ![w].split = h + 1, ![w].as = FALSE, ![w].head = h + 1]
        ELSE IF m
        THEN LET ns == IF Bug = "growround" THEN (s + h + 1) \div 2 ELSE (s + h + 2) \div 2 IN
             /\ Store(w, w0 \o <<St(w, "split", 0, ns), St(w, "ms", 0, FALSE)>>)
             /\ p' = [p EXCEPT ![w].split = ns, ![w].head = h + 1]
        ELSE /\ Store(w, w0) /\ p' = [p EXCEPT ![w].head = h + 1]
  /\ UNCHANGED <<mem, fr>>

\* ------------------------------------------------------------- sync and drop
SyncDrop(w, op) ==
  /\ At(w, "ops") /\ Top(w).kids # <<>> /\ (op = "drop" => WithDrop)
  /\ LET c == Top(w) h == p[w].head - 1 id == c.kids[Len(c.kids)] m == View(w)[w].ms
         l == IF ~m /\ p[w].split <= h THEN "take" ELSE IF p[w].as THEN "leap" ELSE IF p[w].split > h THEN "shrink" ELSE "grow"
     IN
     /\ p' = [p EXCEPT ![w].head = h]
     /\ Set(w, [c EXCEPT !.kids = SubSeq(@, 1, Len(@) - 1), !.cur = id, !.op = op,
                         !.pc = IF Bug = "dropshared" /\ op = "drop" /\ ~p[w].as /\ p[w].split = h + 1 THEN "take" ELSE l])
  /\ UNCHANGED <<mem, buf, nt, run, fr>>

\* not stolen: the owner executes (or drops) it
Take(w) ==
  /\ At(w, "take")
  /\ LET c == Top(w) h == p[w].head IN
     /\ Store(w, <<St(w, "th", h, EMPTY)>>)
     /\ IF c.op = "drop"
        THEN /\ run' = [run EXCEPT ![c.cur].st = "dropped"]
             /\ Set(w, [c EXCEPT !.pc = "ops", !.cur = -1])
        ELSE /\ run' = [run EXCEPT ![View(w)[w].f[h]].n = @ + 1]
             /\ cs' = [cs EXCEPT ![w] = Append([@ EXCEPT ![Len(@)].pc = "inline"], Act(View(w)[w].f[h], c.lev + 1, -1, -1))]
  /\ UNCHANGED <<mem, p, nt, fr>>

Shrink1(w) ==
  /\ At(w, "shrink")
  /\ LET x == View(w)[w] ns == (x.tail + x.split) \div 2 IN
     IF x.tail # x.split
     THEN /\ p' = [p EXCEPT ![w].t = x.tail, ![w].s = x.split, ![w].ns = ns]
          /\ Store(w, <<St(w, "split", 0, ns)>>) /\ Goto(w, "shrink2")
     ELSE /\ p' = [p EXCEPT ![w].as = TRUE] /\ Store(w, <<St(w, "as", 0, TRUE)>>) /\ Goto(w, "leap")
  /\ UNCHANGED <<mem, nt, run, fr>>
Shrink2(w) ==
  /\ At(w, "shrink2") /\ (Bug = "nofence" \/ Drained(w))
  /\ LET t == View(w)[w].tail s == p[w].s n == p[w].ns IN
     IF t # s
     THEN LET ns == IF t > n /\ Bug # "norecheck" THEN (t + s) \div 2 ELSE n IN
          /\ IF t > n /\ Bug # "norecheck" THEN Store(w, <<St(w, "split", 0, ns)>>) ELSE UNCHANGED buf
          /\ p' = [p EXCEPT ![w].split = ns] /\ Goto(w, IF ns > p[w].head THEN "bad" ELSE IF Top(w).op = "drop" THEN "take" ELSE "grow")
     ELSE /\ p' = [p EXCEPT ![w].as = TRUE] /\ Store(w, <<St(w, "as", 0, TRUE)>>) /\ Goto(w, "leap")
  /\ UNCHANGED <<mem, nt, run, fr>>
\* sync of a private task while thieves ask for work: share some of the others
Grow(w) ==
  /\ At(w, "grow")
  /\ LET x == View(w)[w] d == (p[w].head - p[w].split + 1) \div 2 IN
     /\ IF x.ms /\ Top(w).op = "sync"
        THEN /\ Store(w, <<St(w, "split", 0, x.split + d), St(w, "ms", 0, FALSE)>>)
             /\ p' = [p EXCEPT ![w].split = @ + d]
        ELSE UNCHANGED <<buf, p>>
     /\ Goto(w, "take")
  /\ UNCHANGED <<mem, nt, run, fr>>

\* the task is stolen: steal back from the thief until it is completed
Leap1(w) ==
  /\ At(w, "leap")
  /\ LET x == View(w)[w].th[p[w].head] IN
     /\ x \notin {EMPTY, TASK}
     /\ IF x = DONE THEN Goto(w, "leapend") /\ UNCHANGED p
        ELSE Goto(w, "leap2") /\ p' = [p EXCEPT ![w].head = @ + 1]
  /\ UNCHANGED <<mem, buf, nt, run, fr>>
Leap2(w) ==
  /\ At(w, "leap2")
  /\ LET h == p[w].head - 1 x == View(w)[w].th[h] IN
     IF x = DONE
     THEN /\ p' = [p EXCEPT ![w].head = h, ![w].as = TRUE]
          /\ IF p[w].as THEN UNCHANGED buf ELSE Store(w, <<St(w, "as", 0, TRUE)>>)
          /\ Goto(w, "leapend")
     ELSE /\ p' = [p EXCEPT ![w].v = x - 10] /\ UNCHANGED buf
          /\ Leap /\ Set(w, [Top(w) EXCEPT !.pc = "steal", !.ret = "leap2"])
  /\ UNCHANGED <<mem, nt, run, fr>>
LeapEnd(w) ==
  /\ At(w, "leapend")
  /\ Store(w, <<St(w, "th", p[w].head, EMPTY)>>)
  /\ run' = [run EXCEPT ![Top(w).cur].st = IF Top(w).op = "drop" THEN "droppedlate" ELSE "synced"]
  /\ Set(w, [Top(w) EXCEPT !.pc = "ops", !.cur = -1])
  /\ UNCHANGED <<mem, p, nt, fr>>

\* ------------------------------------------------------------- stealing
Idle(w) ==
  /\ At(w, "idle") /\ (fr.req = -1 \/ w \in fr.in)
  /\ \E v \in Workers \ {w} :
       /\ p' = [p EXCEPT ![w].v = v]
       /\ Set(w, [Top(w) EXCEPT !.pc = "steal", !.ret = "idle"])
  /\ UNCHANGED <<mem, buf, nt, run, fr>>
Steal1(w) ==      \* read allstolen
  /\ At(w, "steal")
  /\ Goto(w, IF View(w)[p[w].v].as THEN Top(w).ret ELSE "steal2")
  /\ UNCHANGED <<mem, buf, p, nt, run, fr>>
Steal2(w) ==      \* read tail and split
  /\ At(w, "steal2")
  /\ LET x == View(w)[p[w].v] IN
     /\ p' = [p EXCEPT ![w].t = x.tail, ![w].s = x.split]
     /\ Goto(w, IF x.tail < x.split THEN "steal3" ELSE "steal4")
  /\ UNCHANGED <<mem, buf, nt, run, fr>>
Steal3(w) ==      \* compare and swap; a locked operation drains the buffer
  /\ At(w, "steal3") /\ Drained(w)
  /\ LET v == p[w].v x == mem[v] IN
     IF x.tail = p[w].t /\ (x.split = p[w].s \/ Bug = "castail")
     THEN LET i == p[w].t id == x.f[i] IN
          /\ mem' = [mem EXCEPT ![v].tail = @ + 1]
          /\ IF id = -1 THEN Goto(w, "bad") /\ UNCHANGED <<run, buf>>
             ELSE /\ run' = [run EXCEPT ![id].n = @ + 1]
                  /\ Store(w, <<St(v, "th", i, Thief(w))>>)
                  /\ cs' = [cs EXCEPT ![w] = Append([@ EXCEPT ![Len(@)].pc = Top(w).ret], Act(id, run[id].lev, v, i))]
     ELSE /\ Goto(w, Top(w).ret) /\ UNCHANGED <<mem, buf, run>>
  /\ UNCHANGED <<p, nt, fr>>
Steal4(w) ==      \* nothing to steal: ask for work
  /\ At(w, "steal4")
  /\ IF View(w)[p[w].v].ms THEN UNCHANGED buf ELSE Store(w, <<St(p[w].v, "ms", 0, TRUE)>>)
  /\ Goto(w, Top(w).ret)
  /\ UNCHANGED <<mem, p, nt, run, fr>>

\* ------------------------------------------------------------- end of a task
\* LACE_MAKE_ALL_SHARED
ShareAll(w) ==
  /\ WithShare /\ At(w, "ops") /\ p[w].split # p[w].head
  /\ Store(w, <<St(w, "split", 0, p[w].head)>>)
  /\ p' = [p EXCEPT ![w].split = p[w].head]
  /\ UNCHANGED <<mem, cs, nt, run, fr>>
End(w) ==
  /\ At(w, "ops") /\ Top(w).kids = <<>>
  /\ LET c == Top(w) rest == SubSeq(cs[w], 1, Len(cs[w]) - 1) IN
     /\ run' = [run EXCEPT ![c.id].fin = TRUE, ![c.id].st = IF c.from = -1 /\ rest # <<>> THEN "synced" ELSE @]
     /\ IF c.from # -1 THEN Store(w, <<St(c.from, "th", c.slot, DONE)>>) ELSE UNCHANGED buf
     /\ cs' = [cs EXCEPT ![w] = IF rest # <<>> /\ rest[Len(rest)].pc = "inline" THEN [rest EXCEPT ![Len(rest)].pc = "ops", ![Len(rest)].cur = -1] ELSE rest]
     /\ fr' = IF c.id = fr.body THEN [fr EXCEPT !.done = TRUE] ELSE fr
  /\ UNCHANGED <<mem, p, nt>>

\* ------------------------------------------------------------- new frame
\* abstract: who opens the frame is decided elsewhere (Frames.tla); here: what happens to the deques
NewFrame(w) ==
  /\ At(w, "ops") /\ fr.n < MaxFrames /\ nt < MaxTasks /\ Drained(w)
  /\ fr' = [fr EXCEPT !.n = @ + 1, !.req = w, !.body = nt]
  /\ run' = [run EXCEPT ![nt].lev = Top(w).lev + 1, ![nt].n = 1] /\ nt' = nt + 1
  /\ Set(w, [Top(w) EXCEPT !.pc = "fjoin", !.ret = "ops"])
  /\ UNCHANGED <<mem, buf, p>>
Yield(w) ==
  /\ fr.req # -1 /\ w \notin fr.in /\ fr.req # w /\ (At(w, "idle") \/ At(w, "leap2"))
  /\ Set(w, [Top(w) EXCEPT !.ret = Top(w).pc, !.pc = "fjoin"])
  /\ UNCHANGED <<mem, buf, p, nt, run, fr>>
Arrive(w, l, b, m) == /\ At(w, l) /\ Drained(w) /\ fr' = [fr EXCEPT !.bar[b] = @ \cup {w}, !.in = @ \cup {w}] /\ Goto(w, m) /\ UNCHANGED <<mem, buf, p, nt, run>>
Save1(w) ==
  /\ At(w, "save1") /\ fr.bar[1] = Workers
  /\ LET x == View(w)[w] IN
     /\ p' = [p EXCEPT ![w].sv = <<x.as, x.split, 0, p[w].split>>]
     /\ Store(w, <<St(w, "as", 0, TRUE), St(w, "split", 0, 0)>>)
  /\ Goto(w, "save2") /\ UNCHANGED <<mem, nt, run, fr>>
Save2(w) ==
  /\ At(w, "save2") /\ Drained(w)
  /\ p' = [p EXCEPT ![w].sv[3] = View(w)[w].tail, ![w].split = p[w].head, ![w].as = TRUE]
  /\ Store(w, <<St(w, "ts", 0, <<p[w].head, p[w].head>>)>>)
  /\ Goto(w, "farr2") /\ UNCHANGED <<mem, nt, run, fr>>
FrameBody(w) ==
  /\ At(w, "fwait2") /\ fr.bar[2] = Workers
  /\ cs' = [cs EXCEPT ![w] = Append([@ EXCEPT ![Len(@)].pc = "farr3"], IF fr.req = w THEN Act(fr.body, run[fr.body].lev, -1, -1) ELSE [Loop EXCEPT !.k = "floop"])]
  /\ UNCHANGED <<mem, buf, p, nt, run, fr>>
FrameExit(w) ==
  /\ At(w, "idle") /\ Top(w).k = "floop" /\ fr.done
  /\ cs' = [cs EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<mem, buf, p, nt, run, fr>>
Restore(w) ==
  /\ At(w, "fwait3") /\ fr.bar[3] = Workers
  /\ LET s == p[w].sv IN
     /\ Store(w, (IF Bug = "framepub" THEN <<>> ELSE <<St(w, "as", 0, s[1])>>) \o <<St(w, "ts", 0, <<s[3], s[2]>>)>>)
     /\ p' = [p EXCEPT ![w].split = s[4], ![w].as = s[1], ![w].sv = <<>>]
  /\ Goto(w, Top(w).ret) /\ UNCHANGED <<mem, nt, run, fr>>

Step(w) ==
  \/ Spawn(w) \/ SyncDrop(w, "sync") \/ SyncDrop(w, "drop") \/ Take(w) \/ Shrink1(w) \/ Shrink2(w) \/ Grow(w)
  \/ Leap1(w) \/ Leap2(w) \/ LeapEnd(w) \/ Idle(w) \/ Steal1(w) \/ Steal2(w) \/ Steal3(w) \/ Steal4(w) \/ ShareAll(w) \/ End(w)
  \/ NewFrame(w) \/ Yield(w) \/ Arrive(w, "fjoin", 1, "save1") \/ Save1(w) \/ Save2(w) \/ Arrive(w, "farr2", 2, "fwait2")
  \/ FrameBody(w) \/ FrameExit(w) \/ Arrive(w, "farr3", 3, "fwait3") \/ Restore(w)
Finished == cs[0] = <<>>
Next == (\E w \in Workers : (~Finished /\ Step(w)) \/ Commit(w)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* progress: workers that stand still (C14, C16)
Fair == \A w \in Workers : WF_vars(~Finished /\ Step(w)) /\ WF_vars(Commit(w))
LiveSpec == Spec /\ Fair
\* the nondeterministic choice of a body ends it eventually: spawns, shares and frames are bounded
Terminates == <>Finished

\* ------------------------------------------------------------- properties
\* [C01] at most once; exactly once when its sync has returned
Once == \A i \in 0 .. MaxTasks - 1 : run[i].n <= 1 /\ (run[i].st = "synced" => run[i].n = 1 /\ run[i].fin)
\* [C04] a dropped task has not been executed, or it was stolen and is finished
Dropped == \A i \in 0 .. MaxTasks - 1 : /\ (run[i].st = "dropped" => run[i].n = 0)
                                        /\ (run[i].st = "droppedlate" => run[i].n = 1 /\ run[i].fin)
\* [C02] the slot claimed holds a task
Content == \A w \in Workers : cs[w] # <<>> => Top(w).pc # "bad"
\* [C18] the head can be found again: exactly the slots below it are in use
HeadVisible == \A w \in Workers : (cs[w] # <<>> /\ Top(w).pc \in {"ops", "idle"}) =>
                 \A i \in 0 .. Cap - 1 : (View(w)[w].th[i] = EMPTY) = (i >= p[w].head)
\* all tasks of the root are finished when it ends; no task is left in a deque
AllDone == Finished => \A i \in 1 .. nt - 1 : run[i].st \in {"synced", "dropped", "droppedlate"} \/ (i = fr.body /\ run[i].fin)
\* [C15] a spawn that sees a request shares at least one task, if any is private
GrowShares == [][\A w \in Workers : (At(w, "ops") /\ p'[w].head = p[w].head + 1 /\ View(w)[w].ms) => p'[w].split > p[w].split \/ p[w].as]_vars
\* [C15] what the owner believes about its deque is what thieves see: they can steal what is shared and ask for more
Coherent == \A w \in Workers : (cs[w] # <<>> /\ Top(w).pc \in {"ops", "idle"}) =>
              View(w)[w].as = p[w].as /\ (p[w].as \/ View(w)[w].split = p[w].split)
\* [C16] only the owner of a stolen task, an idle worker and members of a frame wait for somebody
NoWaiting == \A w \in Workers : (cs[w] # <<>> /\ Drained(w) /\ Top(w).pc \notin {"leap", "leap2", "idle", "inline", "save1", "fwait2", "fwait3"}) => ENABLED Step(w)
=============================================================================
