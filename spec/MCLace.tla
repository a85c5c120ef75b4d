------------------------------ MODULE MCLace ------------------------------
(***************************************************************************)
(* The contract of Lace together with a most general client: outside        *)
(* threads and tasks do anything the API allows within the bounds of the    *)
(* configuration.  Two uses.                                                *)
(*  - BFS: the contract is consistent: no program gets stuck in it (every   *)
(*    reachable state has a successor until the program ends), and what the *)
(*    guards are meant to guarantee holds as invariants.                    *)
(*  - Simulation: every behaviour that ends is printed with the program     *)
(*    that it belongs to; the harness executes that program on the real     *)
(*    library and steers its threads through the events of the behaviour.   *)
(* Programs are chosen lazily: the first task that reaches the end of the   *)
(* known part of its definition decides how it goes on, all other tasks     *)
(* with the same definition do the same.                                    *)
(***************************************************************************)
EXTENDS Lace, Json

CONSTANTS W,        \* workers
          Cap,      \* deque capacity
          MaxDef, MaxOps, MaxInst,   \* definitions, operations in each, task instances
          Scr,      \* Scr[t+1]: operations of outside thread t
          TaskOps, ExtOps,           \* kinds of operations
          Sessions,
          Emit     \* print behaviours (simulation)

VARIABLES prog,   \* definition -> [ops, closed]
          pcs,    \* worker thread -> stack of [d, pc], parallel to stk
          def,    \* task id + 1 -> definition
          scr,    \* outside thread -> operations so far
          held,   \* outside thread -> reasons to be awake it has given and not taken back
          hist    \* the behaviour
cvars == <<prog, pcs, def, scr, held, hist>>
allvars == <<vars, cvars>>
NoClock == <<>>
XT == 0 .. Len(Scr) - 1
WT == 8 .. 7 + W

MCInit == /\ Init0([npus |-> W, rlim |-> 8192, counts |-> 0])
          /\ prog = <<>> /\ pcs = [t \in WT |-> <<>>] /\ def = <<>> /\ scr = [t \in XT |-> <<>>] /\ held = [t \in XT |-> 0] /\ hist = <<>>
Ev(k, th, a) == hist' = IF Emit THEN Append(hist, <<k, th, a>>) ELSE <<>>
O(k, d) == [k |-> k, d |-> d]
Creates == {"SPAWN", "CALL", "CALLCB", "NF", "TG", "RUN", "RUNEX"}

\* ------------------------------------------------------------ sessions: outside thread 0
NSess == Cardinality({i \in DOMAIN scr[0] : scr[0][i].k = "START"})
CStart == /\ sess.ph = "off" /\ NSess < Sessions /\ StartInv(0, W, Cap) /\ Ev("StartInv", 0, W)
          /\ scr' = [scr EXCEPT ![0] = Append(@, O("START", W))] /\ UNCHANGED <<prog, pcs, def, held>>
CStarted == /\ StartRet(0, W, W, 8192, 0) /\ Ev("StartRet", 0, W) /\ held' = [held EXCEPT ![0] = 1]
            /\ UNCHANGED <<prog, pcs, def, scr>>
Ops(t) == Cardinality({i \in DOMAIN scr[t] : scr[t][i].k \notin {"START", "STOP"}})
\* the other outside threads are forked in the last session and joined before it stops
OthersDone == \A t \in XT \ {0} : NSess < Sessions \/ (ExtIdle(t) /\ held[t] = 0)
CStop == /\ OthersDone /\ StopInv(0) /\ Ev("StopInv", 0, 0)
         /\ scr' = [scr EXCEPT ![0] = Append(@, O("STOP", 0))] /\ UNCHANGED <<prog, pcs, def, held>>
CStopMid == StopMid(0) /\ Ev("StopMid", 0, 0) /\ UNCHANGED <<prog, pcs, def, scr, held>>
CStopped == /\ StopRet(0, 0, 0) /\ Ev("StopRet", 0, 0) /\ held' = [t \in XT |-> 0] /\ UNCHANGED <<prog, pcs, def, scr>>
\* ids of tasks are never reused, so a behaviour ends with the last session
CFin == /\ sess.ph = "off" /\ NSess = Sessions /\ Fin(0) /\ Ev("Fin", 0, 0) /\ UNCHANGED <<prog, pcs, def, scr, held>>
        /\ IF Emit THEN PrintT("GUIDE " \o ToJson([nw |-> W, dq |-> Cap, maxinst |-> MaxInst, prog |-> [i \in DOMAIN prog |-> prog[i].ops], scr |-> [t \in 1 .. Len(Scr) |-> scr[t - 1]], ev |-> hist'])) ELSE TRUE

\* ------------------------------------------------------------ operations of outside threads
Defs(lo) == {d \in 1 .. MaxDef : d > lo /\ d <= Len(prog) + 1}
WithDef(d) == IF d = Len(prog) + 1 THEN Append(prog, [ops |-> <<>>, closed |-> FALSE]) ELSE prog
Mode == [CALL |-> "call", CALLCB |-> "call", NF |-> "nf", TG |-> "tg", RUN |-> "run", RUNEX |-> "run"]
EvName == [SPAWN |-> "Spawn", CALL |-> "Call", CALLCB |-> "Call", NF |-> "Nf", TG |-> "Tg", RUN |-> "Run", RUNEX |-> "Run"]
RetName == [call |-> "CallRet", nf |-> "NfRet", tg |-> "TgRet", run |-> "RunRet"]
CExt(t) ==
  /\ ExtIdle(t) /\ sess.ph = "on" /\ Ops(t) < Scr[t + 1] /\ (t = 0 \/ NSess = Sessions)
  /\ \/ \E k \in ExtOps \cap {"RUN", "RUNEX", "NF", "TG"}, d \in Defs(0) :
          /\ Len(tsk) < MaxInst
          /\ Submit(t, Len(tsk), Mode[k], k = "RUNEX", NoClock)
          /\ def' = Append(def, d) /\ prog' = WithDef(d) /\ scr' = [scr EXCEPT ![t] = Append(@, O(k, d))]
          /\ Ev(EvName[k], t, Len(tsk)) /\ UNCHANGED <<pcs, held>>
     \/ /\ "SUS" \in ExtOps /\ held[t] > 0 /\ ExtOp(t, "sus") /\ Ev("Sus", t, 0)
        /\ scr' = [scr EXCEPT ![t] = Append(@, O("SUS", 0))] /\ held' = [held EXCEPT ![t] = @ - 1] /\ UNCHANGED <<prog, pcs, def>>
     \/ /\ "SUS" \in ExtOps /\ (t = 0 \/ Ops(t) + 1 < Scr[t + 1]) /\ ExtOp(t, "res") /\ Ev("Res", t, 0)
        /\ scr' = [scr EXCEPT ![t] = Append(@, O("RES", 0))] /\ held' = [held EXCEPT ![t] = @ + 1] /\ UNCHANGED <<prog, pcs, def>>
\* a thread ends with the reasons it has given taken back
CBack(t) == /\ t # 0 /\ ExtIdle(t) /\ sess.ph = "on" /\ Ops(t) >= Scr[t + 1] /\ held[t] > 0 /\ ExtOp(t, "sus") /\ Ev("Sus", t, 0)
            /\ scr' = [scr EXCEPT ![t] = Append(@, O("SUS", 0))] /\ held' = [held EXCEPT ![t] = @ - 1] /\ UNCHANGED <<prog, pcs, def>>
CExtRet(t) ==
  /\ UNCHANGED <<prog, pcs, def, scr, held>>
  /\ \/ ExtOpRet(t, "sus", -1) /\ Ev("SusRet", t, 0)
     \/ ExtOpRet(t, "res", 1) /\ Ev("ResRet", t, 0)
     \/ LET o == Get(ext, t, NoOp) IN o.k \in DOMAIN RetName /\ Return(t, o.id, o.k, 1, NoClock) /\ Ev(RetName[o.k], t, o.id)

\* ------------------------------------------------------------ tasks
P(th) == pcs[th][Len(pcs[th])]
Next1(th) == pcs' = [pcs EXCEPT ![th][Len(pcs[th])].pc = @ + 1]
Kids(th) == Top(th).kids
\* operations a task may go on with
Choices(th) ==
  LET d == P(th).d IN
  {O(k, e) : k \in TaskOps \cap Creates, e \in IF Len(tsk) < MaxInst THEN Defs(d) ELSE {}} \cup
  {O(k, 0) : k \in TaskOps \cap {"SYNC", "DROP"} \cap (IF Kids(th) # <<>> THEN {"SYNC", "DROP"} ELSE {})} \cup
  {O(k, 0) : k \in TaskOps \cap {"YIELD", "STEAL"}} \cup
  {O("INSP", i) : i \in IF "INSP" \in TaskOps THEN 0 .. Len(Kids(th)) - 1 ELSE {}} \cup
  \* barriers belong to definition 1, which is used by TOGETHER only
  {O("BAR", 0) : x \in IF "BAR" \in TaskOps /\ d = 1 THEN {1} ELSE {}}
Skipped(th, o) == \/ o.k \in Creates /\ Len(tsk) >= MaxInst
                  \/ o.k \in {"SYNC", "DROP"} /\ Kids(th) = <<>>
                  \/ o.k = "INSP" /\ o.d >= Len(Kids(th))
Last(th) == Kids(th)[Len(Kids(th))]
Do(th, o) ==
  CASE o.k = "SPAWN" -> Spawn(th, Len(tsk), NoClock) /\ Ev("Spawn", th, Len(tsk)) /\ def' = Append(def, o.d)
    [] o.k \in Creates \ {"SPAWN"} -> Submit(th, Len(tsk), Mode[o.k], FALSE, NoClock) /\ Ev(EvName[o.k], th, Len(tsk)) /\ def' = Append(def, o.d)
    [] o.k = "SYNC" -> Pop(th, Last(th), "sync") /\ Ev("Sync", th, Last(th)) /\ UNCHANGED def
    [] o.k = "DROP" -> Pop(th, Last(th), "drop") /\ Ev("Drop", th, Last(th)) /\ UNCHANGED def
    [] o.k = "YIELD" -> Begin(th, "yield") /\ Ev("Yield", th, 0) /\ UNCHANGED def
    [] o.k = "STEAL" -> Begin(th, "steal") /\ Ev("Steal", th, 0) /\ UNCHANGED def
    [] o.k = "BAR" -> Bar(th, NoClock) /\ Ev("Bar", th, 0) /\ UNCHANGED def
    \* one inspection is two events: stolen?, completed?
    [] o.k = "INSP" -> /\ \E a \in {0, 1} : Insp(th, Kids(th)[Len(Kids(th)) - o.d], 0, a, FALSE, 1, NoClock)
                       /\ Ev("Insp", th, Kids(th)[Len(Kids(th)) - o.d]) /\ UNCHANGED def
COp(th) ==
  /\ th \in DOMAIN pcs /\ pcs[th] # <<>> /\ Ready(th)
  /\ LET p == P(th) g == prog[p.d] IN
     \/ /\ p.pc <= Len(g.ops) /\ ~Skipped(th, g.ops[p.pc]) /\ Do(th, g.ops[p.pc])
        /\ Next1(th) /\ UNCHANGED prog
     \/ /\ p.pc <= Len(g.ops) /\ Skipped(th, g.ops[p.pc])
        /\ Next1(th) /\ UNCHANGED <<vars, prog, def, hist>>
     \/ /\ p.pc = Len(g.ops) + 1 /\ ~g.closed /\ Len(g.ops) < MaxOps
        /\ \E o \in Choices(th) :
             /\ Do(th, o) /\ Next1(th)
             /\ prog' = [(IF o.k \in Creates THEN WithDef(o.d) ELSE prog) EXCEPT ![p.d].ops = Append(@, o)]
     \* the end: sync the rest
     \/ /\ p.pc = Len(g.ops) + 1
        /\ prog' = [prog EXCEPT ![p.d].closed = TRUE]
        /\ IF Kids(th) # <<>> THEN Pop(th, Last(th), "sync") /\ Ev("Sync", th, Last(th)) /\ UNCHANGED <<pcs, def>>
           ELSE /\ End(th, Top(th).id, NoClock) /\ Ev("End", th, Top(th).id)
                /\ pcs' = [pcs EXCEPT ![th] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED def
  /\ UNCHANGED <<scr, held>>
COpRet(th) ==
  /\ Has(th) /\ UNCHANGED <<prog, pcs, def, scr, held>>
  /\ LET o == Top(th).op IN
     \/ SyncRet(th, o.id, 1, NoClock) /\ Ev("SyncRet", th, o.id)
     \/ DropRet(th, o.id, NoClock) /\ Ev("DropRet", th, o.id)
     \/ o.k \in DOMAIN RetName /\ Return(th, o.id, o.k, 1, NoClock) /\ Ev(RetName[o.k], th, o.id)
     \/ Finish(th, "yield") /\ Ev("YieldRet", th, 0)
     \/ Finish(th, "steal") /\ Ev("StealRet", th, 0)
     \/ BarRet(th, NoClock) /\ Ev("BarRet", th, 0)
CTask(th) ==
  /\ sess.ph = "on"
  /\ \E id \in 0 .. Len(tsk) - 1 :
       /\ Task(id).st \in {"new", "open", "run"}
       /\ Start(th, id, th - 8, 7, W, NoClock) /\ Ev("Start", th, id)
       /\ pcs' = [pcs EXCEPT ![th] = Append(@, [d |-> def[id + 1], pc |-> 1])]
  /\ UNCHANGED <<prog, def, scr, held>>
\* a deque is full: the process ends
CExit(th) == /\ Exit(th, 1, 1) /\ Ev("Exit", th, 1) /\ UNCHANGED <<prog, pcs, def, scr, held>>
             /\ IF Emit THEN PrintT("GUIDE " \o ToJson([nw |-> W, dq |-> Cap, maxinst |-> MaxInst, prog |-> [i \in DOMAIN prog |-> prog[i].ops], scr |-> [t \in 1 .. Len(Scr) |-> scr[t - 1]], ev |-> hist'])) ELSE TRUE

MCNext ==
  \/ /\ ~ended
     /\ \/ CStart \/ CStarted \/ CStop \/ CStopMid \/ CStopped \/ CFin
        \/ \E t \in XT : CExt(t) \/ CBack(t) \/ CExtRet(t)
        \/ \E th \in WT : COp(th) \/ COpRet(th) \/ CTask(th) \/ CExit(th)
  \/ ended /\ ~Emit /\ UNCHANGED allvars
MCSpec == MCInit /\ [][MCNext]_allvars
View == <<vars, prog, pcs, def, scr, held>>

\* ------------------------------------------------------------ what the guards guarantee
\* [C01] [C02] a task body runs once, by one worker, except the copies of TOGETHER
Running(id) == {<<th, i>> \in WT \X (1 .. 30) : th \in DOMAIN stk /\ i <= Len(stk[th]) /\ stk[th][i].id = id}
OnceAtATime == \A i \in 0 .. Len(tsk) - 1 :
                 Cardinality(Running(i)) <= IF Task(i).md = "tg" THEN W ELSE 1
\* [C01] the task a finished, synced or unstarted record stands for is not executing
NotGone == \A i \in 0 .. Len(tsk) - 1 : Task(i).st \in {"new", "done", "gone"} => Running(i) = {}
\* [C06] an exclusive submission is alone
Alone == \A x \in extrun : Task(x).ex => extrun = {x}
\* [C07] only one frame is active: every context that may execute belongs to one frame
OneActive == \A t, u \in {x \in WT : Active(x)} : (Top(t).fr = Top(u).fr) \/ (frs[Pos(Top(t).fr)].done \/ frs[Pos(Top(u).fr)].done)
\* [C08] a TOGETHER whose submission is done has been executed by every worker
AllCopies == \A i \in 0 .. Len(tsk) - 1 : (Task(i).md = "tg" /\ Task(i).st = "done") => {Task(i).cp[j][1] : j \in DOMAIN Task(i).cp} = WT
\* [C13] no worker has more tasks than its deque holds, except when it is about to exit
Fits == \A th \in WT : (Has(th) /\ th \notin must) => Used(th) <= sess.cap

Scr1 == <<1>>
Scr2 == <<2>>
Scr3 == <<3>>
Scr11 == <<1, 1>>
Scr21 == <<2, 1>>
Scr111 == <<1, 1, 1>>
Scr221 == <<2, 2, 1>>
=============================================================================
