------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The life of a session as implemented in lace.c: lace_start, the worker   *)
(* threads, lace_run_task and lace_run_task_exclusive from outside threads, *)
(* lace_suspend, lace_resume, lace_stop; several sessions in a row.         *)
(* One step is one access to shared data or one call of pthreads.           *)
(* Outside threads choose their operations nondeterministically; thread 0   *)
(* starts and stops the sessions.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W,         \* workers
          X,         \* outside threads 0 .. X-1
          Ops,       \* Ops[t+1]: number of operations of thread t per session
          Sessions,
          Kinds,     \* operations that may be chosen: subset of {"run", "runex", "sus", "res"}
          Intr,      \* semaphore waits may be interrupted
          Bug
Workers == 1 .. W
Threads == 0 .. X - 1
VARIABLES g,      \* global data of the library
          wk,     \* worker -> pc
          xt,     \* outside thread -> pc, call stack, remaining operations
          ex      \* ghost: executions
vars == <<g, wk, xt, ex>>
\* lock: -1 free; cond: threads waiting on the condition; fin: threads whose submission has been signalled
G0 == [ph |-> "off", awc |-> 0, ms |-> 0, run |-> 0, sem |-> 0, quits |-> 0, ext |-> -1, lock |-> -1, cond |-> {}, cnt |-> 0, exq |-> 0, bn |-> 0, bgen |-> 0, leav |-> 0, fin |-> {}, sess |-> 0, freed |-> TRUE]
T0(t) == [pc |-> IF t = 0 THEN "start" ELSE "out", ret |-> <<>>, op |-> "-", st |-> 0, i |-> 0, todo |-> 0, held |-> 0, sess |-> 0]
Init == /\ g = G0 /\ wk = [w \in Workers |-> [pc |-> "dead", bg |-> 0, t |-> -1]]
        /\ xt = [t \in Threads |-> T0(t)] /\ ex = [cur |-> {}, n |-> [t \in Threads |-> 0], exn |-> [t \in Threads |-> FALSE]]
XT(t, r) == xt' = [xt EXCEPT ![t] = r]
XGo(t, l) == XT(t, [xt[t] EXCEPT !.pc = l])
Call(t, l, back) == XT(t, [xt[t] EXCEPT !.pc = l, !.ret = <<back>> \o @])
Return(t) == XT(t, [xt[t] EXCEPT !.pc = xt[t].ret[1], !.ret = Tail(@)])
Is(t, l) == xt[t].pc = l
WG(w, l) == wk' = [wk EXCEPT ![w].pc = l]
WIs(w, l) == wk[w].pc = l

\* ------------------------------------------------------------ lace_start
Start1 == /\ Is(0, "start") /\ g.sess < Sessions /\ g.ph = "off"
          /\ g' = [g EXCEPT !.ph = "on", !.awc = 0, !.ms = 0, !.run = 0, !.sem = 0, !.quits = IF Bug = "quits" THEN @ ELSE 0, !.bn = 0, !.sess = @ + 1, !.freed = FALSE]
          /\ wk' = [w \in Workers |-> [pc |-> "init", bg |-> 0, t |-> -1]]
          /\ Call(0, "res1", "started") /\ UNCHANGED ex
Started == /\ Is(0, "started") /\ XT(0, [xt[0] EXCEPT !.pc = "out", !.todo = Ops[1], !.held = 1, !.sess = g.sess]) /\ UNCHANGED <<g, wk, ex>>
\* other threads begin when the session has been started
Join(t) == /\ t # 0 /\ Is(t, "out") /\ xt[t].sess < g.sess /\ xt[0].pc # "start" /\ xt[0].sess = g.sess
           /\ XT(t, [xt[t] EXCEPT !.todo = Ops[t + 1], !.sess = g.sess, !.held = 0]) /\ UNCHANGED <<g, wk, ex>>

\* ------------------------------------------------------------ lace_resume / lace_suspend
Res1(t) == /\ Is(t, "res1")
           /\ IF g.awc < 0 THEN UNCHANGED xt ELSE XT(t, [xt[t] EXCEPT !.pc = "res2", !.st = g.awc])
           /\ UNCHANGED <<g, wk, ex>>
Res2(t) == /\ Is(t, "res2")
           /\ IF g.awc # xt[t].st THEN XGo(t, "res1") /\ UNCHANGED g
              ELSE IF xt[t].st = 0 THEN g' = [g EXCEPT !.awc = -1] /\ XT(t, [xt[t] EXCEPT !.pc = "res3", !.i = W])
              ELSE g' = [g EXCEPT !.awc = @ + 1] /\ Return(t)
           /\ UNCHANGED <<wk, ex>>
Res3(t) == /\ Is(t, "res3")
           /\ IF xt[t].i > 0 THEN g' = [g EXCEPT !.sem = @ + 1] /\ XT(t, [xt[t] EXCEPT !.i = @ - 1])
              ELSE g' = [g EXCEPT !.awc = 1] /\ Return(t)
           /\ UNCHANGED <<wk, ex>>
Sus1(t) == /\ Is(t, "sus1")
           /\ IF g.awc <= 0 THEN UNCHANGED xt ELSE XT(t, [xt[t] EXCEPT !.pc = "sus2", !.st = g.awc])
           /\ UNCHANGED <<g, wk, ex>>
Sus2(t) == /\ Is(t, "sus2")
           /\ IF g.awc # xt[t].st THEN XGo(t, "sus1") /\ UNCHANGED g
              ELSE IF xt[t].st = 1 THEN g' = [g EXCEPT !.awc = -1] /\ XGo(t, "sus3")
              ELSE g' = [g EXCEPT !.awc = @ - 1] /\ Return(t)
           /\ UNCHANGED <<wk, ex>>
Sus3(t) == /\ Is(t, "sus3") /\ (g.run = W \/ Bug = "susnowait") /\ XGo(t, "sus4") /\ UNCHANGED <<g, wk, ex>>
Sus4(t) == /\ Is(t, "sus4") /\ g' = [g EXCEPT !.ms = 1] /\ XGo(t, "sus5") /\ UNCHANGED <<wk, ex>>
Sus5(t) == /\ Is(t, "sus5") /\ g.run = 0 /\ XGo(t, IF Bug = "susorder" THEN "sus7" ELSE "sus6") /\ UNCHANGED <<g, wk, ex>>
Sus6(t) == /\ Is(t, "sus6") /\ g' = [g EXCEPT !.ms = 0] /\ (IF Bug = "susorder" THEN Return(t) ELSE XGo(t, "sus7")) /\ UNCHANGED <<wk, ex>>
Sus7(t) == /\ Is(t, "sus7") /\ g' = [g EXCEPT !.awc = 0] /\ (IF Bug = "susorder" THEN XGo(t, "sus6") ELSE Return(t)) /\ UNCHANGED <<wk, ex>>

\* ------------------------------------------------------------ outside threads
Choose(t) ==
  /\ Is(t, "out") /\ xt[t].todo > 0 /\ g.ph = "on" /\ xt[t].sess = g.sess
  /\ \E o \in Kinds :
       /\ o = "sus" => xt[t].held > 0
       /\ LET r == [xt[t] EXCEPT !.todo = @ - 1, !.op = o] IN
          XT(t, CASE o = "sus" -> [r EXCEPT !.pc = "sus1", !.ret = <<"outsus">>]
                  [] o = "res" -> [r EXCEPT !.pc = "res1", !.ret = <<"outres">>]
                  [] o = "run" -> [r EXCEPT !.pc = "res1", !.ret = <<"lock1">>]
                  [] o = "runex" -> IF Bug = "exnores" THEN [r EXCEPT !.pc = "lock1"] ELSE [r EXCEPT !.pc = "res1", !.ret = <<"lock1">>])
       /\ ex' = IF o \in {"run", "runex"} THEN [ex EXCEPT !.n[t] = 0, !.exn[t] = o = "runex"] ELSE ex
  /\ UNCHANGED <<g, wk>>
OutSus(t) == /\ Is(t, "outsus") /\ XT(t, [xt[t] EXCEPT !.pc = "out", !.held = @ - 1]) /\ UNCHANGED <<g, wk, ex>>
OutRes(t) == /\ Is(t, "outres") /\ XT(t, [xt[t] EXCEPT !.pc = "out", !.held = @ + 1]) /\ UNCHANGED <<g, wk, ex>>
\* lace_run_task, lace_run_task_exclusive
Lock1(t) == /\ Is(t, "lock1") /\ g.lock = -1 /\ g' = [g EXCEPT !.lock = t] /\ XGo(t, "excl") /\ UNCHANGED <<wk, ex>>
Excl(t) == /\ Is(t, "excl")
           /\ IF g.exq = 1 /\ ~(Bug = "exif" /\ xt[t].st = 77)
              THEN g' = [g EXCEPT !.lock = -1, !.cond = @ \cup {t}] /\ XT(t, [xt[t] EXCEPT !.pc = "cwait1"])
              ELSE IF xt[t].op = "run" THEN g' = [g EXCEPT !.cnt = @ + 1, !.lock = -1] /\ XGo(t, "post")
              ELSE g' = [g EXCEPT !.exq = 1] /\ XGo(t, "excl2")
           /\ UNCHANGED <<wk, ex>>
Excl2(t) == /\ Is(t, "excl2")
            /\ IF g.cnt > 0 THEN g' = [g EXCEPT !.lock = -1, !.cond = @ \cup {t}] /\ XGo(t, "cwait2")
               ELSE g' = [g EXCEPT !.lock = -1] /\ XGo(t, "post")
            /\ UNCHANGED <<wk, ex>>
\* woken (or a spurious wakeup), then take the lock again
CWait(t) == /\ Is(t, "cwait1") \/ Is(t, "cwait2")
            /\ t \notin g.cond \/ Intr
            /\ g.lock = -1
            /\ g' = [g EXCEPT !.lock = t, !.cond = @ \ {t}]
            /\ XT(t, [xt[t] EXCEPT !.pc = IF Is(t, "cwait1") THEN "excl" ELSE "excl2", !.st = 77])
            /\ UNCHANGED <<wk, ex>>
Post(t) == /\ Is(t, "post") /\ g.ext = -1 /\ g' = [g EXCEPT !.ext = t, !.fin = @ \ {t}] /\ XGo(t, "swait") /\ UNCHANGED <<wk, ex>>
SWait(t) == /\ Is(t, "swait") /\ (t \in g.fin \/ (Intr /\ Bug = "eintr"))
            /\ g' = [g EXCEPT !.fin = @ \ {t}] /\ XGo(t, "lock2") /\ UNCHANGED <<wk, ex>>
Lock2(t) == /\ Is(t, "lock2") /\ g.lock = -1
            /\ g' = IF xt[t].op = "run"
                    THEN [g EXCEPT !.cnt = @ - 1, !.cond = IF g.exq = 1 /\ g.cnt = 1
                             THEN (IF Bug = "signal" THEN (IF @ = {} THEN {} ELSE @ \ {CHOOSE c \in @ : TRUE}) ELSE {}) ELSE @]
                    ELSE [g EXCEPT !.exq = 0, !.cond = {}]
            /\ Call(t, "sus1", "out")
            /\ UNCHANGED <<wk, ex>>

\* ------------------------------------------------------------ lace_stop
Others == \A t \in Threads \ {0} : Is(t, "out") /\ xt[t].todo = 0 /\ xt[t].sess = g.sess
Stop1 == /\ Is(0, "out") /\ g.ph = "on" /\ xt[0].todo = 0 /\ xt[0].sess = g.sess /\ Others /\ Call(0, "res1", "stop2") /\ UNCHANGED <<g, wk, ex>>
Stop2 == /\ Is(0, "stop2") /\ (g.run = W \/ Bug = "stopearly") /\ g' = [g EXCEPT !.quits = 1] /\ XGo(0, "stop3") /\ UNCHANGED <<wk, ex>>
Stop3 == /\ Is(0, "stop3") /\ g.run = 0 /\ XGo(0, "stop4") /\ UNCHANGED <<g, wk, ex>>
Stop4 == /\ Is(0, "stop4") /\ g.leav = 0 /\ g' = [g EXCEPT !.ph = "off", !.freed = TRUE] /\ XGo(0, "start") /\ UNCHANGED <<wk, ex>>

\* ------------------------------------------------------------ workers
WInit(w) == WIs(w, "init") /\ WG(w, "sem0") /\ UNCHANGED <<g, xt, ex>>
WSem0(w) == WIs(w, "sem0") /\ g.sem > 0 /\ g' = [g EXCEPT !.sem = @ - 1] /\ WG(w, "run") /\ UNCHANGED <<xt, ex>>
WRun(w) == WIs(w, "run") /\ g' = [g EXCEPT !.run = @ + 1] /\ WG(w, "loop") /\ UNCHANGED <<xt, ex>>
WLoop(w) == WIs(w, "loop") /\ WG(w, IF g.quits = 1 THEN "quit" ELSE "ext") /\ UNCHANGED <<g, xt, ex>>
WExt(w) == /\ WIs(w, "ext")
           /\ IF g.ext # -1 THEN wk' = [wk EXCEPT ![w].pc = "body", ![w].t = g.ext] /\ g' = [g EXCEPT !.ext = IF Bug = "exttake" THEN @ ELSE -1]
                                 /\ ex' = [ex EXCEPT !.cur = @ \cup {g.ext}, !.n[g.ext] = @ + 1]
              ELSE WG(w, "ms") /\ UNCHANGED <<g, ex>>
           /\ UNCHANGED xt
WBody(w) == /\ WIs(w, "body") /\ ex' = [ex EXCEPT !.cur = @ \ {wk[w].t}]
            /\ g' = [g EXCEPT !.fin = @ \cup {wk[w].t}, !.ext = IF Bug = "exttake" /\ @ = wk[w].t THEN -1 ELSE @] /\ wk' = [wk EXCEPT ![w].pc = "ms", ![w].t = -1] /\ UNCHANGED xt
WMs(w) == WIs(w, "ms") /\ WG(w, IF g.ms = 1 THEN "sus" ELSE "loop") /\ UNCHANGED <<g, xt, ex>>
WSus(w) == WIs(w, "sus") /\ g' = [g EXCEPT !.run = @ - 1] /\ WG(w, "sem1") /\ UNCHANGED <<xt, ex>>
WSem1(w) == WIs(w, "sem1") /\ g.sem > 0 /\ g' = [g EXCEPT !.sem = @ - 1] /\ WG(w, "bar") /\ UNCHANGED <<xt, ex>>
WBar(w) == /\ WIs(w, "bar")
           /\ IF g.bn + 1 = W THEN g' = [g EXCEPT !.bn = 0, !.bgen = @ + 1, !.leav = W] /\ wk' = [wk EXCEPT ![w].pc = "leav"]
              ELSE g' = [g EXCEPT !.bn = @ + 1] /\ wk' = [wk EXCEPT ![w].pc = "barw", ![w].bg = g.bgen]
           /\ UNCHANGED <<xt, ex>>
WBarW(w) == WIs(w, "barw") /\ g.bgen # wk[w].bg /\ WG(w, "leav") /\ UNCHANGED <<g, xt, ex>>
WLeav(w) == WIs(w, "leav") /\ g' = [g EXCEPT !.leav = @ - 1] /\ WG(w, "run") /\ UNCHANGED <<xt, ex>>
WQuit(w) == WIs(w, "quit") /\ g' = [g EXCEPT !.run = @ - 1] /\ WG(w, "dead") /\ UNCHANGED <<xt, ex>>

XStep(t) == \/ Join(t) \/ Res1(t) \/ Res2(t) \/ Res3(t) \/ Sus1(t) \/ Sus2(t) \/ Sus3(t) \/ Sus4(t) \/ Sus5(t) \/ Sus6(t) \/ Sus7(t)
            \/ Choose(t) \/ OutSus(t) \/ OutRes(t) \/ Lock1(t) \/ Excl(t) \/ Excl2(t) \/ CWait(t) \/ Post(t) \/ SWait(t) \/ Lock2(t)
            \/ (t = 0 /\ (Start1 \/ Started \/ Stop1 \/ Stop2 \/ Stop3 \/ Stop4))
WStep(w) == WInit(w) \/ WSem0(w) \/ WRun(w) \/ WLoop(w) \/ WExt(w) \/ WBody(w) \/ WMs(w) \/ WSus(w) \/ WSem1(w) \/ WBar(w) \/ WBarW(w) \/ WLeav(w) \/ WQuit(w)
Finished == g.ph = "off" /\ g.sess = Sessions
Next == (\E t \in Threads : XStep(t)) \/ (\E w \in Workers : WStep(w)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ (\A t \in Threads : WF_vars(XStep(t)) /\ SF_vars(Lock1(t)) /\ SF_vars(Lock2(t)) /\ SF_vars(CWait(t)) /\ SF_vars(Post(t)) /\ SF_vars(Res2(t)) /\ SF_vars(Sus2(t)))
                 /\ (\A w \in Workers : WF_vars(WStep(w)))

\* ------------------------------------------------------------ properties
\* [C05] a submission is executed exactly once, before its caller goes on
Submitted == \A t \in Threads : /\ ex.n[t] <= 1
                                /\ (Is(t, "lock2") => ex.n[t] = 1 /\ t \notin ex.cur)
\* [C06] an exclusive submission overlaps with no other one
ExclusiveAlone == \A t \in ex.cur : ex.exn[t] => ex.cur = {t}
\* [C11] suspended: all workers are blocked
Suspended == (g.awc = 0 /\ g.ph = "on" /\ ~Is(0, "res1") /\ ~Is(0, "res2")) => \A w \in Workers : wk[w].pc \in {"init", "sem0", "sem1"} /\ g.sem = 0
\* [C12] after stop no worker touches anything
Freed == g.freed => \A w \in Workers : wk[w].pc \in {"dead", "init"} /\ (g.sess > 0 => wk[w].pc = "dead")
\* lace_suspend needs awake workers: never called with all reasons gone
\* [C14] everything ends (deadlocks: no successor)
Ends == <>Finished
\* [C06, C14] nobody waits for the exclusive section without a reason
Woken == g.lock = -1 => \A t \in g.cond : (Is(t, "cwait1") => g.exq = 1) /\ (Is(t, "cwait2") => g.cnt > 0)
Counts == g.run \in 0 .. W /\ g.sem \in 0 .. W /\ g.cnt \in 0 .. X /\ g.leav \in 0 .. W
=============================================================================
