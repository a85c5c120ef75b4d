----------------------------- MODULE LaceTrace -----------------------------
(***************************************************************************)
(* Trace validation: replays recorded executions of the real library through*)
(* the actions of the contract (Lace.tla).  Every trace of the file is one  *)
(* initial state; the recorded events carry all parameters, so a trace is a *)
(* chain of states.  A trace is accepted iff every event is an enabled      *)
(* action; acceptance and progress are printed per trace.                   *)
(***************************************************************************)
EXTENDS Lace, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Verbose == "VERBOSE" \in DOMAIN IOEnv

VARIABLES tr, pos
tvars == <<vars, tr, pos>>

E == Traces[tr].ev[pos]
Th == E[2]
A == E[3]
B == E[4]
C == E[5]
D == E[6]
VC == IF Len(E) > 6 THEN E[7] ELSE <<>>

Step(k) ==
  CASE k = "Spawn" -> Spawn(Th, A, VC)
    [] k = "Start" -> Start(Th, A, B, C, D, VC)
    [] k = "End" -> End(Th, A, VC)
    [] k = "Sync" -> Pop(Th, A, "sync")
    [] k = "SyncRet" -> SyncRet(Th, A, B, VC)
    [] k = "Drop" -> Pop(Th, A, "drop")
    [] k = "DropRet" -> DropRet(Th, A, VC)
    [] k = "Call" -> Submit(Th, A, "call", FALSE, VC)
    [] k = "CallRet" -> Return(Th, A, "call", B, VC)
    [] k = "Run" -> Submit(Th, A, "run", B = 1, VC)
    [] k = "RunRet" -> Return(Th, A, "run", B, VC)
    [] k = "Nf" -> Submit(Th, A, "nf", FALSE, VC)
    [] k = "NfRet" -> Return(Th, A, "nf", B, VC)
    [] k = "Tg" -> Submit(Th, A, "tg", FALSE, VC)
    [] k = "TgRet" -> Return(Th, A, "tg", B, VC)
    [] k = "Bar" -> Bar(Th, VC)
    [] k = "BarRet" -> BarRet(Th, VC)
    [] k = "Yield" -> Begin(Th, "yield")
    [] k = "YieldRet" -> Finish(Th, "yield")
    [] k = "Steal" -> Begin(Th, "steal")
    [] k = "StealRet" -> Finish(Th, "steal")
    [] k = "Insp" -> Insp(Th, A, B, C, D % 2 = 1, D \div 2, VC)
    [] k = "Share" -> Share(Th, A)
    [] k = "Wait" -> Wait(Th, A)
    [] k = "Bulk" -> Bulk(Th, A, B, C, D)
    [] k = "Halt" -> Halt(Th, A, B)
    [] k = "StartInv" -> StartInv(Th, A, B)
    [] k = "StartRet" -> StartRet(Th, A, B, C, D)
    [] k = "StopInv" -> StopInv(Th)
    [] k = "StopMid" -> StopMid(Th)
    [] k = "StopRet" -> StopRet(Th, A, B)
    [] k = "Sus" -> ExtOp(Th, "sus")
    [] k = "SusRet" -> ExtOpRet(Th, "sus", -1)
    [] k = "Res" -> ExtOp(Th, "res")
    [] k = "ResRet" -> ExtOpRet(Th, "res", 1)
    [] k = "Quiet" -> Quiet(Th, A)
    [] k = "ExtQ" -> ExtQ(Th, A, B, C)
    [] k = "Probe" -> Probe(Th, A)
    [] k = "SetStack" -> SetStack(Th, A, B)
    [] k = "Reset" -> Reset(Th)
    [] k = "Report" -> IF B = 1 THEN ReportInv(Th) ELSE Report(Th, A, C, D)
    [] k = "Trng" -> UNCHANGED vars
    [] k = "Fault" -> Fault(Th)
    [] k = "Exit" -> Exit(Th, A, B)
    [] k = "Fin" -> Fin(Th)
    [] OTHER -> FALSE        \* Deadlock, Livelock, Hang, Crash, BadAccess, BadCall: never allowed

TraceInit == /\ tr \in 1 .. Len(Traces) /\ pos = 1 /\ Init0(Traces[tr].env)
TraceNext ==
  /\ pos <= Len(Traces[tr].ev)
  /\ Step(E[1])
  /\ pos' = pos + 1 /\ tr' = tr
  /\ IF pos = Len(Traces[tr].ev) /\ ended' THEN PrintT(<<"ACCEPT", tr, pos>>)
     ELSE IF Verbose THEN PrintT(<<"STEP", tr, pos, [sess |-> sess', who |-> who', stk |-> stk', ext |-> ext', frs |-> frs', extrun |-> extrun', aw |-> aw', cnt |-> cnt', mark |-> mark', wt |-> wt', must |-> must', tsk |-> {<<i - 1, tsk'[i]>> : i \in {j \in DOMAIN tsk' : tsk'[j].st # "gone"}}]>>) ELSE TRUE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
