------------------------------ MODULE Barrier ------------------------------
(* lace_barrier, lace_barrier_destroy (lace.c) step by step: the counters count, leaving and wait.  The stores are
   atomic; on TSO the relaxed stores of the last worker reach memory in order and before anybody sees wait flip, so
   sequential consistency loses nothing here except that they may be delayed: modelled by separate steps. *)
EXTENDS Integers, FiniteSets
CONSTANTS W, Gens, Bug
Workers == 1 .. W
VARIABLES count, leaving, wait, pc, wl, gen, destroyed
vars == <<count, leaving, wait, pc, wl, gen, destroyed>>
Init == count = 0 /\ leaving = 0 /\ wait = 0 /\ pc = [w \in Workers |-> "out"] /\ wl = [w \in Workers |-> 0] /\ gen = [w \in Workers |-> 0] /\ destroyed = FALSE
G(w, a, b) == pc[w] = a /\ pc' = [pc EXCEPT ![w] = b]
Enter(w) == gen[w] < Gens /\ G(w, "out", "read") /\ gen' = [gen EXCEPT ![w] = @ + 1] /\ UNCHANGED <<count, leaving, wait, wl, destroyed>>
Read(w) == G(w, "read", "add") /\ wl' = [wl EXCEPT ![w] = wait] /\ UNCHANGED <<count, leaving, wait, gen, destroyed>>
Add(w) == /\ pc[w] = "add" /\ count' = count + 1
          /\ pc' = [pc EXCEPT ![w] = IF count + 1 = W THEN (IF Bug = "flipfirst" THEN "flip" ELSE "zero") ELSE "spin"]
          /\ UNCHANGED <<leaving, wait, wl, gen, destroyed>>
Zero(w) == G(w, "zero", "leav") /\ count' = 0 /\ UNCHANGED <<leaving, wait, wl, gen, destroyed>>
Leav(w) == G(w, "leav", IF Bug = "flipfirst" THEN "dec" ELSE "flip") /\ leaving' = W /\ UNCHANGED <<count, wait, wl, gen, destroyed>>
Flip(w) == G(w, "flip", IF Bug = "flipfirst" THEN "zero" ELSE "dec") /\ wait' = 1 - wl[w] /\ UNCHANGED <<count, leaving, wl, gen, destroyed>>
Spin(w) == wait # wl[w] /\ G(w, "spin", "dec") /\ UNCHANGED <<count, leaving, wait, wl, gen, destroyed>>
Dec(w) == G(w, "dec", "out") /\ leaving' = leaving - 1 /\ UNCHANGED <<count, wait, wl, gen, destroyed>>
\* lace_stop: after the workers have passed their last barrier
Destroy == /\ \A w \in Workers : gen[w] = Gens /\ pc[w] \in {"dec", "out"}
           /\ leaving = 0 /\ ~destroyed /\ destroyed' = TRUE /\ UNCHANGED <<count, leaving, wait, pc, wl, gen>>
Step(w) == Enter(w) \/ Read(w) \/ Add(w) \/ Zero(w) \/ Leav(w) \/ Flip(w) \/ Spin(w) \/ Dec(w)
Done == destroyed /\ \A w \in Workers : pc[w] = "out" /\ gen[w] = Gens
Next == (\E w \in Workers : Step(w)) \/ Destroy \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ (\A w \in Workers : WF_vars(Step(w))) /\ WF_vars(Destroy)
\* [C10] whoever has left generation g: everybody has entered it
Together == \A w \in Workers : pc[w] \in {"dec", "out"} => \A v \in Workers : gen[v] > gen[w] \/ (gen[v] = gen[w] /\ (pc[v] # "read" \/ gen[w] = 0))
EnteredAll == \A w, v \in Workers : pc[w] \in {"dec", "out"} => gen[v] >= gen[w]
\* nobody uses the barrier after its destruction
NoUse == destroyed => \A w \in Workers : pc[w] = "out"
\* [C14]
Ends == <>Done
=============================================================================
