----------------------------- MODULE OptimizerMC -----------------------------
(* Exhaustive exploration of the minimization algorithm over all problems   *)
(* with values in -K..K and all search strategies.                          *)
EXTENDS Optimizer

CONSTANT K

Vals == (0 - K)..K

MCInit == \E M \in SUBSET Vals, i \in Vals \cup {None} : OInit(M, i)

MCNext ==
    \/ \E b \in (0 - K - 1)..(K + 1) : AddPermanent(b) \/ AddSearch(b) \/ Release(b)
    \/ Start
    \/ \E v \in (0 - K)..(K + 1) : Model(v)
    \/ Sat \/ Unsat \/ Stop
    \/ phase \in { "done", "stopped" } /\ UNCHANGED ovars

(* an added search bound is not released again before it was used *)
Progress ==
    \/ \E b \in (0 - K - 1)..(K + 1) : AddPermanent(b) \/ AddSearch(b)
    \/ Start
    \/ \E v \in (0 - K)..(K + 1) : Model(v)
    \/ Sat \/ Unsat

MCSpec == MCInit /\ [][Progress \/ Stop \/ (phase \in { "done", "stopped" } /\ UNCHANGED ovars)]_ovars /\ WF_ovars(Progress)

Terminates == <>(phase \in { "done", "stopped" })
=============================================================================
