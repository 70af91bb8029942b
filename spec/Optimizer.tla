------------------------------ MODULE Optimizer ------------------------------
(***************************************************************************)
(* Minimization of a variable by a sequence of solve calls.                *)
(*                                                                         *)
(* The problem is given by the set mins of the least values the variable   *)
(* can take in the answer sets (one for each answer set and each way to    *)
(* satisfy its constraints) and an initial bound.  Bounds are added        *)
(* permanently or retractably; a solve call returns a model respecting     *)
(* all of them or proves that there is none.                               *)
(*                                                                         *)
(* The search strategy is left open: any search bound that is weaker than  *)
(* what is known to be unattainable may be tried.                          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

None == 1000000000

VARIABLES
    mins,    \* least values of the variable in the answer sets
    init,    \* initial bound or None
    found,   \* values of the models found so far
    best,    \* value of the last model or None
    lower,   \* lower bound established so far or None (reported via statistics)
    perm,    \* bounds added permanently
    temp,    \* retractable bounds in force
    phase    \* "prepare", "solving", "sat", "stopped", "done"

ovars == << mins, init, found, best, lower, perm, temp, phase >>

Min(S) == CHOOSE m \in S : \A y \in S : m <= y

Attainable(b) == { m \in mins : \A x \in b : m <= x }

InitialBounds == IF init = None THEN {} ELSE { init }

(* the least value respecting the initial bound                            *)
Feasible0 == Attainable(InitialBounds)
Optimum == Min(Feasible0)

(* a bound may be added permanently if no solution better than the best    *)
(* model gets lost                                                         *)
PermOK(b) == b = init \/ b \in { v - 1 : v \in found }

(* at most one search bound is in force and it is not already known to be  *)
(* unattainable; it might be weaker than the permanent bounds in which     *)
(* case it does not have any effect                                        *)
TempOK(b) ==
    /\ temp = {}
    /\ lower # None => b >= lower

ModelOK(v) ==
    /\ \E m \in mins : m <= v
    /\ \A b \in perm \cup temp \cup InitialBounds : v <= b
    /\ best # None => v < best

ResultOK(sat) == sat <=> Attainable(perm \cup temp \cup InitialBounds) # {}

LowerOK(l) == Feasible0 # {} => l <= Optimum

DoneOK == IF Feasible0 = {} THEN best = None ELSE best = Optimum

-----------------------------------------------------------------------------
(* the actions of the algorithm *)

OInit(M, i) ==
    /\ mins = M /\ init = i
    /\ found = {} /\ best = None /\ lower = None
    /\ perm = {} /\ temp = {} /\ phase = "prepare"

AddPermanent(b) ==
    /\ phase = "prepare" /\ PermOK(b) /\ b \notin perm
    /\ perm' = perm \cup {b}
    /\ UNCHANGED << mins, init, found, best, lower, temp, phase >>

AddSearch(b) ==
    /\ phase = "prepare" /\ TempOK(b) /\ best # None
    /\ temp' = {b}
    /\ UNCHANGED << mins, init, found, best, lower, perm, phase >>

Release(b) ==
    /\ phase = "prepare" /\ b \in temp
    /\ temp' = temp \ {b}
    /\ UNCHANGED << mins, init, found, best, lower, perm, phase >>

(* the bounds necessary to make progress are in place *)
Ready == /\ init # None => init \in perm
         /\ best # None => best - 1 \in perm

Start ==
    /\ phase = "prepare" /\ Ready
    /\ phase' = "solving"
    /\ UNCHANGED << mins, init, found, best, lower, perm, temp >>

Model(v) ==
    /\ phase = "solving" /\ ModelOK(v)
    /\ best' = v /\ found' = found \cup {v}
    /\ phase' = "sat"
    /\ UNCHANGED << mins, init, lower, perm, temp >>

Sat ==
    /\ phase = "sat" /\ phase' = "prepare"
    \* the search bound is replaced by a better one
    /\ temp' = {}
    /\ UNCHANGED << mins, init, found, best, lower, perm >>

Unsat ==
    /\ phase = "solving" /\ ResultOK(FALSE)
    /\ IF temp = {}
       THEN phase' = "done" /\ UNCHANGED << lower, temp >>
       ELSE /\ lower' = IF Min(temp) < best THEN Min(temp) + 1 ELSE best
            /\ temp' = {}
            /\ phase' = IF lower' > best - 1 THEN "done" ELSE "prepare"
    /\ UNCHANGED << mins, init, found, best, perm >>

(* a search that reached a limit ends the minimization without a proof     *)
Stop ==
    /\ phase = "solving" /\ phase' = "stopped"
    /\ UNCHANGED << mins, init, found, best, lower, perm, temp >>

-----------------------------------------------------------------------------
(* properties *)

LowerValid == lower # None => LowerOK(lower)

PermValid == \A b \in perm : \A m \in Feasible0 : m <= b \/ best # None

OptimumFound == phase = "done" => DoneOK

ModelsExist == best # None => /\ Feasible0 # {}
                              /\ best >= Optimum
=============================================================================
