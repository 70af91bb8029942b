----------------------------- MODULE Propagator -----------------------------
(***************************************************************************)
(* The difference logic propagator as seen through clingo's propagator     *)
(* interface.  One state machine for any number of solver threads.         *)
(*                                                                         *)
(* The actions correspond one to one to the callbacks of the interface:    *)
(*   InitStep  - a solve step starts: constraints are added, states reset  *)
(*   Deliver   - propagate(changes): literals became true                  *)
(*   Undo      - a decision level is undone                                *)
(*   Check     - check(): facts of earlier steps come into force           *)
(*                                                                         *)
(* The implementation's incremental data structures are abstracted by      *)
(* their meaning: the set of literals delivered per decision level.        *)
(***************************************************************************)
EXTENDS DL

VARIABLES
    edges,   \* sequence of <<u, v, w, l>>: all constraints known so far
    vars,    \* the variables mentioned so far
    comp,    \* the component of each variable
    stk,     \* stk[t]: sequence of [lv, lits], levels strictly increasing
    facts,   \* facts[t]: literals of earlier steps not yet in force again
    confl,   \* confl[t]: the last propagation ended in a conflict
    fresh    \* edges[fresh..] have been added in the current step

pvars == <<edges, vars, comp, stk, facts, confl, fresh>>

Threads == DOMAIN stk

BaseLevel == << [lv |-> 0, lits |-> {}] >>

Delivered(s) == UNION { s[i].lits : i \in DOMAIN s }

Top(s) == s[Len(s)]

(* Atoms are [s |-> strict?, u, v, r, k, l].  fx: literals fixed true.     *)
AtomEdges(a, fx) ==
    LET pos == IF -a.l \in fx THEN <<>> ELSE LitEdges(a.u, a.v, a.r, a.k, a.l)
        neg == IF a.s = 0 \/ a.l \in fx THEN <<>> ELSE LitEdges(a.u, a.v, NegRel(a.r), a.k, -a.l)
    IN  pos \o neg

RECURSIVE AllEdges(_, _, _)
AllEdges(as, fx, i) ==
    IF i > Len(as) THEN <<>> ELSE AtomEdges(as[i], fx) \o AllEdges(as, fx, i + 1)

ProperEdges(s) == SelectSeq(s, LAMBDA e : e[1] # e[2])

PropagatorInit ==
    /\ edges = <<>>
    /\ vars = {}
    /\ comp = <<>>
    /\ stk = <<>>
    /\ facts = <<>>
    /\ confl = <<>>
    /\ fresh = 1

(* n: number of threads, as: atoms of the step, fx: fixed literals,        *)
(* cc: whether components are computed                                     *)
InitStep(n, as, fx, cc) ==
    LET new == AllEdges(as, fx, 1)
        es  == edges \o new
        xs  == (vars \cup UNION { {as[i].u, as[i].v} : i \in DOMAIN as }) \ {0}
    IN  /\ edges' = es
        /\ fresh' = Len(edges) + 1
        /\ vars' = xs
        /\ comp' = IF cc THEN Components(xs, Range(ProperEdges(es))) ELSE OneComponent(xs)
        /\ stk' = [ t \in 1..n |-> BaseLevel ]
        /\ facts' = [ t \in 1..n |-> IF t \in Threads THEN facts[t] \cup stk[t][1].lits ELSE {} ]
        /\ confl' = [ t \in 1..n |-> FALSE ]

(* Literals ch became true on level lv; cf: a conflict was reported.       *)
Deliver(t, lv, ch, cf) ==
    /\ ~confl[t]
    /\ lv >= Top(stk[t]).lv
    /\ stk' = [ stk EXCEPT ![t] =
                  IF lv = Top(@).lv
                  THEN [ @ EXCEPT ![Len(@)].lits = @ \cup ch ]
                  ELSE Append(@, [lv |-> lv, lits |-> ch]) ]
    /\ confl' = [ confl EXCEPT ![t] = cf ]
    /\ UNCHANGED <<edges, vars, comp, facts, fresh>>

Undo(t, lv) ==
    /\ lv > 0
    /\ Top(stk[t]).lv = lv
    /\ stk' = [ stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1) ]
    /\ confl' = [ confl EXCEPT ![t] = FALSE ]
    /\ UNCHANGED <<edges, vars, comp, facts, fresh>>

(* On level 0 the facts of earlier steps come into force.                  *)
Check(t, lv, cf) ==
    /\ ~confl[t]
    /\ IF lv = 0
       THEN /\ stk' = [ stk EXCEPT ![t][1].lits = @ \cup facts[t] ]
            /\ facts' = [ facts EXCEPT ![t] = {} ]
       ELSE UNCHANGED <<stk, facts>>
    /\ confl' = [ confl EXCEPT ![t] = cf ]
    /\ UNCHANGED <<edges, vars, comp, fresh>>

-----------------------------------------------------------------------------
(* What the propagator owes its user in a state.                           *)

(* the values of a thread given the set of true literals                   *)
Values(lits) == Canonical(vars, Active(edges, lits), comp)

(* the true literals do not contradict each other                          *)
Consistent(lits) == Feasible(Active(edges, lits))

(* a clause is implied by the constraints                                  *)
ValidClause(c) == ~Feasible(Active(edges, { -x : x \in c }))

(* literals that have to be false in the given mode                        *)
InverseClosed(lits, ass) ==
    \A e \in Range(edges) : (e[4] \in lits /\ e[1] # e[2]) =>
        \A f \in Range(edges) :
            (f[1] = e[2] /\ f[2] = e[1] /\ e[3] + f[3] < 0) => -f[4] \in ass

OpenEdges(ass) == { e \in Range(edges) : e[1] # e[2] /\ -e[4] \notin ass }

FullClosed(lits, ass) ==
    LET A == LocalE(Proper(Active(edges, lits)), comp)
        V == vars \cup Origins(vars, comp)
        O == { Local(e, comp) : e \in OpenEdges(ass) }
    IN  \A y \in { e[2] : e \in O } :
            LET d == Dist(V, A, y)
            IN  \A e \in O : (e[2] = y /\ d[e[1]] # Inf) => d[e[1]] + e[3] >= 0

ZeroClosed(lits, ass) ==
    LET A == LocalE(Proper(Active(edges, lits)), comp)
        V == vars \cup Origins(vars, comp)
        R == { <<e[2], e[1], e[3]>> : e \in A }
        O == { Local(e, comp) : e \in OpenEdges(ass) }
    IN  \A z \in Origins(vars, comp) :
            LET fr == Dist(V, A, z)
                to == Dist(V, R, z)
            IN  \A e \in O : (to[e[2]] # Inf /\ fr[e[1]] # Inf) => to[e[2]] + fr[e[1]] + e[3] >= 0

(* phase rule of the decision heuristic: 1 = min, 2 = max                  *)
Negative(p, e) == LET f == Local(e, comp) IN p[f[1]] + f[3] - p[f[2]] < 0

Decisions(heur, lits, fb) ==
    IF heur = 0 THEN { fb }
    ELSE LET L  == LocalE(Proper(Active(edges, lits)), comp)
             p  == Pot(vars \cup Origins(vars, comp), L)
             ph == heur = 1
             P  == { Negative(p, e) : e \in { f \in Range(edges) : f[4] = fb /\ f[1] # f[2] } }
             N  == { Negative(p, e) : e \in { f \in Range(edges) : f[4] = -fb /\ f[1] # f[2] } }
         IN  (IF ph \in P \/ (~ph) \in N THEN { -fb } ELSE {})
             \cup (IF (P = {} \/ (~ph) \in P) /\ (N = {} \/ ph \in N) THEN { fb } ELSE {})
=============================================================================
