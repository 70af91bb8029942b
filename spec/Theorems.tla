------------------------------ MODULE Theorems ------------------------------
(***************************************************************************)
(* The specification against first principles: for all small systems of    *)
(* constraints, the notions computed from paths agree with what they mean  *)
(* for assignments.  A system consists of labelled constraints, a set of   *)
(* true and a set of false labels.                                         *)
(***************************************************************************)
EXTENDS Propagator

CONSTANTS
    NVars,     \* number of variables
    NEdges,    \* number of constraints
    MaxW       \* bound on the absolute value of weights

Vs == 1..NVars
Ws == (0 - MaxW)..MaxW
Labels == 1..NEdges

AllEs == { <<u, v, w>> : u \in 0..NVars, v \in 0..NVars, w \in Ws }

(* assignments; paths have at most NVars edges                             *)
Bound == MaxW * NVars
Assignments == [ Vs -> (0 - Bound)..Bound ]

VARIABLES tru, fls, cc

tvars == <<pvars, tru, fls, cc>>

(* constraints are added in the order of some enumeration                  *)
Code(e) == (e[1] * (NVars + 1) + e[2]) * (2 * MaxW + 1) + e[3] + MaxW

TInit ==
    /\ PropagatorInit
    /\ tru = {} /\ fls = {}
    /\ cc \in BOOLEAN

AddEdge ==
    /\ Len(edges) < NEdges
    /\ tru = {} /\ fls = {}
    /\ \E e \in AllEs :
        /\ IF edges = <<>> THEN TRUE ELSE Code(edges[Len(edges)]) <= Code(e)
        /\ edges' = Append(edges, << e[1], e[2], e[3], Len(edges) + 1 >>)
        /\ vars' = vars \cup ({ e[1], e[2] } \ {0})
    /\ comp' = IF cc THEN Components(vars', Range(ProperEdges(edges'))) ELSE OneComponent(vars')
    /\ UNCHANGED <<stk, facts, confl, fresh, tru, fls, cc>>

(* labels become true or false in increasing order                         *)
Decide ==
    /\ \E l \in 1..Len(edges) :
        /\ \A k \in tru \cup fls : k < l
        /\ \/ tru' = tru \cup {l} /\ UNCHANGED fls
           \/ fls' = fls \cup {l} /\ UNCHANGED tru
    /\ UNCHANGED <<pvars, cc>>

TNext == AddEdge \/ Decide

TSpec == TInit /\ [][TNext]_tvars

-----------------------------------------------------------------------------
Act == Active(edges, tru)
Ass == tru \cup { -l : l \in fls }

Satisfiable(E) == \E a \in Assignments : \A e \in E : Sat(a, e)

(* feasibility by paths is satisfiability                                  *)
FeasibleIsSatisfiable == Feasible(Act) <=> Satisfiable(Act)

(* the values satisfy all constraints between variables that have values   *)
ValuesSatisfy ==
    Feasible(Act) =>
        LET A == Values(tru)
            X == { p[1] : p \in A }
            a == [ x \in Vs |-> IF x \in X THEN (CHOOSE p \in A : p[1] = x)[2] ELSE 0 ]
        IN  /\ \A e \in Act : Sat(a, e)
            /\ X = (Vertices(Proper(Act)) \ {0})

(* Values are canonical: relative to its origin the values of a component  *)
(* are the greatest ones bounded by zero when constraints are read as      *)
(* bounds on negated values.                                               *)
ValuesExtreme ==
    Feasible(Act) =>
        LET L == LocalE(Proper(Act), comp)
            V == vars \cup Origins(vars, comp)
            p == Pot(V, L)
        IN  /\ \A e \in L : p[e[2]] <= p[e[1]] + e[3]
            /\ \A x \in V : p[x] <= 0
            /\ \A x \in V : p[x] < 0 => \E e \in L : e[2] = x /\ p[x] = p[e[1]] + e[3]

(* the values of a component do not depend on the rest                     *)
ComponentsIndependent ==
    Feasible(Act) =>
        \A c \in Range(comp) :
            LET In(e) == \E i \in 1..2 : e[i] # 0 /\ comp[e[i]] = c
                ids   == { i \in DOMAIN edges : In(edges[i]) }
                own   == { l \in tru : l \in ids }
            IN  { p \in Values(tru) : comp[p[1]] = c } = { p \in Values(own) : comp[p[1]] = c }

(* full propagation: an open constraint is consistent with the true ones   *)
FullIsConsistency ==
    Feasible(Act) =>
        (FullClosed(tru, Ass) <=>
            \A i \in DOMAIN edges :
                (edges[i][1] # edges[i][2] /\ i \notin fls) =>
                    Feasible(LocalE(Proper(Act), comp) \cup { Local(<<edges[i][1], edges[i][2], edges[i][3]>>, comp) }))

(* the modes form a hierarchy                                              *)
FullIsStrongest == (Feasible(Act) /\ FullClosed(tru, Ass)) => InverseClosed(tru, Ass) /\ ZeroClosed(tru, Ass)

(* whatever is not closed is implied: closing is sound                     *)
ClosingIsSound ==
    (Feasible(Act) /\ ~(InverseClosed(tru, Ass) /\ ZeroClosed(tru, Ass) /\ FullClosed(tru, Ass))) =>
        \E i \in DOMAIN edges : i \notin fls /\ ValidClause({ -i } \cup { -k : k \in tru })

(* clauses stay valid when constraints are added                           *)
ClausesStayValid ==
    [][ \A C \in SUBSET { -l : l \in 1..Len(edges) } : ValidClause(C) => ValidClause(C)' ]_tvars

(* constraints with arbitrary relations mean what their normal forms mean  *)
ASSUME NormalForms ==
    \A r \in Rels, k \in Ws, x \in (0 - 3)..3, y \in (0 - 3)..3 :
        LET a == <<x, y>>
        IN  /\ Holds(x - y, r, k) <=> \E B \in Branches(1, 2, r, k) : \A e \in B : Sat(a, e)
            /\ Holds(x - y, r, k) <=> ~Holds(x - y, NegRel(r), k)
            /\ r # "!=" => (Holds(x - y, r, k) <=> \A e \in Range(LitEdges(1, 2, r, k, 1)) : Sat(a, e))
=============================================================================
