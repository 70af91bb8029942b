--------------------------------- MODULE DL ---------------------------------
(***************************************************************************)
(* Difference logic: the pure mathematics every other module refers to.    *)
(*                                                                         *)
(* Variables are positive integers, the constant 0 is the integer 0.       *)
(* A difference constraint u - v <= w is the edge <<u, v, w>>.             *)
(* An edge with a literal attached is <<u, v, w, l>>.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }

MinOf(S) == CHOOSE m \in S : \A y \in S : m <= y

Vertices(E) == { e[1] : e \in E } \cup { e[2] : e \in E }

(***************************************************************************)
(* Greatest potentials <= 0 with p[v] <= p[u] + w for all edges.           *)
(* NoPot if there is none, that is, if the edges form a negative cycle.    *)
(***************************************************************************)
NoPot == <<>>

Relax(p, E) ==
    [ x \in DOMAIN p |->
        LET c == { p[e[1]] + e[3] : e \in { f \in E : f[2] = x } } \cup { p[x] }
        IN  MinOf(c) ]

RECURSIVE Saturate(_, _, _)
Saturate(p, E, n) ==
    LET q == Relax(p, E)
    IN  IF q = p THEN p
        ELSE IF n = 0 THEN NoPot
        ELSE Saturate(q, E, n - 1)

(* Potentials over the vertices V (a superset of the vertices of E).       *)
Pot(V, E) == Saturate([ x \in V |-> 0 ], E, Cardinality(V))

(* Loops are checked separately because their weights might be huge.       *)
Feasible(E) ==
    LET F == { e \in E : e[1] # e[2] }
        V == Vertices(F)
    IN  (\A e \in E : e[1] = e[2] => e[3] >= 0) /\ (V = {} \/ Pot(V, F) # NoPot)

(***************************************************************************)
(* Single source shortest distances from s; Inf if unreachable.            *)
(* Only meaningful if E has no negative cycle.                             *)
(***************************************************************************)
Inf == 1000000000

RelaxD(d, E) ==
    [ x \in DOMAIN d |->
        LET c == { d[e[1]] + e[3] : e \in { f \in E : f[2] = x /\ d[f[1]] # Inf } } \cup { d[x] }
        IN  MinOf(c) ]

RECURSIVE SaturateD(_, _, _)
SaturateD(d, E, n) ==
    LET q == RelaxD(d, E)
    IN  IF q = d \/ n = 0 THEN q ELSE SaturateD(q, E, n - 1)

Dist(V, E, s) == SaturateD([ x \in V |-> IF x = s THEN 0 ELSE Inf ], E, Cardinality(V))

(***************************************************************************)
(* Connected components: function from the variables X to the smallest     *)
(* variable in the component; the constant 0 does not connect variables.   *)
(***************************************************************************)
RECURSIVE Label(_, _, _)
Label(c, E, n) ==
    LET d == [ x \in DOMAIN c |->
                 MinOf({ c[x] } \cup { c[e[1]] : e \in { f \in E : f[2] = x /\ f[1] # 0 } }
                                \cup { c[e[2]] : e \in { f \in E : f[1] = x /\ f[2] # 0 } }) ]
    IN  IF d = c \/ n = 0 THEN c ELSE Label(d, E, n - 1)

Components(X, E) == Label([ x \in X |-> x ], E, Cardinality(X) + 1)

OneComponent(X) == [ x \in X |-> 0 ]

(* The origin of component c is the vertex -c.                             *)
Local(e, comp) ==
    IF e[1] = 0 /\ e[2] = 0 THEN <<0, 0, e[3]>>
    ELSE IF e[1] = 0 THEN <<-comp[e[2]], e[2], e[3]>>
    ELSE IF e[2] = 0 THEN <<e[1], -comp[e[1]], e[3]>>
    ELSE <<e[1], e[2], e[3]>>

LocalE(E, comp) == { Local(e, comp) : e \in E }

(***************************************************************************)
(* The canonical assignment: a set of pairs <<variable, value>> for the    *)
(* variables occurring in the edges E (self loops do not count).           *)
(* NoAss if E is infeasible.                                               *)
(***************************************************************************)
NoAss == { <<0, 0>> }

Origins(X, comp) == { -comp[x] : x \in X }

Proper(E) == { e \in E : e[1] # e[2] }

Canonical(X, E, comp) ==
    LET L == LocalE(Proper(E), comp)
        p == Pot(X \cup Origins(X, comp), L)
        D == { x \in Vertices(L) : x > 0 }
    IN  IF X = {} THEN {}
        ELSE IF p = NoPot THEN NoAss
        ELSE { <<x, p[-comp[x]] - p[x]>> : x \in D }

(* Does assignment a (a function on variables) satisfy edge e?             *)
Val(a, x) == IF x = 0 THEN 0 ELSE a[x]
Sat(a, e) == Val(a, e[1]) - Val(a, e[2]) <= e[3]

(***************************************************************************)
(* Difference constraints with arbitrary relations and their normal forms. *)
(***************************************************************************)
Rels == { "<=", "<", ">=", ">", "=", "!=" }

NegRel(r) == CASE r = "<=" -> ">"  [] r = "<" -> ">=" [] r = ">=" -> "<"
               [] r = ">"  -> "<=" [] r = "=" -> "!=" [] r = "!=" -> "="

Holds(d, r, k) == CASE r = "<=" -> d <= k [] r = "<" -> d < k [] r = ">=" -> d >= k
                    [] r = ">"  -> d > k  [] r = "=" -> d = k [] r = "!=" -> d # k

(* Conjunctions of edges, one for each way to satisfy the constraint.      *)
Branches(u, v, r, k) ==
    CASE r = "<=" -> { { <<u, v, k>> } }
      [] r = "<"  -> { { <<u, v, k - 1>> } }
      [] r = ">=" -> { { <<v, u, -k>> } }
      [] r = ">"  -> { { <<v, u, -1 - k>> } }
      [] r = "="  -> { { <<u, v, k>>, <<v, u, -k>> } }
      [] r = "!=" -> { { <<u, v, k - 1>> }, { <<v, u, -1 - k>> } }

(* The edges of a constraint without disjunction, labelled with literal l. *)
LitEdges(u, v, r, k, l) ==
    CASE r = "<=" -> << <<u, v, k, l>> >>
      [] r = "<"  -> << <<u, v, k - 1, l>> >>
      [] r = ">=" -> << <<v, u, -k, l>> >>
      [] r = ">"  -> << <<v, u, -1 - k, l>> >>
      [] r = "="  -> << <<u, v, k, l>>, <<v, u, -k, l>> >>

Active(edges, lits) ==
    { <<e[1], e[2], e[3]>> : e \in { f \in Range(edges) : f[4] \in lits } }
=============================================================================
