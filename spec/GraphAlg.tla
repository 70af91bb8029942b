------------------------------ MODULE GraphAlg ------------------------------
(***************************************************************************)
(* How the propagator maintains its values: constraints are added one by   *)
(* one to a consistent graph and the potentials are repaired along a       *)
(* search ordered by costs.  This module justifies the abstraction made in *)
(* module Propagator, where the values are a function of the set of true   *)
(* constraints: after every repair and after backtracking the potentials   *)
(* are those given by DL!Pot, a conflict is found exactly if there is one, *)
(* and the constraints reported for a conflict form a negative cycle.      *)
(***************************************************************************)
EXTENDS DL, SequencesExt, TLC

CONSTANTS
    N,         \* the vertices are 0..N
    MaxW,      \* bound on the absolute value of weights
    MaxE,      \* number of constraints added at the same time
    MaxL       \* number of decision levels

V == 0..N
Ws == (0 - MaxW)..MaxW
AllEs == { e \in V \X V \X Ws : e[1] # e[2] }
NoEdge == <<0, 0, 0>>

VARIABLES
    pot,       \* current potentials; vertices start with potential zero
    trail,     \* potentials and graph at the start of each level
    graph,     \* the edges added
    phase,     \* idle, search, added, or conflict
    uv,        \* the edge being added
    cost,      \* change required for the potential of a vertex
    path,      \* the edge requiring the change
    heap,      \* vertices to visit
    done       \* vertices visited

gvars == <<pot, trail, graph, phase, uv, cost, path, heap, done>>

GInit ==
    /\ pot = [ v \in V |-> 0 ]
    /\ trail = <<>>
    /\ graph = {}
    /\ phase = "idle"
    /\ uv = NoEdge
    /\ cost = [ v \in V |-> 0 ]
    /\ path = [ v \in V |-> NoEdge ]
    /\ heap = {}
    /\ done = {}

Reset ==
    /\ uv' = NoEdge
    /\ cost' = [ v \in V |-> 0 ]
    /\ path' = [ v \in V |-> NoEdge ]
    /\ heap' = {}
    /\ done' = {}

NewLevel ==
    /\ phase = "idle"
    /\ Len(trail) < MaxL
    /\ trail' = Append(trail, [ pot |-> pot, graph |-> graph ])
    /\ UNCHANGED <<pot, graph, phase, uv, cost, path, heap, done>>

Begin(e) ==
    LET c == pot[e[1]] + e[3] - pot[e[2]]
    IN  /\ phase = "idle"
        /\ e \notin graph
        /\ Cardinality(graph) < MaxE
        /\ uv' = e
        /\ cost' = [ cost EXCEPT ![e[2]] = c ]
        /\ IF c < 0
           THEN /\ path' = [ path EXCEPT ![e[2]] = e ]
                /\ heap' = { e[2] }
           ELSE UNCHANGED <<path, heap>>
        /\ phase' = "search"
        /\ UNCHANGED <<pot, trail, graph, done>>

(* the source of the new edge is reached: there is a negative cycle        *)
Reached == uv[1] \in heap \cup done

(* visit the vertex with the greatest change                               *)
Visit(s) ==
    /\ phase = "search"
    /\ ~Reached
    /\ \A t \in heap : cost[s] <= cost[t]
    /\ LET p == [ pot EXCEPT ![s] = @ + cost[s] ]
           Seen == heap \cup done
           \* edges leaving s that require a greater change than known
           In(t) == { e \in graph : e[1] = s /\ e[2] = t }
           C(e) == p[s] + e[3] - p[e[2]]
           Old(t) == IF t \in Seen THEN cost[t] ELSE 0
           Better == { t \in V : \E e \in In(t) : C(e) < Old(t) }
           Best(t) == CHOOSE e \in In(t) : \A f \in In(t) : C(e) <= C(f)
       IN  /\ Assert(Better \cap done = {}, "a visited vertex is visited again")
           /\ pot' = p
           /\ cost' = [ t \in V |-> IF t \in Better THEN C(Best(t)) ELSE cost[t] ]
           /\ path' = [ t \in V |-> IF t \in Better THEN Best(t) ELSE path[t] ]
           /\ heap' = (heap \cup Better) \ {s}
           /\ done' = done \cup {s}
    /\ UNCHANGED <<trail, graph, phase, uv>>

Finish ==
    /\ phase = "search"
    /\ ~Reached /\ heap = {}
    /\ graph' = graph \cup { uv }
    /\ phase' = "idle"
    /\ UNCHANGED <<pot, trail>>
    /\ Reset

Conflict ==
    /\ phase = "search"
    /\ Reached
    /\ phase' = "conflict"
    /\ UNCHANGED <<pot, trail, graph, uv, cost, path, heap, done>>

Backtrack ==
    /\ phase \in {"idle", "conflict"}
    /\ trail # <<>>
    /\ pot' = Last(trail).pot
    /\ graph' = Last(trail).graph
    /\ trail' = Front(trail)
    /\ phase' = "idle"
    /\ Reset

GNext ==
    \/ NewLevel
    \/ \E e \in AllEs : Begin(e)
    \/ \E s \in heap : Visit(s)
    \/ Finish
    \/ Conflict
    \/ Backtrack

GSpec == GInit /\ [][GNext]_gvars /\ WF_gvars(\E s \in heap : Visit(s)) /\ WF_gvars(Finish) /\ WF_gvars(Conflict)

-----------------------------------------------------------------------------
(* the edges reported for a conflict, starting from the target of uv       *)
RECURSIVE Walk(_, _)
Walk(x, n) ==
    IF n = 0 THEN << NoEdge >>
    ELSE LET e == path[x] IN << e >> \o (IF e[1] = uv[2] THEN <<>> ELSE Walk(e[1], n - 1))

Weight(s) == FoldSeq(LAMBDA e, a : a + e[3], 0, s)

(* values do not depend on the history                                     *)
Canonic == phase = "idle" => pot = Pot(V, graph)

(* conflicts are found if and only if there are some                       *)
Exact ==
    /\ phase # "conflict" => Feasible(graph)
    /\ phase = "conflict" => ~Feasible(graph \cup { uv })

(* the constraints reported form a simple negative cycle through uv        *)
Cycle ==
    phase = "conflict" =>
        LET c == Walk(uv[2], N + 2)
        IN  /\ Range(c) \subseteq graph \cup { uv }
            /\ uv \in Range(c)
            /\ \A i \in 1..(Len(c) - 1) : c[i][1] = c[i + 1][2]
            /\ c[1][2] = uv[2] /\ c[Len(c)][1] = uv[2]
            /\ Cardinality({ e[2] : e \in Range(c) }) = Len(c)
            /\ Weight(c) < 0

(* every vertex is visited at most once: costs are bounded                 *)
Once == phase = "search" => heap \cap done = {} /\ \A v \in heap : cost[v] < 0

(* the restored graph is the one of the level                              *)
Restored == [][ Len(trail') < Len(trail) => graph' = trail[Len(trail)].graph /\ pot' = Pot(V, graph') ]_gvars

(* every addition ends                                                     *)
Ends == phase = "search" ~> phase # "search"
=============================================================================
