------------------------------ MODULE SearchMC ------------------------------
(***************************************************************************)
(* Why the contract between solver and propagator is enough: a solver that *)
(* knows nothing about difference constraints enumerates the answer sets   *)
(* of an accumulating program if                                           *)
(*   - every clause of the propagator is valid (C03), and                  *)
(*   - a total assignment whose true constraints are inconsistent is       *)
(*     rejected with a clause it violates (C04).                           *)
(* The solver keeps clauses over several steps, forgets any of them at any *)
(* time, and might learn consequences of those it has.                     *)
(***************************************************************************)
EXTENDS Propagator

CONSTANTS
    NVars, NEdges, MaxW,
    Broken     \* name of an assumption to drop (to test the model)

Ws == (0 - MaxW)..MaxW
AllEs == { e \in (0..NVars) \X (0..NVars) \X Ws : e[1] # e[2] }

VARIABLES
    db,        \* clauses: sets of labels that cannot be true together
    models,    \* models found in this step
    state,     \* "ground", "solve" or "done"
    steps

svars == <<pvars, db, models, state, steps>>

Labels == 1..Len(edges)

SInit ==
    /\ PropagatorInit
    /\ db = {} /\ models = {} /\ state = "ground" /\ steps = 0

Add ==
    /\ state = "ground"
    /\ Len(edges) < NEdges
    /\ \E e \in AllEs :
        /\ edges' = Append(edges, <<e[1], e[2], e[3], Len(edges) + 1>>)
        /\ vars' = vars \cup ({e[1], e[2]} \ {0})
    /\ UNCHANGED <<comp, stk, facts, confl, fresh, db, models, state, steps>>

Solve ==
    /\ state = "ground" /\ edges # <<>>
    /\ state' = "solve"
    /\ models' = {}
    /\ steps' = steps + 1
    /\ UNCHANGED <<pvars, db>>

(* total assignments the solver still considers                            *)
Candidates == { A \in SUBSET Labels : A \notin models /\ \A c \in db : ~(c \subseteq A) }

Denies(c) == { 0 - l : l \in c }
Legal(c) == c # {} /\ (Broken # "valid" => ValidClause(Denies(c)))

(* the solver completes an assignment                                      *)
Reject(A) ==
    /\ state = "solve"
    /\ A \in Candidates
    /\ ~Consistent(A)
    /\ Broken # "prompt"
    /\ \E c \in SUBSET A : Legal(c) /\ db' = db \cup { c }
    /\ UNCHANGED <<pvars, models, state, steps>>

Accept(A) ==
    /\ state = "solve"
    /\ A \in Candidates
    /\ Broken # "prompt" => Consistent(A)
    /\ models' = models \cup { A }
    /\ UNCHANGED <<pvars, db, state, steps>>

(* clauses added by propagation before an assignment is complete           *)
Propagate ==
    /\ state = "solve"
    /\ \E c \in SUBSET Labels : Cardinality(c) <= 2 /\ Legal(c) /\ c \notin db /\ db' = db \cup { c }
    /\ UNCHANGED <<pvars, models, state, steps>>

Forget ==
    /\ state = "solve"
    /\ \E c \in db : db' = db \ { c }
    /\ UNCHANGED <<pvars, models, state, steps>>

Done ==
    /\ state = "solve"
    /\ Candidates = {}
    /\ state' = "done"
    /\ UNCHANGED <<pvars, db, models, steps>>

Next ==
    \/ Add \/ Solve \/ Propagate \/ Forget \/ Done
    \/ \E A \in SUBSET Labels : Reject(A) \/ Accept(A)
    \/ /\ state = "done" /\ steps < 2 /\ state' = "ground" /\ UNCHANGED <<pvars, db, models, steps>>

SSpec == SInit /\ [][Next]_svars

Answers == { A \in SUBSET Labels : Consistent(A) }

Sound == models \subseteq (IF state = "ground" THEN SUBSET Labels ELSE Answers)
Complete == state = "done" => models = Answers
ClausesValid == \A c \in db : ValidClause(Denies(c))
(* the search can always go on                                             *)
Progress == state = "solve" => \/ Candidates = {}
                               \/ \E A \in Candidates : Consistent(A) \/ \E c \in SUBSET A : Legal(c) /\ c \notin db
=============================================================================
