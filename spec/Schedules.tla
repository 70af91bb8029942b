----------------------------- MODULE Schedules ------------------------------
(***************************************************************************)
(* All small systems of constraints and all schedules for them.  TLC       *)
(* writes them to files, they are run on the real propagator, and the      *)
(* recorded traces are validated by module PropTrace.                      *)
(*                                                                         *)
(* A system is a multiset of constraints up to renaming of variables,      *)
(* where constraints might have the same literal, complementary literals   *)
(* or be facts.  A schedule consists of the decisions leading from the     *)
(* root of a search tree to one of its leaves.                             *)
(***************************************************************************)
EXTENDS DL, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC

CONSTANTS
    NVars,     \* number of variables
    NEdges,    \* number of constraints
    MaxW       \* bound on the absolute value of weights

Ws == (0 - MaxW)..MaxW
AllEs == { e \in (0..NVars) \X (0..NVars) \X Ws : e[1] # e[2] }

Base == 2 * MaxW + 1
Code(e) == (e[1] * (NVars + 1) + e[2]) * Base + e[3] + MaxW
Num == (NVars + 1) * (NVars + 1) * Base

Less(a, b) == Code(a) < Code(b)

(* nondecreasing sequences of constraints                                  *)
RECURSIVE Multisets(_)
Multisets(n) ==
    IF n = 0 THEN { <<>> }
    ELSE { Append(s, e) : <<s, e>> \in { p \in Multisets(n - 1) \X AllEs :
              IF p[1] = <<>> THEN TRUE ELSE Code(Last(p[1])) <= Code(p[2]) } }

Renamings == { f \in [ 0..NVars -> 0..NVars ] : f[0] = 0 /\ Range(f) = 0..NVars }

Key(s) == [ i \in DOMAIN s |-> Code(s[i]) ]

RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) ==
    IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLeq(a, b, i + 1)

Rename(s, f) == SortSeq([ i \in DOMAIN s |-> << f[s[i][1]], f[s[i][2]], s[i][3] >> ], Less)

(* one representative for all systems that differ in names only            *)
Systems == { s \in Multisets(NEdges) : \A f \in Renamings : LexLeq(Key(s), Key(Rename(s, f)), 1) }

(* literals: 1 is true, others are free                                    *)
Literals ==
    { [ i \in 1..NEdges |-> i + 1 ] }
    \cup { [ i \in 1..NEdges |-> IF i = k THEN m ELSE i + 1 ] : k \in 1..NEdges, m \in {1} }
    \cup { [ i \in 1..NEdges |-> IF i = k THEN m * (j + 1) ELSE i + 1 ] : k \in 2..NEdges, j \in {1}, m \in {1, -1} }

Free(L) == { IF L[i] < 0 THEN 0 - L[i] ELSE L[i] : i \in 1..NEdges } \ {1}

(* decisions on all free literals in any order, one for each level         *)
RECURSIVE Leaves(_)
Leaves(A) ==
    IF A = {} THEN { <<>> }
    ELSE UNION { { << <<m * x>> >> \o s : s \in Leaves(A \ {x}), m \in {1, -1} } : x \in A }

(* all literals true, several on the same level                            *)
RECURSIVE Batches(_)
Batches(A) ==
    IF A = {} THEN { <<>> }
    ELSE UNION { { << SetToSeq(B) >> \o s : s \in Batches(A \ B) } : B \in SUBSET A \ { {} } }

(* a leaf, back to some level, and on to another leaf                      *)
Detours(A) ==
    { [ up |-> s, to |-> j, down |-> t ] :
        <<s, j, t>> \in { p \in Leaves(A) \X (1..(Cardinality(A) - 1)) \X Leaves(A) :
            \* only positive decisions and the same prefix
            /\ \A i \in DOMAIN p[1] : p[1][i][1] > 0 /\ p[3][i][1] > 0
            /\ SubSeq(p[1], 1, p[2]) = SubSeq(p[3], 1, p[2])
            /\ p[1][p[2] + 1] # p[3][p[2] + 1] } }

Sets == { Free(L) : L \in Literals }

ASSUME
    /\ ndJsonSerialize(IOEnv.OUT \o "/systems.json", SetToSeq({ [ e |-> s ] : s \in Systems }))
    /\ ndJsonSerialize(IOEnv.OUT \o "/schedules.json",
           SetToSeq({ [ l |-> L, leaves |-> Leaves(Free(L)), batches |-> Batches(Free(L)), detours |-> Detours(Free(L)) ] : L \in Literals }))
    /\ PrintT(<<"systems", Cardinality(Systems), "literals", Cardinality(Literals)>>)
=============================================================================
