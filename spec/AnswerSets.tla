----------------------------- MODULE AnswerSets -----------------------------
(***************************************************************************)
(* Answer sets of ground logic programs with difference constraints.       *)
(*                                                                         *)
(* Atoms are positive integers.  A rule is a record with fields            *)
(*   t   : "n" normal, "c" choice, "x" integrity constraint, "d" theory    *)
(*   h   : head atom (0 if there is none)                                  *)
(*   hd  : head constraint <<u, v, rel, k>> if t = "d"                     *)
(*   pos, neg, nn : atoms occurring positively, negatively, doubly negated *)
(*   td  : constraints in the body as records [s, c] where s is the number *)
(*         of default negations and c = <<u, v, rel, k>>                   *)
(*                                                                         *)
(* A constraint in a body is an atom that is true iff the constraint       *)
(* holds; a constraint in a head has to hold if the atom is derived.       *)
(***************************************************************************)
EXTENDS DL

RuleSets(r) ==
    [ t |-> r.t, h |-> r.h,
      hd |-> IF r.t = "d" THEN << r.hd[1], r.hd[2], r.hd[3], r.hd[4] >> ELSE <<>>,
      pos |-> Range(r.pos), neg |-> Range(r.neg), nn |-> Range(r.nn),
      tp |-> { << x.c[1], x.c[2], x.c[3], x.c[4] >> : x \in { y \in Range(r.td) : y.s # 1 } },
      tn |-> { << x.c[1], x.c[2], x.c[3], x.c[4] >> : x \in { y \in Range(r.td) : y.s = 1 } } ]

(* the constraints in bodies and heads                                     *)
BodyCons(P) == UNION { r.tp \cup r.tn : r \in P }
HeadCons(P) == { r.hd : r \in { x \in P : x.t = "d" } }

(* atoms whose truth value has to be guessed                               *)
Guess(P, free) == UNION { r.neg \cup r.nn \cup (IF r.t = "c" THEN { r.h } ELSE {}) : r \in P } \cup free

Fires(r, X, g, B) ==
    /\ r.pos \subseteq X
    /\ r.neg \cap g = {}
    /\ r.nn \subseteq g
    /\ r.tp \subseteq B
    /\ r.tn \cap B = {}

RECURSIVE Least(_, _, _, _)
Least(P, X, g, B) ==
    LET Y == X \cup { r.h : r \in { x \in P : /\ x.t = "n" \/ (x.t = "c" /\ x.h \in g)
                                             /\ Fires(x, X, g, B) } }
    IN  IF Y = X THEN X ELSE Least(P, Y, g, B)

(* The answer sets over the regular atoms if exactly the constraints B in  *)
(* bodies hold; facts: atoms true from outside, free: arbitrary atoms.     *)
Models(P, facts, free, B) ==
    LET GA == Guess(P, free)
    IN  { X \in { Least(P, facts \cup (free \cap g), g, B) : g \in SUBSET GA } :
            LET g == X \cap GA
            IN  /\ Least(P, facts \cup (free \cap g), g, B) = X
                /\ \A r \in P : r.t = "x" => ~Fires(r, X, X, B) }

HeadsOf(P, X, B) == { r.hd : r \in { x \in P : x.t = "d" /\ Fires(x, X, X, B) } }

Neg(c) == << c[1], c[2], NegRel(c[3]), c[4] >>

(* the constraints in force                                                *)
Enforced(P, X, B) == HeadsOf(P, X, B) \cup B \cup { Neg(c) : c \in BodyCons(P) \ B }

BranchesOf(c) == Branches(c[1], c[2], c[3], c[4])

Base(cs) == UNION { UNION BranchesOf(c) : c \in { x \in cs : x[3] # "!=" } }

RECURSIVE CountD(_, _)
CountD(E, cs) ==
    IF cs = {} THEN 1
    ELSE LET c == CHOOSE x \in cs : TRUE
             F == { b \in BranchesOf(c) : Feasible(E \cup b) }
             RECURSIVE Sum(_)
             Sum(S) == IF S = {} THEN 0
                       ELSE LET b == CHOOSE x \in S : TRUE
                            IN  CountD(E \cup b, cs \ {c}) + Sum(S \ {b})
         IN  Sum(F)

(* in how many ways can the constraints be satisfied, choosing a side for  *)
(* each disequality                                                        *)
Count(cs) ==
    LET E == Base(cs)
    IN  IF Feasible(E) THEN CountD(E, { x \in cs : x[3] = "!=" }) ELSE 0

(* the truth assignments to the constraints in bodies that are possible    *)
Theories(P) ==
    LET BA == BodyCons(P)
    IN  { B \in SUBSET BA : Count(B \cup { Neg(c) : c \in BA \ B }) > 0 }

(* the answer sets with their multiplicity                                 *)
AnswerSets(P, facts, free) ==
    { s \in UNION { { [ X |-> X, B |-> B, n |-> Count(Enforced(P, X, B)) ] : X \in Models(P, facts, free, B) }
                    : B \in Theories(P) } : s.n > 0 }

(* the vertices that have to have a value                                  *)
Needed(cs) == { x \in UNION { IF c[1] = c[2] THEN {} ELSE { c[1], c[2] } : c \in cs } : x # 0 }

SatCon(a, c) == Holds(IF c[1] = c[2] THEN 0 ELSE Val(a, c[1]) - Val(a, c[2]), c[3], c[4])
=============================================================================
