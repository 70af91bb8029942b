---------------------------- MODULE Observations ----------------------------
(***************************************************************************)
(* Models as reported by the real system and how they relate to the answer *)
(* sets of a program P.                                                    *)
(*                                                                         *)
(* An observation is a record [X, a]: X is the set of true atoms, a the    *)
(* assignment as a set of pairs <<variable, value>>.                       *)
(***************************************************************************)
EXTENDS AnswerSets

AsFun(s) == [ x \in { p[1] : p \in s } |-> (CHOOSE p \in s : p[1] = x)[2] ]

IsFun(s) == \A p, q \in s : p[1] = q[1] => p = q

Pairs(m) == { << p[1], p[2] >> : p \in Range(m) }

Obs(m) == [ X |-> Range(m.at), a |-> Pairs(m.dl) ]

Valued(o, cs) == Needed(cs) \subseteq { p[1] : p \in o.a }

(* the constraints in bodies that hold in a model                          *)
TruthIn(P, o) == { c \in BodyCons(P) : SatCon(AsFun(o.a), c) }

(* the reported assignment satisfies exactly the true constraints          *)
SoundIn(P, o) ==
    /\ IsFun(o.a)
    /\ \A p \in o.a : p[1] > 0
    /\ Valued(o, BodyCons(P))
    /\ LET B == TruthIn(P, o)
           H == HeadsOf(P, o.X, B)
       IN  /\ Valued(o, H)
           /\ \A c \in H : SatCon(AsFun(o.a), c)

(* the model is one of the answer sets; for programs with a defining rule  *)
(* for each constraint this also ties the truth values to the assignment   *)
KnownIn(P, o, E) == \E s \in E : s.X = o.X /\ (Valued(o, BodyCons(P)) => s.B = TruthIn(P, o))
=============================================================================
