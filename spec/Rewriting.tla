----------------------------- MODULE Rewriting ------------------------------
(***************************************************************************)
(* What rewriting does to the statements of a program.                     *)
(*                                                                         *)
(* A node of a syntax tree is [ty, at] where at is a sequence of           *)
(* attributes <<name, kind, value>>.  The kinds are: "n" a node, "o" a     *)
(* sequence of at most one node, "l" a sequence of nodes, and "i", "s",    *)
(* "y", "S" for numbers, strings, symbols, and sequences of strings.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Attr(n, name) == LET i == CHOOSE i \in DOMAIN n.at : n.at[i][1] = name IN n.at[i][3]
Has(n, name) == \E i \in DOMAIN n.at : n.at[i][1] = name

Put(n, name, v) ==
    [ n EXCEPT !.at = [ i \in DOMAIN @ |-> IF @[i][1] = name THEN << @[i][1], @[i][2], v >> ELSE @[i] ] ]

IsTree(a) == a[2] \in { "n", "o", "l" }

(* the nodes directly below an attribute                                   *)
Below(a) == IF a[2] = "n" THEN << a[3] >> ELSE IF a[2] \in { "o", "l" } THEN a[3] ELSE <<>>

RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)

-----------------------------------------------------------------------------
(* Pools: a statement with pools stands for all statements obtained by     *)
(* selecting one element of each pool, except that elements of aggregates  *)
(* and theory atoms are multiplied in place, and conditional literals in   *)
(* disjunctions and bodies are multiplied in place for pools in conditions *)
(* before selecting elements for the pools in the conditioned literals.    *)

InPlace == { "conditional_literal", "body_aggregate_element", "head_aggregate_element", "theory_atom_element" }

(* all sequences obtained by appending one of the sequences in t to one in s *)
Cross(s, t) == Concat([ i \in DOMAIN s |-> [ j \in DOMAIN t |-> s[i] \o t[j] ] ], 1)

RECURSIVE Unpool(_)
Unpool(n) ==
    IF n.ty = "pool" THEN Concat([ i \in DOMAIN Attr(n, "arguments") |-> Unpool(Attr(n, "arguments")[i]) ], 1)
    ELSE LET \* ways to replace an element by a sequence of elements
             Ways(name, m) ==
                IF m.ty = "conditional_literal" /\ (n.ty = "disjunction" \/ name = "body")
                THEN LET lit == Attr(m, "literal")
                         us  == Unpool(lit)
                         cs  == Unpool(Put(m, "literal", [ ty |-> "hole", at |-> <<>> ]))
                         RECURSIVE Choices(_)
                         Choices(j) == IF j > Len(cs) THEN << <<>> >>
                                       ELSE Cross([ i \in DOMAIN us |-> << Put(cs[j], "literal", us[i]) >> ], Choices(j + 1))
                     IN  Choices(1)
                ELSE IF m.ty \in InPlace THEN << Unpool(m) >>
                ELSE LET u == Unpool(m) IN [ i \in DOMAIN u |-> << u[i] >> ]
             RECURSIVE WaysOf(_, _, _)
             WaysOf(name, ms, i) == IF i > Len(ms) THEN << <<>> >> ELSE Cross(Ways(name, ms[i]), WaysOf(name, ms, i + 1))
             \* ways to replace an attribute
             Attrs(a) ==
                IF a[2] = "n" THEN LET u == Unpool(a[3]) IN [ i \in DOMAIN u |-> << << a[1], a[2], u[i] >> >> ]
                ELSE IF a[2] \in { "o", "l" }
                     THEN LET u == WaysOf(a[1], a[3], 1) IN [ i \in DOMAIN u |-> << << a[1], a[2], u[i] >> >> ]
                ELSE << << a >> >>
             RECURSIVE All(_)
             All(i) == IF i > Len(n.at) THEN << <<>> >> ELSE Cross(Attrs(n.at[i]), All(i + 1))
             as == All(1)
         IN  [ i \in DOMAIN as |-> [ ty |-> n.ty, at |-> as[i] ] ]

-----------------------------------------------------------------------------
(* Difference constraints                                                  *)

IsDiff(n) ==
    /\ n.ty = "theory_atom"
    /\ LET t == Attr(n, "term")
       IN  \/ t.ty = "function" /\ Attr(t, "name") = "diff" /\ Attr(t, "arguments") = <<>> /\ Attr(t, "external") = 0
           \/ t.ty = "symbolic_term" /\ Attr(t, "symbol") = "diff"

Wellformed(n) ==
    LET es == Attr(n, "elements")
    IN  Len(es) = 1 /\ Len(Attr(es[1], "terms")) = 1 /\ Attr(es[1], "condition") = <<>>

RECURSIVE Malformed(_)
Malformed(n) ==
    \/ IsDiff(n) /\ ~Wellformed(n)
    \/ \E i \in DOMAIN n.at : LET b == Below(n.at[i]) IN \E j \in DOMAIN b : Malformed(b[j])

Rename(t, name) == IF t.ty = "function" THEN Put(t, "name", name) ELSE Put(t, "symbol", name)

(* mark all constraints in a tree with the given name                      *)
RECURSIVE Mark(_, _)
Mark(n, name) ==
    IF IsDiff(n) THEN Put(n, "term", Rename(Attr(n, "term"), name))
    ELSE [ n EXCEPT !.at = [ i \in DOMAIN @ |->
            LET a == @[i]
            IN  << a[1], a[2], IF a[2] = "n" THEN Mark(a[3], name)
                               ELSE IF a[2] \in { "o", "l" } THEN [ j \in DOMAIN a[3] |-> Mark(a[3][j], name) ]
                               ELSE a[3] >> ] ]

HeadName == "__diff_h"
BodyName == "__diff_b"

(* constraints that are heads of rules are head constraints, all others are body constraints *)
Marked(n) ==
    IF n.ty = "rule" /\ IsDiff(Attr(n, "head"))
    THEN Put(Mark(n, BodyName), "head", Mark(Attr(n, "head"), HeadName))
    ELSE Mark(n, BodyName)

-----------------------------------------------------------------------------
(* Shifting: a constraint in the body of an integrity constraint becomes   *)
(* its head                                                                *)

Negated(r) ==
    CASE r = "<=" -> ">"  [] r = ">"  -> "<=" [] r = "<" -> ">=" [] r = ">=" -> "<"
      [] r = "="  -> "!=" [] r = "!=" -> "="

IsConstraint(n) ==
    /\ n.ty = "rule"
    /\ Attr(n, "head").ty = "literal"
    /\ Attr(Attr(n, "head"), "atom").ty = "boolean_constant"
    /\ LET v == Attr(Attr(Attr(n, "head"), "atom"), "value")
           s == Attr(Attr(n, "head"), "sign")
       IN  (v = 0) # (s = 1)

Candidates(n) ==
    IF ~IsConstraint(n) THEN {}
    ELSE LET b == Attr(n, "body")
         IN  { i \in DOMAIN b : b[i].ty = "literal" /\ IsDiff(Attr(b[i], "atom")) }

HasGuard(n, i) == Attr(Attr(Attr(n, "body")[i], "atom"), "guard") # <<>>

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Move(n, i) ==
    LET b == Attr(n, "body")
        c == Attr(b[i], "atom")
        g == Attr(c, "guard")[1]
        h == IF Attr(b[i], "sign") = 1 THEN c
             ELSE Put(c, "guard", << Put(g, "operator_name", Negated(Attr(g, "operator_name"))) >>)
    IN  Put(Put(n, "head", h), "body", Without(b, i))

Shifted(n) ==
    IF Candidates(n) = {} THEN { n }
    ELSE { Move(n, i) : i \in { j \in Candidates(n) : HasGuard(n, j) } }

-----------------------------------------------------------------------------
(* the statements an unpooled statement may be replaced by                 *)
Results(n, shift) == IF shift THEN { Marked(m) : m \in Shifted(n) } ELSE { Marked(n) }

(* Statements have to be rejected if a constraint is malformed.            *)
MustReject(n) == Malformed(n)

(* Constraints without guard cannot be shifted.                            *)
MayReject(n, shift) ==
    \/ MustReject(n)
    \/ shift /\ LET u == Unpool(n) IN \E i \in DOMAIN u : \E j \in Candidates(u[i]) : ~HasGuard(u[i], j)

(* The order of the elements of aggregates and similar constructs, and of  *)
(* the literals in bodies and conditions does not matter.                  *)
Unordered(n, a) ==
    \/ a[1] \in { "body", "condition" } /\ a[2] = "l"
    \/ a[1] = "elements" /\ n.ty \in { "aggregate", "body_aggregate", "head_aggregate", "disjunction", "theory_atom" }

RECURSIVE Meaning(_)
Meaning(n) ==
    [ ty |-> n.ty,
      at |-> [ i \in DOMAIN n.at |->
                LET a == n.at[i]
                IN  << a[1], a[2],
                       IF Unordered(n, a) THEN { Meaning(a[3][j]) : j \in DOMAIN a[3] }
                       ELSE IF a[2] = "n" THEN Meaning(a[3])
                       ELSE IF a[2] \in { "o", "l" } THEN [ j \in DOMAIN a[3] |-> Meaning(a[3][j]) ]
                       ELSE a[3] >> ] ]

(* out is what statement n is rewritten to; the order of the statements    *)
(* obtained from pools does not matter                                     *)
Rewritten(n, out, shift) ==
    LET u == Unpool(n)
        r == [ i \in DOMAIN u |-> { Meaning(m) : m \in Results(u[i], shift) } ]
        o == [ j \in DOMAIN out |-> Meaning(out[j]) ]
    IN  /\ Len(out) = Len(u)
        /\ \A i \in DOMAIN u : \E j \in DOMAIN out : o[j] \in r[i]
        /\ \A j \in DOMAIN out : \E i \in DOMAIN u : o[j] \in r[i]
=============================================================================
