------------------------------- MODULE Options -------------------------------
(***************************************************************************)
(* The options of the theory: which values are accepted, and how accepted  *)
(* values change the configuration of a theory instance.                   *)
(*                                                                         *)
(* Values are strings; TLC's Len and SubSeq work on strings.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

At1(s, i) == SubSeq(s, i, i)

LowerCase == [ A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h",
               I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p",
               Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x",
               Y |-> "y", Z |-> "z" ]

RECURSIVE Lower(_)
Lower(s) ==
    IF s = "" THEN ""
    ELSE LET c == At1(s, 1)
         IN  (IF c \in DOMAIN LowerCase THEN LowerCase[c] ELSE c) \o Lower(SubSeq(s, 2, Len(s)))

-----------------------------------------------------------------------------
(* numbers *)

DigitValue == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
              @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)

IsDigits(s) == s # "" /\ \A i \in 1..Len(s) : At1(s, i) \in DOMAIN DigitValue

RECURSIVE Strip(_)
Strip(s) == IF s # "" /\ At1(s, 1) = "0" THEN Strip(SubSeq(s, 2, Len(s))) ELSE s

(* lexicographic comparison of numbers of the same length                  *)
RECURSIVE LexLE(_, _)
LexLE(s, t) ==
    IF s = "" THEN TRUE
    ELSE LET a == DigitValue[At1(s, 1)]
             b == DigitValue[At1(t, 1)]
         IN  a < b \/ (a = b /\ LexLE(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t))))

MaxU64 == "18446744073709551615"

(* unsigned numbers of 64 bit *)
IsU64(s) ==
    /\ IsDigits(s)
    /\ LET n == Strip(s)
       IN  Len(n) < Len(MaxU64) \/ (Len(n) = Len(MaxU64) /\ LexLE(n, MaxU64))

RECURSIVE NumOf(_)
NumOf(s) == IF s = "" THEN 0 ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + DigitValue[At1(s, Len(s))]

(* the value, capped because larger values make no difference              *)
Cap == 1000000000
Num(s) == LET n == Strip(s) IN IF Len(n) > 9 THEN Cap ELSE NumOf(n)

-----------------------------------------------------------------------------
(* <value>[,<thread>] *)

Commas(s) == { i \in 1..Len(s) : At1(s, i) = "," }
HasComma(s) == Commas(s) # {}
FirstComma(s) == CHOOSE i \in Commas(s) : \A j \in Commas(s) : i <= j
Front(s) == IF HasComma(s) THEN SubSeq(s, 1, FirstComma(s) - 1) ELSE s
Rest(s) == IF HasComma(s) THEN SubSeq(s, FirstComma(s) + 1, Len(s)) ELSE ""

NumThreads == 64

ThreadOK(s) == HasComma(s) => IsU64(Rest(s)) /\ Num(Rest(s)) < NumThreads

(* -1 stands for all threads *)
ThreadOf(s) == IF HasComma(s) THEN Num(Rest(s)) ELSE -1

-----------------------------------------------------------------------------
(* the named values *)

Modes == ("no" :> 0) @@ ("inverse" :> 1) @@ ("partial" :> 2) @@ ("partial+" :> 3) @@ ("zero" :> 4) @@ ("full" :> 5)

Sorts == ("no" :> 0) @@ ("weight" :> 1) @@ ("weight-reversed" :> 2) @@ ("potential" :> 3) @@ ("potential-reversed" :> 4)

Heuristics == ("no" :> 0) @@ ("none" :> 0) @@ ("min" :> 1) @@ ("max" :> 2)

Booleans == ("no" :> 0) @@ ("off" :> 0) @@ ("0" :> 0) @@ ("yes" :> 1) @@ ("on" :> 1) @@ ("1" :> 1)

ThreadKeys == { "propagate", "propagate-root", "propagate-budget", "sort-edges" }
BoolKeys == { "rdl", "shift-constraints", "compute-components" }
Keys == ThreadKeys \cup BoolKeys \cup { "add-mutexes", "dl-heuristic" }

Accepts(k, v) ==
    CASE k = "propagate" -> Lower(Front(v)) \in DOMAIN Modes /\ ThreadOK(v)
      [] k = "sort-edges" -> Lower(Front(v)) \in DOMAIN Sorts /\ ThreadOK(v)
      [] k \in { "propagate-root", "propagate-budget" } -> IsU64(Front(v)) /\ ThreadOK(v)
      [] k = "add-mutexes" -> IsU64(Front(v)) /\ (HasComma(v) => IsU64(Rest(v)))
      [] k = "dl-heuristic" -> Lower(v) \in DOMAIN Heuristics
      [] k \in BoolKeys -> Lower(v) \in DOMAIN Booleans
      [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* options of the application *)

RECURSIVE Depth(_, _)
Depth(s, i) ==
    IF i = 0 THEN 0
    ELSE LET c == At1(s, i)
         IN  Depth(s, i - 1) + (IF c = "(" THEN 1 ELSE IF c = ")" THEN -1 ELSE 0)

(* commas that do not separate arguments of a term                         *)
TopCommas(s) == { i \in Commas(s) : Depth(s, i) = 0 }

LowerLetters == { "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s",
                  "t", "u", "v", "w", "x", "y", "z" }
NameChars == LowerLetters \cup DOMAIN LowerCase \cup DOMAIN DigitValue \cup { "_" }

IsInt(s) == IsDigits(IF s # "" /\ At1(s, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s)

IsName(s) == s # "" /\ At1(s, 1) \in LowerLetters /\ \A i \in 1..Len(s) : At1(s, i) \in NameChars

(* terms built from names and numbers with one level of arguments          *)
IsArgs(s) == s # "" /\ \A i \in 0..Len(s) :
    \* every maximal part without commas is a name or a number
    LET C == Commas(s) \cup { 0, Len(s) + 1 }
    IN  i \in C => LET j == CHOOSE j \in C : j > i /\ \A k \in C : k > i => j <= k
                       a == SubSeq(s, i + 1, j - 1)
                   IN  IsInt(a) \/ IsName(a)

Parens(s) == { i \in 1..Len(s) : At1(s, i) = "(" }

IsTerm(s) ==
    \/ IsInt(s)
    \/ IsName(s)
    \/ /\ Cardinality(Parens(s)) = 1 /\ At1(s, Len(s)) = ")"
       /\ LET i == CHOOSE i \in Parens(s) : TRUE
          IN  IsName(SubSeq(s, 1, i - 1)) /\ IsArgs(SubSeq(s, i + 1, Len(s) - 1))

(* <variable>[,<initial>] *)
IsBound(s) ==
    LET C == TopCommas(s)
    IN  IF C = {} THEN IsTerm(s)
        ELSE /\ Cardinality(C) = 1
             /\ LET i == CHOOSE i \in C : TRUE
                IN  IsTerm(SubSeq(s, 1, i - 1)) /\ IsInt(SubSeq(s, i + 1, Len(s)))

Dots(s) == { i \in 1..Len(s) : At1(s, i) = "." }

MaxInt == "2147483647"

(* numbers from 1 to the largest integer *)
IsFactor(s) ==
    LET D == Dots(s)
        i == IF D = {} THEN Len(s) + 1 ELSE CHOOSE i \in D : TRUE
        a == SubSeq(s, 1, i - 1)
        b == SubSeq(s, i + 1, Len(s))
    IN  /\ Cardinality(D) <= 1 /\ IsDigits(a) /\ (D # {} => IsDigits(b))
        /\ LET n == Strip(a)
           IN  n # "" /\ (Len(n) < Len(MaxInt) \/ (Len(n) = Len(MaxInt) /\ LexLE(n, MaxInt)))

CliAccepts(k, v) ==
    CASE k = "minimize-variable" -> IsBound(v)
      [] k = "minimize-factor" -> IsFactor(v)
      [] OTHER -> Accepts(k, v)

-----------------------------------------------------------------------------
(* configurations *)

Setting(d) == [ all |-> d, one |-> <<>> ]

Default ==
    [ mode |-> Setting(0), root |-> Setting(0), budget |-> Setting(0), sort |-> Setting(1),
      mxs |-> 0, mxc |-> 10, heur |-> 0, rdl |-> 0, shift |-> 0, cc |-> 1 ]

(* The value for thread t: the one given for it or else the one for all.   *)
Get(s, t) == IF t \in DOMAIN s.one THEN s.one[t] ELSE s.all

Put(s, t, x) == IF t = -1 THEN [ s EXCEPT !.all = x ] ELSE [ s EXCEPT !.one = (t :> x) @@ @ ]

(* An accepted value changes its own setting and nothing else.             *)
Apply(c, k, v) ==
    CASE k = "propagate" -> [ c EXCEPT !.mode = Put(@, ThreadOf(v), Modes[Lower(Front(v))]) ]
      [] k = "sort-edges" -> [ c EXCEPT !.sort = Put(@, ThreadOf(v), Sorts[Lower(Front(v))]) ]
      [] k = "propagate-root" -> [ c EXCEPT !.root = Put(@, ThreadOf(v), Num(Front(v))) ]
      [] k = "propagate-budget" -> [ c EXCEPT !.budget = Put(@, ThreadOf(v), Num(Front(v))) ]
      [] k = "add-mutexes" -> [ c EXCEPT !.mxs = Num(Front(v)),
                                         \* the default limit is not documented
                                         !.mxc = IF HasComma(v) THEN Num(Rest(v)) ELSE -1 ]
      [] k = "dl-heuristic" -> [ c EXCEPT !.heur = Heuristics[Lower(v)] ]
      [] k = "rdl" -> [ c EXCEPT !.rdl = Booleans[Lower(v)] ]
      [] k = "shift-constraints" -> [ c EXCEPT !.shift = Booleans[Lower(v)] ]
      [] k = "compute-components" -> [ c EXCEPT !.cc = Booleans[Lower(v)] ]

(* rejected values change nothing *)
Configure(c, k, v) == IF Accepts(k, v) THEN Apply(c, k, v) ELSE c

RECURSIVE ConfigureAll(_, _, _)
ConfigureAll(c, os, i) == IF i > Len(os) THEN c ELSE ConfigureAll(Configure(c, os[i][1], os[i][2]), os, i + 1)
=============================================================================
