------------------------------ MODULE SolveTrace ------------------------------
(***************************************************************************)
(* Multi-shot solving as a state machine and the validation of recorded    *)
(* runs of the real system.                                                *)
(*                                                                         *)
(* State: the accumulated program, the truth values of its externals, the  *)
(* assumptions of the next solve call and what earlier runs in the same    *)
(* trace returned.  Runs are the same history under different options.     *)
(***************************************************************************)
EXTENDS Observations, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Obligations == { IOEnv.OB1, IOEnv.OB2, IOEnv.OB3, IOEnv.OB4, IOEnv.OB5, IOEnv.OB6, IOEnv.OB7, IOEnv.OB8, IOEnv.OB9 }

Traces == ndJsonDeserialize(TraceFile)

VARIABLES
    prog,     \* set of rules
    exts,     \* external atom |-> "true", "false", or "free"
    asm,      \* assumptions [pos, neg]
    index,    \* variable |-> index in the assignment
    expected, \* answer sets for each solve call of the first run
    results,  \* the observations of the first run for each solve call
    nsolve,   \* number of solve calls in the current run
    nrun,     \* number of runs
    tid, l, bad

tvars == <<prog, exts, asm, index, expected, results, nsolve, nrun, tid, l, bad>>

Cfg == Traces[tid].cfg
Ev  == Traces[tid].ev[l]

On(o) == o \in Obligations
Viol(o, ok) == IF On(o) /\ ~ok THEN { o } ELSE {}

NoAsm == [ pos |-> {}, neg |-> {} ]

-----------------------------------------------------------------------------
(* what is expected of a solve call *)

ExtFacts == { a \in DOMAIN exts : exts[a] = "true" }
ExtFree  == { a \in DOMAIN exts : exts[a] = "free" }

Expected ==
    { s \in AnswerSets(prog, ExtFacts, ExtFree) : asm.pos \subseteq s.X /\ asm.neg \cap s.X = {} }

(* program parts that were present in an earlier run are expected to give  *)
(* the same; so the expectation is computed only once                      *)
Exp == IF nrun > 1 THEN expected[nsolve + 1] ELSE Expected

Truth(o)    == TruthIn(prog, o)
Sound(o)    == SoundIn(prog, o)
Known(o, E) == KnownIn(prog, o, E)

Ambiguous(o) == ~Valued(o, BodyCons(prog))

Exact(ms, E) ==
    LET os == [ i \in DOMAIN ms |-> Obs(ms[i]) ]
        bs == [ i \in DOMAIN ms |-> IF Ambiguous(os[i]) THEN {} ELSE Truth(os[i]) ]
    IN  \A s \in E : Cardinality({ i \in DOMAIN ms : os[i].X = s.X /\ bs[i] = s.B }) = s.n

(* a search stopped early returned some of the answer sets                 *)
Some(ms, E) ==
    LET os == [ i \in DOMAIN ms |-> Obs(ms[i]) ]
    IN  \A i \in DOMAIN ms : Ambiguous(os[i]) \/
            \E s \in E : s.X = os[i].X /\ s.B = Truth(os[i]) /\
                Cardinality({ j \in DOMAIN ms : os[j].X = s.X /\ ~Ambiguous(os[j]) /\ Truth(os[j]) = s.B }) <= s.n

Sum(E) == Cardinality(UNION { { << s, i >> : i \in 1..s.n } : s \in E })

(* projection to the regular atoms *)
SomeSets(ms, E) == \A i \in DOMAIN ms : \E s \in E : s.X = Range(ms[i].at)
SameSets(ms, E) == { Range(ms[i].at) : i \in DOMAIN ms } = { s.X : s \in E }

(* the different ways to read the assignment agree *)
Access(m) ==
    LET a == Pairs(m.dl)
    IN  /\ IsFun(a)
        /\ Cardinality(a) = Len(m.dl) /\ Cardinality(a) = Len(m.it) /\ Cardinality(a) = Len(m.lk)
        /\ Pairs(m.it) = a
        /\ Pairs(m.lk) = a
        /\ \A p \in a : p[1] > 0
        /\ m.pr = 0
        /\ \A i \in DOMAIN m.ix : m.ix[i][1] = m.ix[i][3]
        /\ \A i, j \in DOMAIN m.ix : m.ix[i][2] = m.ix[j][2] => i = j
        /\ \A i \in DOMAIN m.ix : m.ix[i][1] \in DOMAIN index => index[m.ix[i][1]] = m.ix[i][2]

(* and can be read again as long as the model is there                     *)
Again(ms, ys) ==
    Len(ys) > 0 =>
        /\ Len(ys) = Len(ms)
        /\ \A i \in DOMAIN ms :
               /\ Pairs(ys[i].dl) = Pairs(ms[i].dl) /\ Len(ys[i].dl) = Len(ms[i].dl)
               /\ Pairs(ys[i].it) = Pairs(ms[i].dl) /\ Len(ys[i].it) = Len(ms[i].dl)

(* The values reported with a model are those of the constraints in force: *)
(* the sides of disequalities can be seen from the values.  Which          *)
(* constraints connect components is only known here if the constraints in *)
(* force and all constraints agree.                                        *)
Side(o, c) == UNION { b \in BranchesOf(c) : \A e \in b : Sat(AsFun(o.a), e) }

InForce(P, o) ==
    LET B  == TruthIn(P, o)
        cs == { c \in Enforced(P, o.X, B) : c[1] # c[2] }
    IN  Base(cs) \cup UNION { Side(o, c) : c \in { x \in cs : x[3] = "!=" } }

AllPairs(P) == { << c[1], c[2], 0 >> : c \in { x \in BodyCons(P) \cup HeadCons(P) : x[1] # x[2] } }

CanonIn(P, o) ==
    LET E == InForce(P, o)
        X == Vertices(E) \ {0}
        A == AllPairs(P)
        Y == X \cup (Vertices(A) \ {0})
        cE == IF Cfg.cc = 1 THEN Components(X, E) ELSE OneComponent(X)
        cA == IF Cfg.cc = 1 THEN Components(Y, A) ELSE OneComponent(Y)
    IN  Sound(o) =>
            /\ { p[1] : p \in o.a } = X
            /\ (\A x, y \in X : cE[x] = cE[y] <=> cA[x] = cA[y]) => o.a = Canonical(X, E, cE)

NewIndex ==
    LET S == UNION { { << m.ix[i][1], m.ix[i][2] >> : i \in DOMAIN m.ix } : m \in Range(Ev.models) }
    IN  [ x \in DOMAIN index \cup { p[1] : p \in S } |->
            IF x \in DOMAIN index THEN index[x] ELSE (CHOOSE p \in S : p[1] = x)[2] ]

-----------------------------------------------------------------------------
(* comparing runs *)

(* multiset of observations as a function *)
Bag(ms) ==
    LET os == [ i \in DOMAIN ms |-> Obs(ms[i]) ]
    IN  { << o, Cardinality({ i \in DOMAIN ms : os[i] = o }) >> : o \in Range(os) }

AtBag(ms) ==
    LET os == [ i \in DOMAIN ms |-> Range(ms[i].at) ]
    IN  { << o, Cardinality({ i \in DOMAIN ms : os[i] = o }) >> : o \in Range(os) }

SameAsBefore ==
    nrun > 1 =>
      IF Cfg.same = "values" THEN Bag(Ev.models) = results[nsolve + 1].bag
      ELSE IF Cfg.same = "atoms" THEN AtBag(Ev.models) = results[nsolve + 1].atbag
      ELSE TRUE

-----------------------------------------------------------------------------
TraceInit ==
    /\ prog = {} /\ exts = <<>> /\ asm = NoAsm /\ index = <<>>
    /\ expected = <<>> /\ results = <<>> /\ nsolve = 0 /\ nrun = 0
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ bad = {}

Is(k) == bad = {} /\ l <= Len(Traces[tid].ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tid

(* a new control object and theory *)
DoRun ==
    /\ Is("run")
    /\ prog' = {} /\ exts' = <<>> /\ asm' = NoAsm /\ index' = <<>> /\ nsolve' = 0
    /\ nrun' = nrun + 1
    /\ UNCHANGED <<expected, results, bad>>

(* a program part is grounded *)
DoPart ==
    /\ Is("part")
    /\ prog' = prog \cup { RuleSets(r) : r \in Range(Ev.rules) }
    /\ exts' = [ a \in DOMAIN exts \cup Range(Ev.exts) |-> IF a \in DOMAIN exts THEN exts[a] ELSE "false" ]
    /\ UNCHANGED <<asm, index, expected, results, nsolve, nrun, bad>>

DoExternal ==
    /\ Is("ext")
    /\ Ev.a \in DOMAIN exts
    /\ exts' = IF Ev.v = "release"
               THEN [ a \in DOMAIN exts \ {Ev.a} |-> exts[a] ]
               ELSE [ exts EXCEPT ![Ev.a] = Ev.v ]
    /\ UNCHANGED <<prog, asm, index, expected, results, nsolve, nrun, bad>>

DoAssume ==
    /\ Is("asm")
    /\ asm' = [ pos |-> Range(Ev.pos), neg |-> Range(Ev.neg) ]
    /\ UNCHANGED <<prog, exts, index, expected, results, nsolve, nrun, bad>>

DoSolve ==
    /\ Is("solve")
    /\ expected' = IF nrun > 1 THEN expected ELSE Append(expected, Expected)
    /\ results' = IF nrun > 1 THEN results
                  ELSE Append(results, [ bag |-> Bag(Ev.models), atbag |-> AtBag(Ev.models),
                                      lim |-> Ev.lim > 0 ])
    /\ nsolve' = nsolve + 1
    /\ asm' = NoAsm
    /\ index' = NewIndex
    /\ bad' = LET E  == expected'[nsolve + 1]
                  ms == Ev.models
              IN  Viol("sat", /\ Ev.sat = (IF E = {} THEN 0 ELSE 1) /\ (Ev.sat = 1 <=> Len(ms) > 0)
                               /\ IF Ev.lim > 0 THEN Ev.unsat = 0 /\ Len(ms) = Ev.lim ELSE Ev.unsat = 1 - Ev.sat)
                  \cup Viol("sound", \A i \in DOMAIN ms : Sound(Obs(ms[i])))
                  \cup Viol("known", \A i \in DOMAIN ms : Known(Obs(ms[i]), E))
                  \cup Viol("exact", IF Ev.lim > 0 THEN Some(ms, E) ELSE Exact(ms, E) /\ Len(ms) = Sum(E))
                  \cup Viol("sets", IF Ev.lim > 0 THEN SomeSets(ms, E) ELSE SameSets(ms, E))
                  \cup Viol("access", \A i \in DOMAIN ms : Access(ms[i]))
                  \cup Viol("access", Again(ms, Ev.yd))
                  \cup Viol("canon", \A i \in DOMAIN ms : CanonIn(prog, Obs(ms[i])))
                  \cup Viol("same", Ev.lim > 0 \/ results'[nsolve + 1].lim \/ SameAsBefore)
    /\ UNCHANGED <<prog, exts, nrun>>

(* statistics of the theory are among those of the solver *)
DoStat ==
    /\ Is("stat")
    /\ bad' = Viol("stat", Ev.found = 1)
    /\ UNCHANGED <<prog, exts, asm, index, expected, results, nsolve, nrun>>

DoError ==
    /\ Is("err")
    /\ bad' = { "error" }
    /\ UNCHANGED <<prog, exts, asm, index, expected, results, nsolve, nrun>>

Finished ==
    /\ bad # {} \/ l = Len(Traces[tid].ev) + 1
    /\ UNCHANGED tvars

TraceNext == DoRun \/ DoPart \/ DoExternal \/ DoAssume \/ DoSolve \/ DoStat \/ DoError \/ Finished

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == bad = {}

Short == [ trace |-> Traces[tid].id, event |-> l - 1, violated |-> bad ]
=============================================================================
