------------------------------ MODULE PropTrace ------------------------------
(***************************************************************************)
(* Validation of traces recorded from the real propagator against module   *)
(* Propagator.  Every recorded callback is matched with the corresponding  *)
(* action; the obligations selected by Obligations are evaluated on the    *)
(* recorded outputs and violated ones are collected in bad.                *)
(***************************************************************************)
EXTENDS Propagator, Options, Normalize, Json, IOUtils

TraceFile == IOEnv.TRACE
Obligations == { IOEnv.OB1, IOEnv.OB2, IOEnv.OB3, IOEnv.OB4, IOEnv.OB5, IOEnv.OB6, IOEnv.OB7, IOEnv.OB8, IOEnv.OB9 }

Traces == ndJsonDeserialize(TraceFile)

VARIABLES
    cfg,   \* the configuration of each theory instance; 0 is the one running
    tid, l, bad, stat

tvars == <<pvars, cfg, tid, l, bad, stat>>

(* the configuration in force *)
C == cfg[0]
Mode(t)   == Get(C.mode, t - 1)
Root(t)   == Get(C.root, t - 1)
Budget(t) == Get(C.budget, t - 1)
Sort(t)   == Get(C.sort, t - 1)

Ev  == Traces[tid].ev[l]
T   == Ev.t + 1

Set(s) == Range(s)
On(o) == o \in Obligations

(* collect the name of a violated obligation *)
Viol(o, ok) == IF On(o) /\ ~ok THEN { o } ELSE {}

ClauseSets == { Set(Ev.cl[i]) : i \in DOMAIN Ev.cl }

-----------------------------------------------------------------------------
(* obligations *)

Lemmas(es) == On("lemma") => \A c \in ClauseSets : ~Feasible(Active(es, { -x : x \in c }))

SameValues(va, lits, es, xs, cm) ==
    /\ Set(va) = Canonical(xs, Active(es, lits), cm)
    /\ Len(va) = Cardinality(Set(va))

(* values reported by the acting thread *)
ValuesOK == facts'[T] = {} => SameValues(Ev.va, Delivered(stk'[T]), edges, vars, comp)

(* values reported by all other threads *)
OthersOK ==
    \A i \in DOMAIN Ev.ov :
        LET o == Ev.ov[i][1] + 1
        IN  (~confl[o] /\ facts[o] = {}) => SameValues(Ev.ov[i][2], Delivered(stk[o]), edges, vars, comp)

TrueLits == Set(Ev.as)

Strength ==
    LET m == Mode(T)
        A == TrueLits
    IN  /\ (m >= 1 \/ Ev.lv < Root(T)) => InverseClosed(A, A)
        /\ m = 4 => ZeroClosed(A, A)
        /\ (m = 5 \/ Ev.lv < Root(T)) => FullClosed(A, A)

-----------------------------------------------------------------------------
(* the strength of propagation is not exceeded *)

Falsified(c) == \A x \in c : -x \in TrueLits

InversePair(es, c) ==
    \E i, j \in DOMAIN es :
        /\ es[i][1] = es[j][2] /\ es[i][2] = es[j][1] /\ es[i][1] # es[i][2]
        /\ es[i][3] + es[j][3] < 0
        /\ c = { -es[i][4], -es[j][4] }
        /\ es[i][4] \in TrueLits

Weakness ==
    (Mode(T) <= 1 /\ Budget(T) = 0 /\ Ev.lv >= Root(T)) =>
        \A c \in ClauseSets : Falsified(c) \/ (Mode(T) = 1 /\ InversePair(edges, c))

-----------------------------------------------------------------------------
(* With inverse propagation, the order in which edges are added can be     *)
(* observed in the order of the clauses.                                   *)

(* the edges that were added when clause c was                             *)
Triggers(c, ch) ==
    { <<e[1], e[2], e[3]>> : e \in { x \in Range(edges) :
        /\ x[4] \in ch /\ -x[4] \in c
        /\ x[1] # x[2]
        /\ \E f \in Range(edges) :
              f[1] = x[2] /\ f[2] = x[1] /\ x[3] + f[3] < 0 /\ f[4] \notin ch /\ c = { -x[4], -f[4] } } }

SortKey(m, p, e) ==
    LET f == Local(e, comp)
    IN  CASE m = 1 -> e[3]
          [] m = 2 -> -e[3]
          [] m = 3 -> p[f[1]] + f[3] - p[f[2]]
          [] m = 4 -> -(p[f[1]] + f[3] - p[f[2]])

Sorted(before, ch) ==
    LET m  == Sort(T)
        L  == LocalE(Proper(Active(edges, before)), comp)
        p  == Pot(vars \cup Origins(vars, comp), L)
        cs == SelectSeq([ i \in DOMAIN Ev.cl |-> Triggers(Set(Ev.cl[i]), ch) ], LAMBDA s : Cardinality(s) = 1)
        Key(s) == SortKey(m, p, CHOOSE e \in s : TRUE)
    IN  (m # 0 /\ Mode(T) = 1 /\ Budget(T) = 0 /\ Ev.lv >= Root(T) /\ facts[T] = {}) =>
            \A i \in 1..(Len(cs) - 1) : Key(cs[i]) <= Key(cs[i + 1])

-----------------------------------------------------------------------------
(* mutexes *)

RECURSIVE Loops(_, _)
Loops(as, i) ==
    IF i > Len(as) THEN {}
    ELSE (IF as[i].u = as[i].v THEN { as[i] } ELSE {}) \cup Loops(as, i + 1)

(* clauses forced by constraints between a variable and itself             *)
LoopClauses(as) ==
    UNION { (IF ~Holds(0, a.r, a.k) THEN { { -a.l } } ELSE {})
            \cup (IF a.s = 1 /\ Holds(0, a.r, a.k) THEN { { a.l } } ELSE {})
          : a \in Loops(as, 1) }

MutexClauses(as) == ClauseSets \ LoopClauses(as)

(* duplicates count, loop clauses do not *)
NumMutexes(as) == Cardinality({ i \in DOMAIN Ev.cl : Set(Ev.cl[i]) \notin LoopClauses(as) })

FixedAfter == Set(Ev.fx2) \cup { -x : x \in Set(Ev.fx2) }

MutexSound(as) ==
    IF C.mxs = 0 \/ C.mxc = 0
    THEN MutexClauses(as) = {}
    ELSE \A c \in MutexClauses(as) :
            /\ ~Feasible(Active(edges', { -x : x \in c }))
            /\ Cardinality(c \ FixedAfter) <= C.mxs

(* Pairs and triples of constraints forming a negative cycle.              *)
MutexComplete ==
    (Ev.cf = 0 /\ C.mxc >= 1) =>
    LET free == { i \in DOMAIN edges' : edges'[i][4] \notin FixedAfter /\ edges'[i][1] # edges'[i][2] }
        new  == { i \in free : i >= fresh' }
        w(i) == edges'[i][3]
        lit(i) == edges'[i][4]
        follows(i, j) == Local(edges'[i], comp')[2] = Local(edges'[j], comp')[1]
    IN  /\ C.mxs >= 2 =>
            \A i \in new : \A j \in free :
                (i # j /\ follows(i, j) /\ follows(j, i) /\ w(i) + w(j) < 0 /\ lit(i) # -lit(j))
                => \E c \in ClauseSets : c \subseteq { -lit(i), -lit(j) }
        /\ (C.mxs >= 3 /\ C.mxc >= 10000) =>
            \A i \in new : \A j \in { x \in free : follows(i, x) } :
              \A k \in { x \in free : follows(j, x) /\ follows(x, i) } :
                (Cardinality({i, j, k}) = 3 /\ w(i) + w(j) + w(k) < 0
                 /\ lit(i) # -lit(j) /\ lit(i) # -lit(k) /\ lit(j) # -lit(k))
                => \E c \in ClauseSets : c \subseteq { -lit(i), -lit(j), -lit(k) }

-----------------------------------------------------------------------------
(* statistics *)

Counters == { "Trueedges", "Falseedges", "Falseedgesinverse", "Falseedgespartial", "FalseedgespartialPlus",
              "Edgesadded", "Edgesskipped", "Edgespropagated", "Costconsistency", "Costforward", "Costbackward" }

Times == { "Propagations", "Dijkstras", "Undos" }

(* times are given in nanoseconds up to a second and subject to rounding   *)
Second == 1000000000
TimeSum(x, y, z) == z < Second => z - (x + y) \in -3..3
TimeIn(x, y) == 0 <= x /\ (y < Second => x <= y)

At(th, i, c) == IF i \in DOMAIN th THEN th[i][c] ELSE 0

StatOK ==
    LET s == Ev.step.DifferenceLogic
        a == Ev.accu.DifferenceLogic
        o == stat.accu
        n == IF Len(o) > Len(s.Thread) THEN Len(o) ELSE Len(s.Thread)
    IN  /\ s.Edges = stat.edges /\ a.Edges = stat.edges
        /\ s.CCs = stat.ccs /\ a.CCs = stat.ccs
        /\ s.Mutexes = stat.mutexes
        /\ a.Mutexes = stat.amutexes + stat.mutexes
        /\ Len(s.Thread) = stat.threads
        /\ Len(a.Thread) = n
        /\ \A i \in 1..n : \A c \in Counters :
              At(a.Thread, i, c) = At(o, i, c) + At(s.Thread, i, c)
        \* variables and the origins of their components
        /\ s.Variables = a.Variables
        /\ s.Variables >= stat.vars
        /\ s.Variables <= 2 * stat.vars + 1
        \* work takes time and the times are added up
        /\ TimeIn(s.Timeinits, Ev.wall)
        /\ TimeSum(stat.tinit, s.Timeinits, a.Timeinits)
        /\ \A i \in 1..n : \A c \in Times :
              TimeSum(At(o, i, c), At(s.Thread, i, c), At(a.Thread, i, c))
        /\ \A i \in DOMAIN s.Thread :
              /\ TimeIn(s.Thread[i].Propagations, Ev.wall)
              /\ TimeIn(s.Thread[i].Undos, Ev.wall)
              /\ TimeIn(s.Thread[i].Dijkstras, s.Thread[i].Propagations)
        /\ \A i \in DOMAIN s.Thread :
              /\ s.Thread[i].Edgesskipped <= s.Thread[i].Edgesadded
              /\ (Mode(i) = 0 /\ Root(i) = 0 /\ Budget(i) = 0) =>
                    /\ s.Thread[i].Edgesadded <= stat.deliv[i]
                    /\ (stat.cfs[i] = 0 => s.Thread[i].Edgesadded = stat.deliv[i])
                    /\ s.Thread[i].Edgespropagated = 0
                    /\ s.Thread[i].Trueedges = 0 /\ s.Thread[i].Falseedges = 0

(* modes do nothing that only stronger modes do *)
WorkOK ==
    \A i \in DOMAIN Ev.step.DifferenceLogic.Thread :
        LET x == Ev.step.DifferenceLogic.Thread[i]
        IN  (Root(i) = 0 /\ Budget(i) = 0) =>
                /\ Mode(i) < 1 => x.Falseedgesinverse = 0
                /\ Mode(i) < 2 => x.Falseedgespartial = 0
                /\ Mode(i) < 3 => x.FalseedgespartialPlus = 0
                /\ Mode(i) < 4 => x.Edgespropagated = 0

NumEdges(lits) == Cardinality({ i \in DOMAIN edges : edges[i][1] # edges[i][2] /\ edges[i][4] \in lits })

StatInit == [ accu |-> <<>>, edges |-> 0, ccs |-> 0, mutexes |-> 0, amutexes |-> 0, vars |-> 0, tinit |-> 0, threads |-> 0, deliv |-> <<>>, cfs |-> <<>> ]

-----------------------------------------------------------------------------
TraceInit ==
    /\ PropagatorInit
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ bad = {}
    /\ stat = StatInit
    /\ cfg = [ i \in 0..2 |-> Default ]

Is(k) == bad = {} /\ l <= Len(Traces[tid].ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tid

(* a callback of the solver *)
Callback(k) == Is(k) /\ UNCHANGED cfg

(* an option is set through the API *)
DoConfigure ==
    /\ Is("cf")
    /\ cfg' = [ cfg EXCEPT ![Ev.i] = Configure(@, Ev.key, Ev.v) ]
    /\ UNCHANGED pvars
    /\ UNCHANGED stat
    /\ bad' = Viol("conf", /\ Ev.ok = (IF Accepts(Ev.key, Ev.v) THEN 1 ELSE 0)
                           /\ Ev.ok = 0 => Ev.named = 1)

(* the application is started with options on the command line: it runs    *)
(* exactly if all of them are accepted and otherwise names one rejected    *)
DoCommandLine ==
    /\ Is("cli")
    /\ LET rej == { i \in DOMAIN Ev.opts : ~CliAccepts(Ev.opts[i][1], Ev.opts[i][2]) }
       IN  bad' = Viol("conf", IF rej = {} THEN Ev.ok = 1 ELSE Ev.ok = 0 /\ \E i \in rej : Ev.named[i] = 1)
    /\ cfg' = [ cfg EXCEPT ![0] = ConfigureAll(@, Ev.opts, 1) ]
    /\ UNCHANGED pvars
    /\ UNCHANGED stat

(* rewriting an integrity constraint shows whether constraints are shifted *)
DoRewrite ==
    /\ Callback("rw")
    /\ UNCHANGED pvars
    /\ UNCHANGED stat
    /\ bad' = Viol("conf", Ev.sh = cfg[Ev.i].shift)


(* Constraints given by their terms are turned into difference constraints *)
NameOf(x) == IF x = "" THEN 0 ELSE CHOOSE i \in DOMAIN Traces[tid].sy : Traces[tid].sy[i] = x

Parsed(a) ==
    IF "a" \notin DOMAIN a THEN [ ok |-> TRUE, may |-> FALSE, at |-> a ]
    ELSE LET m == Meaning(a.a, a.r, a.b, Traces[tid].sc)
             n == Meaning(a.a, NegRel(a.r), a.b, Traces[tid].sc)
         IN  IF ~m.ok \/ (a.s = 1 /\ ~n.ok) THEN [ ok |-> FALSE, may |-> TRUE, at |-> a ]
             ELSE [ ok |-> TRUE, may |-> m.may \/ (a.s = 1 /\ n.may),
                    at |-> [ s |-> a.s, u |-> NameOf(m.u), v |-> NameOf(m.v), r |-> a.r, k |-> m.k, l |-> a.l ] ]

(* constraints without meaning are rejected and nothing happens            *)
DoReject ==
    /\ Callback("i")
    /\ Ev.ok = 0
    /\ UNCHANGED pvars
    /\ UNCHANGED stat
    /\ bad' = IF \E i \in DOMAIN Ev.at : Parsed(Ev.at[i]).may THEN {} ELSE { "error" }

(* a solve step with the given atoms *)
DoStart(as) ==
    /\ InitStep(Ev.th, as, Set(Ev.fx), C.cc = 1)
    /\ stat' = [ stat EXCEPT
                   !.edges = Len(ProperEdges(edges')),
                   !.ccs = IF C.cc = 1 THEN Cardinality({ comp'[x] : x \in vars' }) ELSE 0,
                   !.mutexes = @ + NumMutexes(as),
                   !.threads = Ev.th,
                   !.vars = Cardinality(vars'),
                   !.deliv = [ t \in 1..Ev.th |-> IF t \in DOMAIN @ THEN @[t] ELSE 0 ],
                   !.cfs = [ t \in 1..Ev.th |-> IF t \in DOMAIN @ THEN @[t] ELSE 0 ] ]
    /\ bad' = Viol("lemma", Lemmas(edges'))
              \cup Viol("mutex", MutexSound(as) /\ MutexComplete)

DoInit ==
    /\ Callback("i")
    /\ Ev.ok = 1
    /\ IF \E i \in DOMAIN Ev.at : ~Parsed(Ev.at[i]).ok
       THEN /\ bad' = { "accepted" }
            /\ UNCHANGED pvars
            /\ UNCHANGED stat
       ELSE DoStart([ i \in DOMAIN Ev.at |-> Parsed(Ev.at[i]).at ])

DoPropagate ==
    /\ Callback("p")
    /\ Deliver(T, Ev.lv, Set(Ev.ch), Ev.cf = 1)
    /\ stat' = [ stat EXCEPT !.deliv[T] = @ + NumEdges(Set(Ev.ch)), !.cfs[T] = @ + Ev.cf ]
    /\ bad' = Viol("lemma", Lemmas(edges))
              \cup Viol("prompt", Ev.cf = 1 \/ Consistent(Delivered(stk'[T])))
              \cup Viol("values", Ev.cf = 1 \/ ValuesOK)
              \cup Viol("others", OthersOK)
              \cup Viol("mode", Weakness)
              \cup Viol("sort", Sorted(Delivered(stk[T]), Set(Ev.ch)))

DoUndo ==
    /\ Callback("u")
    /\ Undo(T, Ev.lv)
    /\ UNCHANGED stat
    /\ bad' = Viol("values", ValuesOK) \cup Viol("others", OthersOK)

DoCheck ==
    /\ Callback("c")
    /\ Check(T, Ev.lv, Ev.cf = 1)
    /\ stat' = [ stat EXCEPT !.deliv[T] = @ + (IF Ev.lv = 0 THEN NumEdges(facts[T]) ELSE 0), !.cfs[T] = @ + Ev.cf ]
    /\ bad' = Viol("lemma", Lemmas(edges))
              \cup Viol("prompt", Ev.cf = 1 \/ Consistent(Delivered(stk'[T])))
              \cup Viol("values", Ev.cf = 1 \/ ValuesOK)
              \cup Viol("others", OthersOK)

(* the solver reached a fixpoint without conflict *)
DoQuiescent ==
    /\ Callback("q")
    /\ UNCHANGED pvars
    /\ UNCHANGED stat
    /\ bad' = Viol("prompt", ~confl[T] /\ Consistent(TrueLits))
              \cup Viol("values", SameValues(Ev.va, TrueLits, edges, vars, comp))
              \cup Viol("conf", Ev.va # <<>> => Ev.ty = C.rdl)
              \cup Viol("strength", Strength)
              \cup Viol("others", OthersOK)

DoDecide ==
    /\ Callback("h")
    /\ UNCHANGED pvars
    /\ UNCHANGED stat
    /\ bad' = Viol("decide", Ev.res \in Decisions(C.heur, Delivered(stk[T]), Ev.fb))

DoStatistics ==
    /\ Callback("st")
    /\ UNCHANGED pvars
    /\ bad' = Viol("stats", StatOK) \cup Viol("mode", WorkOK)
    /\ stat' = [ stat EXCEPT !.accu = Ev.accu.DifferenceLogic.Thread, !.amutexes = Ev.accu.DifferenceLogic.Mutexes,
                               !.tinit = Ev.accu.DifferenceLogic.Timeinits,
                               !.mutexes = 0,
                               !.deliv = [ t \in DOMAIN @ |-> 0 ],
                               !.cfs = [ t \in DOMAIN @ |-> 0 ] ]

DoError ==
    /\ Callback("err")
    /\ UNCHANGED pvars
    /\ UNCHANGED stat
    /\ bad' = { "error" }

Finished ==
    /\ bad # {} \/ l = Len(Traces[tid].ev) + 1
    /\ UNCHANGED tvars

TraceNext == DoConfigure \/ DoCommandLine \/ DoRewrite \/ DoReject \/ DoInit \/ DoPropagate \/ DoUndo \/ DoCheck \/ DoQuiescent \/ DoDecide \/ DoStatistics \/ DoError \/ Finished

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == bad = {}

(* short form of a state for error traces *)
Short == [ trace |-> Traces[tid].id, event |-> l - 1, violated |-> bad ]
=============================================================================
