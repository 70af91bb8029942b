------------------------------- MODULE OptTrace -------------------------------
(***************************************************************************)
(* Validation of runs of the application minimizing a variable.            *)
(*                                                                         *)
(* Each event of a recorded run is an action of module Optimizer whose     *)
(* conditions are evaluated for the program of the run.                    *)
(***************************************************************************)
EXTENDS Optimizer, Observations, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Obligations == { IOEnv.OB1, IOEnv.OB2, IOEnv.OB3, IOEnv.OB4, IOEnv.OB5, IOEnv.OB6, IOEnv.OB7, IOEnv.OB8, IOEnv.OB9 }

Traces == ndJsonDeserialize(TraceFile)

VARIABLES
    prog,    \* the program
    var,     \* the variable to minimize
    sets,    \* its answer sets
    failed,  \* an error occurred
    how,     \* whether searches are limited and values are real
    tid, l, bad

tvars == << ovars, prog, var, sets, failed, how, tid, l, bad >>

Ev == Traces[tid].ev[l]

On(o) == o \in Obligations
Viol(o, ok) == IF On(o) /\ ~ok THEN { o } ELSE {}

-----------------------------------------------------------------------------
(* the least values of the variable in the answer sets *)

Unbounded == -1000000

LeastIn(E, s) ==
    LET V == Vertices(E) \cup {0, s}
        d == Dist(V, E, 0)[s]
    IN  IF d = Inf THEN Unbounded ELSE 0 - d

RECURSIVE LeastD(_, _, _)
LeastD(E, cs, s) ==
    IF cs = {} THEN { LeastIn(E, s) }
    ELSE LET c == CHOOSE x \in cs : TRUE
         IN  UNION { LeastD(E \cup b, cs \ {c}, s) : b \in { y \in BranchesOf(c) : Feasible(E \cup y) } }

Least1(cs, s) ==
    LET E == Base(cs)
    IN  IF Feasible(E) THEN LeastD(E, { x \in cs : x[3] = "!=" }, s) ELSE {}

LeastValues(P, E, s) == UNION { Least1(Enforced(P, a.X, a.B), s) : a \in E }

(* is there an answer set without a value for the variable? *)
Unassigned == \E a \in sets : var \notin Needed(Enforced(prog, a.X, a.B))

(* the search may end with an error: there might be no value to minimize,  *)
(* and real values are not supported                                       *)
ErrorOK == Unassigned \/ (how.real /\ sets # {})

-----------------------------------------------------------------------------
TraceInit ==
    /\ OInit({}, None)
    /\ prog = {} /\ var = 0 /\ sets = {} /\ failed = FALSE
    /\ how = [ limit |-> FALSE, real |-> FALSE ]
    /\ tid \in 1..Len(Traces)
    /\ l = 1 /\ bad = {}

Is(k) == bad = {} /\ l <= Len(Traces[tid].ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tid

Same == UNCHANGED << prog, var, sets, failed, how >>

DoProg ==
    /\ Is("prog")
    /\ prog' = { RuleSets(r) : r \in Range(Ev.rules) }
    /\ var' = Ev.s
    /\ sets' = AnswerSets(prog', {}, {})
    /\ mins' = LeastValues(prog', sets', Ev.s)
    /\ init' = IF Len(Ev.init) = 0 THEN None ELSE Ev.init[1]
    /\ how' = [ limit |-> "limit" \in DOMAIN Ev, real |-> "rdl" \in DOMAIN Ev ]
    /\ UNCHANGED << found, best, lower, perm, temp, phase, failed, bad >>

DoBound ==
    /\ Is("bound")
    /\ IF Ev.x = 0
       THEN /\ perm' = perm \cup { Ev.b }
            /\ UNCHANGED temp
            /\ bad' = Viol("perm", PermOK(Ev.b))
       ELSE /\ temp' = temp \cup { Ev.b }
            /\ UNCHANGED perm
            /\ bad' = Viol("temp", TempOK(Ev.b))
    /\ UNCHANGED << mins, init, found, best, lower, phase >> /\ Same

DoRelease ==
    /\ Is("rel")
    /\ temp' = temp \ { Ev.b }
    /\ bad' = {}
    /\ UNCHANGED << mins, init, found, best, lower, perm, phase >> /\ Same

DoSolve ==
    /\ Is("solve")
    /\ phase' = "solving"
    \* nothing is searched for after a search ended without a result
    /\ bad' = Viol("result", phase # "stopped")
    /\ UNCHANGED << mins, init, found, best, lower, perm, temp >> /\ Same

Value(o) == AsFun(o.a)[var]

DoModel ==
    /\ Is("model")
    /\ LET o == Obs(Ev)
           has == IsFun(o.a) /\ var \in { p[1] : p \in o.a }
       IN  /\ best' = IF has THEN Value(o) ELSE best
           /\ found' = IF has THEN found \cup { Value(o) } ELSE found
           /\ bad' = Viol("value", has)
                     \cup Viol("improve", has => ModelOK(Value(o)))
                     \cup Viol("sound", SoundIn(prog, o))
                     \cup Viol("known", KnownIn(prog, o, sets))
    /\ phase' = "sat"
    /\ UNCHANGED << mins, init, lower, perm, temp >> /\ Same

DoStats ==
    /\ Is("stats")
    /\ bad' = Viol("opt", Ev.opt = IF best = None THEN <<>> ELSE << best >>)
              \cup Viol("lower", Len(Ev.lb) > 0 =>
                     /\ LowerOK(Ev.lb[1])
                     /\ lower # None => Ev.lb[1] >= lower)
    /\ lower' = IF Len(Ev.lb) > 0 THEN Ev.lb[1] ELSE lower
    /\ UNCHANGED << mins, init, found, best, perm, temp, phase >> /\ Same

DoResult ==
    /\ Is("res")
    /\ bad' = IF failed THEN {}
              ELSE Viol("result", /\ Ev.sat = 1 <=> phase = "sat"
                                  /\ IF Ev.sat + Ev.unsat = 0
                                     THEN how.limit
                                     ELSE /\ Ev.int = 0
                                          /\ Ev.sat + Ev.unsat = 1
                                          /\ ResultOK(Ev.sat = 1))
    /\ phase' = IF Ev.sat + Ev.unsat = 0 THEN "stopped" ELSE "prepare"
    /\ UNCHANGED << mins, init, found, best, lower, perm, temp >> /\ Same

DoErr ==
    /\ Is("err")
    /\ failed' = TRUE
    /\ bad' = Viol("error", ErrorOK)
    /\ UNCHANGED << ovars, prog, var, sets, how >>

(* the process ended *)
DoEnd ==
    /\ Is("end")
    /\ phase' = "done"
    /\ bad' = IF failed \/ Ev.err = 1
              THEN Viol("error", ErrorOK)
              ELSE IF phase = "stopped"
              THEN Viol("status", IF best = None THEN Ev.rc \notin {10, 20, 30} ELSE Ev.rc \notin {20})
              ELSE Viol("optimum", DoneOK)
                   \cup Viol("error", how.real => best = None)
                   \cup Viol("status", IF best = None THEN Ev.rc = 20 ELSE Ev.rc \in {10, 20, 30})
    /\ UNCHANGED << mins, init, found, best, lower, perm, temp >> /\ Same

Finished ==
    /\ bad # {} \/ l = Len(Traces[tid].ev) + 1
    /\ UNCHANGED tvars

TraceNext == DoProg \/ DoBound \/ DoRelease \/ DoSolve \/ DoModel \/ DoStats \/ DoResult \/ DoErr \/ DoEnd \/ Finished

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == bad = {}

Short == [ trace |-> Traces[tid].id, event |-> l - 1, violated |-> bad ]
=============================================================================
