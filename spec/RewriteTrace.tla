---------------------------- MODULE RewriteTrace ----------------------------
(***************************************************************************)
(* Validation of recorded rewritings.  The state is the number of          *)
(* statements processed; the system reads statements and adds rewritten    *)
(* ones until one is rejected.                                             *)
(***************************************************************************)
EXTENDS Rewriting, Json, IOUtils

TraceFile == IOEnv.TRACE

Traces == ndJsonDeserialize(TraceFile)

VARIABLES tid, l, rest, bad

vars == <<tid, l, rest, bad>>

Ev == Traces[tid].ev[l]
Shift == Traces[tid].cfg.shift = 1

TraceInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ rest = 0      \* statements the application added that are accounted for
    /\ bad = {}

Next(k) == bad = {} /\ l <= Len(Traces[tid].ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tid

(* A statement is passed through the library; the callback receiving the   *)
(* rewritten statements might fail on one of them, which ends the rewriting.*)
DoStatement ==
    /\ Next("s")
    /\ UNCHANGED rest
    /\ bad' = (IF Ev.failed > 0
               THEN (IF Ev.ok = 0 /\ Len(Ev.out) = Ev.failed - 1 THEN {} ELSE { "callback" })
               ELSE IF Ev.ok = 0
               THEN (IF MayReject(Ev.in, Shift) THEN {} ELSE { "error" })
               ELSE (IF MustReject(Ev.in) THEN { "accepted" }
                     ELSE IF Rewritten(Ev.in, Ev.out, Shift) THEN {} ELSE { "rewritten" }))
              \cup (IF Ev.kept = 1 THEN {} ELSE { "input" })

(* The application reads files; Ev.in is one of the statements, in order,  *)
(* and out what the application added in total.                            *)
DoRead ==
    /\ Next("r")
    /\ rest # -1
    /\ LET out == Traces[tid].out
           n   == Len(Unpool(Ev.in))
           has == rest + n <= Len(out)
       IN  IF MustReject(Ev.in) \/ (MayReject(Ev.in, Shift) /\ ~(has /\ Rewritten(Ev.in, SubSeq(out, rest + 1, rest + n), Shift)))
           THEN \* nothing else is added and the application fails
                /\ bad' = IF rest = Len(out) /\ Traces[tid].rc = 65 THEN {} ELSE { "accepted" }
                /\ rest' = -1
           ELSE /\ bad' = IF has /\ Rewritten(Ev.in, SubSeq(out, rest + 1, rest + n), Shift) THEN {} ELSE { "rewritten" }
                /\ rest' = rest + n

(* statements after a rejected one are not read                            *)
DoSkip ==
    /\ Next("r")
    /\ rest = -1
    /\ UNCHANGED <<rest, bad>>

DoDone ==
    /\ Next("end")
    /\ UNCHANGED rest
    /\ bad' = IF rest = -1 \/ rest = Len(Traces[tid].out) THEN {} ELSE { "rewritten" }

Finished ==
    /\ bad # {} \/ l = Len(Traces[tid].ev) + 1
    /\ UNCHANGED vars

TraceNext == DoStatement \/ DoRead \/ DoSkip \/ DoDone \/ Finished

TraceSpec == TraceInit /\ [][TraceNext]_vars

Accepted == bad = {}

Short == [ trace |-> Traces[tid].id, event |-> l - 1, violated |-> bad ]
=============================================================================
