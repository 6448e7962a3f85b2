----------------------------- MODULE TraceCheck -----------------------------
(***************************************************************************)
(* Validates recorded executions of the implementation against a           *)
(* specification.  TRACE_FILE holds one session per line:                  *)
(*   [kind, ..., ev |-> << [op, x, a, r], ... >>]                          *)
(* where op is the operation, a its arguments, r its results and x is ""   *)
(* or says how the call failed to return (crash, timeout, exception).      *)
(* The specification gives the initial state of a session, and             *)
(* step(sess, st, e) = [st |-> the next specification state,               *)
(* why |-> "" or the clause the implementation broke].                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
Sessions == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSess == Len(Sessions)
VARIABLES sid, l, st, why
vars == <<sid, l, st, why>>
TInit(init(_)) == /\ sid \in 1..NSess
                  /\ l = 0
                  /\ st = init(Sessions[sid])
                  /\ why = ""
Report(s, w) == IF w = "" THEN TRUE ELSE PrintT(<<"MISMATCH", sid, l + 1, w>>)
TNext(step(_, _, _)) ==
        /\ why = ""
        /\ l < Len(Sessions[sid].ev)
        /\ LET r == TLCEval(step(Sessions[sid], st, Sessions[sid].ev[l + 1])) IN
           /\ Report(r.st, r.why)
           /\ st' = r.st
           /\ why' = r.why
        /\ l' = l + 1
        /\ sid' = sid
=============================================================================
