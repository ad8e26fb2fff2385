------------------------------ MODULE ZdbTrace ------------------------------
(***************************************************************************)
(* Trace validation: is every recorded run of the real daemon a behaviour  *)
(* of the specification?  The file named by ZDB_TRACES holds one trace per *)
(* line: the configuration, a table of arguments, and the events.          *)
(*                                                                         *)
(* cand is the set of states the daemon may be in.  A trace is refused at  *)
(* the first event no candidate explains; this is printed, and the other   *)
(* traces are still examined.                                              *)
(***************************************************************************)
EXTENDS ZdbEvents, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.ZDB_TRACES)

VARIABLES t, i, cand
vars == <<t, i, cand>>

(* arguments are indices in the table of the trace *)
EventAt(tr, j) ==
  LET e == tr.ev[j] IN
  IF "a" \in DOMAIN e THEN [e EXCEPT !.a = [n \in 1..Len(@) |-> tr.args[@[n]]]] ELSE e

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 0
  /\ cand = {Start(Traces[t].cfg)}

Next ==
  /\ i >= 0
  /\ i < Len(Traces[t].ev)
  /\ LET e == EventAt(Traces[t], i + 1)
         n == UNION {Step(s, e) : s \in cand}
     IN IF n = {}
        THEN /\ PrintT("REJECT " \o ToJson([t |-> t, i |-> i + 1, e |-> e,
                                         want |-> Wanted(CHOOSE s \in cand : TRUE, e)]))
             /\ i' = -1 /\ cand' = cand
        ELSE i' = i + 1 /\ cand' = n
  /\ t' = t

Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
