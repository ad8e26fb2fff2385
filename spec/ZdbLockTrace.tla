---------------------------- MODULE ZdbLockTrace ----------------------------
(* is every recorded history one of ZdbLock? *)
EXTENDS ZdbLock, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.ZDB_TRACES)
VARIABLES t, i, cand
vars == <<t, i, cand>>
Init == t \in 1..Len(Traces) /\ i = 0 /\ cand = {Start}
Next ==
  /\ i >= 0 /\ i < Len(Traces[t].ev)
  /\ LET e == Traces[t].ev[i + 1]
         n == UNION {Step(s, e) : s \in cand}
     IN IF n = {} THEN /\ PrintT("REJECT " \o ToJson([t |-> t, i |-> i + 1, e |-> e, want |-> {s.run : s \in cand}]))
                       /\ i' = -1 /\ cand' = cand
        ELSE i' = i + 1 /\ cand' = n
  /\ t' = t
Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
