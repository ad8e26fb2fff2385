----------------------------- MODULE ZdbLockGen -----------------------------
(* random histories *)
EXTENDS ZdbLock, Json, IOUtils
Depth == 26
VARIABLES s, h
vars == <<s, h>>
Init == s = Start /\ h = <<>>

(* the kind of a move first: there are many more ways to open than to end *)
Kinds == <<"open", "open", "open", "race", "set", "set", "get", "get", "jump", "end", "end">>
Some(S) == RandomElement(S)
Of(k) == {e \in Good(s) : e.k = k}

Next ==
  IF Len(h) >= Depth
  THEN /\ h[Len(h)].k # "stop" /\ PrintT("SCRIPT " \o ToJson(h))
       /\ h' = Append(h, [k |-> "stop"]) /\ s' = s
  ELSE \E k \in {Kinds[Some(1..Len(Kinds))]} :
       LET M == IF Of(k) # {} THEN Of(k) ELSE Good(s) IN
       \E e \in {Some(M)} : h' = Append(h, e) /\ s' \in Step(s, e)
Spec == Init /\ [][Next]_vars
=============================================================================
