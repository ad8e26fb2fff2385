----------------------------- MODULE ZdbLockMC -----------------------------
(* every history of three instances and three directories *)
EXTENDS ZdbLock
VARIABLE s
Init == s = Start
Next == \E e \in Good(s) : s' \in Step(s, e)
Spec == Init /\ [][Next]_s
IExclusive == Exclusive(s)
IReleased == Released(s)
(* a refused instance, and the end of another one, take nothing from those who hold something *)
Kept == [][\A n \in DOMAIN s.run : n \in DOMAIN s'.run => s'.run[n] = s.run[n]]_s
=============================================================================
