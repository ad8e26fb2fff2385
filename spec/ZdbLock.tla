------------------------------ MODULE ZdbLock ------------------------------
(***************************************************************************)
(* Instances (daemons, programs using the library) and the directories     *)
(* they use.  An instance takes a directory for its index and another one  *)
(* for its data, or it is refused and changes nothing; what it holds is    *)
(* free again when it ended, whatever the end was.                         *)
(*                                                                         *)
(* s.run  : instance -> its directories and kind                           *)
(* s.idle : programs which were refused and still run                      *)
(* s.val  : pair of directories -> payload of the key everybody writes     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Start == [run |-> <<>>, idle |-> {}, val |-> <<>>]

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Held(s) == UNION {{s.run[n].i, s.run[n].d} : n \in DOMAIN s.run}

(* (i, d) may be taken: they differ and nobody has one of them *)
Free(s, i, d) == i # d /\ i \notin Held(s) /\ d \notin Held(s)

(* directories know each other from their first use on *)
Strangers(s, i, d) == \E p \in DOMAIN s.val : p # <<i, d>> /\ {p[1], p[2]} \cap {i, d} # {}

Take(s, n, kind, i, d) ==
  [s EXCEPT !.run = (n :> [i |-> i, d |-> d, kind |-> kind]) @@ @,
            !.val = IF <<i, d>> \in DOMAIN @ THEN @ ELSE (<<i, d>> :> "") @@ @]

Refuse(s, n, kind) == IF kind = "lib" THEN [s EXCEPT !.idle = @ \cup {n}] ELSE s

Absent(s, n) == n \notin DOMAIN s.run /\ n \notin s.idle

Opens(s, n, kind, i, d) == IF Free(s, i, d) THEN Take(s, n, kind, i, d) ELSE Refuse(s, n, kind)

P(s, n) == <<s.run[n].i, s.run[n].d>>

(* e.ok: it serves.  e.same: the files of the directories did not change.   *)
(* e.rc: exit status of who was refused                                     *)
Step(s, e) ==
  CASE e.k = "open"  -> IF /\ Absent(s, e.n)
                           /\ e.ok = Free(s, e.i, e.d)
                           /\ (e.ok \/ (e.same /\ e.rc # 0))
                        THEN {Opens(s, e.n, e.kind, e.i, e.d)} ELSE {}
    [] e.k = "race"  -> \* two at once for the same pair: one of them gets it when it is free
                        IF /\ Absent(s, e.n) /\ Absent(s, e.m)
                           /\ Cardinality({b \in {1, 2} : <<e.ok, e.ok2>>[b]}) = IF Free(s, e.i, e.d) THEN 1 ELSE 0
                        THEN IF e.ok THEN {Refuse(Take(s, e.n, e.kind, e.i, e.d), e.m, e.kind)}
                             ELSE IF e.ok2 THEN {Refuse(Take(s, e.m, e.kind, e.i, e.d), e.n, e.kind)}
                             ELSE {Refuse(Refuse(s, e.n, e.kind), e.m, e.kind)}
                        ELSE {}
    [] e.k = "set"   -> IF e.r = "ok" THEN {[s EXCEPT !.val[P(s, e.n)] = e.v]} ELSE {}
    [] e.k = "get"   -> IF e.r = s.val[P(s, e.n)] THEN {s} ELSE {}
    [] e.k = "jump"  -> IF e.r = "ok" THEN {s} ELSE {}
    [] e.k = "end"   -> {[s EXCEPT !.run = Drop(@, e.n), !.idle = @ \ {e.n}]}
    [] OTHER -> {}

(***************************************************************************)
(* Moves                                                                   *)
(***************************************************************************)
Dirs == {"a", "b", "c", "d"}
Names == {"n1", "n2", "n3"}
Ends(kind) == IF kind = "zdb" THEN {"kill", "term", "int", "segv", "stop"} ELSE {"kill", "exit", "close"}

(* pairs which cannot mix up what belongs to others *)
Sound(s, i, d) == ~Free(s, i, d) \/ ~Strangers(s, i, d)

Moves(s) ==
     {[k |-> "open", n |-> n, kind |-> kd, i |-> i, d |-> d, ok |-> Free(s, i, d), same |-> TRUE, rc |-> 1] :
        n \in {m \in Names : Absent(s, m)}, kd \in {"zdb", "lib"}, i \in Dirs, d \in Dirs}
  \cup {[k |-> "race", n |-> q[1], m |-> q[2], kind |-> "zdb", i |-> i, d |-> d, ok |-> Free(s, i, d), ok2 |-> FALSE] :
        q \in {p \in Names \X Names : p[1] # p[2] /\ Absent(s, p[1]) /\ Absent(s, p[2])}, i \in Dirs, d \in Dirs}
  \cup {[k |-> "set", n |-> n, v |-> v, r |-> "ok"] : n \in DOMAIN s.run, v \in {"u", "w"}}
  \cup {[k |-> "get", n |-> n, r |-> s.val[P(s, n)]] : n \in DOMAIN s.run}
  \cup {[k |-> "jump", n |-> n, r |-> "ok"] : n \in {m \in DOMAIN s.run : s.run[m].kind = "zdb"}}
  \cup UNION {{[k |-> "end", n |-> n, how |-> h] : h \in Ends(s.run[n].kind)} : n \in DOMAIN s.run}
  \cup {[k |-> "end", n |-> n, how |-> "kill"] : n \in s.idle}

Good(s) == {e \in Moves(s) : e.k \in {"open", "race"} => Sound(s, e.i, e.d) /\ (e.k = "race" => e.i # e.d)}

(* no directory is used by two instances, or twice by one *)
Exclusive(s) ==
  /\ \A n \in DOMAIN s.run : s.run[n].i # s.run[n].d
  /\ \A n, m \in DOMAIN s.run : n # m => {s.run[n].i, s.run[n].d} \cap {s.run[m].i, s.run[m].d} = {}
(* once everything ended, everything can be had *)
Released(s) == s.run = <<>> => \A i, d \in Dirs : i # d => Free(s, i, d)
=============================================================================
