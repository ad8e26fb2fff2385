------------------------------ MODULE ZdbPipe ------------------------------
(***************************************************************************)
(* Validation of runs in which several connections send requests without   *)
(* waiting for the replies.  A trace holds for every connection the         *)
(* requests it sent, each with the reply found at its place in what the     *)
(* connection received, and a sequence of observations                      *)
(*    sent   how many requests of each connection were sent completely      *)
(*    got    how many replies each connection had received                  *)
(* The daemon executes the requests of a connection in their order, each    *)
(* one after it was sent and before its reply was received; connections     *)
(* are served in any order.                                                 *)
(***************************************************************************)
EXTENDS ZdbEvents, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.ZDB_TRACES)

VARIABLES t, i, cand
vars == <<t, i, cand>>

Ev(tr, e) == IF "a" \in DOMAIN e THEN [e EXCEPT !.a = [n \in 1..Len(@) |-> tr.args[@[n]]]] ELSE e

(* a candidate: state, and the number of requests executed of each connection *)
Exec(tr, x, sent) ==
  UNION {IF x.d[c] < sent[c]
         THEN {[s |-> y, d |-> [x.d EXCEPT ![c] = @ + 1]] : y \in Step(x.s, Ev(tr, tr.req[c][x.d[c] + 1]))}
         ELSE {} : c \in DOMAIN x.d}

(* What must have been executed is, and nothing after it: the rest may as   *)
(* well be executed later.  Every step executes one more request, so that   *)
(* candidates of two steps are never the same.                              *)
Done(x, got) == \A c \in DOMAIN x.d : x.d[c] >= got[c]

RECURSIVE Advance(_, _, _, _)
Advance(tr, done, front, e) ==
  LET d == {x \in front : Done(x, e.got)}
      n == UNION {Exec(tr, x, e.sent) : x \in front \ d}
  IN IF n = {} THEN done \cup d ELSE Advance(tr, done \cup d, n, e)

After(tr, C, e) ==
  IF e.k = "sync" THEN Advance(tr, {}, C, e)
  ELSE UNION {{[x EXCEPT !.s = y] : y \in Step(x.s, Ev(tr, e))} : x \in C}

Init ==
  /\ t \in 1..Len(Traces)
  /\ i = 0
  /\ cand = {[s |-> Start(Traces[t].cfg), d |-> [c \in 1..Len(Traces[t].req) |-> 0]]}

(* the first request nobody can explain, for the report *)
RECURSIVE Furthest(_, _, _)
Furthest(tr, front, e) ==
  LET n == UNION {Exec(tr, x, e.sent) : x \in {y \in front : ~Done(y, e.got)}}
  IN IF n = {} THEN CHOOSE x \in front : TRUE ELSE Furthest(tr, n, e)

Stuck(tr, C, e) ==
  IF e.k # "sync" THEN <<>>
  ELSE LET x == Furthest(tr, C, e)
       IN [c \in DOMAIN x.d |->
             IF x.d[c] < e.sent[c]
             THEN LET f == Ev(tr, tr.req[c][x.d[c] + 1])
                  IN <<x.d[c] + 1, [j \in 1..Len(f.a) |-> f.a[j].t], f.r, Wanted(x.s, f)>>
             ELSE <<>>]

Next ==
  /\ i >= 0
  /\ i < Len(Traces[t].ev)
  /\ LET tr == Traces[t]
         e == tr.ev[i + 1]
         n == After(tr, cand, e)
     IN IF n = {}
        THEN /\ PrintT("REJECT " \o ToJson([t |-> t, i |-> i + 1, e |-> Ev(tr, e), want |-> Stuck(tr, cand, e)]))
             /\ i' = -1 /\ cand' = cand
        ELSE i' = i + 1 /\ cand' = n
  /\ t' = t

Spec == Init /\ [][Next]_vars
View == <<t, i>>
=============================================================================
