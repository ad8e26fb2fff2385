------------------------------- MODULE ZdbMC -------------------------------
(***************************************************************************)
(* Bounded model checking of the specification against the properties.     *)
(*                                                                         *)
(* The specification (Zdb) describes how 0-db works: index records, parent *)
(* pointers, in-place flags, running statistics, loading.  The properties  *)
(* are stated here over a ghost g, which knows nothing of this: it is what *)
(* clients can conclude from the requests they sent and the replies they   *)
(* got.  Every reachable state of every bounded history is compared with   *)
(* it; a reply the ghost finds wrong puts a name in g.err.                 *)
(*                                                                         *)
(* The file ZDB_MC gives the configuration, the arguments, the moves and   *)
(* the bounds.  h is the history, out of the VIEW; with "emit" it is       *)
(* printed at every n-th transition, to be executed by the real daemon.    *)
(***************************************************************************)
EXTENDS ZdbEvents, Json, IOUtils

P == JsonDeserialize(IOEnv.ZDB_MC)
Moves == P.moves

VARIABLES s, g, h
vars == <<s, g, h>>

SeqArg(n) == [t |-> SeqId(n), l |-> 8, up |-> "?", n |-> 0, u |-> 0, b |-> FALSE, h |-> "", p |-> "",
              sl |-> FALSE, z |-> n = 0]
ArgOf(x) == P.args[x]

(***************************************************************************)
(* What clients know.                                                      *)
(***************************************************************************)
NoNs == [ mode |-> "user", map |-> EmptyFun, hist |-> EmptyFun, ord |-> <<>>, recs |-> 0, fid |-> 0, off |-> 28,
          files |-> EmptyFun, dirty |-> {}, lim |-> 0, cap |-> 0, lock |-> "none", worm |-> FALSE,
          pass |-> "", pub |-> TRUE, last |-> -1, rec |-> <<>> ]

GDefault(cfg) == [NoNs EXCEPT !.mode = NewMode(cfg), !.pass = IF cfg.protect THEN cfg.admin ELSE "",
                             !.lim = cfg.dmax, !.cap = cfg.dmax]

G0(cfg) == [ ns |-> ("default" :> GDefault(cfg)), at |-> EmptyFun, wr |-> EmptyFun, ok |-> EmptyFun,
             own |-> EmptyFun, used |-> {}, wait |-> EmptyFun, woken |-> EmptyFun, log |-> <<>>, mir |-> EmptyFun,
             err |-> {}, cfg |-> cfg ]

Wrong(q, x) == [q EXCEPT !.err = @ \cup {x}]
Expect(q, b, x) == IF b THEN q ELSE Wrong(q, x)

LenOf(v) == IF v \in DOMAIN P.args THEN P.args[v].l ELSE 0
KLen(k) == IF k \in DOMAIN P.args THEN P.args[k].l ELSE 8
RECURSIVE Total(_, _)
Total(m, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN LenOf(m[k]) + Total(m, S \ {k})
Bytes(n) == Total(n.map, DOMAIN n.map)
RECURSIVE KTotal(_)
KTotal(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN KLen(k) + KTotal(S \ {k})

Without(q, k) == SelectSeq(q, LAMBDA y : y # k)
Max(a, b) == IF a > b THEN a ELSE b

GNs(q, e) == q.ns[q.at[e.c]]
PutG(q, e, n) == [q EXCEPT !.ns[q.at[e.c]] = n]

AdminOps == {"NSNEW", "NSDEL", "NSSET", "NSJUMP", "RELOAD", "HOOKS", "INDEX", "DATA", "MIRROR", "MASTER"}
WriteOps == {"SET", "SETX", "DEL", "FLUSH"}
DataReads == {"GET", "MGET", "EXISTS", "CHECK", "LENGTH", "KEYTIME", "SCAN", "SCANX", "RSCAN", "KEYCUR", "HISTORY"}
Refused(e) == e.r.t = "err"

(* room is made by rotating when the payload does not fit                   *)
GRotate(n) == [n EXCEPT !.fid = @ + 1, !.off = 28]

GSet(q, e) ==
  LET n == GNs(q, e)
      k == e.a[2].t
      v == e.a[3]
      live == e.a[2].l > 0 /\ k \in DOMAIN n.map
      over == Bytes(n) - (IF live THEN LenOf(n.map[k]) ELSE 0) + v.l > n.lim
      full == n.lim > 0 /\ over
      n1 == IF n.off + v.l > q.cfg.dsz THEN GRotate(n) ELSE n
  IN
  CASE e.r.t = "nil" ->
         \* unchanged: exactly when the very same payload is there
         PutG(Expect(q, live /\ n.map[k] = v.t, "nil for another payload"), e, n1)
    [] e.r.t = "bulk" ->
         LET key == e.r.s
             new == key \notin DOMAIN n.map
             isseq == n.mode = "seq"
             q1 == Expect(q, ~full, "quota")
             q2 == Expect(q1, ~(live /\ n.map[k] = v.t), "same payload stored again")
             q3 == Expect(q2, IF isseq /\ e.a[2].l = 0 THEN new /\ key = SeqId(n.recs) ELSE key = k, "returned key")
             q4 == Expect(q3, isseq => (new <=> e.a[2].l = 0), "unknown id")
             q5 == Expect(q4, ~(n.worm /\ ~new), "worm")
             q6 == Expect(q5, isseq /\ new => n.recs > n.last, "id reused")
             m == [n1 EXCEPT
                     !.map = Bind(@, key, v.t),
                     !.hist = Bind(@, key, IF new THEN <<v.t>> ELSE Append(n.hist[key], v.t)),
                     !.ord = IF isseq THEN IF new THEN Append(@, key) ELSE @ ELSE Append(Without(@, key), key),
                     !.files = IF isseq /\ ~new THEN @ ELSE Bind(@, key, n1.fid),
                     !.dirty = IF new THEN @ ELSE @ \cup {n.files[key]},
                     !.last = IF isseq /\ new THEN n.recs ELSE @,
                     !.rec = Append(@, [f |-> n1.fid, off |-> n1.off, k |-> key, v |-> v.t, del |-> FALSE]),
                     !.recs = @ + 1,
                     !.off = @ + 18 + KLen(key) + v.l]
         IN PutG(q6, e, m)
    [] OTHER ->
         \* refused: there must be a reason
         LET why == \/ Argc(e) \notin {3, 4} \/ ~q.wr[e.c] \/ n.lock # "none" \/ full
                    \/ (Argc(e) = 4 /\ ~q.ok[e.c])
                    \/ (n.worm /\ live)
                    \/ (n.mode = "user" /\ e.a[2].l = 0)
                    \/ (n.mode = "seq" /\ e.a[2].l > 0 /\ ~live)
                    \/ e.a[2].l > 255
             \* a key which cannot be stored is noticed after the rotation
             late == \/ n.mode = "user" /\ e.a[2].l = 0
                     \/ n.mode = "seq" /\ e.a[2].l > 0 /\ ~live
             early == \/ Argc(e) \notin {3, 4} \/ ~q.wr[e.c] \/ n.lock # "none" \/ full
                      \/ (Argc(e) = 4 /\ ~q.ok[e.c]) \/ (n.worm /\ live) \/ e.a[2].l > 255
         IN PutG(Expect(q, why, "refused write"), e, IF late /\ ~early THEN n1 ELSE n)

GDel(q, e) ==
  LET n == GNs(q, e)
      k == e.a[2].t
  IN IF e.r.t = "ok"
     THEN LET q1 == Expect(q, k \in DOMAIN n.map, "absent key deleted")
          IN IF k \notin DOMAIN n.map THEN q1 ELSE
             PutG(Expect(q1, ~n.worm, "worm"), e,
                  [n EXCEPT !.map = Drop(@, k), !.hist = Drop(@, k), !.ord = Without(@, k),
                            !.dirty = @ \cup {n.files[k]}, !.off = @ + 18 + KLen(k),
                            !.rec = Append(@, [f |-> n.fid, off |-> n.off, k |-> k, v |-> "", del |-> TRUE])])
     ELSE Expect(q, \/ k \notin DOMAIN n.map \/ ~q.wr[e.c] \/ n.lock # "none" \/ n.worm
                    \/ (Argc(e) = 3 /\ ~q.ok[e.c]) \/ Argc(e) \notin {2, 3}, "refused deletion")

GRead(q, e, op) ==
  LET n == GNs(q, e)
      k == IF Argc(e) > 1 THEN e.a[2].t ELSE ""
      has == k \in DOMAIN n.map
  IN
  IF n.lock = "freeze" THEN q
  ELSE CASE op = "GET" /\ Argc(e) = 2 /\ e.a[2].l \in 1..255 ->
              Expect(q, e.r = IF has THEN Bulk(n.map[k]) ELSE Nil, "GET")
         [] op = "EXISTS" /\ Argc(e) = 2 /\ e.a[2].l \in 1..255 ->
              Expect(q, e.r = Num(IF has THEN 1 ELSE 0), "EXISTS")
         [] op = "LENGTH" /\ Argc(e) = 2 /\ e.a[2].l \in 1..255 ->
              Expect(q, e.r = IF has THEN Num(LenOf(n.map[k])) ELSE Nil, "LENGTH")
         [] op = "MGET" /\ Argc(e) > 1 /\ \A i \in 2..Len(e.a) : e.a[i].l <= 255 ->
              Expect(q, e.r.l = [i \in 1..(Argc(e) - 1) |->
                                   IF e.a[i + 1].t \in DOMAIN n.map THEN n.map[e.a[i + 1].t] ELSE "nil"], "MGET")
         [] OTHER -> q

GSelect(q, e) ==
  IF Argc(e) < 2 \/ e.a[2].t \notin DOMAIN q.ns THEN Expect(q, Refused(e), "SELECT of nothing")
  ELSE LET nm == e.a[2].t
           n == q.ns[nm]
           plain == Argc(e) = 3 /\ e.a[3].t = n.pass
           secure == /\ Argc(e) = 4 /\ e.a[3].up = "SECURE" /\ e.a[4].p = n.pass /\ e.a[4].h # ""
                     /\ e.a[4].h \in DOMAIN q.own /\ q.own[e.a[4].h] = e.c /\ e.a[4].h \notin q.used
           full == n.pass = "" \/ plain \/ secure
           read == n.pub /\ Argc(e) = 2
       IN CASE Refused(e) -> Expect(q, ~full /\ ~read, "SELECT refused")
            [] OTHER -> Expect([q EXCEPT !.at[e.c] = nm, !.wr[e.c] = full], full \/ read, "SELECT allowed")

(* an answer, right or wrong, uses up the challenge of that connection      *)
GUsed(q, e) ==
  LET n == Len(e.a)
      attempt == /\ n > 2 /\ IsPre(e.a[n - 1].up, "SECURE") /\ e.a[n].l = HashLen
                 /\ IF n = 3 THEN q.cfg.admin # ""
                    ELSE e.a[2].t \in DOMAIN q.ns /\ q.ns[e.a[2].t].pass # ""
  IN IF attempt THEN [q EXCEPT !.used = @ \cup {x \in DOMAIN q.own : q.own[x] = e.c}] ELSE q

GAuth(q, e) ==
  IF IsChallenge(e)
  THEN IF e.r.t = "nonce"
       THEN LET q1 == Expect(q, e.r.s \notin DOMAIN q.own, "challenge repeated")
                \* a new challenge replaces the one before
            IN [q1 EXCEPT !.own = Bind(@, e.r.s, e.c),
                          !.used = @ \cup {n \in DOMAIN q.own : q.own[n] = e.c}]
       ELSE q
  ELSE LET plain == Argc(e) = 2 /\ q.cfg.admin # "" /\ e.a[2].t = q.cfg.admin
           a == e.a[Len(e.a)]
           secure == /\ Argc(e) = 3 /\ e.a[2].up = "SECURE" /\ q.cfg.admin # "" /\ a.p = q.cfg.admin
                     /\ a.h \in DOMAIN q.own /\ q.own[a.h] = e.c /\ a.h \notin q.used
       IN IF Refused(e) THEN Expect(q, ~plain /\ ~secure, "AUTH refused")
          ELSE Expect([q EXCEPT !.ok[e.c] = TRUE], plain \/ secure, "AUTH accepted")

GNsset(q, e) ==
  IF Refused(e) THEN q
  ELSE LET nm == e.a[2].t
           p == e.a[3].t
           v == e.a[4]
           n == q.ns[nm]
           m == CASE p = "maxsize" -> [n EXCEPT !.lim = v.n, !.cap = Max(v.n, Bytes(n))]
                  [] p = "password" -> [n EXCEPT !.pass = IF v.t = "*" THEN "" ELSE v.t]
                  [] p = "public" -> [n EXCEPT !.pub = v.b]
                  [] p = "worm" -> [n EXCEPT !.worm = v.b]
                  [] p = "lock" -> [n EXCEPT !.lock = IF v.b THEN "lock" ELSE "none"]
                  [] p = "freeze" -> [n EXCEPT !.lock = IF v.b THEN "freeze" ELSE "none"]
                  [] p = "mode" -> [n EXCEPT !.mode = v.t]
           q1 == Expect(q, p = "mode" => n.recs = 0 /\ n.fid = 0 /\ q.cfg.mode = "mix", "mode changed")
           q2 == Expect(q1, nm = "default" => p \in {"mode", "lock", "freeze"}, "setting of default")
       IN [q2 EXCEPT !.ns[nm] = m]

GFlush(q, e) ==
  LET n == GNs(q, e)
      may == n.pass # "" /\ ~n.pub /\ q.wr[e.c] /\ n.lock = "none" /\ ~n.worm
  IN IF Refused(e) THEN Expect(q, ~may, "FLUSH refused")
     ELSE PutG(Expect(q, may, "FLUSH allowed"), e,
               [NoNs EXCEPT !.mode = n.mode, !.lim = n.lim, !.cap = n.lim, !.pass = n.pass, !.pub = n.pub,
                            !.worm = n.worm, !.lock = n.lock])

(* who waits for this is woken *)
GWake(q, e, op) ==
  LET W == {c \in DOMAIN q.wait : c # e.c /\ q.at[c] = q.at[e.c] /\ q.wait[c] \in {op, "*"} /\ c \notin DOMAIN q.mir}
      M == {c \in DOMAIN q.mir : c # e.c}
  IN [q EXCEPT !.wait = [c \in DOMAIN @ \ W |-> @[c]],
               !.woken = [c \in W |-> op] @@ @,
               !.mir = [c \in DOMAIN @ |-> IF c \in M
                          THEN Append(@[c], [ns |-> q.at[e.c], a |-> [i \in 1..Len(e.a) |-> e.a[i].t]]) ELSE @[c]]]

GCmd(q, e) ==
  LET op == Command(e.a[1].up)
      x == IF q.at[e.c] \in DOMAIN q.ns THEN q.at[e.c] ELSE ""
  IN
  IF x = "" THEN \* the namespace is gone: no effect whatsoever
       IF e.r.t = "closed"
       THEN [q EXCEPT !.at = Drop(@, e.c), !.wr = Drop(@, e.c), !.ok = Drop(@, e.c),
                      !.wait = [c \in DOMAIN @ \ {e.c} |-> @[c]], !.woken = [c \in DOMAIN @ \ {e.c} |-> @[c]],
                      !.mir = [c \in DOMAIN @ \ {e.c} |-> @[c]]]
       ELSE Expect(q, Refused(e), "served without namespace")
  ELSE IF op = "" THEN Expect(q, Refused(e), "unknown command")
  ELSE
    LET n == q.ns[x]
        qa == Expect(q, op \in AdminOps /\ ~q.ok[e.c] => Refused(e), "admin command")
        qb == Expect(qa, op \in WriteOps /\ n.lock # "none" => Refused(e), "write while locked")
        qc == Expect(qb, op \in DataReads /\ n.lock = "freeze" => Refused(e), "read while frozen")
        qd == Expect(qc, op \in WriteOps /\ ~q.wr[e.c] => Refused(e), "write by a reader")
        r == CASE op \in {"SET", "SETX"} -> GSet(qd, e)
               [] op = "DEL" -> GDel(qd, e)
               [] op \in {"GET", "MGET", "EXISTS", "LENGTH"} -> GRead(qd, e, op)
               [] op = "SELECT" -> GUsed(GSelect(qd, e), e)
               [] op = "AUTH" -> IF IsChallenge(e) THEN GAuth(qd, e) ELSE GUsed(GAuth(qd, e), e)
               [] op = "NSNEW" ->
                    IF Refused(e) THEN qd
                    ELSE [Expect(qd, e.a[2].t \notin DOMAIN q.ns, "created twice") EXCEPT
                            !.ns = Bind(@, e.a[2].t, [NoNs EXCEPT !.mode = NewMode(q.cfg)])]
               [] op = "NSDEL" ->
                    IF Refused(e) THEN qd
                    ELSE [Expect(qd, e.a[2].t \in DOMAIN q.ns \ {"default", x}, "deleted") EXCEPT
                            !.ns = Drop(@, e.a[2].t),
                            !.at = [c \in DOMAIN @ |-> IF @[c] = e.a[2].t THEN "!" ELSE @[c]]]
               [] op = "NSLIST" -> Expect(qd, e.r.l = DOMAIN q.ns, "NSLIST")
               [] op = "NSSET" -> GNsset(qd, e)
               [] op = "NSJUMP" -> IF Refused(e) THEN qd ELSE PutG(qd, e, GRotate(n))
               [] op = "FLUSH" -> GFlush(qd, e)
               [] op = "RELOAD" -> IF Refused(e) THEN qd ELSE [qd EXCEPT !.ns[e.a[2].t].dirty = {}]
               [] op = "INDEX" -> IF Refused(e) THEN qd
                                  ELSE IF Argc(e) = 3 THEN PutG(qd, e, [n EXCEPT !.dirty = {}])
                                  ELSE Expect(qd, e.r.l = n.dirty, "INDEX DIRTY")
               [] op = "DATA" ->
                    \* a record tells the key and payload which were written there, and the one before it
                    LET Q == {i \in 1..Len(n.rec) : n.rec[i].f = e.a[3].n /\ n.rec[i].off = e.a[4].n}
                    IN IF Q = {} \/ Refused(e) THEN Expect(qd, Q = {} \/ ~q.ok[e.c], "record refused")
                       ELSE LET y == n.rec[CHOOSE i \in Q : TRUE] IN
                            Expect(qd, /\ e.r.s = (IF y.del THEN "nil" ELSE y.v) /\ e.r.l[1] = y.k
                                       /\ e.r.l[3] = (IF y.del THEN 1 ELSE 0), "record")
               [] op = "DBSIZE" -> Expect(qd, e.r = Num(Cardinality(DOMAIN n.map)), "DBSIZE")
               [] op = "WAIT" -> IF Refused(e) THEN qd
                                 ELSE [qd EXCEPT !.wait = Bind(@, e.c, Command(e.a[2].up))]
               [] OTHER -> qd
    IN LET r1 == GWake(r, [e EXCEPT !.c = e.c], op)
           r2 == IF op = "MIRROR" /\ ~Refused(e) THEN [r1 EXCEPT !.mir = Bind(@, e.c, <<>>)] ELSE r1
       IN r2

(***************************************************************************)
(* Moves.                                                                  *)
(***************************************************************************)
EvOf(c, as) == [k |-> "cmd", c |-> c, a |-> as, t0 |-> 0, t1 |-> 0, m0 |-> 0, m1 |-> 0, pm |-> <<>>, r |-> None]

Nonce(x) == "n" \o ToString(Cardinality(x.ch) + 1)

(* commands whose reply the specification leaves partly open are answered   *)
(* by one possible implementation; Obs has to accept it                     *)
Record(x, e) ==
  LET y == NsOf(x, e)
      D == {i \in 1..Len(y.dl) : y.dl[i].f = e.a[3].n /\ y.dl[i].off = e.a[4].n}
  IN IF ~x.cl[e.c].adm \/ D = {} THEN Err
     ELSE LET d == y.dl[CHOOSE i \in D : TRUE]
          IN R("raw", IF d.del THEN "nil" ELSE d.v, 0, <<d.k, d.prev, IF d.del THEN 1 ELSE 0, "good">>)

Reply(x, e, op) ==
  CASE op = "AUTH" -> R("nonce", Nonce(x), 0, <<>>)
    [] op = "DATA" -> Record(x, e)
    [] OTHER -> Do(x, e, op).r

Answered(x, e) ==
  LET k == x.cl[e.c]
      op == Command(e.a[1].up)
  IN IF k.ns = "!" THEN [e EXCEPT !.r = Closed]
     ELSE IF k.ns = "" \/ op = "" THEN [e EXCEPT !.r = Err]
     ELSE IF op = "DATA" \/ (op = "AUTH" /\ IsChallenge(e)) THEN [e EXCEPT !.r = Reply(x, e, op)]
     ELSE [e EXCEPT !.r = Do(x, e, op).r]

(* the replies of the specification name sets, which Matches does not want  *)
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE y \in S : TRUE IN <<y>> \o AsSeq(S \ {y})
Heard(r) == IF r.t \in {"list", "ints"} THEN [r EXCEPT !.l = AsSeq(r.l)] ELSE r

(* a command which did not come to its end: the daemon died in it (crash), or *)
(* a system call was refused (fault).  Clients only know that it may have    *)
(* been done; what the files hold beyond the content is taken as it is       *)
FileSizesIn(x, e, op) ==
  LET fs == x.fs
      n == Len(fs)
      add == EntryHeader + (IF op = "DEL" \/ x.mode = "user" THEN e.a[2].l ELSE 8) + (IF op = "DEL" THEN 0 ELSE e.a[3].l)
  IN {fs, Append(fs, 0), Append(fs, DataHeader)} \cup
     (IF op \in {"SET", "DEL"}
      THEN {[fs EXCEPT ![n] = @ + add], [fs EXCEPT ![n] = @ + 1], Append(fs, DataHeader + add), Append(fs, DataHeader + 1)}
      ELSE {})

Halfway(e, op, crash) ==
  LET x == s.ns[s.cl[e.c].ns]
      E == {[e EXCEPT !.l = l] : l \in FileSizesIn(x, e, op)}
  IN UNION {IF crash THEN Crash(s, f) ELSE Begun(s, f, op, FALSE) : f \in E}

Known(q, y) ==
  [q EXCEPT !.ns = [nm \in DOMAIN @ |->
     IF nm \notin DOMAIN y.ns THEN @[nm]
     ELSE LET x == y.ns[nm] IN
          [@[nm] EXCEPT !.fid = x.fid, !.off = DOff(x), !.recs = Len(x.slots),
                        !.rec = [i \in 1..Len(x.dl) |-> [f |-> x.dl[i].f, off |-> x.dl[i].off, k |-> x.dl[i].k,
                                                        v |-> x.dl[i].v, del |-> x.dl[i].del]]]]]

Agree(y, q) ==
  /\ DOMAIN y.ns = DOMAIN q.ns
  /\ \A nm \in DOMAIN y.ns :
       LET x == y.ns[nm]
           n == q.ns[nm]
       IN /\ [k \in DOMAIN x.mem |-> x.slots[x.mem[k]].v] = n.map
          /\ x.mode = n.mode /\ x.max = n.lim /\ x.pass = n.pass /\ x.pub = n.pub /\ x.worm = n.worm

Later(q, y, done) == IF Agree(y, done) THEN Known(done, y) ELSE Known(q, y)

Back(x, k) == IF k.ns \in DOMAIN x.ns THEN [NewClient(x.cfg) EXCEPT !.ns = k.ns] ELSE NewClient(x.cfg)

Move(m) ==
  CASE m.k = "cmd" /\ "arm" \in DOMAIN m ->
         /\ m.c \in DOMAIN s.cl /\ s.cl[m.c].ns \in DOMAIN s.ns
         /\ LET e0 == EvOf(m.c, [i \in 1..Len(m.a) |-> ArgOf(m.a[i])]) @@ [l |-> <<>>]
                e == Answered(s, e0)
                op == Command(e.a[1].up)
                done == GCmd(g, e)
                crash == m.arm = "crash"
            IN \E y \in Halfway(e, op, crash) :
                 IF crash
                 THEN LET z == y
                          back == [c \in DOMAIN s.cl |-> Back(z, s.cl[c])]
                          q == Later(g, z, done)
                      IN /\ s' = [z EXCEPT !.cl = back]
                         /\ g' = [q EXCEPT !.at = [c \in DOMAIN s.cl |-> back[c].ns], !.wr = [c \in DOMAIN s.cl |-> back[c].w],
                                           !.ok = [c \in DOMAIN s.cl |-> back[c].adm],
                                           !.ns = [n \in DOMAIN @ |-> [@[n] EXCEPT !.lock = "none",
                                                     !.dirty = IF n \in DOMAIN z.ns THEN z.ns[n].dirty ELSE {}]]]
                 ELSE s' = y /\ g' = Known(g, y)
    [] m.k = "cmd" ->
         /\ m.c \in DOMAIN s.cl /\ s.cl[m.c].wt = "" /\ s.cl[m.c].got = ""
         /\ LET e == Answered(s, EvOf(m.c, [i \in 1..Len(m.a) |-> ArgOf(m.a[i])]))
                N == Cmd(s, [e EXCEPT !.r = Heard(@)])
            IN /\ Assert(N # {}, <<"the specification refuses its own reply", e>>)
               /\ s' \in N
               /\ g' = GCmd(g, e)
    [] m.k = "conn" ->
         /\ m.c \notin DOMAIN s.cl
         /\ s' \in Conn(s, m)
         /\ g' = [g EXCEPT !.at = Bind(@, m.c, "default"), !.wr = Bind(@, m.c, ~g.cfg.protect),
                           !.ok = Bind(@, m.c, g.cfg.admin = "")]
    [] m.k = "close" ->
         /\ m.c \in DOMAIN s.cl
         /\ s' \in Close(s, m)
         /\ g' = [g EXCEPT !.at = Drop(@, m.c), !.wr = Drop(@, m.c), !.ok = Drop(@, m.c),
                           !.wait = Drop(@, m.c), !.woken = Drop(@, m.c), !.mir = Drop(@, m.c)]
    [] m.k = "fcheck" ->                   \* what a mirror got is read by now
         /\ m.c \in DOMAIN s.cl /\ s.cl[m.c].mir
         /\ s' = [s EXCEPT !.cl[m.c].mq = <<>>]
         /\ g' = [g EXCEPT !.mir[m.c] = <<>>]
    [] m.k = "wcheck" ->
         /\ m.c \in DOMAIN s.cl /\ s.cl[m.c].got # ""
         /\ s' \in Wgot(s, [m EXCEPT !.k = "wgot"] @@ [r |-> Said(s.cl[m.c].got)])
         /\ g' = [Expect(g, m.c \in DOMAIN g.woken /\ g.woken[m.c] = s.cl[m.c].got, "woken") EXCEPT !.woken = Drop(@, m.c)]
    [] m.k \in {"restart", "rebuild"} ->
         /\ s' = [(IF m.k = "restart" THEN Restarted(s)
                   ELSE CHOOSE y \in Rebuild(s, m @@ [rc |-> 0, same |-> TRUE]) : TRUE) EXCEPT !.cl = [c \in DOMAIN s.cl |-> NewClient(s.cfg)]]
         /\ g' = [g EXCEPT !.at = [c \in DOMAIN @ |-> "default"], !.wr = [c \in DOMAIN @ |-> ~g.cfg.protect],
                           !.ok = [c \in DOMAIN @ |-> g.cfg.admin = ""],
                           !.wait = EmptyFun, !.woken = EmptyFun, !.mir = EmptyFun,
                           !.ns = [n \in DOMAIN @ |-> [@[n] EXCEPT !.lock = "none", !.dirty = {}]]]
    [] m.k = "reopt" ->                    \* with other options; with the last ones if it refuses these
         LET o == P.cfgs[m.cfg]
             ok == o.mode = "mix" \/ \A nm \in DOMAIN g.ns : g.ns[nm].mode = o.mode
             c0 == IF ok THEN o ELSE g.cfg
             S == Reopt(s, [how |-> "kill", cfg |-> o, ok |-> ok, same |-> TRUE, ends |-> IF ok THEN <<"unix">> ELSE <<>>])
         IN /\ Assert(S # {}, <<"the specification refuses its own start", o>>)
            /\ \E y \in S : s' = [(IF ok THEN y ELSE Restarted(y)) EXCEPT !.cl = [c \in DOMAIN s.cl |-> NewClient(c0)]]
            /\ g' = [g EXCEPT !.cfg = c0, !.at = [c \in DOMAIN @ |-> "default"], !.wr = [c \in DOMAIN @ |-> ~c0.protect],
                              !.ok = [c \in DOMAIN @ |-> c0.admin = ""],
                              !.wait = EmptyFun, !.woken = EmptyFun, !.mir = EmptyFun,
                              !.ns = [n \in DOMAIN @ |->
                                        LET x == [@[n] EXCEPT !.lock = "none", !.dirty = {}]
                                        IN IF n # "default" THEN x
                                           ELSE [x EXCEPT !.pass = IF c0.protect THEN c0.admin ELSE "", !.lim = c0.dmax, !.cap = Max(c0.dmax, Bytes(x))]]]

RECURSIVE Prologue(_, _, _)
Prologue(x, q, i) ==
  IF i > Len(P.setup) THEN [x |-> x, q |-> q]
  ELSE LET m == P.setup[i] IN
       IF m.k = "conn"
       THEN Prologue([x EXCEPT !.cl = Bind(@, m.c, NewClient(x.cfg))],
                     [q EXCEPT !.at = Bind(@, m.c, "default"), !.wr = Bind(@, m.c, ~q.cfg.protect),
                               !.ok = Bind(@, m.c, q.cfg.admin = "")], i + 1)
       ELSE LET e == Answered(x, EvOf(m.c, [j \in 1..Len(m.a) |-> ArgOf(m.a[j])]))
            IN Prologue(CHOOSE y \in Cmd(x, [e EXCEPT !.r = Heard(@)]) : TRUE, GCmd(q, e), i + 1)

Init == LET b == Prologue(Start(P.cfg), G0(P.cfg), 1) IN s = b.x /\ g = b.q /\ h = <<>>

(* every P.emit-th history, whichever worker finds it *)
RECURSIVE Mark(_, _)
Mark(q, i) == IF i > Len(q) THEN P.phase ELSE (q[i] * (2 * i + 1) + 31 * Mark(q, i + 1)) % 10007
Emit == P.emit > 0 => IF Mark(h', 1) % P.emit = 0 THEN PrintT("COVER " \o ToJson(h')) ELSE TRUE

Next ==
  /\ Len(h) < P.depth
  /\ \E i \in 1..Len(Moves) : Move(Moves[i]) /\ h' = Append(h, i)
  /\ Emit

Spec == Init /\ [][Next]_vars
View == <<s, g>>

(***************************************************************************)
(* The properties.                                                         *)
(***************************************************************************)
NoWrongReply == g.err = {}

SameNamespaces == DOMAIN s.ns = DOMAIN g.ns

(* K01 K02 N01: the map of every namespace *)
MapOf(x) == [k \in DOMAIN x.mem |-> x.slots[x.mem[k]].v]
Map == \A nm \in DOMAIN s.ns : MapOf(s.ns[nm]) = g.ns[nm].map

(* K02: the next id is the number of records ever written, beyond every id given *)
Ids == \A nm \in DOMAIN s.ns :
         LET x == s.ns[nm] IN
         /\ Len(x.slots) = g.ns[nm].recs
         /\ x.mode = "seq" => Len(x.slots) > g.ns[nm].last

(* K11 *)
Statistics == \A nm \in DOMAIN s.ns :
  LET x == s.ns[nm]
      n == g.ns[nm]
  IN /\ x.n = Cardinality(DOMAIN n.map)
     /\ x.sz = Bytes(n)
     /\ x.ks = KTotal(DOMAIN n.map)
     /\ x.fid = n.fid /\ DOff(x) = n.off

(* K12 *)
Quota == \A nm \in DOMAIN s.ns : s.ns[nm].max > 0 => s.ns[nm].sz <= g.ns[nm].cap

(* K08: every walk, from any position, meets the live keys which lie ahead  *)
Names(x, q) == [i \in 1..Len(q) |-> x.slots[q[i]].k]
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
Walks == \A nm \in DOMAIN s.ns :
  LET x == s.ns[nm]
      o == g.ns[nm].ord
  IN /\ Names(x, LiveSeq(x)) = o
     /\ \A i \in 1..Len(x.slots) :
          LET ahead == Names(x, ScanAfter(x, i))
              back == Names(x, ScanBefore(x, i))
          IN /\ IsSuffix(ahead, o)
             /\ IsSuffix(back, Rev(o))
             /\ Len(ahead) + Len(back) = Len(o) - (IF x.slots[i].del THEN 0 ELSE 1)

(* K09: following parents from the live record gives the values, newest first *)
RECURSIVE Chain(_, _)
Chain(x, i) == IF i = 0 THEN <<>> ELSE <<x.slots[i].v>> \o Chain(x, x.slots[i].par)
History == \A nm \in DOMAIN s.ns :
  LET x == s.ns[nm] IN
  \A k \in DOMAIN x.mem : Chain(x, x.mem[k]) = Rev(g.ns[nm].hist[k])

(* K03: what is loaded from the files is what was served *)
Visible(x) == [map |-> MapOf(x), walk |-> LiveSeq(x), n |-> x.n, sz |-> x.sz, ks |-> x.ks,
               times |-> [k \in DOMAIN x.mem |-> x.slots[x.mem[k]].w],
               hist |-> [k \in DOMAIN x.mem |-> Chain(x, x.mem[k])],
               next |-> Len(x.slots), fid |-> x.fid, off |-> DOff(x), mode |-> x.mode, pass |-> x.pass,
               pub |-> x.pub, worm |-> x.worm, max |-> x.max, dl |-> x.dl]
Reload == \A nm \in DOMAIN s.ns : Visible(Load(s.ns[nm])) = Visible(s.ns[nm])
Restarts == \A nm \in DOMAIN s.ns : Visible(LoadNs(s, nm)) = Visible(s.ns[nm])

(* T01: the data records alone tell the live keys and their payloads *)
RECURSIVE Folded(_, _, _)
Folded(d, i, m) ==
  IF i > Len(d) THEN m
  ELSE Folded(d, i + 1, IF d[i].del THEN Drop(m, d[i].k) ELSE Bind(m, d[i].k, d[i].v))
Rebuilt == \A nm \in DOMAIN s.ns : Folded(s.ns[nm].dl, 1, EmptyFun) = g.ns[nm].map

(* T01: so does the index made from them, down to the order of the records  *)
RebuiltIndex == \A nm \in DOMAIN s.ns : Visible(ReplayAll(s.ns[nm])) = Visible(s.ns[nm])

(* T02 K06: the records of a file follow each other without gaps, and each  *)
(* points to the one before                                                 *)
DataLog == \A nm \in DOMAIN s.ns :
  LET d == s.ns[nm].dl IN
  /\ \A i \in 1..Len(d) :
       /\ \A j \in 1..(i - 1) : d[j].f < d[i].f \/ (d[j].f = d[i].f /\ d[j].off < d[i].off)
       /\ d[i].off + EntryHeader + d[i].kl + d[i].vl =
            (IF i < Len(d) /\ d[i + 1].f = d[i].f THEN d[i + 1].off ELSE s.ns[nm].fs[d[i].f + 1])
       /\ (i = 1 \/ d[i - 1].f # d[i].f) => d[i].off = DataHeader
       /\ i > 1 /\ d[i - 1].f = d[i].f => d[i].prev = d[i - 1].off

(* T02: the data files hold every record ever written, where it was written *)
Records == \A nm \in DOMAIN s.ns :
  LET d == s.ns[nm].dl
      q == g.ns[nm].rec
  IN /\ Len(d) = Len(q)
     /\ \A i \in 1..Len(d) : /\ d[i].f = q[i].f /\ d[i].off = q[i].off /\ d[i].k = q[i].k
                             /\ d[i].v = q[i].v /\ d[i].del = q[i].del

(* K06: no file outgrows the limit, except by a payload which alone is larger *)
(* than it: the record header and the key come on top                       *)
FileSizes == \A nm \in DOMAIN s.ns :
  LET x == s.ns[nm] IN
  \A i \in 1..Len(x.dl) : x.dl[i].del \/ x.dl[i].off = DataHeader \/ x.dl[i].off + x.dl[i].vl <= s.cfg.dsz

(* K07 *)
Dirty == \A nm \in DOMAIN s.ns : s.ns[nm].dirty = g.ns[nm].dirty

(* A01 A02 A03 *)
Rights == \A c \in DOMAIN s.cl :
  /\ s.cl[c].adm = g.ok[c]
  /\ s.cl[c].ns \in {"", "!"} => g.at[c] = "!"
  /\ s.cl[c].ns \notin {"", "!"} => s.cl[c].ns = g.at[c] /\ s.cl[c].w = g.wr[c]
  /\ s.cl[c].non # "" => g.own[s.cl[c].non] = c /\ s.cl[c].non \notin g.used

(* R03 *)
Waiters == \A c \in DOMAIN s.cl :
  /\ (s.cl[c].wt # "") <=> (c \in DOMAIN g.wait)
  /\ (s.cl[c].got # "") <=> (c \in DOMAIN g.woken)

(* R04 *)
Mirrored == \A c \in DOMAIN s.cl :
  /\ s.cl[c].mir <=> c \in DOMAIN g.mir
  /\ s.cl[c].mir => /\ Len(s.cl[c].mq) = Len(g.mir[c])
                    /\ \A i \in 1..Len(g.mir[c]) : s.cl[c].mq[i].ns = g.mir[c][i].ns /\ s.cl[c].mq[i].a = g.mir[c][i].a

(* settings *)
Set_ == \A nm \in DOMAIN s.ns :
  LET x == s.ns[nm]
      n == g.ns[nm]
  IN x.mode = n.mode /\ x.max = n.lim /\ x.pass = n.pass /\ x.pub = n.pub /\ x.worm = n.worm /\ x.lock = n.lock

(* K06: what was written stays: the data records only grow, by at most one  *)
AppendOnly == [][\A nm \in DOMAIN s.ns :
   LET x == s.ns[nm] IN
   nm \in DOMAIN s'.ns =>
     LET y == s'.ns[nm] IN
     \/ y.dl = <<>> /\ y.fid = 0 /\ y.slots = <<>>        \* created again or flushed
     \/ /\ Len(y.dl) \in Len(x.dl)..(Len(x.dl) + 1)
        /\ SubSeq(y.dl, 1, Len(x.dl)) = x.dl
        /\ y.fid \in x.fid..(x.fid + 1)
        /\ \A f \in 1..(Len(x.fs) - 1) : y.fs[f] = x.fs[f]
        /\ y.fs[Len(x.fs)] >= x.fs[Len(x.fs)]
        /\ Len(y.fs) = y.fid + 1
        /\ Len(y.slots) >= Len(x.slots)
        /\ Len(y.fs) > Len(x.fs) => y.fs[Len(x.fs)] = x.fs[Len(x.fs)]]_vars

(* N01: at most one namespace changes its content in one step, the one of   *)
(* the client or the one an admin command names                             *)
Content(x) == <<x.slots, x.dl, x.fs, x.mode, x.max, x.pass, x.pub, x.worm, x.dirty>>
Isolated == [][
   (s'.cl # EmptyFun /\ h' # h /\ Moves[h'[Len(h')]].k = "cmd") =>
     LET m == Moves[h'[Len(h')]]
         target == {s.cl[m.c].ns} \cup (IF Len(m.a) > 1 THEN {m.a[2]} ELSE {})
     IN \A nm \in DOMAIN s.ns \ target : nm \in DOMAIN s'.ns /\ Content(s'.ns[nm]) = Content(s.ns[nm])]_vars

(* a refused request changes nothing: see Content *)
=============================================================================
