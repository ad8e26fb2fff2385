------------------------------- MODULE ZdbGen -------------------------------
(***************************************************************************)
(* Scripts for the real daemon: random walks of the specification, steered  *)
(* by a profile (the file named by ZDB_PROFILE): which operations, with     *)
(* which weights, over which keys, payloads, namespaces, credentials.       *)
(* The state of the walk makes the choices meaningful: update a live key,   *)
(* delete a key just created, use a cursor of this namespace, enter with    *)
(* the right or with a wrong password.                                      *)
(***************************************************************************)
EXTENDS ZdbEvents, Json, IOUtils, SequencesExt

P == JsonDeserialize(IOEnv.ZDB_PROFILE)

VARIABLES s,      \* state of the specification
          h,      \* script so far
          sc, hc  \* cursors given so far: event number, namespace, key
vars == <<s, h, sc, hc>>

SeqArg(n) == [t |-> SeqId(n), l |-> 8, up |-> "?", n |-> 0, u |-> 0, b |-> FALSE, h |-> "", p |-> "",
              sl |-> FALSE, z |-> n = 0]
Word(x) == [t |-> x, l |-> 1, up |-> x, n |-> 0, u |-> 0, b |-> FALSE, h |-> "", p |-> "",
            sl |-> FALSE, z |-> FALSE]
Answer(non, pw, j) == [Word("=H" \o ToString(j) \o ":" \o pw) EXCEPT !.l = 40, !.h = non, !.p = pw]
Ref(j, len) == [Word("@" \o ToString(j)) EXCEPT !.l = len]

ArgOf(x) == IF x \in DOMAIN P.args THEN P.args[x] ELSE Word(x)

At(q, r) == q[(r % Len(q)) + 1]

(* a pick is a list of argument records (a command), or a driver event      *)
Cmdline(w, as) == <<Word(w)>> \o as

Keys(x, r) ==
  IF x.mode = "seq"
  THEN CASE r % 10 < 7 -> IF Len(x.slots) = 0 THEN SeqArg(r % 3) ELSE SeqArg((r \div 10) % (Len(x.slots) + 2))
         [] OTHER -> ArgOf(At(P.badids, r \div 10))
  ELSE ArgOf(At(P.keys, r))

LiveKey(x, r) ==
  LET q == SetToSeq(DOMAIN x.mem) IN
  IF q = <<>> THEN Keys(x, r)
  ELSE LET k == At(q, r) IN
       IF x.mode = "seq" THEN SeqArg(x.mem[k] - 1) ELSE ArgOf(k)

NewKey(x, r) == IF x.mode = "seq" THEN ArgOf("") ELSE ArgOf(At(P.keys, r))
Val(r) == ArgOf(At(P.vals, r))
Ts(r) == ArgOf(At(P.ts, r))
Nm(r) == ArgOf(At(P.names, r))
Pw(r) == ArgOf(At(P.pws, r))

SameVal(x, k) == IF k.t \in DOMAIN x.mem
                 THEN LET d == x.slots[x.mem[k.t]] IN ArgOf(IF d.w \in DOMAIN x.bad THEN x.bad[d.w].v ELSE d.v) ELSE ArgOf(At(P.vals, 0))

Mine(q, nm) == SelectSeq(q, LAMBDA y : y.ns = nm)

OwnKey(x, y) == IF x.mode = "seq"
                THEN IF \E i \in 1..Len(x.slots) : x.slots[i].k = y.k
                     THEN SeqArg((CHOOSE i \in 1..Len(x.slots) : x.slots[i].k = y.k) - 1)
                     ELSE ArgOf("")
                ELSE ArgOf(y.k)

(* the number of the event at which the pending challenge of c was issued   *)
NonceEvent(non) == IF non = "" THEN 0 ELSE CHOOSE j \in 1..Len(h) : ToString(j) = non

CmdPick(op, c, x, r) ==
  LET k == s.cl[c]
      cs == Mine(sc, k.ns)
      hs == Mine(hc, k.ns)
      non == NonceEvent(k.non)
      nsx == Nm(r[3])
      pass == IF nsx.t \in DOMAIN s.ns THEN s.ns[nsx.t].pass ELSE ""
  IN
  CASE op = "set"      -> Cmdline("SET", <<NewKey(x, r[3]), Val(r[4])>>)
    [] op = "setx"     -> Cmdline("SETX", <<NewKey(x, r[3]), Val(r[4])>>)
    [] op = "setts"    -> Cmdline("SET", <<NewKey(x, r[3]), Val(r[4]), Ts(r[5])>>)
    [] op = "setlive"  -> Cmdline("SET", <<LiveKey(x, r[3]), Val(r[4])>>)
    [] op = "setlivets"-> Cmdline("SET", <<LiveKey(x, r[3]), Val(r[4]), Ts(r[5])>>)
    [] op = "setsame"  -> LET q == LiveKey(x, r[3]) IN Cmdline("SET", <<q, SameVal(x, q)>>)
    [] op = "setany"   -> Cmdline("SET", <<Keys(x, r[3]), Val(r[4])>>)
    [] op = "del"      -> Cmdline("DEL", <<Keys(x, r[3])>>)
    [] op = "dellive"  -> Cmdline("DEL", <<LiveKey(x, r[3])>>)
    [] op = "delts"    -> Cmdline("DEL", <<LiveKey(x, r[3]), Ts(r[5])>>)
    [] op = "get"      -> Cmdline("GET", <<Keys(x, r[3])>>)
    [] op = "getlive"  -> Cmdline("GET", <<LiveKey(x, r[3])>>)
    [] op = "mget"     -> Cmdline("MGET", [i \in 1..(1 + (r[4] % 6)) |->
                                             IF i % 3 = 0 THEN LiveKey(x, r[3] + 7 * i) ELSE Keys(x, r[3] + 13 * i)])
    [] op = "mgetall"  -> Cmdline("MGET", [i \in 1..Len(P.keys) |-> ArgOf(P.keys[i])])
    [] op = "exists"   -> Cmdline("EXISTS", <<Keys(x, r[3])>>)
    [] op = "length"   -> Cmdline("LENGTH", <<Keys(x, r[3])>>)
    [] op = "lengthlive" -> Cmdline("LENGTH", <<LiveKey(x, r[3])>>)
    [] op = "check"    -> Cmdline("CHECK", <<Keys(x, r[3])>>)
    [] op = "checklive"-> Cmdline("CHECK", <<LiveKey(x, r[3])>>)
    [] op = "keytime"  -> Cmdline("KEYTIME", <<Keys(x, r[3])>>)
    [] op = "keytimelive" -> Cmdline("KEYTIME", <<LiveKey(x, r[3])>>)
    [] op = "hist"     -> Cmdline("HISTORY", <<Keys(x, r[3])>>)
    [] op = "histlive" -> Cmdline("HISTORY", <<LiveKey(x, r[3])>>)
    [] op = "histc"    -> IF hs = <<>> THEN Cmdline("HISTORY", <<LiveKey(x, r[3])>>)
                          ELSE LET y == At(hs, r[3]) IN Cmdline("HISTORY", <<OwnKey(x, y), Ref(y.j, 8)>>)
    [] op = "histlast" -> IF hs = <<>> THEN Cmdline("HISTORY", <<LiveKey(x, r[3])>>)
                          ELSE LET y == hs[Len(hs)] IN Cmdline("HISTORY", <<OwnKey(x, y), Ref(y.j, 8)>>)
    [] op = "histx"    -> IF hs = <<>> THEN Cmdline("HISTORY", <<Keys(x, r[3]), ArgOf(At(P.junk8, r[4]))>>)
                          ELSE Cmdline("HISTORY", <<Keys(x, r[3]), Ref(At(hs, r[4]).j, 8)>>)
    [] op = "histjunk" -> Cmdline("HISTORY", <<LiveKey(x, r[3]), ArgOf(At(P.junk8, r[4]))>>)
    [] op = "scan"     -> Cmdline("SCAN", <<>>)
    [] op = "scanx"    -> Cmdline("SCANX", <<>>)
    [] op = "rscan"    -> Cmdline("RSCAN", <<>>)
    [] op = "scanc"    -> Cmdline("SCAN", IF cs = <<>> THEN <<>> ELSE <<Ref(At(cs, r[3]).j, 17)>>)
    [] op = "rscanc"   -> Cmdline("RSCAN", IF cs = <<>> THEN <<>> ELSE <<Ref(At(cs, r[3]).j, 17)>>)
    [] op = "scanjunk" -> Cmdline(IF r[4] % 2 = 0 THEN "SCAN" ELSE "RSCAN", <<ArgOf(At(P.junk17, r[3]))>>)
    [] op = "keycur"   -> Cmdline("KEYCUR", <<LiveKey(x, r[3])>>)
    [] op = "keycurany"-> Cmdline("KEYCUR", <<Keys(x, r[3])>>)
    [] op = "kscan"    -> Cmdline("KSCAN", <<ArgOf(At(P.prefixes, r[3]))>>)
    [] op = "nsinfo"   -> Cmdline("NSINFO", <<nsx>>)
    [] op = "nsinfohere" -> Cmdline("NSINFO", <<ArgOf(k.ns)>>)
    [] op = "dbsize"   -> Cmdline("DBSIZE", <<>>)
    [] op = "nslist"   -> Cmdline("NSLIST", <<>>)
    [] op = "nsnew"    -> Cmdline("NSNEW", <<nsx>>)
    [] op = "nsdel"    -> Cmdline("NSDEL", <<nsx>>)
    [] op = "nsset"    -> LET q == At(P.props, r[4]) IN Cmdline("NSSET", <<nsx, ArgOf(q[1]), ArgOf(q[2])>>)
    [] op = "nssethere"-> LET q == At(P.props, r[4]) IN Cmdline("NSSET", <<ArgOf(k.ns), ArgOf(q[1]), ArgOf(q[2])>>)
    [] op = "select"   -> Cmdline("SELECT", <<nsx>>)
    [] op = "selectok" -> Cmdline("SELECT", IF pass = "" THEN <<nsx>> ELSE <<nsx, ArgOf(pass)>>)
    [] op = "selectpw" -> Cmdline("SELECT", <<nsx, Pw(r[4])>>)
    [] op = "selectsec"-> Cmdline("SELECT", <<nsx, Word("SECURE"),
                              IF r[4] % 3 = 0 \/ pass = "" THEN Answer(k.non, Pw(r[5]).t, non)
                              ELSE Answer(k.non, pass, non)>>)
    [] op = "selectold"-> \* an answer to an earlier challenge, maybe of somebody else
                          LET q == SelectSeq([j \in 1..Len(h) |-> j], LAMBDA j : h[j].k = "cmd" /\ Len(h[j].a) = 3
                                                /\ h[j].a[1] = "AUTH" /\ h[j].a[3] = "CHALLENGE")
                          IN IF q = <<>> THEN Cmdline("SELECT", <<nsx>>)
                             ELSE LET j == At(q, r[4])
                                      pw == IF pass = "" THEN Pw(r[5]).t ELSE pass
                                  IN Cmdline("SELECT", <<nsx, Word("SECURE"), Answer(ToString(j), pw, j)>>)
    [] op = "auth"     -> Cmdline("AUTH", <<Pw(r[4])>>)
    [] op = "authok"   -> Cmdline("AUTH", <<IF s.cfg.admin = "" THEN Pw(r[4]) ELSE ArgOf(s.cfg.admin)>>)
    [] op = "chal"     -> Cmdline("AUTH", <<Word("SECURE"), Word("CHALLENGE")>>)
    [] op = "authsec"  -> Cmdline("AUTH", <<Word("SECURE"),
                              IF r[4] % 3 = 0 \/ s.cfg.admin = "" THEN Answer(k.non, Pw(r[5]).t, non)
                              ELSE Answer(k.non, s.cfg.admin, non)>>)
    [] op = "authold"  -> LET q == SelectSeq([j \in 1..Len(h) |-> j], LAMBDA j : h[j].k = "cmd" /\ Len(h[j].a) = 3
                                                /\ h[j].a[1] = "AUTH" /\ h[j].a[3] = "CHALLENGE")
                          IN IF q = <<>> \/ s.cfg.admin = "" THEN Cmdline("AUTH", <<Pw(r[4])>>)
                             ELSE LET j == At(q, r[4])
                                  IN Cmdline("AUTH", <<Word("SECURE"), Answer(ToString(j), s.cfg.admin, j)>>)
    [] op = "jump"     -> Cmdline("NSJUMP", <<>>)
    [] op = "reload"   -> Cmdline("RELOAD", <<nsx>>)
    [] op = "reloadhere" -> Cmdline("RELOAD", <<ArgOf(k.ns)>>)
    [] op = "flush"    -> Cmdline("FLUSH", <<>>)
    [] op = "dirty"    -> Cmdline("INDEX", <<Word("DIRTY")>>)
    [] op = "dreset"   -> Cmdline("INDEX", <<Word("DIRTY"), Word("RESET")>>)
    [] op = "raw"      -> IF Len(x.dl) = 0 THEN Cmdline("DATA", <<Word("RAW"), ArgOf("0"), ArgOf("28")>>)
                          ELSE LET d == At(x.dl, r[3]) IN
                               Cmdline("DATA", <<Word("RAW"), [Word(ToString(d.f)) EXCEPT !.n = d.f],
                                                 [Word(ToString(d.off)) EXCEPT !.n = d.off]>>)
    [] op = "rawend"   -> LET f == r[3] % (x.fid + 2)
                              o == IF f > x.fid THEN 28 ELSE x.fs[f + 1] + (r[4] % 3) * 17
                          IN Cmdline("DATA", <<Word("RAW"), [Word(ToString(f)) EXCEPT !.n = f],
                                               [Word(ToString(o)) EXCEPT !.n = o]>>)
    [] op = "ping"     -> Cmdline("PING", <<>>)
    [] op = "time"     -> Cmdline("TIME", <<>>)
    [] op = "info"     -> Cmdline("INFO", <<>>)
    [] op = "hooks"    -> Cmdline("HOOKS", <<>>)
    [] op = "mirror"   -> Cmdline("MIRROR", <<>>)
    [] op = "master"   -> Cmdline("MASTER", <<>>)
    [] op = "wait"     -> Cmdline("WAIT", <<ArgOf(At(P.waits, r[3])), ArgOf("600000")>>)
    [] op = "waitshort"-> Cmdline("WAIT", <<ArgOf(At(P.waits, r[3])), ArgOf(At(P.timeouts, r[4]))>>)
    [] op = "bad"      -> \* wrong number of arguments, odd arguments, odd words
                          Cmdline(At(P.words, r[3]),
                                  [i \in 1..(r[4] % 5) |->
                                     IF (r[5] + i) % 3 = 0 THEN Keys(x, r[6] + 5 * i) ELSE ArgOf(At(P.odd, r[6] + 11 * i))])

DriverOps == {"conn", "close", "wcheck", "wexp", "fcheck", "restart", "disk", "rebuild", "live", "hm", "noready", "offload", "quiet", "idle",
              "alter", "icheck", "idump", "edit", "compact", "sync", "reopt", "badopts"}

Ops == P.ops

Script(as) == [i \in 1..Len(as) |-> as[i].t]

(* replies are not known here: apply what does not depend on them           *)
Apply(c, as) ==
  LET e0 == [k |-> "cmd", c |-> c, a |-> as, t0 |-> 0, t1 |-> 0, m0 |-> 0, m1 |-> 0, pm |-> <<>>, r |-> None]
      k == s.cl[c]
      e == IF k.mst /\ Len(as) > 1 THEN [e0 EXCEPT !.a = SubSeq(as, 1, Len(as) - 1)] ELSE e0
      op == Command(as[1].up)
  IN IF k.ns = "" THEN [s EXCEPT !.cl[c].ns = "!"]
     ELSE IF k.ns = "!" THEN Kill(s, c)
     ELSE IF op = "" THEN s
     ELSE IF op = "AUTH" /\ IsChallenge(e)
          THEN [s EXCEPT !.cl[c].non = ToString(Len(h) + 1)]
     ELSE IF op \in Observed THEN s
     ELSE Post(Do(s, e, op).s, e, op, IF k.mst THEN as[Len(as)].n ELSE Iid)

WithOwner(c, as, r) ==
  IF s.cl[c].mst /\ r % 20 # 0 THEN as \o <<ArgOf(At(P.owners, r \div 20))>> ELSE as

(* a waiting client sends nothing *)
Idle == {c \in DOMAIN s.cl : s.cl[c].wt = "" /\ s.cl[c].got = ""}
Waiting == {c \in DOMAIN s.cl : s.cl[c].wt # "" \/ s.cl[c].got # ""}
Mirrors == {c \in DOMAIN s.cl : s.cl[c].mir}
Absent == {P.clients[i] : i \in 1..Len(P.clients)} \ DOMAIN s.cl

Rebuildable == {nm \in DOMAIN s.ns : s.ns[nm].mode \in SetOf(P.rebuild)}
Takable == UNION {{<<nm, f>> : f \in (0..(s.ns[nm].fid - 1)) \ s.ns[nm].gone} : nm \in DOMAIN s.ns}
Spoilable == UNION {{<<nm, i>> : i \in {j \in 1..Len(s.ns[nm].dl) : ~s.ns[nm].dl[j].del /\ s.ns[nm].dl[j].vl > 0}} : nm \in DOMAIN s.ns}
Served == {c \in Idle : s.cl[c].ns \in DOMAIN s.ns}

PickC(S, r) == LET q == SetToSeq(S) IN At(q, r)

Ev(k, c) == [k |-> k, c |-> c]

DoDriver(op, r) ==
  CASE op = "conn" /\ Absent # {} ->
         LET c == PickC(Absent, r[1]) IN
         /\ h' = Append(h, Ev("conn", c)) /\ s' = [s EXCEPT !.cl = Bind(@, c, NewClient(s.cfg))]
         /\ UNCHANGED <<sc, hc>>
    [] op = "close" /\ Cardinality(DOMAIN s.cl) > 1 ->
         LET c == PickC(DOMAIN s.cl, r[1]) IN
         h' = Append(h, Ev("close", c)) /\ s' = Kill(s, c) /\ UNCHANGED <<sc, hc>>
    [] op = "wcheck" /\ Waiting # {} ->
         LET c == PickC(Waiting, r[1]) IN
         /\ h' = Append(h, Ev("wcheck", c)) /\ s' = [s EXCEPT !.cl[c].got = ""]
         /\ UNCHANGED <<sc, hc>>
    [] op = "fcheck" /\ Mirrors # {} ->
         LET c == PickC(Mirrors, r[1]) IN
         h' = Append(h, Ev("fcheck", c)) /\ UNCHANGED <<s, sc, hc>>
    [] op = "restart" ->
         /\ h' = h \o <<[k |-> "restart", how |-> At(P.stops, r[1])]>>
                    \o [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
         /\ s' = [Restarted(s) EXCEPT !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(s.cfg)]]
         /\ UNCHANGED <<sc, hc>>
    [] op = "reopt" ->
         LET n   == 1 + (r[2] % Len(P.cfgs))
             ok  == Fits(s, P.cfgs[n])
             y   == Restarted(IF ok THEN Under(s, P.cfgs[n]) ELSE s)
             cls == [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
         IN /\ h' = h \o <<[k |-> "restart", how |-> At(P.stops, r[1]), cfg |-> n]>>
                      \o (IF ok THEN <<>> ELSE <<[k |-> "restart", how |-> "kill"]>>) \o cls
            /\ s' = [y EXCEPT !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(y.cfg)]]
            /\ UNCHANGED <<sc, hc>>
    [] op = "badopts" ->
         /\ h' = h \o <<[k |-> "badopts", n |-> r[2]], [k |-> "restart", how |-> "kill"]>>
                    \o [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
         /\ s' = [Restarted(s) EXCEPT !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(s.cfg)]]
         /\ UNCHANGED <<sc, hc>>
    [] op = "disk" ->
         /\ h' = Append(h, [k |-> "disk", ns |-> PickC(DOMAIN s.ns, r[1])])
         /\ UNCHANGED <<s, sc, hc>>
    [] op = "rebuild" ->
         LET nm == PickC(Rebuildable, r[2]) IN
         /\ h' = h \o <<[k |-> "rebuild", ns |-> nm, how |-> At(<<"kill", "stop", "term", "int">>, r[1]),
                         mode |-> s.ns[nm].mode]>>
                    \o [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
         /\ s' = [Restarted(PutNs(s, nm, ReplayAll(s.ns[nm]))) EXCEPT
                    !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(s.cfg)]]
         /\ UNCHANGED <<sc, hc>>
    [] op = "live" /\ Served # {} ->
         /\ h' = Append(h, Ev("live", PickC(Served, r[1])))
         /\ UNCHANGED <<s, sc, hc>>
    [] op = "hm" ->
         LET m == At(P.hms, r[1]) IN
         /\ h' = Append(h, [k |-> "hm", h |-> m[1], v |-> m[2]])
         /\ s' = [s EXCEPT !.hm[m[1]] = m[2]] /\ UNCHANGED <<sc, hc>>
    [] op = "noready" ->
         /\ h' = h \o <<[k |-> "noready", how |-> At(P.stops, r[1]), v |-> At(<<"fail", "sig">>, r[2])]>>
                    \o [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
         /\ s' = [Restarted(s) EXCEPT !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(s.cfg)]]
         /\ UNCHANGED <<sc, hc>>
    [] op = "offload" /\ Takable # {} ->
         LET m == PickC(Takable, r[1]) IN
         /\ h' = Append(h, [k |-> "offload", ns |-> m[1], f |-> m[2]])
         /\ s' = [s EXCEPT !.ns[m[1]].gone = @ \cup {m[2]}] /\ UNCHANGED <<sc, hc>>
    [] op = "idle" ->
         /\ LET q == SetToSeq(DOMAIN s.ns) IN
            h' = Append(h, [k |-> "idle"])
                   \o [i \in 1..(IF Idle = {} THEN 0 ELSE Len(q)) |->
                         [k |-> "cmd", c |-> PickC(Idle, r[1]), a |-> <<"NSINFO", q[i]>>]]
         /\ s' = MoveAll(s, {nm \in DOMAIN s.ns : \E i \in 1..Len(s.ns[nm].slots) : s.ns[nm].slots[i].f = s.ns[nm].fid})
         /\ UNCHANGED <<sc, hc>>
    [] op = "alter" /\ Spoilable # {} ->
         LET live == {m \in Spoilable : LET x == s.ns[m[1]] IN \E k \in DOMAIN x.mem : x.slots[x.mem[k]].w = x.dl[m[2]].w}
             m == PickC(IF live # {} /\ r[2] % 4 # 0 THEN live ELSE Spoilable, r[1])
             d == s.ns[m[1]].dl[m[2]]
             b == s.ns[m[1]].bad
             back == d.w \in DOMAIN b
             e == [k |-> "alter", ns |-> m[1], f |-> d.f, off |-> d.off,
                   mask |-> IF back THEN b[d.w].mask ELSE 1 + (r[3] % 255),
                   pos |-> IF back THEN b[d.w].pos
                           ELSE IF r[4] % 3 = 0 THEN d.vl - 1 ELSE IF r[4] % 3 = 1 THEN 0 ELSE r[5] % d.vl]
         IN /\ h' = Append(h, e) /\ s' \in Alter(s, e) /\ UNCHANGED <<sc, hc>>
    [] op = "compact" ->
         LET nm == PickC(DOMAIN s.ns, r[1]) IN
         /\ h' = h \o <<[k |-> "compact", ns |-> nm, how |-> At(<<"kill", "stop", "term", "int">>, r[2])]>>
                     \o [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
         /\ s' = [Restarted(PutNs(s, nm, Compacted(s.ns[nm]))) EXCEPT !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(s.cfg)]]
         /\ UNCHANGED <<sc, hc>>
    [] op = "sync" ->
         LET ev == [k |-> "sync", how |-> At(<<"kill", "term">>, r[1]), times |-> 1 + (r[2] % 2), rc |-> 0, t0 |-> 0, t1 |-> 0] IN
         /\ h' = h \o <<ev>> \o [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
         /\ s' = [(CHOOSE z \in Sync(s, ev) : TRUE) EXCEPT !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(s.cfg)]]
         /\ UNCHANGED <<sc, hc>>
    [] op = "edit" ->
         LET S == DOMAIN s.ns \ {"default"}
             nm == IF S = {} \/ r[1] % 20 = 0 THEN "nowhere" ELSE PickC(S, r[1])
             max == At(<<<<"", 0>>, <<"0", 0>>, <<"1", 1>>, <<"300", 300>>, <<"5000", 5000>>, <<"2147483647", 2147483647>>,
                         <<"9000000000", 2147483647>>>>, r[2])
             pub == At(<<"", "yes", "no", "no">>, r[3])
             worm == At(<<"", "yes", "no">>, r[4])
             pass == IF r[5] % 3 = 0 \/ r[5] % 7 = 0 THEN "" ELSE At(P.pws, r[6])
             y == [s EXCEPT !.ns[nm].pass = pass, !.ns[nm].pub = pub # "no", !.ns[nm].worm = worm = "yes", !.ns[nm].max = max[2]]
         IN /\ h' = h \o <<[k |-> "edit", ns |-> nm, how |-> At(<<"kill", "stop", "term", "int">>, r[7]), max |-> max[1], pub |-> pub,
                           worm |-> worm, pass |-> pass, given |-> r[5] % 3 # 0]>>
                     \o [i \in 1..Len(P.clients) |-> Ev("conn", P.clients[i])]
            /\ s' = [Restarted(IF nm = "nowhere" THEN s ELSE y) EXCEPT !.cl = [c \in {P.clients[i] : i \in 1..Len(P.clients)} |-> NewClient(s.cfg)]]
            /\ UNCHANGED <<sc, hc>>
    [] op = "icheck" ->
         LET nm == PickC(DOMAIN s.ns, r[1])
             f == r[2] % (s.ns[nm].fid + 1)
             cut == IF r[3] % 3 # 0 THEN -1 ELSE IF r[3] % 2 = 0 \/ s.ns[nm].dl = <<>> THEN r[4] % (s.ns[nm].fs[f + 1] + 10)
                    ELSE At(s.ns[nm].dl, r[4]).off
         IN h' = Append(h, [k |-> "icheck", ns |-> nm, f |-> f, cut |-> cut]) /\ UNCHANGED <<s, sc, hc>>
    [] op = "idump" -> h' = Append(h, [k |-> "idump", ns |-> PickC(DOMAIN s.ns, r[1])]) /\ UNCHANGED <<s, sc, hc>>
    [] op = "quiet" -> h' = Append(h, [k |-> "quiet"]) /\ UNCHANGED <<s, sc, hc>>
    [] OTHER -> FALSE

Able(op) ==
  CASE op = "conn" -> Absent # {}
    [] op = "close" -> Cardinality(DOMAIN s.cl) > 1
    [] op = "wcheck" -> Waiting # {}
    [] op = "fcheck" -> Mirrors # {}
    [] op = "alter" -> Spoilable # {}
    [] op \in {"icheck", "idump", "edit", "compact", "sync", "restart", "reopt", "badopts", "disk", "hm", "noready", "quiet", "idle"} -> TRUE
    [] op = "offload" -> Takable # {}
    [] op = "rebuild" -> Rebuildable # {}
    [] op = "live" -> Served # {}
    [] OTHER -> FALSE

DoCmd(op, r) ==
  LET c == PickC(Idle, r[2])
      x == IF s.cl[c].ns \in DOMAIN s.ns THEN s.ns[s.cl[c].ns] ELSE s.ns["default"]
      as0 == CmdPick(op, c, x, r)
      as == WithOwner(c, as0, r[7])
      s1 == Apply(c, as)
      j == Len(h) + 1
      nm == s.cl[c].ns
      ev == [k |-> "cmd", c |-> c, a |-> Script(as)]
      w == as[1].t
      gone == IF w = "NSDEL" /\ Len(as) > 1 /\ as[2].t \notin DOMAIN s1.ns THEN as[2].t ELSE "!none"
      sc1 == IF w \in {"SCAN", "RSCAN", "KEYCUR", "SCANX"} THEN Append(sc, [j |-> j, ns |-> nm]) ELSE sc
      hc1 == IF w = "HISTORY" /\ Len(as) > 1
             THEN Append(hc, [j |-> j, ns |-> nm, k |-> as[2].t]) ELSE hc
  IN /\ h' = h \o <<ev>> \o (IF op = "waitshort" /\ s1.cl[c].wt # "" THEN <<Ev("wexp", c)>> ELSE <<>>)
     /\ s' = IF op = "waitshort" /\ s1.cl[c].wt # "" THEN [s1 EXCEPT !.cl[c].wt = "", !.cl[c].got = ""] ELSE s1
     /\ sc' = SelectSeq(sc1, LAMBDA y : y.ns # gone)
     /\ hc' = SelectSeq(hc1, LAMBDA y : y.ns # gone)

Reconnect ==
  LET c == CHOOSE c \in Absent : TRUE IN
  h' = Append(h, Ev("conn", c)) /\ s' = [s EXCEPT !.cl = Bind(@, c, NewClient(s.cfg))] /\ UNCHANGED <<sc, hc>>

Setup == P.setup

Init == s = Start(P.cfg) /\ h = <<>> /\ sc = <<>> /\ hc = <<>>

(* the prologue of the profile *)
Prologue ==
  LET e == Setup[Len(h) + 1] IN
  /\ h' = Append(h, e)
  /\ s' = IF e.k = "conn" THEN [s EXCEPT !.cl = Bind(@, e.c, NewClient(s.cfg))]
          ELSE IF e.k = "cmd" THEN Apply(e.c, [i \in 1..Len(e.a) |-> ArgOf(e.a[i])])
          ELSE s
  /\ UNCHANGED <<sc, hc>>

(* not a constant: TLC would evaluate it only once *)
R1 == RandomElement(0..(IF h = <<>> THEN 999998 ELSE 999999))

Next ==
  IF Len(h) < Len(Setup) THEN Prologue
  ELSE IF Len(h) >= P.depth
  THEN /\ Len(h) < 1000000 /\ h # <<>> /\ h[Len(h)].k # "end"
       /\ PrintT("SCRIPT " \o ToJson(h))
       /\ h' = Append(h, [k |-> "end"]) /\ UNCHANGED <<s, sc, hc>>
  ELSE \E r \in {<<R1, R1, R1, R1, R1, R1, R1>>} :
       \E op \in {Ops[RandomElement(1..Len(Ops))]} :
         IF op \in DriverOps /\ Able(op) THEN DoDriver(op, r)
         ELSE IF Idle = {} THEN IF Absent # {} THEN Reconnect
                                ELSE IF Waiting # {} THEN DoDriver("wcheck", r) ELSE DoDriver("close", r)
         ELSE DoCmd(IF op \in DriverOps THEN "ping" ELSE op, r)

Spec == Init /\ [][Next]_vars
=============================================================================
