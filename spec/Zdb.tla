-------------------------------- MODULE Zdb --------------------------------
(***************************************************************************)
(* Behaviour of a 0-db daemon as its clients can observe it.               *)
(*                                                                         *)
(* The state of the daemon is one record s; every request, connection,     *)
(* restart, crash or notification is an event e.  Step(s, e) is the set of *)
(* states the daemon may be in after e was observed with the reply e.r:    *)
(* empty when no allowed behaviour explains the observation.               *)
(*                                                                         *)
(* s.cfg : admin    admin password token, "" when there is none            *)
(*         protect  protected mode                                         *)
(*         mode     "mix", "user" or "seq"                                 *)
(*         dsz      data file size limit                                   *)
(*         dmax     size limit of the default namespace                    *)
(*         isz      bytes accounted per index entry, besides the key       *)
(*         net      "unix", "tcp" or "dual"                                *)
(*         rot      --rotate (seconds), 0 without;  st  time of the start  *)
(* s.ns  : name -> namespace                                               *)
(* s.cl  : client -> connection                                            *)
(* s.upd, s.rt : see ZdbEvents (--rotate)                                  *)
(* s.ch  : challenges ever issued                                          *)
(* s.hq  : hook runs which happened and were not looked at yet             *)
(* s.hl  : hook runs since the daemon was started, with their exit status  *)
(* s.hm  : what the hook program does: "ok" (exits 0), "fail" (exits 7),   *)
(*         "sig" (is killed by a signal), "lie" (exits 0, missing-data not *)
(*         being restored)                                                 *)
(*                                                                         *)
(* A namespace holds the index records (slots), in the order of the index  *)
(* files, the memory index (mem) which locates the live record of each     *)
(* key, the running statistics (n, sz, ks), and the data log (dl).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE IOUtils

R(t, x, n, l) == [t |-> t, s |-> x, n |-> n, l |-> l]
Ok       == R("ok", "OK", 0, <<>>)
Said(x)  == R("ok", x, 0, <<>>)
Err      == R("err", "", 0, <<>>)
Nil      == R("nil", "", 0, <<>>)
Bulk(x)  == R("bulk", x, 0, <<>>)
Num(n)   == R("int", "", n, <<>>)
None     == R("none", "", 0, <<>>)
Closed   == R("closed", "", 0, <<>>)

EmptyFun == [x \in {} |-> 0]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Bind(f, x, v) == (x :> v) @@ f
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
SetOf(q) == {q[i] : i \in 1..Len(q)}
SeqId(n) == "#" \o ToString(n)

(***************************************************************************)
(* Commands.  A command word selects the first entry it is a prefix of,    *)
(* case insensitive.                                                       *)
(***************************************************************************)
Commands ==
  << "*", "WAIT", "MIRROR", "MASTER", "PING", "TIME", "AUTH", "HOOKS",
     "INDEX", "DATA", "SET", "SETX", "GET", "MGET", "DEL", "EXISTS", "CHECK",
     "SCAN", "SCANX", "RSCAN", "KSCAN", "HISTORY", "KEYCUR", "LENGTH",
     "KEYTIME", "INFO", "STOP", "DBSIZE", "NSNEW", "NSDEL", "NSLIST", "NSSET",
     "NSINFO", "NSJUMP", "SELECT", "RELOAD", "FLUSH" >>

IsPre(p, w) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p

CommandSet == {Commands[i] : i \in 1..Len(Commands)}
RECURSIVE FindCommand(_, _)
FindCommand(w, i) ==
  IF i > Len(Commands) THEN ""
  ELSE IF IsPre(w, Commands[i]) THEN Commands[i] ELSE FindCommand(w, i + 1)
Command(w) == IF w \in CommandSet THEN w ELSE FindCommand(w, 1)

(***************************************************************************)
(* Namespaces.                                                             *)
(***************************************************************************)
DataHeader  == 28     \* bytes before the first record of a data file
EntryHeader == 18     \* bytes before the key of a data record

FreshContent(mode) ==
  [ mode |-> mode, slots |-> <<>>, mem |-> EmptyFun, n |-> 0, sz |-> 0, ks |-> 0,
    fid |-> 0, dirty |-> {}, mod |-> {}, look |-> 0, dl |-> <<>>, fs |-> <<DataHeader>>,
    dprev |-> 0, tm |-> <<>>, cur |-> EmptyFun, hk |-> EmptyFun, gone |-> {},
    bad |-> EmptyFun ]

Settings(pass, max) ==
  [ pass |-> pass, pub |-> TRUE, worm |-> FALSE, max |-> max, lock |-> "none" ]

NewMode(cfg) == IF cfg.mode = "seq" THEN "seq" ELSE "user"

DefaultNs(cfg) ==
  FreshContent(NewMode(cfg)) @@ Settings(IF cfg.protect THEN cfg.admin ELSE "", cfg.dmax)

(***************************************************************************)
(* Hooks.  A run of the hook program: its type, the namespace, the files   *)
(* before and after or the missing one, the modified index files.          *)
(***************************************************************************)
HookNames == {"ready", "close", "crash", "namespaces-init", "namespace-created", "namespace-updated", "namespace-deleted",
              "namespace-reloaded", "namespace-closing", "jump-index", "jump-data", "missing-data"}
Blocking == {"ready", "close", "namespaces-init", "missing-data", "jump-index"}

HookRun(h, nm, f, g, d) == [h |-> h, ns |-> nm, f |-> f, g |-> g, d |-> d]

(* exit status, -1 stands for that of a killed program                     *)
HookStatus(s, h) == CASE s.hm[h] = "fail" -> 7 [] s.hm[h] = "sig" -> -1 [] OTHER -> 0

HookEnds(s, h, st) ==
  IF s.cfg.hook THEN [s EXCEPT !.hq = Append(@, h), !.hl = Append(@, h @@ [st |-> st])] ELSE s
Hook(s, h) == IF s.cfg.hook THEN HookEnds(s, h, HookStatus(s, h.h)) ELSE s

StartHooks(s) ==
  Hook(Hook(s, HookRun("namespaces-init", "", 0, 0, <<>>)), HookRun("ready", "", 0, 0, <<>>))

Start(cfg) ==
  StartHooks([ cfg |-> cfg, ns |-> ("default" :> DefaultNs(cfg)), cl |-> EmptyFun, ch |-> {},
               hq |-> <<>>, hl |-> <<>>, hm |-> [h \in HookNames |-> "ok"],
               upd |-> {}, rt |-> EmptyFun ])

(* the active data file and its size *)
DOff(x) == x.fs[x.fid + 1]

LiveIdx(x) == {i \in 1..Len(x.slots) : ~x.slots[i].del}

(* live records in record order *)
LiveSeq(x) == SelectSeq([i \in 1..Len(x.slots) |-> i], LAMBDA i : ~x.slots[i].del)

Rotate(x) ==
  [x EXCEPT !.fid = @ + 1, !.fs = Append(@, DataHeader)]

(* data record of a value or of a deletion *)
AppendData(x, k, kl, v, vl, del, lo, hi) ==
  LET w == Len(x.tm) + 1
      off == DOff(x)
  IN [x EXCEPT
        !.tm = Append(@, <<lo, hi>>),
        !.dl = Append(@, [f |-> x.fid, off |-> off, k |-> k, kl |-> kl, v |-> v,
                          vl |-> vl, w |-> w, del |-> del, prev |-> x.dprev]),
        !.dprev = off,
        !.fs[x.fid + 1] = off + EntryHeader + kl + vl]

(* record i was modified in its index file *)
Touch(x, i) ==
  LET f == x.slots[i].f
  IN [x EXCEPT !.dirty = @ \cup {f}, !.mod = IF i <= x.look THEN @ \cup {f} ELSE @]

LastDl(x) == Len(x.dl)

(* a new record: first value of a key *)
InsertNew(x, k, kl, v, vl) ==
  LET i == Len(x.slots) + 1
  IN [x EXCEPT
        !.slots = Append(@, [k |-> k, kl |-> kl, v |-> v, len |-> vl, w |-> Len(x.tm),
                             par |-> 0, del |-> FALSE, f |-> x.fid]),
        !.mem = Bind(@, k, i),
        !.n = @ + 1, !.sz = @ + vl, !.ks = @ + kl]

(* user mode: a new record replaces the old one, which is then flagged *)
InsertOver(x, k, kl, v, vl, old) ==
  LET i == Len(x.slots) + 1
      o == x.slots[old]
      y == [x EXCEPT
              !.slots = Append([@ EXCEPT ![old].del = TRUE],
                               [k |-> k, kl |-> kl, v |-> v, len |-> vl, w |-> Len(x.tm),
                                par |-> old, del |-> FALSE, f |-> x.fid]),
              !.mem = Bind(@, k, i),
              !.sz = @ + vl - o.len]
  IN Touch(y, old)

(* sequential mode: the record of the id is rewritten in place, what it was *)
(* is kept in a flagged copy, which consumes an id                          *)
Overwrite(x, k, v, vl, old) ==
  LET o == x.slots[old]
      m == Len(x.slots) + 1
      y == [x EXCEPT
              !.slots = Append([@ EXCEPT ![old] = [@ EXCEPT !.v = v, !.len = vl,
                                                   !.w = Len(x.tm), !.par = m]],
                               [o EXCEPT !.del = TRUE, !.f = x.fid]),
              !.sz = @ + vl - o.len]
  IN Touch(y, old)

DropRec(x, k, i) ==
  LET o == x.slots[i]
  IN Touch([x EXCEPT !.slots[i].del = TRUE, !.mem = Drop(@, k),
                     !.n = @ - 1, !.sz = @ - o.len, !.ks = @ - o.kl], i)

(* sum of a number of each live record                                      *)
SumLive(x, Of(_)) == FoldLeft(LAMBDA n, o : IF o.del THEN n ELSE n + Of(o), 0, x.slots)

(* offset of the last data record of the active file                         *)
PrevOnLoad(x) ==
  IF Len(x.dl) > 0 /\ x.dl[Len(x.dl)].f = x.fid THEN x.dl[Len(x.dl)].off ELSE 0

(* what loading the index and data files gives: the memory index and the   *)
(* statistics come from the records alone                                  *)
(* (when each live record is the one of its key already, that is what is     *)
(* found: faster to see with many records)                                  *)
Load(x) ==
  LET L == LiveIdx(x)
      known == /\ Cardinality(DOMAIN x.mem) = Cardinality(L)
               /\ \A k \in DOMAIN x.mem : LET o == x.slots[x.mem[k]] IN ~o.del /\ o.k = k
  IN [x EXCEPT
        !.mem = IF known THEN @
                ELSE [k \in {x.slots[i].k : i \in L} |->
                        CHOOSE i \in L : x.slots[i].k = k /\ \A j \in L : x.slots[j].k = k => j <= i],
        !.n = Cardinality(L),
        !.sz = SumLive(x, LAMBDA o : o.len),
        !.ks = SumLive(x, LAMBDA o : o.kl),
        !.dirty = {},
        !.dprev = PrevOnLoad(x)]

(* Is a namespace free of anything which would depend on its mode?         *)
FreshNs(x) == x.slots = <<>> /\ x.fid = 0

Locked(x) == x.lock # "none"
Frozen(x) == x.lock = "freeze"

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))

RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN <<>>
                 ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j
                      IN <<m>> \o SortedInts(S \ {m})

(* rotation of a namespace: the jump-index hook gets the list of modified   *)
(* files, and accepting it (exit status 0) resets that list                 *)
DoRotate(s, nm) ==
  LET x  == s.ns[nm]
      y  == Rotate(x)
      s1 == Hook(s, [h |-> "jump-index", ns |-> nm, f |-> x.fid, g |-> x.fid + 1,
                     d |-> SortedInts(x.dirty)])
      s2 == Hook(s1, [h |-> "jump-data", ns |-> nm, f |-> x.fid, g |-> x.fid + 1, d |-> <<>>])
      z  == IF s.cfg.hook /\ HookStatus(s, "jump-index") = 0 THEN [y EXCEPT !.dirty = {}] ELSE y
  IN [s2 EXCEPT !.ns[nm] = z]

(***************************************************************************)
(* Data files which were taken away (x.gone) are asked for, with the hook,  *)
(* when a payload in them is needed.                                       *)
(***************************************************************************)
FileOf(x, i) == x.dl[x.slots[i].w].f
Reached(x, i) == FileOf(x, i) \notin x.gone

Ask(s, nm, f) ==
  LET x == s.ns[nm] IN
  IF f \in 0..x.fid /\ f \notin x.gone THEN s
  ELSE LET back == f \in x.gone /\ s.cfg.hook /\ s.hm["missing-data"] = "ok"
           st == IF s.hm["missing-data"] = "ok" /\ ~back THEN 7 ELSE HookStatus(s, "missing-data")
           y == HookEnds(s, HookRun("missing-data", nm, f, 0, <<>>), st)
       IN IF back THEN [y EXCEPT !.ns[nm].gone = @ \ {f}] ELSE y

RECURSIVE AskAll(_, _, _)
AskAll(s, nm, q) == IF q = <<>> THEN s ELSE AskAll(Ask(s, nm, q[1]), nm, Tail(q))

(***************************************************************************)
(* Access to an event: arguments are records                               *)
(*   t  token of the bytes (equal tokens, equal bytes)    l  length        *)
(*   up text in upper case, for words                                      *)
(*   n  number it is read as           u  32 bits timestamp it is read as  *)
(*   b  starts with "1"                sl not allowed as a namespace name  *)
(*   h,p challenge and password it is the answer of   z  all bytes are zero *)
(***************************************************************************)
Argc(e) == Len(e.a)
Arg(e, i) == e.a[i + 1]            \* i-th argument after the command word
NoEmpty(e) == \A i \in 1..Argc(e) : e.a[i].l > 0
Exactly(e, n) == Argc(e) = n /\ NoEmpty(e)

NsOf(s, e) == s.ns[s.cl[e.c].ns]
Cl(s, e) == s.cl[e.c]

Res(s, r) == [s |-> s, r |-> r]
Refuse(s) == Res(s, Err)
PutNs(s, nm, x) == [s EXCEPT !.ns[nm] = x]
PutHere(s, e, x) == [s EXCEPT !.ns[s.cl[e.c].ns] = x]

KeyMax == 255
NameMax == 128

(***************************************************************************)
(* SET key value [timestamp]                                               *)
(***************************************************************************)
Stamp(e, i) == IF Argc(e) = i THEN <<e.t0, e.t1>> ELSE <<Arg(e, i).u, Arg(e, i).u>>

SetNeedsJump(s, e) == DOff(NsOf(s, e)) + Arg(e, 2).l > s.cfg.dsz

(* refused before anything happens *)
SetRefused(s, e) ==
  LET x == NsOf(s, e) IN
  \/ Argc(e) \notin {3, 4}
  \/ Argc(e) = 4 /\ ~Cl(s, e).adm
  \/ Arg(e, 1).l > KeyMax
  \/ ~Cl(s, e).w
  \/ Locked(x)
  \/ LET k == Arg(e, 1)
         live == k.l > 0 /\ k.t \in DOMAIN x.mem
         old == IF live THEN x.slots[x.mem[k.t]].len ELSE 0
     IN \/ live /\ x.worm
        \/ x.max > 0 /\ x.sz + Arg(e, 2).l - old > x.max

SetWrite(x, e) ==
  LET k == Arg(e, 1)
      v == Arg(e, 2)
      live == k.l > 0 /\ k.t \in DOMAIN x.mem
      ts == Stamp(e, 3)
      id == SeqId(Len(x.slots))
      key == IF x.mode = "seq" /\ ~live THEN id ELSE k.t
      kl == IF x.mode = "seq" THEN 8 ELSE k.l
      y == AppendData(x, key, kl, v.t, v.l, FALSE, ts[1], ts[2])
  IN IF ~live THEN InsertNew(y, key, kl, v.t, v.l)
     ELSE IF x.mode = "user" THEN InsertOver(y, key, kl, v.t, v.l, x.mem[key])
     ELSE Overwrite(y, key, v.t, v.l, x.mem[key])

SetKey(x, e) ==
  LET k == Arg(e, 1) IN
  IF x.mode = "seq" /\ ~(k.l > 0 /\ k.t \in DOMAIN x.mem) THEN SeqId(Len(x.slots)) ELSE k.t

DoSet(s, e) ==
  IF SetRefused(s, e) THEN Refuse(s)
  ELSE
    LET s0 == IF SetNeedsJump(s, e) THEN DoRotate(s, Cl(s, e).ns) ELSE s
        k == Arg(e, 1)
        live == k.l > 0 /\ k.t \in DOMAIN NsOf(s0, e).mem
        i == NsOf(s0, e).mem[k.t]
        same == live /\ NsOf(s0, e).slots[i].v = Arg(e, 2).t /\ NsOf(s0, e).slots[i].w \notin DOMAIN NsOf(s0, e).bad
        s1 == IF same THEN Ask(s0, Cl(s, e).ns, FileOf(NsOf(s0, e), i)) ELSE s0
        x == NsOf(s1, e)
    IN IF x.mode = "user" /\ k.l = 0 THEN Refuse(s1)
       ELSE IF x.mode = "seq" /\ k.l > 0 /\ ~live THEN Refuse(s1)
       ELSE IF same /\ Reached(x, i) THEN Res(s1, Nil)      \* out of reach it counts as another
       ELSE Res(PutHere(s1, e, SetWrite(x, e)), Bulk(SetKey(x, e)))

(***************************************************************************)
(* DEL key [timestamp]                                                     *)
(***************************************************************************)
DelRefused(s, e) ==
  LET x == NsOf(s, e) IN
  \/ (IF Argc(e) = 3 THEN ~Cl(s, e).adm ELSE ~Exactly(e, 2))
  \/ Arg(e, 1).l > KeyMax
  \/ ~Cl(s, e).w
  \/ Locked(x)
  \/ Arg(e, 1).t \notin DOMAIN x.mem
  \/ x.worm

DelWrite(x, e) ==
  LET k == Arg(e, 1)
      ts == Stamp(e, 2)
      y == AppendData(x, k.t, k.l, "", 0, TRUE, ts[1], ts[2])
  IN DropRec(y, k.t, x.mem[k.t])

DoDel(s, e) ==
  IF DelRefused(s, e) THEN Refuse(s)
  ELSE Res(PutHere(s, e, DelWrite(NsOf(s, e), e)), Ok)

(***************************************************************************)
(* Reads of one key.                                                       *)
(***************************************************************************)
KeyRefused(s, e) ==
  \/ ~Exactly(e, 2)
  \/ Arg(e, 1).l > KeyMax
  \/ Frozen(NsOf(s, e))

Live(s, e) == Arg(e, 1).t \in DOMAIN NsOf(s, e).mem
Slot(s, e) == LET x == NsOf(s, e) IN x.slots[x.mem[Arg(e, 1).t]]

DoGet(s, e) ==
  IF KeyRefused(s, e) THEN Refuse(s)
  ELSE Res(s, IF ~Live(s, e) THEN Nil
              ELSE IF Reached(NsOf(s, e), NsOf(s, e).mem[Arg(e, 1).t]) THEN Bulk(Slot(s, e).v) ELSE Err)
DoExists(s, e) ==
  IF KeyRefused(s, e) THEN Refuse(s) ELSE Res(s, Num(IF Live(s, e) THEN 1 ELSE 0))
DoLength(s, e) ==
  IF KeyRefused(s, e) THEN Refuse(s)
  ELSE Res(s, IF Live(s, e) THEN Num(Slot(s, e).len) ELSE Nil)

DoCheck(s, e) ==
  IF KeyRefused(s, e) THEN Refuse(s)
  ELSE Res(s, IF Live(s, e) /\ ~Reached(NsOf(s, e), NsOf(s, e).mem[Arg(e, 1).t]) THEN Num(-1)
              ELSE IF Live(s, e)
              THEN Num(IF Slot(s, e).w \in DOMAIN NsOf(s, e).bad THEN 0 ELSE 1)
              ELSE Nil)

DoMget(s, e) ==
  LET x == NsOf(s, e) IN
  IF \/ Argc(e) < 2
     \/ \E i \in 2..Argc(e) : e.a[i].l > KeyMax
     \/ Frozen(x)
  THEN Refuse(s)
  ELSE Res(s, R("mget", "", 0,
         [i \in 1..(Argc(e) - 1) |->
            LET k == Arg(e, i).t IN IF k \notin DOMAIN x.mem THEN "nil"
                                     ELSE IF Reached(x, x.mem[k]) THEN x.slots[x.mem[k]].v ELSE "err!"]))

(***************************************************************************)
(* Namespaces.                                                             *)
(***************************************************************************)
IsAdmin(s, e) == Cl(s, e).adm

DoNsnew(s, e) ==
  IF \/ ~IsAdmin(s, e) \/ ~Exactly(e, 2)
     \/ Arg(e, 1).l > NameMax \/ Arg(e, 1).sl
     \/ Arg(e, 1).t \in DOMAIN s.ns
  THEN Refuse(s)
  ELSE Res(Hook([s EXCEPT !.ns = Bind(@, Arg(e, 1).t,
                              FreshContent(NewMode(s.cfg)) @@ Settings("", 0))],
                [h |-> "namespace-created", ns |-> Arg(e, 1).t, f |-> 0, g |-> 0, d |-> <<>>]), Ok)

DoNsdel(s, e) ==
  LET nm == Arg(e, 1).t IN
  IF \/ ~IsAdmin(s, e) \/ ~Exactly(e, 2)
     \/ Arg(e, 1).l > NameMax
     \/ nm = "default" \/ nm \notin DOMAIN s.ns
     \/ Cl(s, e).ns = nm
  THEN Refuse(s)
  ELSE Res(Hook([s EXCEPT !.ns = Drop(@, nm),
                          !.cl = [c \in DOMAIN @ |-> IF @[c].ns = nm THEN [@[c] EXCEPT !.ns = ""]
                                                     ELSE @[c]]],
                [h |-> "namespace-deleted", ns |-> nm, f |-> 0, g |-> 0, d |-> <<>>]), Ok)

DoNslist(s, e) == Res(s, R("list", "", 0, DOMAIN s.ns))

Updated(s, nm, x) ==
  Res(Hook(PutNs(s, nm, x),
           [h |-> "namespace-updated", ns |-> nm, f |-> 0, g |-> 0, d |-> <<>>]), Ok)

DoNsset(s, e) ==
  LET nm == Arg(e, 1).t
      p == Arg(e, 2).t
      v == Arg(e, 3)
  IN
  IF \/ ~IsAdmin(s, e) \/ ~Exactly(e, 4)
     \/ Arg(e, 1).l > NameMax \/ Arg(e, 2).l > 255 \/ v.l > 63
     \/ nm \notin DOMAIN s.ns
  THEN Refuse(s)
  ELSE
    LET x == s.ns[nm] IN
    CASE p = "mode" ->
           IF s.cfg.mode # "mix" \/ ~FreshNs(x) \/ v.t \notin {"user", "seq"} THEN Refuse(s)
           ELSE Updated(s, nm, [x EXCEPT !.mode = v.t])
      [] p = "lock"   -> Updated(s, nm, [x EXCEPT !.lock = IF v.b THEN "lock" ELSE "none"])
      [] p = "freeze" -> Updated(s, nm, [x EXCEPT !.lock = IF v.b THEN "freeze" ELSE "none"])
      [] p \in {"maxsize", "password", "public", "worm"} /\ nm = "default" -> Refuse(s)
      [] p = "maxsize"  -> Updated(s, nm, [x EXCEPT !.max = v.n])
      [] p = "password" -> Updated(s, nm, [x EXCEPT !.pass = IF v.t = "*" THEN "" ELSE v.t])
      [] p = "public"   -> Updated(s, nm, [x EXCEPT !.pub = v.b])
      [] p = "worm"     -> Updated(s, nm, [x EXCEPT !.worm = v.b])
      [] OTHER -> Refuse(s)

DoNsjump(s, e) ==
  IF ~IsAdmin(s, e) THEN Refuse(s) ELSE Res(DoRotate(s, Cl(s, e).ns), Ok)

DoReload(s, e) ==
  LET nm == Arg(e, 1).t IN
  IF \/ ~IsAdmin(s, e) \/ ~Exactly(e, 2) \/ Arg(e, 1).l > NameMax \/ nm \notin DOMAIN s.ns
  THEN Refuse(s)
  ELSE Res(Hook(PutNs(s, nm, Load(s.ns[nm])),
                [h |-> "namespace-reloaded", ns |-> nm, f |-> 0, g |-> 0, d |-> <<>>]), Ok)

(* cursors given before a FLUSH may or may not be understood after it *)
Stale(f) == [t \in DOMAIN f |-> 0]

Emptied(x) == [FreshContent(x.mode) EXCEPT !.cur = Stale(x.cur), !.hk = Stale(x.hk)]
              @@ [pass |-> x.pass, pub |-> x.pub, worm |-> x.worm, max |-> x.max, lock |-> x.lock]

DoFlush(s, e) ==
  LET x == NsOf(s, e) IN
  IF \/ x.pub \/ x.pass = "" \/ ~Cl(s, e).w \/ Locked(x) \/ x.worm
  THEN Refuse(s)
  ELSE Res(PutHere(s, e, Emptied(x)), Ok)

DoDbsize(s, e) == Res(s, Num(NsOf(s, e).n))

(* NSINFO: the last fields are only told to an administrator, the raw       *)
(* password only to a master                                                *)
InfoRec(s, e, nm) ==
  LET x == s.ns[nm] IN
  [ name |-> nm, entries |-> x.n, public |-> x.pub, worm |-> x.worm, locked |-> Locked(x),
    pass |-> x.pass # "", dsize |-> x.sz, max |-> x.max,
    isize |-> x.n * s.cfg.isz + x.ks,
    next |-> IF x.mode = "seq" THEN Len(x.slots) ELSE -1,
    mode |-> x.mode,
    raw |-> IF Cl(s, e).mst /\ x.pass # "" THEN x.pass ELSE "",
    avail |-> IF x.max > 0 /\ x.max >= x.sz THEN x.max - x.sz ELSE -1,
    did |-> IF IsAdmin(s, e) THEN x.fid ELSE -1,
    doff |-> IF IsAdmin(s, e) THEN DOff(x) ELSE -1 ]

DoNsinfo(s, e) ==
  IF ~Exactly(e, 2) \/ Arg(e, 1).l > NameMax \/ Arg(e, 1).t \notin DOMAIN s.ns THEN Refuse(s)
  ELSE Res(s, R("info", "", 0, <<InfoRec(s, e, Arg(e, 1).t)>>))

(***************************************************************************)
(* SELECT and AUTH.                                                        *)
(***************************************************************************)
Enter(s, e, nm, w) == Res([s EXCEPT !.cl[e.c].ns = nm, !.cl[e.c].w = w], Ok)
Answers(a, non, pass) == a.h = non /\ a.p = pass
HashLen == 40

DoSelect(s, e) ==
  IF Argc(e) < 2 THEN Refuse(s)
  ELSE LET nm == Arg(e, 1).t IN
  IF Arg(e, 1).l > NameMax \/ nm \notin DOMAIN s.ns THEN Refuse(s)
  ELSE
    LET x == s.ns[nm] IN
    CASE x.pass = "" -> Enter(s, e, nm, TRUE)
      [] x.pass # "" /\ Argc(e) = 2 -> IF x.pub THEN Enter(s, e, nm, FALSE) ELSE Refuse(s)
      [] x.pass # "" /\ Argc(e) = 3 ->
           IF Arg(e, 2).l <= 255 /\ Arg(e, 2).t = x.pass THEN Enter(s, e, nm, TRUE) ELSE Refuse(s)
      [] x.pass # "" /\ Argc(e) = 4 ->
           IF \/ ~IsPre(Arg(e, 2).up, "SECURE")
              \/ Cl(s, e).non = "" \/ Arg(e, 3).l # HashLen
           THEN Refuse(s)
           ELSE LET s1 == [s EXCEPT !.cl[e.c].non = ""]
                IN IF Answers(Arg(e, 3), Cl(s, e).non, x.pass) THEN Enter(s1, e, nm, TRUE)
                   ELSE Refuse(s1)
      [] OTHER -> Refuse(s)

(* AUTH password | AUTH SECURE answer;  AUTH SECURE CHALLENGE is below     *)
IsChallenge(e) ==
  /\ Argc(e) = 3 /\ NoEmpty(e)
  /\ IsPre(Arg(e, 1).up, "SECURE") /\ IsPre(Arg(e, 2).up, "CHALLENGE")

DoAuth(s, e) ==
  CASE Argc(e) = 2 ->
         IF s.cfg.admin # "" /\ NoEmpty(e) /\ Arg(e, 1).l <= 128 /\ Arg(e, 1).t = s.cfg.admin
         THEN Res([s EXCEPT !.cl[e.c].adm = TRUE], Ok) ELSE Refuse(s)
    [] Argc(e) = 3 ->
         IF \/ ~NoEmpty(e) \/ ~IsPre(Arg(e, 1).up, "SECURE")
            \/ s.cfg.admin = "" \/ Cl(s, e).non = "" \/ Arg(e, 2).l # HashLen
         THEN Refuse(s)
         ELSE IF Answers(Arg(e, 2), Cl(s, e).non, s.cfg.admin)
              THEN Res([s EXCEPT !.cl[e.c].adm = TRUE, !.cl[e.c].non = ""], Ok)
              ELSE Refuse([s EXCEPT !.cl[e.c].non = ""])
    [] OTHER -> Refuse(s)

(***************************************************************************)
(* WAIT, MIRROR, MASTER, INDEX.                                            *)
(***************************************************************************)
DoWait(s, e) ==
  IF \/ Argc(e) \notin {2, 3}
     \/ Command(Arg(e, 1).up) = ""
     \/ Argc(e) = 3 /\ (Arg(e, 2).l > 16 \/ Arg(e, 2).n < 100 \/ Arg(e, 2).n > 1800000)
  THEN Refuse(s)
  ELSE Res([s EXCEPT !.cl[e.c].wt = Command(Arg(e, 1).up),
                     !.cl[e.c].wto = IF Argc(e) = 3 THEN Arg(e, 2).n ELSE 5000,
                     !.cl[e.c].wms = e.m0], None)

DoMirror(s, e) ==
  IF ~IsAdmin(s, e) THEN Refuse(s)
  ELSE Res([s EXCEPT !.cl[e.c].mir = TRUE], Said("Starting mirroring"))
DoMaster(s, e) ==
  IF ~IsAdmin(s, e) THEN Refuse(s)
  ELSE Res([s EXCEPT !.cl[e.c].mst = TRUE], Said("Hello, master"))

DoIndex(s, e) ==
  IF ~IsAdmin(s, e) \/ Argc(e) < 2 \/ ~NoEmpty(e) \/ Arg(e, 1).up # "DIRTY" THEN Refuse(s)
  ELSE IF Argc(e) = 3
       THEN IF Arg(e, 2).up = "RESET" THEN Res(PutHere(s, e, [NsOf(s, e) EXCEPT !.dirty = {}]), Ok)
            ELSE Refuse(s)
       ELSE Res(s, R("ints", "", 0, NsOf(s, e).dirty))

(***************************************************************************)
(* Requests whose reply is decided by the state.                           *)
(***************************************************************************)
Plain == { "SET", "SETX", "DEL", "GET", "MGET", "EXISTS", "LENGTH", "CHECK", "NSNEW", "NSDEL",
           "NSLIST", "NSSET", "NSINFO", "NSJUMP", "RELOAD", "FLUSH", "DBSIZE", "SELECT", "WAIT",
           "MIRROR", "MASTER", "INDEX", "PING", "*" }

Do(s, e, op) ==
  CASE op \in {"SET", "SETX"} -> DoSet(s, e)
    [] op = "DEL"    -> DoDel(s, e)
    [] op = "GET"    -> DoGet(s, e)
    [] op = "MGET"   -> DoMget(s, e)
    [] op = "EXISTS" -> DoExists(s, e)
    [] op = "LENGTH" -> DoLength(s, e)
    [] op = "CHECK"  -> DoCheck(s, e)
    [] op = "NSNEW"  -> DoNsnew(s, e)
    [] op = "NSDEL"  -> DoNsdel(s, e)
    [] op = "NSLIST" -> DoNslist(s, e)
    [] op = "NSSET"  -> DoNsset(s, e)
    [] op = "NSINFO" -> DoNsinfo(s, e)
    [] op = "NSJUMP" -> DoNsjump(s, e)
    [] op = "RELOAD" -> DoReload(s, e)
    [] op = "FLUSH"  -> DoFlush(s, e)
    [] op = "DBSIZE" -> DoDbsize(s, e)
    [] op = "SELECT" -> DoSelect(s, e)
    [] op = "WAIT"   -> DoWait(s, e)
    [] op = "MIRROR" -> DoMirror(s, e)
    [] op = "MASTER" -> DoMaster(s, e)
    [] op = "INDEX"  -> DoIndex(s, e)
    [] op = "AUTH"   -> DoAuth(s, e)
    [] op = "PING"   -> Res(s, Said("PONG"))
    [] op = "*"      -> Refuse(s)
    [] OTHER         -> Refuse(s)

(* sets are told in any order, each element once *)
SameSet(q, S) == Len(q) = Cardinality(S) /\ SetOf(q) = S

Matches(want, got) ==
  /\ want.t = got.t
  /\ CASE want.t \in {"list", "ints"} -> SameSet(got.l, want.l)
       [] OTHER -> want.s = got.s /\ want.n = got.n /\ want.l = got.l

(***************************************************************************)
(* Requests whose reply is partly free (how many entries a scan step lists, *)
(* the bytes of a cursor, the second a value was stored): Obs gives the     *)
(* states compatible with the reply.                                        *)
(***************************************************************************)
IsErr(e) == e.r.t = "err"
ErrOnly(s, e) == IF IsErr(e) THEN {s} ELSE {}

SeenTime(x, w, ts) == x.tm[w][1] <= ts /\ ts <= x.tm[w][2]
Narrow(x, w, ts) == [x EXCEPT !.tm[w] = <<ts, ts>>]

CursorLen == 17

(* a cursor token, once seen, stands for one record for ever *)
CursorFits(x, tok, i) == tok \in DOMAIN x.cur => x.cur[tok] \in {0, i}

ScanAfter(x, i) == SelectSeq(LiveSeq(x), LAMBDA j : j > i)
ScanBefore(x, i) == Rev(SelectSeq(LiveSeq(x), LAMBDA j : j < i))

RECURSIVE NarrowAll(_, _, _, _)
NarrowAll(x, q, l, i) ==
  IF i > Len(l) THEN x ELSE NarrowAll(Narrow(x, x.slots[q[i]].w, l[i][3]), q, l, i + 1)

(* a step of a walk lists a non-empty part of what remains, from its start *)
ScanStep(s, e, x, q) ==
  IF q = <<>> THEN ErrOnly(s, e)
  ELSE IF \/ e.r.t # "scan" \/ Len(e.r.l) = 0 \/ Len(e.r.l) > Len(q) THEN {}
  ELSE LET m == Len(e.r.l)
           ok == \A i \in 1..m :
                   LET y == x.slots[q[i]] IN
                   e.r.l[i][1] = y.k /\ e.r.l[i][2] = y.len /\ SeenTime(x, y.w, e.r.l[i][3])
       IN IF ok /\ CursorFits(x, e.r.s, q[m])
          THEN {PutHere(s, e, [NarrowAll(x, q, e.r.l, 1) EXCEPT !.cur = Bind(@, e.r.s, q[m])])}
          ELSE {}

(* a position which was never given for this content (another namespace's,  *)
(* one from before a FLUSH, any bytes): an error, or live records all the same *)
ScanAnyhow(s, e, x) ==
  \/ IsErr(e)
  \/ /\ e.r.t = "scan"
     /\ \A j \in 1..Len(e.r.l) : \E i \in LiveIdx(x) :
          e.r.l[j][1] = x.slots[i].k /\ e.r.l[j][2] = x.slots[i].len /\ SeenTime(x, x.slots[i].w, e.r.l[j][3])

ObsScan(s, e, back) ==
  LET x == NsOf(s, e) IN
  IF Frozen(x) THEN ErrOnly(s, e)
  ELSE IF Argc(e) = 1
       THEN ScanStep(s, e, x, IF back THEN Rev(LiveSeq(x)) ELSE LiveSeq(x))
       ELSE LET c == Arg(e, 1) IN
            IF c.l # CursorLen THEN ErrOnly(s, e)
            ELSE IF c.t \notin DOMAIN x.cur \/ x.cur[c.t] = 0 THEN IF ScanAnyhow(s, e, x) THEN {s} ELSE {}
            ELSE ScanStep(s, e, x, IF back THEN ScanBefore(x, x.cur[c.t])
                                   ELSE ScanAfter(x, x.cur[c.t]))

ObsKeycur(s, e) ==
  LET x == NsOf(s, e) IN
  IF KeyRefused(s, e) \/ ~Live(s, e) THEN ErrOnly(s, e)
  ELSE LET i == x.mem[Arg(e, 1).t] IN
       IF e.r.t = "cur" /\ CursorFits(x, e.r.s, i)
       THEN {PutHere(s, e, [x EXCEPT !.cur = Bind(@, e.r.s, i)])} ELSE {}

ObsKscan(s, e) ==
  LET x == NsOf(s, e) IN
  IF x.mode # "user" \/ ~Exactly(e, 2) \/ Frozen(x) THEN ErrOnly(s, e)
  ELSE LET K == DOMAIN x.mem \cap SetOf(e.pm) IN
       IF K = {} THEN ErrOnly(s, e)
       ELSE IF e.r.t = "keys" /\ SameSet(e.r.l, K) THEN {s} ELSE {}

HistCurLen == 8

HistReply(s, e, x, i) ==
  LET y == x.slots[i]
      c == e.r.l[1]
  IN IF ~Reached(x, i) THEN ErrOnly(s, e)
     ELSE IF /\ e.r.t = "hist" /\ e.r.s = y.v /\ SeenTime(x, y.w, e.r.n)
        /\ IF y.par = 0 THEN c = "nil"
           ELSE c # "nil" /\ (c \in DOMAIN x.hk => x.hk[c] \in {0, y.par})
     THEN {PutHere(s, e, [Narrow(x, y.w, e.r.n) EXCEPT
                            !.hk = IF y.par = 0 THEN @ ELSE Bind(@, c, y.par)])}
     ELSE {}

ObsHistory(s, e) ==
  LET x == NsOf(s, e) IN
  IF \/ Argc(e) \notin {2, 3}
     \/ Arg(e, 1).l = 0 \/ Arg(e, 1).l > KeyMax \/ Frozen(x)
  THEN ErrOnly(s, e)
  ELSE LET k == Arg(e, 1).t IN
  IF Argc(e) = 2 THEN IF k \in DOMAIN x.mem THEN HistReply(s, e, x, x.mem[k]) ELSE ErrOnly(s, e)
  ELSE LET c == Arg(e, 2) IN
       IF c.l # HistCurLen \/ c.z THEN ErrOnly(s, e)
       ELSE IF c.t \in DOMAIN x.hk /\ x.hk[c.t] # 0
       THEN IF x.slots[x.hk[c.t]].k = k THEN HistReply(s, e, x, x.hk[c.t]) ELSE ErrOnly(s, e)
       ELSE \* never given out for this content: at most a value of that very key
            IF IsErr(e) THEN {s}
            ELSE IF e.r.t = "hist" /\ \E i \in 1..Len(x.slots) :
                      x.slots[i].k = k /\ x.slots[i].v = e.r.s /\ SeenTime(x, x.slots[i].w, e.r.n)
            THEN {s} ELSE {}

ObsKeytime(s, e) ==
  IF KeyRefused(s, e) THEN ErrOnly(s, e)
  ELSE IF ~Live(s, e) THEN IF e.r.t = "nil" THEN {s} ELSE {}
  ELSE LET w == Slot(s, e).w IN
       IF e.r.t = "ts" /\ SeenTime(NsOf(s, e), w, e.r.n)
       THEN {PutHere(s, e, Narrow(NsOf(s, e), w, e.r.n))} ELSE {}

(* DATA RAW file offset *)
ObsData(s, e) ==
  IF ~IsAdmin(s, e) \/ Argc(e) < 4 \/ ~NoEmpty(e) \/ Arg(e, 1).up # "RAW" THEN ErrOnly(s, e)
  ELSE
    LET x == NsOf(s, e)
        f == Arg(e, 2).n
        o == Arg(e, 3).n
        D == {i \in 1..Len(x.dl) : x.dl[i].f = f /\ x.dl[i].off = o}
    IN IF f < 0 \/ f > x.fid \/ f \in x.gone THEN ErrOnly(s, e)
       ELSE IF o >= x.fs[f + 1] THEN ErrOnly(s, e)
       ELSE IF D = {} THEN IF e.r.t = "closed" THEN {} ELSE {s}  \* not a record
       ELSE LET d == x.dl[CHOOSE i \in D : TRUE] IN
            IF /\ e.r.t = "raw"
               /\ e.r.s = (IF d.del THEN "nil" ELSE d.v)
               /\ e.r.l = <<d.k, d.prev,
                            IF d.del THEN 1 ELSE IF "cut" \in DOMAIN d /\ d.cut THEN 2 ELSE 0, "good">>
               /\ SeenTime(x, d.w, e.r.n)
            THEN {PutHere(s, e, Narrow(x, d.w, e.r.n))} ELSE {}

(* HOOKS: the runs since the start; those nobody waits for may not be over  *)
SameRun(h, r) ==
  /\ h.h = r.h /\ h.ns = r.ns /\ h.f = r.f /\ h.g = r.g /\ h.d = r.d
  /\ IF r.fin THEN h.st = r.st \/ (h.st = -1 /\ r.st # 0) ELSE h.h \notin Blocking /\ r.st = 0
SameRuns(q, l) == Len(q) = Len(l) /\ \A i \in 1..Len(q) : SameRun(q[i], l[i])

ObsTime(s, e) == IF e.r.t = "time" /\ e.t0 <= e.r.n /\ e.r.n <= e.t1 THEN {s} ELSE {}

(* a challenge was never issued before *)
ObsChallenge(s, e) ==
  IF e.r.t = "nonce" /\ e.r.s \notin s.ch
  THEN {[s EXCEPT !.ch = @ \cup {e.r.s}, !.cl[e.c].non = e.r.s]} ELSE {}

Observed == { "SCAN", "SCANX", "RSCAN", "KEYCUR", "KSCAN", "HISTORY", "KEYTIME", "DATA", "TIME",
              "INFO", "HOOKS" }

Obs(s, e, op) ==
  CASE op \in {"SCAN", "SCANX"} -> ObsScan(s, e, FALSE)
    [] op = "RSCAN"   -> ObsScan(s, e, TRUE)
    [] op = "KEYCUR"  -> ObsKeycur(s, e)
    [] op = "KSCAN"   -> ObsKscan(s, e)
    [] op = "HISTORY" -> ObsHistory(s, e)
    [] op = "KEYTIME" -> ObsKeytime(s, e)
    [] op = "DATA"    -> ObsData(s, e)
    [] op = "TIME"    -> ObsTime(s, e)
    [] op = "INFO"    -> IF e.r.t = "text" THEN {s} ELSE {}
    [] op = "HOOKS"   -> IF IsAdmin(s, e) THEN IF e.r.t = "hooks" /\ SameRuns(s.hl, e.r.l) THEN {s} ELSE {}
                         ELSE ErrOnly(s, e)

(***************************************************************************)
(* After a recognised command of client c: mirrors get a frame, the others  *)
(* waiting for that command in c's namespace are woken.                     *)
(***************************************************************************)
Frame(s, e, a, own) ==
  [t0 |-> e.t0, t1 |-> e.t1, ns |-> s.cl[e.c].ns, own |-> own, a |-> [i \in 1..Len(a) |-> a[i].t]]

Post(s, e, op, own) ==
  IF \A d \in DOMAIN s.cl : s.cl[d].wt = "" /\ ~s.cl[d].mir THEN s
  ELSE [s EXCEPT !.cl = [d \in DOMAIN @ |->
    LET k == @[d] IN
    IF d = e.c THEN k
    ELSE IF k.mir THEN IF own = 0 THEN k ELSE [k EXCEPT !.mq = Append(@, Frame(s, e, e.a, own))]
    ELSE IF k.wt # "" /\ k.ns = s.cl[e.c].ns /\ k.wt \in {op, "*"}
         THEN [k EXCEPT !.wt = "", !.got = op, !.gms = e.m1]
    ELSE k]]

(* the data files a request takes payloads from; SET asks for itself       *)
Files(s, e, op) ==
  LET x == NsOf(s, e)
      F(i) == IF i = 0 THEN <<>> ELSE <<FileOf(x, i)>>
      M(k) == IF k \in DOMAIN x.mem THEN x.mem[k] ELSE 0
  IN
  CASE op \in {"GET", "CHECK"} -> IF KeyRefused(s, e) THEN <<>> ELSE F(M(Arg(e, 1).t))
    [] op = "MGET" -> IF DoMget(s, e).r.t = "err" THEN <<>>
                      ELSE Concat([j \in 1..(Argc(e) - 1) |-> F(M(Arg(e, j).t))])
    [] op = "HISTORY" ->
         IF Argc(e) \notin {2, 3} \/ Frozen(x) \/ Arg(e, 1).l = 0 \/ Arg(e, 1).l > KeyMax THEN <<>>
         ELSE IF Argc(e) = 2 THEN F(M(Arg(e, 1).t))
         ELSE LET c == Arg(e, 2) IN
              IF c.l = HistCurLen /\ ~c.z /\ c.t \in DOMAIN x.hk /\ x.hk[c.t] # 0 /\ x.slots[x.hk[c.t]].k = Arg(e, 1).t
              THEN F(x.hk[c.t]) ELSE <<>>
    [] op = "DATA" -> IF ~IsAdmin(s, e) \/ Argc(e) < 4 \/ ~NoEmpty(e) \/ Arg(e, 1).up # "RAW" THEN <<>> ELSE <<Arg(e, 2).n>>
    [] OTHER -> <<>>

Asking(s, e, op) ==
  IF ~s.cfg.hook THEN s ELSE AskAll(s, Cl(s, e).ns, Files(s, e, op))

(***************************************************************************)
(* One request.                                                            *)
(***************************************************************************)
Kill(s, c) == [s EXCEPT !.cl = Drop(@, c)]

Request(s, e, own) ==
  LET k == s.cl[e.c]
      op == Command(e.a[1].up)
  IN
  IF k.ns = "" THEN \* its namespace was deleted: told so, then disconnected
       IF IsErr(e) THEN {[s EXCEPT !.cl[e.c].ns = "!"]} ELSE {}
  ELSE IF op = "" THEN ErrOnly(s, e)
  ELSE LET s1 == Asking(s, e, op)
           N == IF op = "AUTH" /\ IsChallenge(e) THEN ObsChallenge(s, e)
                ELSE IF op \in Observed THEN Obs(s1, e, op)
                ELSE LET d == Do(s1, e, op) IN IF Matches(d.r, e.r) THEN {d.s} ELSE {}
       IN {Post(n, e, op, own) : n \in N}

OwnerLen == 32
Iid == -1              \* stands for the instance id

Cmd(s, e) ==
  IF e.c \notin DOMAIN s.cl THEN {}
  ELSE
    LET k == s.cl[e.c] IN
    IF k.ns = "!" THEN IF e.r.t = "closed" THEN {Kill(s, e.c)} ELSE {}
    ELSE IF k.mst
         THEN IF Argc(e) < 2 \/ e.a[Argc(e)].l > OwnerLen THEN ErrOnly(s, e)
              ELSE Request(s, [e EXCEPT !.a = SubSeq(@, 1, Len(@) - 1)], e.a[Argc(e)].n)
         ELSE Request(s, e, Iid)

(* what the specification wanted, for the report of a rejection *)
Wanted(s, e) ==
  IF e.k = "hooks" THEN <<s.hq>>
  ELSE IF e.k = "disk" THEN IF e.ns \in DOMAIN s.ns THEN <<s.ns[e.ns].fs, s.ns[e.ns].mod>> ELSE <<"?">>
  ELSE IF e.k # "cmd" \/ e.c \notin DOMAIN s.cl THEN <<"?">>
  ELSE LET k == s.cl[e.c]
           op == Command(e.a[1].up)
       IN IF k.ns \in {"", "!"} THEN <<"closing">>
          ELSE IF k.mst \/ op \in Observed \/ op = "" \/ (op = "AUTH" /\ IsChallenge(e)) THEN <<"observed", op>>
          ELSE <<Do(Asking(s, e, op), e, op).r, s.hq>>

(***************************************************************************)
(* Connections and notifications.                                          *)
(***************************************************************************)
NewClient(cfg) ==
  [ ns |-> "default", w |-> ~cfg.protect, adm |-> cfg.admin = "", non |-> "", mst |-> FALSE,
    mir |-> FALSE, wt |-> "", wto |-> 0, wms |-> 0, got |-> "", gms |-> 0, mq |-> <<>> ]

Conn(s, e) == IF e.c \in DOMAIN s.cl THEN {} ELSE {[s EXCEPT !.cl = Bind(@, e.c, NewClient(s.cfg))]}
Close(s, e) == IF e.c \in DOMAIN s.cl THEN {Kill(s, e.c)} ELSE {}

(* the daemon closed the connection: only after a request of a client whose *)
(* namespace was deleted                                                    *)
Gone(s, e) == IF e.c \in DOMAIN s.cl /\ s.cl[e.c].ns = "!" THEN {Kill(s, e.c)} ELSE {}

(* WAIT answers: woken, timed out, or nothing yet *)
WSlack == 3000          \* milliseconds

Wgot(s, e) ==
  LET k == s.cl[e.c] IN
  IF k.got # "" /\ k.got = e.r.s THEN {[s EXCEPT !.cl[e.c].got = ""]} ELSE {}

Wtime(s, e) ==
  LET k == s.cl[e.c] IN
  IF \/ k.wt # "" /\ e.m1 - k.wms >= k.wto /\ (e.soon => e.m0 - k.wms <= k.wto + WSlack)
     \/ k.got # "" /\ k.gms - k.wms >= k.wto
  THEN {[s EXCEPT !.cl[e.c].got = "", !.cl[e.c].wt = ""]} ELSE {}

Wnone(s, e) ==
  LET k == s.cl[e.c] IN
  IF k.got = "" /\ (k.wt # "" => e.m0 - k.wms <= k.wto + WSlack) THEN {s} ELSE {}

FrameGot(s, e) ==
  LET q == s.cl[e.c].mq IN
  IF /\ q # <<>>
     /\ LET f == q[1] IN
        /\ f.t0 <= e.r.n /\ e.r.n <= f.t1
        /\ f.ns = e.r.s /\ f.own = e.own /\ f.a = e.r.l
  THEN {[s EXCEPT !.cl[e.c].mq = Tail(@)]} ELSE {}
FrameNone(s, e) == IF s.cl[e.c].mq = <<>> THEN {s} ELSE {}

(***************************************************************************)
(* Stopping and starting again.                                            *)
(***************************************************************************)
LoadNs(s, nm) ==
  LET y == Load(s.ns[nm]) IN
  IF nm = "default"
  THEN [y EXCEPT !.lock = "none", !.pass = IF s.cfg.protect THEN s.cfg.admin ELSE @,
                 !.max = IF s.cfg.dmax > 0 THEN s.cfg.dmax ELSE @]
  ELSE [y EXCEPT !.lock = "none"]

Restarted(s) ==
  [s EXCEPT !.ns = [nm \in DOMAIN @ |-> LoadNs(s, nm)], !.cl = EmptyFun]

(* A stop by a signal tells the hook program, and of every namespace; being *)
(* killed does not.                                                        *)
RECURSIVE Closing(_, _)
Closing(s, S) ==
  IF S = {} THEN s
  ELSE LET nm == CHOOSE n \in S : TRUE
           x == s.ns[nm]
       IN Closing(Hook(s, HookRun("namespace-closing", nm, x.fid, x.fid, SortedInts(x.dirty))), S \ {nm})

StopHooks(s, how) ==
  CASE ~s.cfg.hook -> s
    [] how \in {"term", "int"} -> Closing(Hook(s, HookRun("close", "", 0, 0, <<>>)), DOMAIN s.ns)
    [] how = "segv" -> Closing(Hook(s, HookRun("crash", "", 0, 0, <<>>)), DOMAIN s.ns)
    [] how = "stop" -> Closing(s, DOMAIN s.ns)       \* the debug command
    [] OTHER -> s

Again(s, how) == StartHooks([Restarted(StopHooks(s, how)) EXCEPT !.hl = <<>>])

(* Other options (e.cfg) than those of the previous run.  The password and    *)
(* the limit which they give the default namespace last as long as they do.  *)
(* The daemon does not serve (e.ok) what is not of its mode, and then leaves *)
(* it as it is.  e.ends: what it can be reached at.                        *)
Fits(s, cfg) == cfg.mode = "mix" \/ \A nm \in DOMAIN s.ns : s.ns[nm].mode = cfg.mode
Under(s, cfg) ==
  [s EXCEPT !.cfg = cfg, !.ns["default"].pass = IF s.cfg.protect THEN "" ELSE @, !.ns["default"].max = IF s.cfg.dmax > 0 THEN 0 ELSE @]
Ends(cfg) == CASE cfg.net = "tcp" -> {"tcp"} [] cfg.net = "dual" -> {"unix", "tcp"} [] OTHER -> {"unix"}
Reopt(s, e) ==
  IF e.ok # Fits(s, e.cfg) THEN {}
  ELSE IF e.ok THEN IF SetOf(e.ends) = Ends(e.cfg) THEN {Again(Under(s, e.cfg), e.how)} ELSE {}
  ELSE IF e.same /\ e.ends = <<>> THEN {[s EXCEPT !.cl = EmptyFun]} ELSE {}

(* options which are not any: the daemon does not start, and leaves all as it is *)
BadOptions(s, e) == IF ~e.ok /\ e.same THEN {[s EXCEPT !.cl = EmptyFun]} ELSE {}

(* without its hook's consent the daemon does not serve *)
Restart(s, e) == IF "cfg" \in DOMAIN e THEN Reopt(s, e) ELSE IF s.cfg.hook /\ s.hm["ready"] # "ok" THEN {} ELSE {Again(s, e.how)}
NotReady(s, e) == IF s.cfg.hook /\ s.hm["ready"] # "ok" THEN LET y == Again(s, e.how) IN {Closing(y, DOMAIN y.ns)} ELSE {}

(* the hook program is told what to do; a data file which is not the active  *)
(* one is taken away                                                       *)
HookMode(s, e) == {[s EXCEPT !.hm[e.h] = e.v]}
Offload(s, e) == {[s EXCEPT !.ns[e.ns].gone = @ \cup {e.f}]}

(* e.q: the runs of the hook program since the last look, each once.  What   *)
(* the daemon waits for is there, in order; the others follow, with e.all   *)
(* they are all over                                                       *)
Count(q, h) == Cardinality({i \in 1..Len(q) : q[i] = h})
RECURSIVE Minus(_, _)
Minus(q, h) == IF q = <<>> THEN <<>> ELSE IF q[1] = h THEN Tail(q) ELSE <<q[1]>> \o Minus(Tail(q), h)
RECURSIVE MinusAll(_, _)
MinusAll(q, l) == IF l = <<>> THEN q ELSE MinusAll(Minus(q, l[1]), Tail(l))

HooksSeen(s, e) ==
  LET wait(q) == SelectSeq(q, LAMBDA h : h.h \in Blocking)
      left == MinusAll(s.hq, e.q)
  IN IF /\ wait(e.q) = wait(s.hq)
        /\ \A h \in SetOf(e.q) : Count(e.q, h) <= Count(s.hq, h)
        /\ e.all => left = <<>>
     THEN {[s EXCEPT !.hq = left]} ELSE {}

(***************************************************************************)
(* A program opens the directories with the embedded library, instead of a *)
(* daemon, and calls it.  The calls have the effect of the commands, and    *)
(* tell it by a status.                                                     *)
(***************************************************************************)
LibOpen(s, e) ==
  IF e.st # "OPEN" THEN {}
  \* the limit of the default namespace is an option of the daemon: a program sets its own
  ELSE LET z == Hook(Restarted(StopHooks(s, e.how)), HookRun("namespaces-init", "", 0, 0, <<>>))
       IN {[z EXCEPT !.ns["default"].max = m, !.hl = <<>>] : m \in {0, z.ns["default"].max}}

LibClose(s) == Closing(s, DOMAIN s.ns)

Caller == 0

ApiStatus(s, e, op, live, r) ==
  LET x == s.ns[e.ns]
      gone == \E i \in 1..Len(x.dl) : x.dl[i].del /\ x.dl[i].k = e.a[1].t
      absent == IF gone THEN {"NOT_FOUND", "DELETED"} ELSE {"NOT_FOUND"}
  IN CASE op = "SET" ->
            CASE r.t = "bulk" -> {"BUFFER"}
              [] r.t = "nil" -> {"UP_TO_DATE"}
              [] OTHER -> IF x.mode = "seq" /\ e.a[1].l \in 1..KeyMax /\ ~live THEN {"INSERT_DENIED", "FAILURE"}
                          ELSE {"FAILURE"}
       [] op = "GET" -> IF live THEN IF r.t = "err" THEN {"INTERNAL_ERROR"} ELSE {"ENTRY"} ELSE absent
       [] op = "EXISTS" -> IF live THEN {"TRUE"} ELSE {"FALSE"}
       [] op = "CHECK" -> IF live THEN IF r.n = 1 THEN {"TRUE"} ELSE {"INTERNAL_ERROR"} ELSE absent
       [] op = "DEL" -> IF live THEN {"SUCCESS"} ELSE absent

CallWord(op) == [t |-> op, l |-> 3, up |-> op, n |-> 0, u |-> 0, b |-> FALSE, h |-> "", p |-> "", sl |-> FALSE, z |-> FALSE]

Api(s, e) ==
  IF DOMAIN s.cl # {} THEN {}
  ELSE IF e.ns \notin DOMAIN s.ns THEN IF e.st = "NONAMESPACE" THEN {s} ELSE {}
  ELSE
    LET live == e.a[1].l \in 1..KeyMax /\ e.a[1].t \in DOMAIN s.ns[e.ns].mem
        s1 == [s EXCEPT !.cl = (Caller :> [NewClient(s.cfg) EXCEPT !.ns = e.ns, !.w = TRUE])]
        c == [e EXCEPT !.a = <<CallWord(e.op)>> \o @] @@ [c |-> Caller]
        d == Do(Asking(s1, c, e.op), c, e.op)
    IN IF /\ e.st \in ApiStatus(s, e, e.op, live, d.r)
          /\ e.st \in {"BUFFER", "ENTRY"} => e.r.s = d.r.s
       THEN {[d.s EXCEPT !.cl = EmptyFun]} ELSE {}

(* the program manages namespaces: no protection of these stops it           *)
Manage(s, e) ==
  IF DOMAIN s.cl # {} THEN {}
  ELSE
    LET here == e.ns \in DOMAIN s.ns
        s1 == [s EXCEPT !.cl = (Caller :> [NewClient(s.cfg) EXCEPT !.w = TRUE, !.adm = TRUE,
                                           !.ns = IF e.op = "NSJUMP" /\ here THEN e.ns ELSE "default"])]
        c == [e EXCEPT !.a = <<CallWord(e.op)>> \o @] @@ [c |-> Caller]
        d == IF e.op \in {"NSJUMP", "FLUSH"} /\ ~here THEN Refuse(s1)
             ELSE IF e.op = "FLUSH" THEN Res(PutNs(s1, e.ns, Emptied(s.ns[e.ns])), Ok)
             ELSE Do(s1, c, e.op)
    IN IF e.st = (IF d.r.t = "err" THEN "REFUSED" ELSE "DONE") THEN {[d.s EXCEPT !.cl = EmptyFun]} ELSE {}

(***************************************************************************)
(* The index records of a namespace were removed and made again from its   *)
(* data files alone, then the daemon was started: every data record is      *)
(* replayed in order, a value as an insertion or an update, a deletion as a  *)
(* deletion.  Positions given before may or may not be understood.          *)
(***************************************************************************)
RECURSIVE Replay(_, _)
Replay(x, i) ==
  IF i > Len(x.dl) THEN x
  ELSE LET d == x.dl[i]
           y == [x EXCEPT !.fid = d.f]
           live == d.k \in DOMAIN x.mem
           old == x.mem[d.k]
           z == IF d.del THEN IF live THEN DropRec(y, d.k, old) ELSE y
                ELSE IF ~live THEN InsertNew(y, d.k, d.kl, d.v, d.vl)
                ELSE IF x.mode = "user" THEN InsertOver(y, d.k, d.kl, d.v, d.vl, old)
                ELSE Overwrite(y, d.k, d.v, d.vl, old)
           n == IF d.del THEN 0 ELSE IF live /\ x.mode = "seq" THEN old ELSE Len(z.slots)
       IN Replay(IF n = 0 THEN z ELSE [z EXCEPT !.slots[n].w = d.w], i + 1)

ReplayAll(x) ==
  [Replay([x EXCEPT !.slots = <<>>, !.mem = EmptyFun, !.n = 0, !.sz = 0, !.ks = 0, !.fid = 0,
                    !.dirty = {}, !.mod = {}, !.look = 0], 1)
   EXCEPT !.fid = x.fid, !.cur = Stale(x.cur), !.hk = Stale(x.hk)]

Rebuild(s, e) ==
  IF e.rc # 0 \/ ~e.same \/ e.ns \notin DOMAIN s.ns THEN {}
  ELSE {Restarted(PutNs(s, e.ns, ReplayAll(s.ns[e.ns])))}

(***************************************************************************)
(* quick-compact while the daemon is stopped, its output taking the place of *)
(* the namespace: every record stays in its file, and has its payload there; *)
(* the payloads of deleted and replaced records are gone                    *)
(***************************************************************************)
RECURSIVE Packed(_, _, _)
Packed(x, q, i) ==          \* q: the data records of slots 1..i-1
  IF i > Len(x.slots) THEN q
  ELSE LET o == x.slots[i]
           p == IF q = <<>> THEN 0 ELSE q[Len(q)].off
           off == IF q # <<>> /\ q[Len(q)].f = o.f THEN p + EntryHeader + q[Len(q)].kl + q[Len(q)].vl ELSE DataHeader
       IN Packed(x, Append(q, [f |-> o.f, off |-> off, k |-> o.k, kl |-> o.kl, v |-> IF o.del THEN "" ELSE o.v,
                               vl |-> IF o.del THEN 0 ELSE o.len, w |-> i, del |-> FALSE, prev |-> p, cut |-> o.del \/ o.len = 0]), i + 1)

Compacted(x) ==
  LET q == Packed(x, <<>>, 1)
      last(f) == {i \in 1..Len(q) : q[i].f = f /\ \A j \in 1..Len(q) : q[j].f = f => j <= i}
      end(d) == d.off + EntryHeader + d.kl + d.vl
  IN [x EXCEPT
        !.slots = [i \in 1..Len(@) |-> [@[i] EXCEPT !.w = i, !.v = q[i].v, !.len = q[i].vl]],
        !.dl = q, !.tm = [i \in 1..Len(q) |-> x.tm[x.slots[i].w]],
        !.fs = [f \in 1..Len(@) |-> IF last(f - 1) = {} THEN DataHeader ELSE end(q[CHOOSE i \in last(f - 1) : TRUE])],
        !.bad = EmptyFun, !.look = 0, !.mod = {}, !.cur = Stale(x.cur), !.hk = Stale(x.hk)]

Compact(s, e) ==
  IF e.rc # 0 \/ ~e.same \/ e.ns \notin DOMAIN s.ns THEN {}
  ELSE {Restarted(PutNs(s, e.ns, Compacted(s.ns[e.ns])))}

(***************************************************************************)
(* db-sync while a new daemon runs with the same options: what is live in    *)
(* the namespace `default' is written there, in the order of the records,    *)
(* by one client; from here on the new daemon is the one observed.          *)
(***************************************************************************)
RECURSIVE Sent(_, _, _, _)
Sent(s, x, q, e) ==
  IF q = <<>> THEN s
  ELSE LET o == x.slots[q[1]]
           c == [c |-> Caller, t0 |-> e.t0, t1 |-> e.t1,
                 a |-> <<CallWord("SET"), [CallWord("") EXCEPT !.t = o.k, !.l = o.kl], [CallWord("") EXCEPT !.t = o.v, !.l = o.len]>>]
       IN Sent(DoSet(s, c).s, x, Tail(q), e)

RECURSIVE SentAgain(_, _, _, _)
SentAgain(s, x, n, e) == IF n = 0 THEN s ELSE SentAgain(Sent(s, x, LiveSeq(x), e), x, n - 1, e)

Sync(s, e) ==
  IF e.rc # 0 THEN {}
  ELSE LET z == [Start(s.cfg) EXCEPT !.cl = (Caller :> NewClient(s.cfg))]
       IN {[SentAgain(z, s.ns["default"], e.times, e) EXCEPT !.cl = EmptyFun]}

(***************************************************************************)
(* namespace-editor while the daemon is stopped: all the settings it knows   *)
(* are those it is given, or their defaults.  It shows those before, and     *)
(* namespace-dump those after.                                             *)
(***************************************************************************)
Settled(x) == [pass |-> x.pass, pub |-> x.pub, worm |-> x.worm, max |-> x.max]
Edit(s, e) ==
  IF e.ns \notin DOMAIN s.ns THEN IF e.rc > 0 /\ e.drc > 0 THEN {Restarted(s)} ELSE {}
  ELSE LET x == s.ns[e.ns]
           y == [x EXCEPT !.pass = e.pass, !.pub = e.pub, !.worm = e.worm, !.max = e.max]
       IN IF e.rc = 0 /\ e.drc = 0 /\ e.was = Settled(x) /\ e.is = Settled(y) THEN {Restarted(PutNs(s, e.ns, y))} ELSE {}

(* all the live keys with the lengths of their payloads, in any order, each *)
(* once                                                                    *)
AllLive(s, e) ==
  LET x == NsOf(s, e) IN
  IF SameSet(e.l, {<<k, x.slots[x.mem[k]].len>> : k \in DOMAIN x.mem}) THEN {s} ELSE {}

(***************************************************************************)
(* A byte of the stored payload of a record changes behind the back of the   *)
(* daemon, or changes back.  x.bad: the writes whose payload is not what was *)
(* written, and what that was.                                             *)
(***************************************************************************)
AlteredTok(v, e) == "!" \o ToString(e.pos) \o "/" \o ToString(e.mask) \o "!" \o v

RecordAt(x, f, off) == {i \in 1..Len(x.dl) : x.dl[i].f = f /\ x.dl[i].off = off}

Alter(s, e) ==
  IF e.ns \notin DOMAIN s.ns THEN {}
  ELSE
    LET x == s.ns[e.ns]
        D == {i \in RecordAt(x, e.f, e.off) : ~x.dl[i].del /\ e.pos < x.dl[i].vl}
    IN IF D = {} THEN {}
       ELSE LET i == CHOOSE j \in D : TRUE
                w == x.dl[i].w
                back == w \in DOMAIN x.bad
                v == IF back THEN x.bad[w].v ELSE AlteredTok(x.dl[i].v, e)
            IN IF back /\ (x.bad[w].pos # e.pos \/ x.bad[w].mask # e.mask) THEN {}
               ELSE {PutNs(s, e.ns,
                      [x EXCEPT !.dl[i].v = v, !.bad = IF back THEN Drop(@, w) ELSE Bind(@, w, [v |-> x.dl[i].v, pos |-> e.pos, mask |-> e.mask]),
                                !.slots = [j \in 1..Len(@) |-> IF @[j].w = w THEN [@[j] EXCEPT !.v = v] ELSE @[j]]])}

(* integrity-check on a data file, or on its first e.cut bytes: it succeeds  *)
(* when the file ends with a record and no payload is altered, otherwise it  *)
(* counts the altered ones (if it gets to the end)                          *)
IntegrityCheck(s, e) ==
  IF e.ns \notin DOMAIN s.ns THEN {}
  ELSE
    LET x == s.ns[e.ns]
        I == {i \in 1..Len(x.dl) : x.dl[i].f = e.f}
        end(i) == x.dl[i].off + EntryHeader + x.dl[i].kl + x.dl[i].vl
        all == e.cut = -1 \/ e.cut >= x.fs[e.f + 1]
        whole == all \/ e.cut = DataHeader \/ \E i \in I : end(i) = e.cut
        n == Cardinality({i \in I : x.dl[i].w \in DOMAIN x.bad /\ (all \/ end(i) <= e.cut)})
    IN IF e.f > x.fid \/ e.f \in x.gone THEN IF e.rc > 0 THEN {s} ELSE {}
       ELSE IF e.rc >= 0 /\ (e.rc = 0) = (whole /\ n = 0) /\ (whole => e.n = n) /\ e.same THEN {s} ELSE {}

(***************************************************************************)
(* index-dump beside the running daemon: each index record in its place, as  *)
(* it is linked with its data record, the one before and the older value    *)
(***************************************************************************)
IndexHeader == 29     \* bytes before the first record of an index file
IndexItem == 34       \* bytes before the key of an index record

RECURSIVE IndexOffs(_, _)
IndexOffs(x, q) ==          \* where the records are in their index files
  LET i == Len(q) + 1 IN
  IF i > Len(x.slots) THEN q
  ELSE IndexOffs(x, Append(q, IF i > 1 /\ x.slots[i - 1].f = x.slots[i].f THEN q[i - 1] + IndexItem + x.slots[i - 1].kl ELSE IndexHeader))

IndexDump(s, e) ==
  LET x == s.ns[e.ns]
      q == IndexOffs(x, <<>>)
  IN IF /\ e.rc = 0 /\ e.same /\ e.files = x.fid + 1
        /\ Len(e.l) = Len(x.slots)
        /\ \A i \in 1..Len(e.l) :
             LET o == x.slots[i]
                 d == x.dl[o.w]
                 y == e.l[i]
             IN /\ y.f = o.f /\ y.off = q[i] /\ y.k = o.k /\ y.len = o.len /\ y.del = o.del
                /\ y.df = d.f /\ y.doff = d.off /\ SeenTime(x, o.w, y.t) /\ y.crc
                /\ y.pf = (IF o.par = 0 THEN 0 ELSE x.slots[o.par].f)
                /\ y.poff = (IF o.par = 0 THEN 0 ELSE q[o.par])
                /\ i > 1 => y.prev = q[i - 1]
     THEN {s} ELSE {}

(***************************************************************************)
(* Very many records at once, in the namespace of a connection: a long       *)
(* pipeline of requests which are all granted.                              *)
(*   new   n new records, with payloads e.v+1 .. e.v+n                      *)
(*   over  n new payloads e.v+1 .. e.v+n for the key e.key                  *)
(*   del   n records are deleted                                            *)
(*   all   n records are read, e.l are the payloads                         *)
(* Keys of user mode are e.b+1 .. e.b+n, ids of sequential mode start from  *)
(* e.b.  Keys and payloads made of a number have 8 bytes.                   *)
(***************************************************************************)
FillToken(j) == "F" \o ToString(j)
FillKey(x, e, j) == IF x.mode = "seq" THEN SeqId(e.b + j - 1) ELSE FillToken(e.b + j)
FillLen == 8

FillData(x, e, key(_), kl, vl, del) ==
  LET off == DOff(x)
      size == EntryHeader + kl + vl
      w == Len(x.tm)
  IN [x EXCEPT
        !.tm = @ \o [j \in 1..e.n |-> <<e.t0, e.t1>>],
        !.dl = @ \o [j \in 1..e.n |-> [f |-> x.fid, off |-> off + (j - 1) * size, k |-> key(j), kl |-> kl,
                                       v |-> IF del THEN "" ELSE FillToken(e.v + j), vl |-> vl, w |-> w + j, del |-> del,
                                       prev |-> IF j = 1 THEN x.dprev ELSE off + (j - 2) * size]],
        !.dprev = off + (e.n - 1) * size,
        !.fs[x.fid + 1] = off + e.n * size]

FillRec(x, k, kl, e, j, par, del) ==
  [k |-> k, kl |-> kl, v |-> FillToken(e.v + j), len |-> FillLen, w |-> Len(x.tm) + j, par |-> par, del |-> del, f |-> x.fid]

FillNew(x, e) ==
  LET m == Len(x.slots)
      K == {FillKey(x, e, j) : j \in 1..e.n}
      first == IF x.mode = "seq" THEN e.b ELSE e.b + 1
      old == DOMAIN x.mem
  IN
  IF (x.mode = "seq" => e.b = m) /\ K \cap old = {}
  THEN {[FillData(x, e, LAMBDA j : FillKey(x, e, j), FillLen, FillLen, FALSE) EXCEPT
           !.slots = @ \o [j \in 1..e.n |-> FillRec(x, FillKey(x, e, j), FillLen, e, j, 0, FALSE)],
           !.mem = [k \in old \cup K |-> IF k \in old THEN x.mem[k] ELSE m + 1 + atoi(SubSeq(k, 2, Len(k))) - first],
           !.n = @ + e.n, !.sz = @ + e.n * FillLen, !.ks = @ + e.n * FillLen]}
  ELSE {}

FillOver(x, e) ==
  IF e.key \notin DOMAIN x.mem THEN {}
  ELSE LET i == x.mem[e.key]
           o == x.slots[i]
           m == Len(x.slots)
           y == FillData(x, e, LAMBDA j : e.key, o.kl, FillLen, FALSE)
           z == IF x.mode = "user"
                THEN [y EXCEPT
                        !.slots = [@ EXCEPT ![i].del = TRUE]
                                  \o [j \in 1..e.n |-> FillRec(x, e.key, o.kl, e, j, IF j = 1 THEN i ELSE m + j - 1, j < e.n)],
                        !.mem[e.key] = m + e.n]
                ELSE [y EXCEPT
                        !.slots = [@ EXCEPT ![i] = [FillRec(x, e.key, o.kl, e, e.n, m + e.n, FALSE) EXCEPT !.f = o.f]]
                                  \o [j \in 1..e.n |-> IF j = 1 THEN [o EXCEPT !.del = TRUE, !.f = x.fid]
                                                       ELSE FillRec(x, e.key, o.kl, e, j - 1, m + j - 1, TRUE)]]
       IN {[z EXCEPT !.sz = @ + FillLen - o.len,
                     !.dirty = @ \cup {o.f} \cup (IF x.mode = "user" /\ e.n > 1 THEN {x.fid} ELSE {}),
                     !.mod = IF i <= x.look THEN @ \cup {o.f} ELSE @]}

FillDel(x, e) ==
  LET K == {FillKey(x, e, j) : j \in 1..e.n} IN
  IF ~(K \subseteq DOMAIN x.mem) THEN {}
  ELSE LET S == {x.mem[k] : k \in K}
           y == FillData(x, e, LAMBDA j : FillKey(x, e, j), FillLen, 0, TRUE)
           gone == [x EXCEPT !.slots = [i \in 1..Len(@) |-> IF i \in S THEN @[i] ELSE [@[i] EXCEPT !.del = TRUE]]]
       IN {[y EXCEPT
              !.slots = [i \in 1..Len(@) |-> IF i \in S THEN [@[i] EXCEPT !.del = TRUE] ELSE @[i]],
              !.mem = [k \in DOMAIN @ \ K |-> @[k]],
              !.n = @ - e.n,
              !.sz = @ - SumLive(gone, LAMBDA o : o.len),
              !.ks = @ - SumLive(gone, LAMBDA o : o.kl),
              !.dirty = @ \cup {x.slots[i].f : i \in S},
              !.mod = @ \cup {x.slots[i].f : i \in {j \in S : j <= x.look}}]}

Fill(s, e) ==
  LET x == NsOf(s, e) IN
  IF e.how = "all"
  THEN IF /\ Len(e.l) = e.n
          /\ \A j \in 1..e.n : LET k == FillKey(x, e, j) IN
                e.l[j] = IF k \in DOMAIN x.mem THEN x.slots[x.mem[k]].v ELSE "nil"
       THEN {s} ELSE {}
  ELSE IF ~e.ok \/ x.max # 0 \/ x.worm \/ Locked(x) \/ DOff(x) + (e.n + 1) * 300 > s.cfg.dsz \/ ~Cl(s, e).w THEN {}
  ELSE {PutHere(s, e, y) : y \in CASE e.how = "new"  -> FillNew(x, e)
                                   [] e.how = "over" -> FillOver(x, e)
                                   [] e.how = "del"  -> FillDel(x, e)}

(***************************************************************************)
(* The files: data files only grow while they are the current one.  e.l is  *)
(* the list of data file sizes, e.same tells that every byte seen before in *)
(* a data file is still there, e.mod the index files in which bytes seen    *)
(* before have changed since the previous look.                             *)
(***************************************************************************)
Disk(s, e) ==
  IF e.ns \notin DOMAIN s.ns THEN {}
  ELSE LET x == s.ns[e.ns] IN
       IF e.l = x.fs /\ e.same /\ SetOf(e.mod) = x.mod
       THEN {PutNs(s, e.ns, [x EXCEPT !.mod = {}, !.look = Len(x.slots)])} ELSE {}

Forget(s) == [s EXCEPT !.ns = [nm \in DOMAIN @ |-> [@[nm] EXCEPT !.mod = {}, !.look = 0]]]

(***************************************************************************)
(* Commands which were interrupted.                                        *)
(*                                                                         *)
(* Partly(s, e, l) is what the files may hold when the request e stopped   *)
(* half way, l being the sizes of the data files of its namespace.  The    *)
(* data record goes first, alone it means nothing: a key changes when its  *)
(* index record does.                                                      *)
(***************************************************************************)
(* sizes of the closed files are what they were; a rotation which did not  *)
(* come to its end leaves at most an empty file                            *)
FilesAre(x, l) ==
  /\ Len(l) \in (Len(x.fs))..(Len(x.fs) + 1)
  /\ \A f \in 1..(Len(x.fs) - 1) : l[f] = x.fs[f]
  /\ Len(l) > Len(x.fs) => l[Len(l)] \in {0, DataHeader}

(* the record of a value or a deletion is in the data file, nothing knows it *)
Orphan(x, e, op) ==
  LET k == Arg(e, 1) IN
  IF op = "DEL" THEN LET ts == Stamp(e, 2) IN AppendData(x, k.t, k.l, "", 0, TRUE, ts[1], ts[2])
  ELSE LET ts == Stamp(e, 3)
       IN AppendData(x, SetKey(x, e), IF x.mode = "seq" THEN 8 ELSE k.l, Arg(e, 2).t, Arg(e, 2).l, FALSE, ts[1], ts[2])

(* the copy of what a sequential id was is there, the id is not modified yet *)
Copied(x, e) ==
  LET o == x.slots[x.mem[Arg(e, 1).t]]
  IN [x EXCEPT !.slots = Append(@, [o EXCEPT !.del = TRUE, !.f = x.fid])]

(* the writes of one command on a namespace, from none of them to all but   *)
(* the last one                                                             *)
Unfinished(x, e, op, l, torn) ==
  LET z == IF Len(l) > x.fid THEN l[x.fid + 1] ELSE 0
      off == DOff(x)
      y == Orphan(x, e, op)
  IN IF ~FilesAre(x, l) THEN {}
     ELSE IF z = off THEN {x}
     ELSE IF z = DOff(y)
     THEN {y} \cup (IF op # "DEL" /\ x.mode = "seq" /\ Arg(e, 1).t \in DOMAIN x.mem THEN {Copied(y, e)} ELSE {})
     ELSE IF torn /\ z > off /\ z < DOff(y) THEN {x}
     ELSE {}

(* the file of a rotation may still lack its header                         *)
Padded(l, n) == IF Len(l) = n - 1 THEN Append(l, DataHeader)
                ELSE IF Len(l) = n /\ l[n] = 0 THEN [l EXCEPT ![n] = DataHeader] ELSE l

Begun(s, e, op, torn) ==
  LET nm == Cl(s, e).ns
      x == s.ns[nm]
      l == e.l
  IN
  CASE op \in {"SET", "SETX"} /\ ~SetRefused(s, e) ->
         LET jump == SetNeedsJump(s, e)
             k == Arg(e, 1)
             r == DoRotate(s, nm)
             b == IF jump THEN r ELSE s
             works == DoSet(s, e).r.t = "bulk"
             lb == IF jump THEN Padded(l, Len(b.ns[nm].fs)) ELSE l
         IN (IF FilesAre(x, l) /\ l[x.fid + 1] = DOff(x) THEN {s} ELSE {})
            \cup (IF FilesAre(b.ns[nm], lb) /\ lb[Len(b.ns[nm].fs)] = DOff(b.ns[nm]) THEN {b} ELSE {})
            \cup (IF works THEN {PutNs(b, nm, y) : y \in Unfinished(b.ns[nm], e, op, lb, torn)} ELSE {})
    [] op = "DEL" /\ ~DelRefused(s, e) ->
         {PutNs(s, nm, y) : y \in Unfinished(x, e, op, l, torn)}
    [] op = "NSJUMP" /\ IsAdmin(s, e) ->
         LET r == DoRotate(s, nm)
         IN (IF FilesAre(x, l) /\ l[x.fid + 1] = DOff(x) THEN {s} ELSE {})
            \cup (IF FilesAre(r.ns[nm], Padded(l, Len(r.ns[nm].fs))) THEN {r} ELSE {})
    [] OTHER -> {s}

(* all of it was done, though nobody was told *)
Finished(s, e, op) ==
  IF op \in Observed \/ op = "" \/ (op = "AUTH" /\ IsChallenge(e)) THEN {s}
  ELSE LET y == Do(s, e, op).s IN
       IF Cl(s, e).ns \in DOMAIN y.ns /\ op \in {"SET", "SETX", "DEL"}
       THEN LET x == y.ns[Cl(s, e).ns] IN
            IF FilesAre(x, e.l) /\ e.l[x.fid + 1] = DOff(x) THEN {y} ELSE {}
       ELSE {y}

(* the new record of a key is there, the one it replaces is not flagged yet: *)
(* it is when the files are loaded, and its file counts as modified since    *)
Flagged(s, e, y) ==
  LET nm == Cl(s, e).ns
      x == s.ns[nm]
      old == x.slots[x.mem[Arg(e, 1).t]].f
  IN PutNs(y, nm, [y.ns[nm] EXCEPT !.dirty = {old}])

Overwrites(s, e, op) ==
  op \in {"SET", "SETX"} /\ ~SetRefused(s, e) /\ NsOf(s, e).mode = "user" /\ Live(s, e)

(* the daemon died inside request e and was started again *)
Crash(s, e) ==
  IF e.c \notin DOMAIN s.cl \/ s.cl[e.c].ns \in {"", "!"} THEN {}
  ELSE LET op == Command(e.a[1].up)
           F == {Restarted(y) : y \in Finished(s, e, op)}
       IN {Restarted(y) : y \in Begun(s, e, op, TRUE)} \cup F
          \cup (IF Overwrites(s, e, op) THEN {Flagged(s, e, y) : y \in F} ELSE {})

(* a system call of request e was refused; it is answered all the same, with *)
(* an error when it could not be done                                       *)
Fault(s, e) ==
  IF e.c \notin DOMAIN s.cl THEN {}
  ELSE (IF e.r.t = "err" /\ s.cl[e.c].ns \notin {"", "!"}
        THEN {Post(y, e, Command(e.a[1].up), Iid) : y \in Begun(s, e, Command(e.a[1].up), FALSE)} ELSE {})
       \cup Cmd(s, e)

=============================================================================
