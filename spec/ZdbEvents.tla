----------------------------- MODULE ZdbEvents -----------------------------
(***************************************************************************)
(* The events a recorded run is made of.                                   *)
(***************************************************************************)
EXTENDS Zdb

(* A connection without rights sends something which is no request: an      *)
(* error or a hang up for it when one is due, nothing for anybody else       *)
Junk(s, e) ==
  IF \/ e.due /\ e.got = <<>>
     \/ e.due /\ e.got[1] = "other"
  THEN {} ELSE {s}

Event(s, e) ==
  CASE e.k = "cmd"     -> Cmd(s, e)
    [] e.k = "conn"    -> Conn(s, e)
    [] e.k = "close"   -> Close(s, e)
    [] e.k = "gone"    -> Gone(s, e)
    [] e.k = "wgot"    -> Wgot(s, e)
    [] e.k = "wtime"   -> Wtime(s, e)
    [] e.k = "wnone"   -> Wnone(s, e)
    [] e.k = "frame"   -> FrameGot(s, e)
    [] e.k = "fnone"   -> FrameNone(s, e)
    [] e.k = "restart" -> Restart(s, e)
    [] e.k = "badopts" -> BadOptions(s, e)
    [] e.k = "noready" -> NotReady(s, e)
    [] e.k = "hooks"   -> HooksSeen(s, e)
    [] e.k = "hm"      -> HookMode(s, e)
    [] e.k = "offload" -> Offload(s, e)
    [] e.k = "crash"   -> Crash(s, e)
    [] e.k = "fault"   -> Fault(s, e)
    [] e.k = "disk"    -> Disk(s, e)
    [] e.k = "forget"  -> {Forget(s)}
    [] e.k = "rebuild" -> Rebuild(s, e)
    [] e.k = "live"    -> AllLive(s, e)
    [] e.k = "libopen" -> LibOpen(s, e)
    [] e.k = "libclose" -> {LibClose(s)}
    [] e.k = "api"     -> Api(s, e)
    [] e.k = "manage"  -> Manage(s, e)
    [] e.k = "junk"    -> Junk(s, e)
    [] e.k = "fill"    -> Fill(s, e)
    [] e.k = "alter"   -> Alter(s, e)
    [] e.k = "edit"    -> Edit(s, e)
    [] e.k = "compact" -> Compact(s, e)
    [] e.k = "sync"    -> Sync(s, e)
    [] e.k = "icheck"  -> IntegrityCheck(s, e)
    [] e.k = "idump"   -> IndexDump(s, e)
    [] e.k = "idle"    -> {s}
    [] OTHER -> {}               \* the daemon died, or answered what cannot be read

(***************************************************************************)
(* --rotate: a namespace which got new records is moved to its next file    *)
(* some seconds after its last move, once the daemon has nothing to do.     *)
(* s.upd: namespaces with records written to the active files since these   *)
(* were opened; s.rt: a time the last move did not happen before.           *)
(***************************************************************************)
LastMove(s, nm) == IF nm \in DOMAIN s.rt THEN s.rt[nm] ELSE s.cfg.st

MayMove(s, e, nm) ==
  /\ \E i \in 1..Len(s.ns[nm].slots) : s.ns[nm].slots[i].f = s.ns[nm].fid
  /\ "t1" \in DOMAIN e => e.t1 - LastMove(s, nm) > s.cfg.rot

RECURSIVE MoveAll(_, _)
MoveAll(s, S) ==
  IF S = {} THEN s
  ELSE LET nm == CHOOSE n \in S : TRUE
           y == DoRotate(s, nm)
       IN MoveAll([y EXCEPT !.upd = @ \ {nm}, !.rt = Bind(@, nm, LastMove(s, nm) + s.cfg.rot + 1)], S \ {nm})

(* what an idle moment before this event may have done; a long pause leaves *)
(* no namespace behind                                                     *)
Moved(s, e) ==
  LET may == {nm \in DOMAIN s.ns : MayMove(s, e, nm)}
      must == IF e.k = "idle" THEN s.upd ELSE {}
  IN {MoveAll(s, must \cup S) : S \in SUBSET (may \ must)}

Noted(s, e, n) ==
  LET grown == {nm \in DOMAIN n.ns : Len(n.ns[nm].slots) > (IF nm \in DOMAIN s.ns THEN Len(s.ns[nm].slots) ELSE 0)}
      same  == {nm \in s.upd \cap DOMAIN n.ns \cap DOMAIN s.ns : n.ns[nm].fid = s.ns[nm].fid /\ n.ns[nm].slots # <<>>}
      moved == {nm \in DOMAIN n.ns : nm \notin DOMAIN s.ns \/ n.ns[nm].fid # s.ns[nm].fid}
      again == e.k # "cmd" \/ e.a[1].up = "RELOAD"
  IN [n EXCEPT !.upd = IF again THEN {} ELSE grown \cup same,
               !.rt = [nm \in DOMAIN n.ns |-> IF nm \in moved /\ "t0" \in DOMAIN e THEN e.t0 ELSE LastMove(n, nm)]]

Step(s, e) ==
  IF s.cfg.rot = 0 THEN Event(s, e)
  ELSE {IF e.k \in {"cmd", "restart"} THEN Noted(m, e, n) ELSE n : <<m, n>> \in
          UNION {{<<y, x>> : x \in Event(y, e)} : y \in Moved(s, e)}}
=============================================================================
