------------------------------ MODULE ZdbResp ------------------------------
(***************************************************************************)
(* How a connection's bytes become requests.  A stream of requests arrives  *)
(* in pieces of any size; the daemon is told once that bytes arrived (edge  *)
(* triggered), reads them into a buffer of B bytes and takes from it, as    *)
(* they are complete, the header lines and the payloads of the requests.    *)
(*                                                                          *)
(* The stream is given by its segments: "A" a request's header line, "D" an *)
(* argument's header line, "P" an argument with its end of line, each with  *)
(* its number of bytes; last is true of the last segment of a request.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Prof == JsonDeserialize(IOEnv.ZDB_RESP)
B == Prof.b                 \* size of the buffer
Segs == Prof.segs           \* <<[k |-> "A", n |-> 4, last |-> FALSE], ...>>
MaxCuts == Prof.cuts        \* pieces of a script, less one
Paced == Prof.paced         \* pieces are sent when the daemon waits (a script), or at any time
Drain == Prof.drain         \* a full buffer is read again

RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Total(i - 1) + Segs[i].n
Length == Total(Len(Segs))
Ends == [i \in 1..Len(Segs) |-> Total(i)]

(* requests complete within the first n bytes *)
RECURSIVE Complete(_, _)
Complete(i, n) == IF i > Len(Segs) \/ Ends[i] > n THEN 0
                  ELSE (IF Segs[i].last THEN 1 ELSE 0) + Complete(i + 1, n)

VARIABLES
  sent,     \* bytes the client sent
  told,     \* the daemon was told that there are bytes
  p,        \* the daemon's place: [base, rd, wr: buffer start, reader, writer (places of the stream);
            \*  seg, fill: the segment wanted and what was taken of it; done: requests executed; pc]
  cuts,     \* pieces sent, with the requests executed after each (of a script)
  gone      \* the daemon gave up
vars == <<sent, told, p, cuts, gone>>

Init ==
  /\ sent = 0 /\ told = FALSE /\ gone = FALSE /\ cuts = <<>>
  /\ p = [base |-> 0, rd |-> 0, wr |-> 0, seg |-> 1, fill |-> 0, done |-> 0, pc |-> "idle"]

Room(q) == B - (q.wr - q.base)
Emptied(q) == [q EXCEPT !.base = q.wr, !.rd = q.wr]

(* One pass over what the buffer holds: the place after it, and whether the *)
(* daemon is in the middle of a request ("more") or at the end of one       *)
RECURSIVE Parse(_)
Parse(q) ==
  IF q.rd >= q.wr \/ q.seg > Len(Segs) THEN q
  ELSE
    LET s == Segs[q.seg]
        next == [q EXCEPT !.seg = @ + 1, !.fill = 0, !.done = @ + (IF s.last THEN 1 ELSE 0)]
        avail == q.wr - q.rd
        need == s.n - q.fill
    IN IF s.k \in {"A", "D"}
       THEN IF avail >= s.n
            THEN Parse([next EXCEPT !.rd = @ + s.n, !.pc = "more"])
            ELSE IF Room(q) = 0 THEN [q EXCEPT !.base = q.rd, !.pc = "more"]     \* shifted
            ELSE [q EXCEPT !.pc = "more"]
       ELSE LET st == IF s.last THEN "end" ELSE "more" IN
            IF avail > need THEN Parse([next EXCEPT !.rd = @ + need, !.pc = st])
            ELSE IF avail = need THEN Emptied([next EXCEPT !.pc = st])
            ELSE Emptied([q EXCEPT !.fill = @ + avail, !.pc = "more"])

(* a full buffer of which everything was taken but a payload is wanted *)
Shifted(q) == IF q.rd = q.wr /\ Room(q) = 0 THEN [q EXCEPT !.base = q.rd] ELSE q

Send ==
  /\ sent < Length
  /\ Paced => p.pc = "idle" /\ ~told
  /\ \E n \in 1..(Length - sent) :
       /\ (Paced /\ Len(cuts) = MaxCuts) => n = Length - sent
       /\ sent' = sent + n
       /\ cuts' = IF Paced THEN Append(cuts, <<sent + n, Complete(1, sent + n)>>) ELSE cuts
  /\ told' = TRUE
  /\ UNCHANGED <<p, gone>>

Wake ==
  /\ told /\ p.pc = "idle"
  /\ p' = [p EXCEPT !.pc = "read"]
  /\ told' = FALSE
  /\ UNCHANGED <<sent, cuts, gone>>

Read ==
  /\ p.pc = "read" /\ ~gone
  /\ IF Room(p) = 0 THEN gone' = TRUE /\ p' = p
     ELSE LET n == IF sent - p.wr < Room(p) THEN sent - p.wr ELSE Room(p)
              full == n = Room(p)
              q == Shifted(Parse([p EXCEPT !.wr = @ + n]))
          IN /\ gone' = gone
             /\ p' = IF n = 0 THEN [p EXCEPT !.pc = "idle"]
                     ELSE [q EXCEPT !.pc = IF q.pc = "more" \/ (Drain /\ full) THEN "read" ELSE "idle"]
  /\ UNCHANGED <<sent, told, cuts>>

Next == Send \/ Wake \/ Read
Spec == Init /\ [][Next]_vars

Quiet == p.pc = "idle" /\ ~told

(* nothing sent is left behind, every complete request was executed, once *)
NothingStuck == Quiet => p.wr = sent /\ p.done = Complete(1, sent)
NeverAhead == p.done <= Complete(1, sent) /\ p.wr <= sent /\ p.rd <= p.wr
InBuffer == p.wr - p.base <= B /\ p.base <= p.rd
NeverGone == ~gone
(* scripts for the daemon: the pieces and how many replies are due after each *)
Told == (Paced /\ Quiet /\ sent = Length) => PrintT("CUTS " \o ToJson(cuts))
=============================================================================
