-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Sessions recorded from the real library, checked step by step against   *)
(* MqttStream.  A session is one endpoint's history:                       *)
(*   W  a packet was written to the output buffer                          *)
(*   O  something else already stood in the output buffer                  *)
(*   T  n bytes travelled from the output to the input buffer              *)
(*   F  bytes from a foreign peer arrived in the input buffer              *)
(*   R  a read was attempted                                               *)
(*   Z  what the input or the output buffer held is dropped (a connection   *)
(*      was lost, another one begins)                                       *)
(*   E  the session ended, everything having been delivered                *)
(*   P  a part of a packet was read by its own function                    *)
(*   K  a constructor or conversion was called                             *)
(*   X  the process died in the step that should have come next            *)
(* Every event carries what the library returned and what the buffers hold *)
(* afterwards, so the state is known at every step and validation visits   *)
(* exactly one state per event.                                            *)
(*                                                                         *)
(* Environment: TRACE names the session file (one JSON object per line),   *)
(* PROP the property whose violation is an error ("ANY": all of them).     *)
(***************************************************************************)
EXTENDS MqttStream, MqttMake, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES
  s,      \* session
  l,      \* events consumed
  out,    \* output buffer
  inb,    \* input buffer
  q,      \* packets written and not yet read back, in normal form
  ri,     \* results obtained so far, as an index into the session's ref
  viol    \* properties the last event violated

vars == <<s, l, out, inb, q, ri, viol>>

Sess == Log[s]
Ev   == Sess.ev[l + 1]

(* Coverage: how often each class of event was judged. *)
Tick(key) == LET m == TLCGet(1)
             IN TLCSet(1, IF key \in DOMAIN m THEN [m EXCEPT ![key] = @ + 1]
                          ELSE m @@ (key :> 1))
WriteClass(p) ==
  LET np == Norm(p)
  IN p.k \o (IF EmptyList(p) THEN " empty list"
             ELSE IF Encodable(np) THEN " encodable" ELSE " unencodable")
ReadClass(e) ==
  LET F == Frame(inb, e.max) IN
  IF F.t # "frame" THEN "framing: " \o F.t
  ELSE LET d  == DecodeAt(Sess.cf, RTake(inb, F.total), F.hl)
           b1 == inb[1][1]
           k  == IF (b1 \div 16) \in {0, 15} THEN "?" ELSE Kinds[b1 \div 16]
       IN IF d.f # <<>> THEN (IF Len(d.f) = 1 THEN "fault: " ELSE "faults: ") \o d.f[1][1]
          ELSE IF d.g # {} \/ F.gray THEN k \o " tolerated form"
          ELSE k \o " well-formed"

Init == /\ TLCSet(1, <<>>)
        /\ s \in 1..Len(Log)
        /\ l = 0 /\ out = <<>> /\ inb = <<>> /\ q = <<>> /\ ri = 0 /\ viol = {}

Is(o) == l < Len(Sess.ev) /\ Ev.o = o /\ l' = l + 1 /\ UNCHANGED s

Write ==
  /\ Is("W")
  /\ Tick("write " \o WriteClass(Ev.p))
  /\ viol' = JudgeWrite(Prop, Sess.cf, out, Ev)
  /\ out' = Ev.post
  /\ q' = IF Ev.r.t = "ok" THEN Append(q, Norm(Ev.p)) ELSE q
  /\ UNCHANGED <<inb, ri>>

Preload ==
  /\ Is("O")
  /\ out' = RCat(out, Ev.b)
  /\ viol' = {}
  /\ UNCHANGED <<inb, q, ri>>

Part ==
  /\ Is("P")
  /\ Tick("part " \o Ev.k \o (LET d == DecPart(Sess.cf, Ev.k, Ev.fl, Ev.b)
                               IN IF d.f # <<>> THEN " malformed"
                                  ELSE IF d.g # {} THEN " tolerated form" ELSE " well-formed"))
  /\ viol' = JudgePart(Prop, Sess.cf, Ev)
  /\ UNCHANGED <<out, inb, q, ri>>

Construct ==
  /\ Is("K")
  /\ Tick("make " \o Ev.n)
  /\ viol' = JudgeMake(Prop, Ev)
  /\ UNCHANGED <<out, inb, q, ri>>

Crash == Is("X") /\ viol' = {"C13"} /\ UNCHANGED <<out, inb, q, ri>>

Transfer ==
  /\ Is("T")
  /\ Ev.n <= RLen(out)
  /\ inb' = RCat(inb, RTake(out, Ev.n))
  /\ out' = RDrop(out, Ev.n)
  /\ viol' = {}
  /\ UNCHANGED <<q, ri>>

Feed ==
  /\ Is("F")
  /\ inb' = RCat(inb, Ev.b)
  /\ viol' = {}
  /\ UNCHANGED <<out, q, ri>>

Lose ==
  /\ Is("Z")
  /\ inb' = IF Ev.of = "in" THEN <<>> ELSE inb
  /\ out' = IF Ev.of = "out" THEN <<>> ELSE out
  /\ viol' = {}
  /\ UNCHANGED <<q, ri>>

(* What a read means for the history: packets written come back in order   *)
(* (sessions of mode "wr"); results are those of an all-at-once reading of *)
(* the same bytes (sessions with ref); a reader that follows the hints     *)
(* holds nothing beyond the frame it has just consumed (mode "hint").      *)
JudgeHistory ==
  LET r == Ev.r
      produced == ~IsNeed(r)
      consumed == produced /\ Ev.post # inb
      terminal == produced /\ ~consumed
      hasRef   == Sess.mode \in {"chunk", "hint"}
      c07 == Sess.mode = "wr" /\ produced =>
               /\ q # <<>>
               /\ r.t = "ok"
               /\ PEq(Norm(r.p), Head(q))
      c11 == /\ hasRef /\ produced =>
                  LET i == IF terminal /\ ri = Len(Sess.ref) THEN ri ELSE ri + 1
                  IN i \in 1..Len(Sess.ref) /\ ResEq(r, Sess.ref[i])
             /\ Sess.mode = "hint" /\ consumed => Ev.post = <<>>
  IN Ids(c07, {"C07"}) \cup Ids(c11, {"C11"})

Read ==
  /\ Is("R")
  /\ Tick("read " \o IF Sess.mode = "deep" THEN "a very long list" ELSE ReadClass(Ev))
  /\ viol' = JudgeRead(Prop, Sess.cf, inb, Ev) \cup JudgeHistory
  /\ inb' = Ev.post
  /\ q' = IF Sess.mode = "wr" /\ ~IsNeed(Ev.r) /\ q # <<>> THEN Tail(q) ELSE q
  /\ ri' = IF IsNeed(Ev.r) \/ (Ev.post = inb /\ ri = Len(Sess.ref)) THEN ri ELSE ri + 1
  /\ UNCHANGED out

End ==
  /\ Is("E")
  /\ viol' = Ids(Sess.mode \in {"chunk", "hint"} => ri = Len(Sess.ref), {"C11"})
             \cup Ids(Sess.mode = "wr" /\ out = <<>> => q = <<>>, {"C07"})
  /\ UNCHANGED <<out, inb, q, ri>>

Next == Write \/ Part \/ Construct \/ Preload \/ Crash \/ Transfer \/ Feed \/ Lose \/ Read \/ End
Spec == Init /\ [][Next]_vars

Holds == IF Prop = "ANY" THEN viol = {} ELSE Prop \notin viol

(* for reports (TraceAll.cfg): name every violation and go on *)
Report == viol = {} \/ PrintT(<<"VIOL", Sess.id, l, viol>>)

(* every event of every session was consumed *)
Events == FoldLeft(LAMBDA a, x : a + Len(x.ev), 0, Log)
Accepted ==
  /\ PrintT(<<"COVERAGE", ToJson(TLCGet(1))>>)
  /\ PrintT(<<"TOTALS", Len(Log), Events, TLCGet("distinct")>>)
  /\ TLCGet("distinct") = Len(Log) + Events

(* a session's position determines everything else *)
Where == <<s, l>>

Brief == [id |-> Sess.id, cf |-> Sess.cf, l |-> l, viol |-> viol]
=============================================================================
