------------------------------ MODULE MqttStream ------------------------------
(***************************************************************************)
(* An MQTT endpoint's use of the codec: packets are written into an output *)
(* buffer, bytes travel to an input buffer in any portions, and packets    *)
(* are read from the input buffer.                                         *)
(*                                                                         *)
(* The state is the two buffers.  A step is judged by the events that      *)
(* describe it: what the caller passed, what the library returned and what *)
(* the buffers hold afterwards.  JudgeWrite and JudgeRead give the set of  *)
(* listed properties (C01...C19) that the event violates in a state; they  *)
(* are used both for the design (module MCStream: a specification-level    *)
(* library whose every step must satisfy all of them, plus the global      *)
(* invariants that follow) and for the code (module Trace: every step      *)
(* recorded from the real library must satisfy them).                      *)
(*                                                                         *)
(* Results are records: [t |-> "ok", ...], [t |-> "err", e |-> name,       *)
(* a |-> arguments], [t |-> "panic"], [t |-> "hang"]; [t |-> "="] stands   *)
(* for "the same as the main result" where a secondary one is compared.    *)
(***************************************************************************)
EXTENDS MqttCodec

Ids(b, s) == IF b THEN {} ELSE s          \* b must hold, else s is violated

(* Only what is wanted is evaluated: "ANY" or one property *)
Chk(want, id, b) == IF want \notin {"ANY", id} THEN {} ELSE IF b THEN {} ELSE {id}

Returned(r) == r.t \in {"ok", "err"}
IsNeed(r)   == r.t = "err" /\ r.e = "InsufficientBytes"
Res(x, r)   == IF x.t = "=" THEN r ELSE x

(* Equality of packets and of results (TLC compares only like with like) *)
PEq(a, b)   == a.k = b.k /\ a = b
ResEq(x, r) == /\ x.t = r.t
               /\ IF x.t = "ok" /\ "p" \in DOMAIN x
                  THEN "p" \in DOMAIN r /\ PEq(Norm(x.p), Norm(r.p))
                  ELSE x = r
Same(x, r)  == x.t = "=" \/ ResEq(x, r)

(* Memory (e.mem, recorded only for C19): what the event's calls had in use   *)
(* at most, beyond what was in use before; n: the bytes they had to do with. *)
(* A parsed packet takes more room than its bytes, but only so much more.    *)
Modest(e, n) == "mem" \in DOMAIN e => (e.mem \div 128) <= n + 64

-----------------------------------------------------------------------------
(***************************************************************************)
(* Write.  e.p packet, e.r packet-level result, e.post output buffer       *)
(* after; e.solo the same write into an empty buffer (r, b); e.tw the      *)
(* packet type's own write into an empty buffer (r, b unless eq: the same  *)
(* bytes as solo.b); e.sz <<size query>> or                                *)
(* <<>>; e.rt what reading solo.b back gives (r, left); e.pt the parts of  *)
(* the packet written by their own functions behind another byte: k, i     *)
(* which part, r (ok: n, the connect flags it returned), kept the other    *)
(* byte is still there, n how many bytes, at <<where these occur in solo.b>>, *)
(* otherwise b.                                                            *)
(***************************************************************************)
PartOf(np, k, i) ==
  CASE k = "WILL"     -> np.will[1].props
    [] k = "lastwill" -> np.will
    [] k = "login"    -> np.login
    [] k = "filters"  -> << np.filters[i + 1] >>
    [] OTHER          -> np.props
PartFlags(np, k) ==
  CASE k = "lastwill" -> WillFlags(np.will[1])
    [] k = "login"    -> IF np.login = <<>> THEN 0 ELSE LoginFlags(np.login[1])
    [] OTHER          -> 0
(* b: the bytes the part's own function wrote; F: the flags it returned *)
PartDenotes(cf, k, F, b, v) ==
  LET d == DecPart(cf, k, F, b)
  IN d.f = <<>> /\ d.n = 0 /\ "form" \notin d.g /\ d.v = v

ObstacleErrors == ("text" :> {"BinaryDataTooLong", "PayloadTooLong"}) @@ ("number" :> {"PayloadTooLong"})
                  @@ ("pkid" :> {"PacketIdZero"}) @@ ("code" :> {"InvalidConnectReturnCode"})
NamesObstacle(r, np) == \A x \in Obstacles(np) : Obstacles(np) = {x} => r.e \in ObstacleErrors[x]

JudgeWrite(want, cf, out, e) ==
  LET np    == Norm(e.p)
      enc   == Encodable(np)
      el    == EmptyList(e.p)
      sr    == Res(e.solo.r, e.r)
      sb    == e.solo.b
      n0    == RLen(out)
      n1    == RLen(e.post)
      grew  == RIsPrefix(out, e.post)
      app   == IF grew THEN RSuffix(out, e.post)
               ELSE RDrop(e.post, n0)         \* meaningful if n1 >= n0
      tr    == Res(e.tw.r, sr)
      tb    == IF e.tw.eq THEN sb ELSE e.tw.b
      c13   == /\ Returned(e.r) /\ Returned(sr) /\ Returned(tr)
               /\ \A i \in 1..Len(e.sz) : Returned(e.sz[i])
               /\ \A i \in 1..Len(e.pt) : Returned(e.pt[i].r)
               /\ e.rt # <<>> => Returned(e.rt[1].r)
      c08   == /\ ~el => (e.r.t = "ok") = enc /\ (sr.t = "ok") = enc
               /\ ~enc => e.r.t = "err" /\ sr.t = "err"
               /\ e.r.t = "err" => e.post = out
               /\ sr.t = "err" => sb = <<>>
      c02   == sr.t = "ok" /\ enc /\ ~el => Denotes(cf, sb, np)
      c06   == /\ e.r.t = "ok" =>
                    /\ n1 >= n0 /\ e.r.n = n1 - n0
                    /\ LET F == Frame(app, <<>>)
                       IN F.t = "frame" /\ F.total = e.r.n
               /\ sr.t = "ok" =>
                    /\ sr.n = RLen(sb)
                    /\ LET F == Frame(sb, <<>>)
                       IN F.t = "frame" /\ F.total = sr.n
               /\ e.r.t = "ok" /\ e.sz # <<>> =>
                    e.sz[1].t = "ok" /\ e.sz[1].n = n1 - n0
      c07   == /\ Returned(e.r) => grew
               /\ (e.r.t = "ok") = (sr.t = "ok")
               /\ e.r.t = "ok" /\ sr.t = "ok" => n1 >= n0 /\ app = sb
      parts == \A j \in 1..Len(e.pt) :
                 LET x == e.pt[j] IN
                 /\ Returned(x.r) => x.kept
                 /\ sr.t = "ok" =>
                      /\ x.r.t = "ok" /\ x.r.n = PartFlags(np, x.k)
                      /\ x.at # <<>> \/ x.n = 0
                      /\ enc => PartDenotes(cf, x.k, x.r.n,
                                   IF x.n = 0 THEN <<>>
                                   ELSE RTake(RDrop(sb, x.at[1]), x.n),
                                   PartOf(np, x.k, x.i))
      c17   == /\ tr.t = sr.t
               /\ tr.t = "ok" => tr = sr /\ tb = sb
               /\ parts
      c01   == sr.t = "ok" /\ ~el =>
                 /\ e.rt # <<>>
                 /\ e.rt[1].r.t = "ok"
                 /\ PEq(Norm(e.rt[1].r.p), np)
                 /\ e.rt[1].left = <<>>
  IN UNION { Chk(want, "C01", c01), Chk(want, "C02", c02), Chk(want, "C06", c06),
             Chk(want, "C07", c07), Chk(want, "C08", c08), Chk(want, "C13", c13),
             Chk(want, "C16", e.r.t = "err" => NamesObstacle(e.r, np)),
             Chk(want, "C17", c17),
             Chk(want, "C19", sr.t = "ok" => Modest(e, n0 + RLen(sb))) }

-----------------------------------------------------------------------------
(***************************************************************************)
(* Which error a single fault must produce, and the number it must carry.  *)
(* Faults without an entry may be reported in any way.                     *)
(***************************************************************************)
ReasonErrors == {"InvalidConnectReturnCode", "InvalidSubscribeReasonCode",
                 "InvalidReason"}
FaultErrors ==
  ("boundary"     :> {"BoundaryCrossed"})
  @@ ("utf8"       :> {"TopicNotUtf8", "PayloadNotUtf8"})
  @@ ("nobody"     :> {"PayloadRequired"})
  @@ ("type"       :> {"InvalidPacketType"})
  @@ ("protocol"   :> {"InvalidProtocol"})
  @@ ("level"      :> {"InvalidProtocolLevel"})
  @@ ("qos"        :> {"InvalidQoS"})
  @@ ("retainrule" :> {"InvalidRetainForwardRule"})
  @@ ("prop"       :> {"InvalidPropertyType"})
  @@ ("pkidzero"   :> {"PacketIdZero"})
  @@ ("emptysub"   :> {"EmptySubscription"})
  @@ ("reason"     :> ReasonErrors)
FaultHasValue == {"boundary", "type", "level", "qos", "retainrule", "prop", "reason"}

NamesFault(r, f) ==
  f[1] \in DOMAIN FaultErrors =>
    /\ r.e \in FaultErrors[f[1]]
    /\ f[1] \in FaultHasValue => r.a = <<f[2]>>

(***************************************************************************)
(* Read.  e.max limit (<<>> or <<n>>), e.chk the result of check on the    *)
(* buffer (ok: n frame length, ty packet kind or "?"), e.r the result of   *)
(* read (ok: p), e.post the input buffer after.  Secondary observations:   *)
(*   e.tr  <<result of the packet type's own read of the same frame>>      *)
(*   e.nl  <<result without limit, on a copy>> (if e.max # <<>>)           *)
(*   e.al  <<result on a buffer holding only the bytes consumed>>          *)
(*   e.fw  <<[r: re-encoding, rr: reading that back, left: rest]>>         *)
(***************************************************************************)
TypeOf(b1) == IF (b1 \div 16) \in {0, 15} THEN "?" ELSE Kinds[b1 \div 16]

JudgeRead(want, cf, inb, e) ==
  LET F    == Frame(inb, e.max)
      r    == e.r
      isF  == F.t = "frame"
      d0   == DecodeAt(cf, RTake(inb, F.total), F.hl)
      d    == IF F.gray THEN Gray(d0, "form") ELSE d0
      np   == Norm(r.p)
      good == isF /\ d.f = <<>>
      must == good /\ d.g = {}
      exact == good /\ "form" \notin d.g
      overrunOnly == isF /\ Len(d.f) = 1 /\ d.f[1][1] = "overrun"
      chk  == Res(e.chk, r)
      c03  == exact => /\ must => r.t = "ok"
                       /\ r.t = "ok" => PEq(np, d.v)
      c04  == /\ isF /\ d.f # <<>> /\ ~overrunOnly => r.t = "err"
              /\ F.t = "badlen" => r.t = "err"
      c05  == isF /\ d.ps =>
                /\ exact => /\ must => r.t = "ok"
                            /\ r.t = "ok" => PEq(np, d.v)
                /\ (\E i \in 1..Len(d.f) : d.f[i][1] \in {"overrun", "section"}) => r.t # "ok"
      c09  == Returned(r) => e.post = IF isF THEN RDrop(inb, F.total) ELSE inb
      hint(x) == IF F.t = "need"
                 THEN /\ IsNeed(x)
                      /\ x.a[1] >= 1 /\ x.a[1] <= F.hi
                      /\ F.exact => x.a[1] = F.hi
                 ELSE ~IsNeed(x)
      c10  == hint(r) /\ (e.chk.t = "=" \/ hint(e.chk))
      lim(x) == IF F.t = "limit"
                THEN x.t = "err" /\ x.e = "PayloadSizeLimitExceeded"
                     /\ x.a = <<F.rl, e.max[1]>>
                ELSE x.t = "err" => x.e # "PayloadSizeLimitExceeded"
      c12  == /\ lim(r) /\ (e.chk.t = "=" \/ lim(e.chk))
              /\ F.t = "limit" => e.post = inb
              /\ F.t # "limit" /\ e.nl # <<>> => Same(e.nl[1], r)
      c13  == /\ Returned(r) /\ Returned(chk)
              /\ \A x \in {e.tr, e.nl, e.al} :
                   \A i \in 1..Len(x) : Returned(Res(x[i], r))
              /\ \A i \in 1..Len(e.fw) : Returned(e.fw[i].r)
      c15  == r.t = "ok" =>
                /\ e.fw # <<>>
                /\ e.fw[1].r.t = "ok"
                /\ LET x == Res(e.fw[1].rr, r)
                   IN ResEq(x, r)
                /\ e.fw[1].left = <<>>
      c16  == /\ isF /\ Len(d.f) = 1 /\ d.g = {} /\ r.t = "err" => NamesFault(r, d.f[1])
              /\ F.t = "badlen" /\ r.t = "err" => r.e = "MalformedRemainingLength"
      c11  == /\ e.al # <<>> => Same(e.al[1], r)
              (* a frame is passed over whatever becomes of it, and only it *)
              /\ isF /\ Returned(r) => e.post = RDrop(inb, F.total)
      c17  == /\ e.chk.t = "ok" =>
                   /\ RLen(inb) - RLen(e.post) = e.chk.n
                   /\ r.t = "ok" => e.chk.ty = r.p.k
                   /\ inb # <<>> /\ e.chk.ty = TypeOf(inb[1][1])
                   /\ ~IsNeed(r)
              /\ e.chk.t = "err" => r = e.chk
              /\ e.chk.t = "=" => r.t # "ok" /\ e.post = inb
              /\ e.tr # <<>> => LET x == Res(e.tr[1], r)
                                IN /\ (x.t = "ok") = (r.t = "ok")
                                   /\ x.t = "ok" => ResEq(x, r)
  IN UNION { Chk(want, "C03", c03), Chk(want, "C04", c04), Chk(want, "C05", c05),
             Chk(want, "C09", c09), Chk(want, "C10", c10), Chk(want, "C11", c11),
             Chk(want, "C12", c12), Chk(want, "C13", c13), Chk(want, "C15", c15),
             Chk(want, "C16", c16), Chk(want, "C17", c17),
             Chk(want, "C19", Modest(e, RLen(inb))) }

-----------------------------------------------------------------------------
(***************************************************************************)
(* A part of a packet read by its own function.  e.k which, e.fl the       *)
(* connect flags, e.b the bytes, e.r the result (ok: v), e.left what the   *)
(* function left of the bytes.                                             *)
(***************************************************************************)
PartNorm(k, v) ==
  CASE k = "filters" -> v
    [] k = "login" -> v
    [] k = "lastwill" -> IF v = <<>> THEN v ELSE << [v[1] EXCEPT !.props = NormProps(@)] >>
    [] OTHER -> NormProps(v)

JudgePart(want, cf, e) ==
  LET d  == DecPart(cf, e.k, e.fl, e.b)
      ok == e.r.t = "ok"
      right == /\ d.f = <<>> /\ d.g = {} => ok
               /\ d.f = <<>> /\ "form" \notin d.g /\ ok =>
                     /\ PartNorm(e.k, e.r.v) = d.v
                     /\ e.left = RDrop(e.b, RLen(e.b) - d.n)
               /\ d.f # <<>> => ~ok
      c05 == d.ps => right
      c16 == Len(d.f) = 1 /\ d.g = {} /\ e.r.t = "err" => NamesFault(e.r, d.f[1])
  IN UNION { Chk(want, "C05", c05), Chk(want, "C13", Returned(e.r)),
             Chk(want, "C16", c16), Chk(want, "C17", right),
             Chk(want, "C19", Modest(e, RLen(e.b))) }
=============================================================================
