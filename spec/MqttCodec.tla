------------------------------ MODULE MqttCodec ------------------------------
(***************************************************************************)
(* What MQTT 5 packets are, how they lie on the wire, and what a reader    *)
(* must make of any byte string.                                           *)
(*                                                                         *)
(* Abstract packets ("raw" = as a caller of the crate builds them) are     *)
(* records with field k (kind) and the fields of that kind.  Strings and   *)
(* binary data are ropes.  Optional things are sequences of length 0 or 1. *)
(* Property sets are <<>> (absent) or <<list>>, list being a sequence of   *)
(* <<identifier, value>> sorted by identifier, repeated ones in order.     *)
(* u32 values are pairs <<high 16 bits, low 16 bits>>.                     *)
(*                                                                         *)
(* Norm maps a raw packet to its normal form: props becomes the plain list *)
(* (absent = empty), an empty login is absent, QoS 0 has packet id 0.      *)
(***************************************************************************)
EXTENDS MqttTables, Rope, TLC

MinOf(a, b) == IF a < b THEN a ELSE b

-----------------------------------------------------------------------------
(* Normal form *)
NormProps(ps) == IF ps = <<>> THEN <<>> ELSE ps[1]

Norm(p) ==
  CASE p.k \in {"PINGREQ", "PINGRESP"} -> p
    [] p.k = "PUBLISH" ->
         [p EXCEPT !.props = NormProps(@), !.pkid = IF p.qos = 0 THEN 0 ELSE @]
    [] p.k = "CONNECT" ->
         [p EXCEPT !.props = NormProps(@),
                   !.will  = IF @ = <<>> THEN <<>>
                             ELSE << [@[1] EXCEPT !.props = NormProps(@)] >>,
                   !.login = IF @ # <<>> /\ @[1].u = <<>> /\ @[1].p = <<>>
                             THEN <<>> ELSE @]
    [] OTHER -> [p EXCEPT !.props = NormProps(@)]

-----------------------------------------------------------------------------
(* Encoding primitives *)
VbiLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2
             ELSE IF n < 2097152 THEN 3 ELSE 4

RECURSIVE VbiBytes(_)
VbiBytes(n) == IF n < 128 THEN <<n>>
               ELSE <<(n % 128) + 128>> \o VbiBytes(n \div 128)
EncVbi(n) == RBytes(VbiBytes(n))

EncU8(v)  == RByte(v)
EncU16(v) == RBytes(<<v \div 256, v % 256>>)
EncU32(v) == RCat(EncU16(v[1]), EncU16(v[2]))
EncStr(x) == RCat(EncU16(RLen(x)), x)

EncValue(type, v) ==
  CASE type = "u8"  -> EncU8(v)
    [] type = "u16" -> EncU16(v)
    [] type = "u32" -> EncU32(v)
    [] type = "vbi" -> EncVbi(v)
    [] type \in {"str", "bin"} -> EncStr(v)
    [] type = "pair" -> RCat(EncStr(v[1]), EncStr(v[2]))

EncProp(e) == RCat(EncU8(e[1]), EncValue(PropTypes[e[1]], e[2]))
EncPropList(list) == RCatAll([i \in 1..Len(list) |-> EncProp(list[i])])
EncSection(list)  == LET b == EncPropList(list) IN RCat(EncVbi(RLen(b)), b)

(* Sizes, computed without building bytes *)
StrSize(x) == 2 + RLen(x)
ValueSize(type, v) ==
  CASE type = "u8" -> 1 [] type = "u16" -> 2 [] type = "u32" -> 4
    [] type = "vbi" -> VbiLen(v)
    [] type \in {"str", "bin"} -> StrSize(v)
    [] type = "pair" -> StrSize(v[1]) + StrSize(v[2])
ListSize(list) ==
  FoldLeft(LAMBDA a, e : a + 1 + ValueSize(PropTypes[e[1]], e[2]), 0, list)
SectionSize(list) == LET n == ListSize(list) IN VbiLen(n) + n

(* Remaining length of a packet in normal form (long acknowledgement form
   unless everything may be omitted) *)
BodySize(p) ==
  CASE p.k = "CONNECT" ->
         10 + SectionSize(p.props) + StrSize(p.cid)
         + (IF p.will = <<>> THEN 0
            ELSE SectionSize(p.will[1].props) + StrSize(p.will[1].topic)
                 + StrSize(p.will[1].msg))
         + (IF p.login = <<>> THEN 0
            ELSE (IF p.login[1].u = <<>> THEN 0 ELSE StrSize(p.login[1].u))
                 + (IF p.login[1].p = <<>> THEN 0 ELSE StrSize(p.login[1].p)))
    [] p.k = "CONNACK" -> 2 + SectionSize(p.props)
    [] p.k = "PUBLISH" -> StrSize(p.topic) + (IF p.qos = 0 THEN 0 ELSE 2)
                          + SectionSize(p.props) + RLen(p.payload)
    [] p.k \in AckKinds ->
         IF p.reason = "Success" /\ p.props = <<>> THEN 2
         ELSE 3 + SectionSize(p.props)
    [] p.k = "SUBSCRIBE" ->
         2 + SectionSize(p.props)
         + FoldLeft(LAMBDA a, x : a + StrSize(x.path) + 1, 0, p.filters)
    [] p.k = "UNSUBSCRIBE" ->
         2 + SectionSize(p.props)
         + FoldLeft(LAMBDA a, x : a + StrSize(x), 0, p.filters)
    [] p.k \in ListAcks -> 2 + SectionSize(p.props) + Len(p.codes)
    [] p.k \in {"PINGREQ", "PINGRESP"} -> 0
    [] p.k = "DISCONNECT" ->
         IF p.reason = "NormalDisconnection" /\ p.props = <<>> THEN 0
         ELSE 1 + SectionSize(p.props)

(* A packet in normal form that has a wire image *)
ValueFits(type, v) ==
  CASE type = "vbi" -> v <= MaxVbi
    [] type \in {"str", "bin"} -> RLen(v) <= MaxStr
    [] type = "pair" -> RLen(v[1]) <= MaxStr /\ RLen(v[2]) <= MaxStr
    [] OTHER -> TRUE
ListFits(list) == \A i \in 1..Len(list) : ValueFits(PropTypes[list[i][1]], list[i][2])
StrFits(x) == RLen(x) <= MaxStr

Encodable(p) ==
  /\ CASE p.k = "CONNECT" ->
            /\ ListFits(p.props) /\ StrFits(p.cid)
            /\ p.will # <<>> => /\ ListFits(p.will[1].props)
                                /\ StrFits(p.will[1].topic)
                                /\ StrFits(p.will[1].msg)
            /\ p.login # <<>> => StrFits(p.login[1].u) /\ StrFits(p.login[1].p)
       [] p.k = "CONNACK" -> p.reason \notin NoWireCode /\ ListFits(p.props)
       [] p.k = "PUBLISH" -> /\ StrFits(p.topic) /\ ListFits(p.props)
                             /\ p.qos > 0 => p.pkid > 0
       [] p.k = "SUBSCRIBE" -> /\ ListFits(p.props)
                               /\ \A i \in 1..Len(p.filters) : StrFits(p.filters[i].path)
       [] p.k = "UNSUBSCRIBE" -> /\ ListFits(p.props)
                                 /\ \A i \in 1..Len(p.filters) : StrFits(p.filters[i])
       [] p.k \in {"PINGREQ", "PINGRESP"} -> TRUE
       [] OTHER -> ListFits(p.props)
  /\ BodySize(p) <= MaxVbi

(* What keeps a packet in normal form from having one *)
LongIn(list) == \E i \in 1..Len(list) :
                  PropTypes[list[i][1]] # "vbi" /\ ~ValueFits(PropTypes[list[i][1]], list[i][2])
LongText(p) ==
  CASE p.k = "CONNECT" ->
         \/ LongIn(p.props) \/ ~StrFits(p.cid)
         \/ p.will # <<>> /\ (LongIn(p.will[1].props) \/ ~StrFits(p.will[1].topic) \/ ~StrFits(p.will[1].msg))
         \/ p.login # <<>> /\ ~(StrFits(p.login[1].u) /\ StrFits(p.login[1].p))
    [] p.k = "PUBLISH" -> ~StrFits(p.topic) \/ LongIn(p.props)
    [] p.k = "SUBSCRIBE" -> LongIn(p.props) \/ \E i \in 1..Len(p.filters) : ~StrFits(p.filters[i].path)
    [] p.k = "UNSUBSCRIBE" -> LongIn(p.props) \/ \E i \in 1..Len(p.filters) : ~StrFits(p.filters[i])
    [] p.k \in {"PINGREQ", "PINGRESP"} -> FALSE
    [] OTHER -> LongIn(p.props)
Obstacles(p) ==
  (IF LongText(p) THEN {"text"} ELSE {})
  \cup (IF p.k = "PUBLISH" /\ p.qos > 0 /\ p.pkid = 0 THEN {"pkid"} ELSE {})
  \cup (IF p.k = "CONNACK" /\ p.reason \in NoWireCode THEN {"code"} ELSE {})
  \cup (IF BodySize(p) > MaxVbi
           \/ ("props" \in DOMAIN p
               /\ \E i \in 1..Len(p.props) : PropTypes[p.props[i][1]] = "vbi" /\ p.props[i][2] > MaxVbi)
        THEN {"number"} ELSE {})

(* A mandatory list is empty: the crate encodes such packets, the standard
   (and every reader) refuses them.  Nothing is claimed about their bytes. *)
EmptyList(p) ==
  CASE p.k \in {"SUBSCRIBE", "UNSUBSCRIBE"} -> p.filters = <<>>
    [] p.k \in ListAcks -> p.codes = <<>>
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* The canonical wire image of an encodable packet in normal form *)
WillFlags(w) == 4 + 8 * w.qos + (IF w.retain THEN 32 ELSE 0)
LoginFlags(l) == (IF l.u = <<>> THEN 0 ELSE 128) + (IF l.p = <<>> THEN 0 ELSE 64)

EncBody(p) ==
  CASE p.k = "CONNECT" ->
         RCatAll(<< RBytes(<<0, 4, 77, 81, 84, 84, 5>>),
                    EncU8((IF p.clean THEN 2 ELSE 0)
                          + (IF p.will = <<>> THEN 0 ELSE WillFlags(p.will[1]))
                          + (IF p.login = <<>> THEN 0 ELSE LoginFlags(p.login[1]))),
                    EncU16(p.keep), EncSection(p.props), EncStr(p.cid) >>
                 \o (IF p.will = <<>> THEN <<>>
                     ELSE << EncSection(p.will[1].props),
                             EncStr(p.will[1].topic), EncStr(p.will[1].msg) >>)
                 \o (IF p.login = <<>> \/ p.login[1].u = <<>> THEN <<>>
                     ELSE << EncStr(p.login[1].u) >>)
                 \o (IF p.login = <<>> \/ p.login[1].p = <<>> THEN <<>>
                     ELSE << EncStr(p.login[1].p) >>))
    [] p.k = "CONNACK" ->
         RCatAll(<< EncU8(IF p.sp THEN 1 ELSE 0),
                    EncU8(ReasonNum["CONNACK"][p.reason]), EncSection(p.props) >>)
    [] p.k = "PUBLISH" ->
         RCatAll(<< EncStr(p.topic), IF p.qos = 0 THEN <<>> ELSE EncU16(p.pkid),
                    EncSection(p.props), p.payload >>)
    [] p.k \in AckKinds ->
         IF p.reason = "Success" /\ p.props = <<>> THEN EncU16(p.pkid)
         ELSE RCatAll(<< EncU16(p.pkid), EncU8(ReasonNum[p.k][p.reason]),
                         EncSection(p.props) >>)
    [] p.k = "SUBSCRIBE" ->
         RCatAll(<< EncU16(p.pkid), EncSection(p.props) >>
                 \o [i \in 1..Len(p.filters) |->
                       LET x == p.filters[i]
                       IN RCat(EncStr(x.path),
                               EncU8(x.qos + (IF x.nl THEN 4 ELSE 0)
                                     + (IF x.rap THEN 8 ELSE 0) + 16 * x.rh))])
    [] p.k = "UNSUBSCRIBE" ->
         RCatAll(<< EncU16(p.pkid), EncSection(p.props) >>
                 \o [i \in 1..Len(p.filters) |-> EncStr(p.filters[i])])
    [] p.k \in ListAcks ->
         RCatAll(<< EncU16(p.pkid), EncSection(p.props) >>
                 \o [i \in 1..Len(p.codes) |-> EncU8(ReasonNum[p.k][p.codes[i]])])
    [] p.k \in {"PINGREQ", "PINGRESP"} -> <<>>
    [] p.k = "DISCONNECT" ->
         IF p.reason = "NormalDisconnection" /\ p.props = <<>> THEN <<>>
         ELSE RCat(EncU8(ReasonNum["DISCONNECT"][p.reason]), EncSection(p.props))

Byte1(p) ==
  16 * TypeNum[p.k]
  + IF p.k = "PUBLISH"
    THEN (IF p.dup THEN 8 ELSE 0) + 2 * p.qos + (IF p.retain THEN 1 ELSE 0)
    ELSE HeaderFlags[p.k]

MkFrame(b1, body) == RCatAll(<< EncU8(b1), EncVbi(RLen(body)), body >>)
Encode(p) == MkFrame(Byte1(p), EncBody(p))

-----------------------------------------------------------------------------
(***************************************************************************)
(* Framing.  Frame(buf, max) says what stands at the front of a buffer:    *)
(*   need   - an incomplete frame; hi is the largest number of further     *)
(*            bytes a reader may ask for, exact says it is the only one    *)
(*   badlen - a remaining length of more than four bytes                   *)
(*   limit  - remaining length rl exceeds the limit                        *)
(*   frame  - a complete frame of total bytes                              *)
(* gray: the length is not minimally encoded (a malformed packet by        *)
(* section 1.5.5, which the crate tolerates).                              *)
(***************************************************************************)
RECURSIVE HdrVbi(_, _, _, _, _)
HdrVbi(buf, n, k, acc, mul) ==      \* k: index of the byte to look at
  IF k > 5 THEN [t |-> "bad"]
  ELSE IF k > n THEN [t |-> "part", v |-> acc]
  ELSE LET b == RAt(buf, k)
           v == acc + (b % 128) * mul
       IN IF b < 128 THEN [t |-> "done", v |-> v, hl |-> k,
                           gray |-> (b = 0 /\ k > 2)]
          ELSE HdrVbi(buf, n, k + 1, v, IF k < 5 THEN mul * 128 ELSE 0)

Frame(buf, max) ==                  \* max: <<>> or <<limit>>
  LET n == RLen(buf) IN
  IF n < 2 THEN [t |-> "need", hi |-> 2 - n, exact |-> FALSE, gray |-> FALSE]
  ELSE LET h == HdrVbi(buf, n, 2, 0, 1) IN
    CASE h.t = "bad"  -> [t |-> "badlen", gray |-> FALSE]
      [] h.t = "part" -> [t |-> "need", hi |-> 1 + h.v, exact |-> FALSE, gray |-> FALSE]
      [] h.t = "done" ->
           IF max # <<>> /\ h.v > max[1]
           THEN [t |-> "limit", rl |-> h.v, gray |-> h.gray]
           ELSE IF n < h.hl + h.v
           THEN [t |-> "need", hi |-> h.hl + h.v - n, exact |-> TRUE, gray |-> h.gray]
           ELSE [t |-> "frame", hl |-> h.hl, rl |-> h.v, total |-> h.hl + h.v,
                 gray |-> h.gray]

-----------------------------------------------------------------------------
(***************************************************************************)
(* Decoding.  A parser state is a cursor (i, o, n) plus                    *)
(*   v    - value read last                                                *)
(*   dead - nothing after this point can be given a meaning                *)
(*   f    - faults found, <<name, offending value>>: the frame is malformed*)
(*   g    - gray marks: "form"  = an encoding the standard forbids but the *)
(*          crate tolerates (trailing bytes, reserved bits, repeated       *)
(*          properties, non-minimal lengths); "value" = a well-encoded     *)
(*          value the standard forbids but the crate does not police.      *)
(*          A gray frame may be refused; if it is accepted, it must yield  *)
(*          exactly the packet given here.                                 *)
(*   ps   - a non-empty property section was met                           *)
(* cf is "text" or "raw": whether strings are checked to be UTF-8          *)
(* ("strict": as "text", and passwords are binary).                        *)
(***************************************************************************)
St(r, c) == [i |-> c.i, o |-> c.o, n |-> c.n, v |-> 0, dead |-> FALSE,
             f |-> <<>>, g |-> {}, ps |-> FALSE]

Fault(s, name, val) == [s EXCEPT !.f = Append(@, <<name, val>>)]
Die(s, name, val)   == [s EXCEPT !.f = Append(@, <<name, val>>), !.dead = TRUE]
Gray(s, x)          == [s EXCEPT !.g = @ \cup {x}]
GrayIf(s, c, x)     == IF c THEN Gray(s, x) ELSE s

U8(r, s) ==
  IF s.dead THEN s
  ELSE IF s.n < 1 THEN Die(s, "short", 0)
  ELSE IF s.o + 1 < r[s.i][2]
       THEN [s EXCEPT !.v = r[s.i][1], !.o = @ + 1, !.n = @ - 1]
       ELSE [s EXCEPT !.v = r[s.i][1], !.i = @ + 1, !.o = 0, !.n = @ - 1]

U16(r, s) ==
  IF s.dead THEN s
  ELSE IF s.n < 2 THEN Die(s, "short", 0)
  ELSE LET a == U8(r, s)
           b == U8(r, a)
       IN [b EXCEPT !.v = 256 * a.v + b.v]

U32(r, s) ==
  IF s.dead THEN s
  ELSE IF s.n < 4 THEN Die(s, "short", 0)
  ELSE LET a == U16(r, s)
           b == U16(r, a)
       IN [b EXCEPT !.v = <<a.v, b.v>>]

RECURSIVE VbiAcc(_, _, _, _, _)
VbiAcc(r, s, k, acc, mul) ==
  LET t == U8(r, s) IN
  IF t.dead THEN t
  ELSE IF t.v < 128 THEN GrayIf([t EXCEPT !.v = acc + t.v * mul], t.v = 0 /\ k > 1, "form")
  ELSE IF k = 4 THEN Die(t, "badlen", 0)
  ELSE VbiAcc(r, t, k + 1, acc + (t.v - 128) * mul, mul * 128)
Vbi(r, s) == IF s.dead THEN s ELSE VbiAcc(r, s, 1, 0, 1)

Bin(r, s) ==
  LET t == U16(r, s) IN
  IF t.dead THEN t
  ELSE IF t.v > t.n THEN Die(t, "boundary", t.v)
  ELSE LET e == Adv(r, t, t.v) IN [e EXCEPT !.v = Between(r, t, e)]

(* how: "text" - must be UTF-8; "lax" - should be, but may not be checked *)
StrAs(how, r, s) ==
  LET t == Bin(r, s) IN
  IF t.dead THEN t
  ELSE IF ~RUtf8(t.v)
       THEN IF how = "text" THEN Fault(t, "utf8", 0) ELSE Gray(t, "value")
       ELSE GrayIf(t, RHasByte(t.v, 0), "value")
Str(cf, r, s) == StrAs(IF cf = "raw" THEN "lax" ELSE "text", r, s)

Value(cf, type, r, s) ==
  CASE type = "u8"  -> U8(r, s)
    [] type = "u16" -> U16(r, s)
    [] type = "u32" -> U32(r, s)
    [] type = "vbi" -> Vbi(r, s)
    [] type = "bin" -> Bin(r, s)
    [] type = "str" -> Str(cf, r, s)
    [] type = "pair" -> LET a == Str(cf, r, s)
                            b == Str(cf, r, a)
                        IN [b EXCEPT !.v = <<a.v, b.v>>]

(* A list of items that ends with its scope is read by folding a step over  *)
(* blocks of indices: the parser state's v is the list so far.              *)
Ended(s) == s.dead \/ s.n = 0
Block == [i \in 1..24 |-> i]

PropStep(cf, ctx, r, s) ==
  LET acc == s.v
      a == U8(r, s) IN
  IF a.v \notin AllowedSet[ctx] THEN Die(a, "prop", a.v)
  ELSE LET b == Value(cf, PropTypes[a.v], r, a) IN
       IF b.dead THEN b
       ELSE [GrayIf(GrayIf(b, OddValue(a.v, b.v), "value"),
                    ~Repeatable(ctx, a.v)
                    /\ \E i \in 1..Len(acc) : acc[i][1] = a.v, "form")
             EXCEPT !.v = Append(acc, <<a.v, b.v>>)]
RECURSIVE PropLoop(_, _, _, _)
PropLoop(cf, ctx, r, s) ==
  IF Ended(s) THEN s
  ELSE PropLoop(cf, ctx, r,
         FoldLeft(LAMBDA t, i : IF Ended(t) THEN t ELSE PropStep(cf, ctx, r, t), s, Block))

(* sort by identifier, keeping the order of repeatable ones, last of others *)
CanonProps(ctx, l) ==
  IF Len(l) < 2 THEN l
  ELSE FoldLeft(LAMBDA acc, id :
                  LET sel == SelectSeq(l, LAMBDA e : e[1] = id)
                  IN IF sel = <<>> \/ Repeatable(ctx, id) THEN acc \o sel
                     ELSE Append(acc, sel[Len(sel)]),
                <<>>, Allowed[ctx])

(* A property section: exactly the declared number of bytes, decoded on
   their own.  What does not fit into the section overruns it. *)
Props(cf, ctx, r, s) ==
  LET a == Vbi(r, s) IN
  IF a.dead                       \* no such length, or cut off in the middle of it
  THEN IF s.dead \/ s.n = 0 THEN a
       ELSE [a EXCEPT !.ps = TRUE, !.f[Len(a.f)] = <<"section", 0>>]
  ELSE IF a.v > a.n THEN [Die(a, "section", 0) EXCEPT !.ps = TRUE]
  ELSE IF a.v = 0 THEN [a EXCEPT !.v = <<>>]
  ELSE LET b == PropLoop(cf, ctx, r, [a EXCEPT !.n = a.v, !.v = <<>>])
       IN IF b.dead
          THEN LET l == b.f[Len(b.f)]
               IN [b EXCEPT !.ps = TRUE,
                            !.f = IF l[1] \in {"short", "boundary"}
                                  THEN [@ EXCEPT ![Len(@)] = <<"overrun", l[2]>>]
                                  ELSE @]
          ELSE [b EXCEPT !.v = CanonProps(ctx, b.v), !.n = a.n - a.v, !.ps = TRUE]

(* end of a packet with fixed structure: trailing bytes are tolerated *)
AtEnd(s) == GrayIf(s, ~s.dead /\ s.n > 0, "form")

Reason(k, s) ==                     \* v: number -> name
  IF s.dead THEN s
  ELSE IF s.v \in ReasonNums[k] THEN [s EXCEPT !.v = ReasonName[k][s.v]]
  ELSE Fault([s EXCEPT !.v = "?"], "reason", s.v)

PkId(r, s) == LET a == U16(r, s) IN GrayIf(a, ~a.dead /\ a.v = 0, "value")

Bit(x, w) == (x \div w) % 2 = 1

-----------------------------------------------------------------------------
(* Each Dec... returns a parser state whose v is the packet (if no fault) *)
Out(s, p) == IF s.f = <<>> THEN [s EXCEPT !.v = p] ELSE s

(* The last will and the login of a CONNECT, as its flags F announce them; *)
(* v: <<>> or <<the thing>>                                                *)
DecWill(cf, F, r, s) ==
  IF s.dead THEN s
  ELSE IF ~Bit(F, 4)
  THEN [(IF Bit(F, 8) \/ Bit(F, 16) \/ Bit(F, 32) THEN Fault(s, "willflags", F) ELSE s)
        EXCEPT !.v = <<>>]
  ELSE
  LET wq  == (F \div 8) % 4
      sq  == IF wq = 3 THEN Fault(s, "qos", 3) ELSE s
      wp  == Props(cf, "WILL", r, sq)
      wt  == StrAs("lax", r, wp)
      wm  == Bin(r, wt)
  IN [wm EXCEPT !.v = << [topic |-> wt.v, msg |-> wm.v, qos |-> wq,
                           retain |-> Bit(F, 32), props |-> wp.v] >>]

DecLogin(cf, F, r, s) ==
  IF s.dead THEN s
  ELSE
  LET un == IF Bit(F, 128) THEN Str(cf, r, s) ELSE s
      (* The standard makes the password binary; the crate's API has it as
         text, so one that is not UTF-8 cannot be represented (a known
         finding, judged only under the configuration "strict"). *)
      pw == IF ~un.dead /\ Bit(F, 64)
            THEN IF cf = "strict" THEN Bin(r, un) ELSE StrAs("lax", r, un)
            ELSE un
      u  == IF Bit(F, 128) THEN un.v ELSE <<>>
      p  == IF Bit(F, 64) THEN pw.v ELSE <<>>
  IN IF pw.dead THEN pw
     ELSE [pw EXCEPT !.v = IF u = <<>> /\ p = <<>> THEN <<>> ELSE << [u |-> u, p |-> p] >>]

DecConnect(cf, r, s) ==
  LET name == Str(cf, r, s)
      lev0 == U8(r, name)
  IN
  IF name.dead \/ lev0.dead THEN
     (* both a wrong name and a missing level may be reported *)
     IF ~name.dead /\ name.v # RBytes(<<77, 81, 84, 84>>)
     THEN Fault(lev0, "protocol", 0) ELSE lev0
  ELSE IF name.v # RBytes(<<77, 81, 84, 84>>) THEN
     (* either of a wrong name and a wrong level may be reported *)
     Die(IF lev0.v # 5 THEN Fault(lev0, "level", lev0.v) ELSE lev0, "protocol", 0)
  ELSE IF lev0.v # 5 THEN Die(lev0, "level", lev0.v)
  ELSE
  LET fl    == U8(r, lev0)
      keep  == U16(r, fl)
      props == Props(cf, "CONNECT", r, keep)
      cid   == Str(cf, r, props)
      F     == fl.v
      will  == DecWill(cf, F, r, cid)
      login == DecLogin(cf, F, r, will)
      end   == AtEnd(GrayIf(login, ~cid.dead /\ Bit(F, 1), "form"))
      authy == \E i \in 1..Len(props.v) : props.v[i][1] = 22
      methy == \E i \in 1..Len(props.v) : props.v[i][1] = 21
  IN IF end.f # <<>> THEN end
     ELSE Out(GrayIf(end, authy /\ ~methy, "value"),
           [k |-> "CONNECT", keep |-> keep.v, cid |-> cid.v, clean |-> Bit(F, 2),
            props |-> props.v, will |-> will.v, login |-> login.v])

DecConnAck(cf, r, s) ==
  LET fl    == U8(r, s)
      rc    == U8(r, fl)
      code  == Reason("CONNACK", rc)
      props == Props(cf, "CONNACK", r, code)
      end   == AtEnd(props)
  IN IF end.f # <<>> THEN end
     ELSE Out(GrayIf(end, fl.v > 1, "form"),
              [k |-> "CONNACK", sp |-> Bit(fl.v, 1), reason |-> code.v,
               props |-> props.v])

DecPublish(cf, r, s, b1) ==
  LET qos   == (b1 \div 2) % 4
      topic == Str(cf, r, s)
      pkid  == IF qos = 0 THEN [topic EXCEPT !.v = 0] ELSE U16(r, topic)
      pk2   == IF qos > 0 /\ ~pkid.dead /\ pkid.v = 0
               THEN Fault(pkid, "pkidzero", 0) ELSE pkid
      props == Props(cf, "PUBLISH", r, pk2)
      dup   == Bit(b1, 8)
  IN IF qos = 3 THEN Die(topic, "qos", 3)
     ELSE IF props.f # <<>> THEN props
     ELSE Out([GrayIf(props, dup /\ qos = 0, "value") EXCEPT !.n = 0],
              [k |-> "PUBLISH", dup |-> dup, qos |-> qos, retain |-> Bit(b1, 1),
               topic |-> topic.v, pkid |-> pk2.v, props |-> props.v,
               payload |-> Slice(r, props, props.n)])

DecAck(cf, k, r, s) ==
  LET pkid  == PkId(r, s)
      rc    == IF ~pkid.dead /\ pkid.n = 0 THEN [pkid EXCEPT !.v = 0]
               ELSE U8(r, pkid)
      code  == Reason(k, rc)
      props == IF ~code.dead /\ code.n = 0 THEN [code EXCEPT !.v = <<>>]
               ELSE Props(cf, k, r, code)
      end   == AtEnd(props)
  IN IF end.f # <<>> THEN end
     ELSE Out(end, [k |-> k, pkid |-> pkid.v, reason |-> code.v, props |-> props.v])

FilterStep(cf, r, s) ==
  LET acc  == s.v
      path == Str(cf, r, s)
      opt  == U8(r, path)
      q    == opt.v % 4
      rh   == (opt.v \div 16) % 4
      a    == IF q # 3 THEN opt ELSE Fault(opt, "qos", 3)
      b    == IF rh # 3 THEN a ELSE Fault(a, "retainrule", 3)
  IN IF opt.dead THEN opt
     ELSE [GrayIf(b, opt.v > 63, "form") EXCEPT
             !.v = Append(acc, [path |-> path.v, qos |-> q, nl |-> Bit(opt.v, 4),
                                rap |-> Bit(opt.v, 8), rh |-> rh])]
RECURSIVE FilterLoop(_, _, _)
FilterLoop(cf, r, s) ==
  IF Ended(s) THEN s
  ELSE FilterLoop(cf, r, FoldLeft(LAMBDA t, i : IF Ended(t) THEN t ELSE FilterStep(cf, r, t), s, Block))

DecSubscribe(cf, r, s) ==
  LET pkid  == PkId(r, s)
      props == Props(cf, "SUBSCRIBE", r, pkid)
      fl    == FilterLoop(cf, r, [props EXCEPT !.v = <<>>])
      end   == IF ~fl.dead /\ ~props.dead /\ props.n = 0
               THEN Fault(fl, "emptysub", 0) ELSE fl
  IN IF end.f # <<>> THEN end
     ELSE Out(end, [k |-> "SUBSCRIBE", pkid |-> pkid.v, props |-> props.v,
                    filters |-> fl.v])

StrStep(cf, r, s) ==
  LET x == Str(cf, r, s) IN IF x.dead THEN x ELSE [x EXCEPT !.v = Append(s.v, x.v)]
RECURSIVE StrLoop(_, _, _)
StrLoop(cf, r, s) ==
  IF Ended(s) THEN s
  ELSE StrLoop(cf, r, FoldLeft(LAMBDA t, i : IF Ended(t) THEN t ELSE StrStep(cf, r, t), s, Block))

DecUnsubscribe(cf, r, s) ==
  LET pkid  == PkId(r, s)
      props == Props(cf, "UNSUBSCRIBE", r, pkid)
      fl    == StrLoop(cf, r, [props EXCEPT !.v = <<>>])
      end   == IF ~fl.dead /\ ~props.dead /\ props.n = 0
               THEN Fault(fl, "emptysub", 0) ELSE fl
  IN IF end.f # <<>> THEN end
     ELSE Out(end, [k |-> "UNSUBSCRIBE", pkid |-> pkid.v, props |-> props.v,
                    filters |-> fl.v])

(* The rest of the frame is reason codes, taken run by run.  No more than
   two bad ones are told apart. *)
CodeList(k, r, s) ==
  IF s.dead THEN s
  ELSE LET runs == Slice(r, s, s.n)
           bad  == SelectSeq(runs, LAMBDA x : x[1] \notin ReasonNums[k])
           one  == << <<"reason", bad[1][1]>> >>
       IN [s EXCEPT
             !.n = 0,
             !.f = @ \o (IF bad = <<>> THEN <<>>
                         ELSE IF Len(bad) = 1 /\ bad[1][2] = 1 THEN one
                         ELSE one \o one),
             !.v = IF bad # <<>> THEN <<>>
                   ELSE FoldLeft(LAMBDA a, x :
                                   a \o [i \in 1..x[2] |-> ReasonName[k][x[1]]],
                                 <<>>, runs)]

DecListAck(cf, k, r, s) ==
  LET pkid  == PkId(r, s)
      props == Props(cf, k, r, pkid)
      cl    == CodeList(k, r, props)
      end   == IF ~props.dead /\ props.n = 0 THEN Fault(cl, "emptyack", 0) ELSE cl
  IN IF end.f # <<>> THEN end
     ELSE Out(end, [k |-> k, pkid |-> pkid.v, props |-> props.v, codes |-> cl.v])

DecDisconnect(cf, r, s) ==
  LET rc    == IF s.n = 0 THEN [s EXCEPT !.v = 0] ELSE U8(r, s)
      code  == Reason("DISCONNECT", rc)
      props == IF ~code.dead /\ code.n = 0 THEN [code EXCEPT !.v = <<>>]
               ELSE Props(cf, "DISCONNECT", r, code)
      end   == AtEnd(props)
  IN IF end.f # <<>> THEN end
     ELSE Out(end, [k |-> "DISCONNECT", reason |-> code.v, props |-> props.v])

(* fr: a rope holding exactly one complete frame; hl: its header length *)
DecodeAt(cf, fr, hl) ==
  LET b1   == fr[1][1]
      type == b1 \div 16
      s    == St(fr, Adv(fr, Cursor(fr), hl))
      k    == Kinds[type]
      t    == GrayIf(s, k # "PUBLISH" /\ k # "DISCONNECT"
                        /\ b1 % 16 # HeaderFlags[k], "form")
  IN IF type \in {0, 15} THEN Die(s, "type", type)
     ELSE IF s.n = 0 /\ k \notin {"PINGREQ", "PINGRESP", "DISCONNECT"}
          THEN Die(IF k = "PUBLISH" /\ (b1 \div 2) % 4 = 3 THEN Fault(t, "qos", 3) ELSE t,
                   "nobody", 0)
     ELSE CASE k = "CONNECT" -> DecConnect(cf, fr, t)
            [] k = "CONNACK" -> DecConnAck(cf, fr, t)
            [] k = "PUBLISH" -> DecPublish(cf, fr, t, b1)
            [] k \in AckKinds -> DecAck(cf, k, fr, t)
            [] k = "SUBSCRIBE" -> DecSubscribe(cf, fr, t)
            [] k = "UNSUBSCRIBE" -> DecUnsubscribe(cf, fr, t)
            [] k \in ListAcks -> DecListAck(cf, k, fr, t)
            [] k \in {"PINGREQ", "PINGRESP"} -> Out(AtEnd(t), [k |-> k])
            [] k = "DISCONNECT" ->
                 IF b1 % 16 # 0
                 THEN LET d == DecDisconnect(cf, fr, t)
                      IN [d EXCEPT !.f = << <<"dflags", b1 % 16>> >> \o @]
                 ELSE DecDisconnect(cf, fr, t)

(* The parts of packets that have functions of their own: a property       *)
(* section (k: whose), and three parts of CONNECT and SUBSCRIBE.  F: the   *)
(* connect flags.                                                          *)
DecPart(cf, k, F, r) ==
  LET s == St(r, Cursor(r)) IN
  CASE k = "lastwill" -> DecWill(cf, F, r, s)
    [] k = "login"    -> DecLogin(cf, F, r, s)
    [] k = "filters"  -> FilterLoop(cf, r, [s EXCEPT !.v = <<>>])
    [] OTHER          -> Props(cf, k, r, s)

(* The meaning of a complete frame: faults f, gray marks g, packet v. *)
Decode(cf, fr) ==
  LET F == Frame(fr, <<>>)
      d == DecodeAt(cf, fr, F.hl)
  IN IF F.gray THEN Gray(d, "form") ELSE d

(* The wire image b (a rope) denotes the packet np and nothing else. *)
Denotes(cf, b, np) ==
  LET F == Frame(b, <<>>) IN
  /\ F.t = "frame" /\ F.total = RLen(b) /\ ~F.gray
  /\ LET d == DecodeAt(cf, b, F.hl)
     IN d.f = <<>> /\ "form" \notin d.g /\ d.v.k = np.k /\ d.v = np
=============================================================================
