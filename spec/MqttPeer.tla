------------------------------ MODULE MqttPeer ------------------------------
(***************************************************************************)
(* The peer: a state machine that builds packets and frames the way the    *)
(* grammar of MQTT 5 allows, damages them in one place (or several), and   *)
(* decides how they are delivered.  Its terminal states are session plans; *)
(* TLC enumerates all of them, the harness runs each against the real      *)
(* library, and module Trace judges the outcome.                           *)
(*                                                                         *)
(*   packet --Encode--> frame --Damage*--> frame --Deliver--> plan         *)
(*     \-----------------Submit (write it)------------------->/            *)
(*                                                                         *)
(* FAM selects one family of behaviours (which packets, which damages,     *)
(* which deliveries), so that each family's graph is explored exhaustively *)
(* on its own.  The invariants are the specification's own theorems: an    *)
(* undamaged frame decodes to the packet it was made from, and a damage    *)
(* that has a name is found by Decode under that name.                     *)
(***************************************************************************)
EXTENDS MqttCodec, Integers, Json, IOUtils

Fam == IOEnv.FAM

VARIABLES ph,    \* "packet" | "frame" | "submitted" | "plan"
          p,     \* the packet (as a caller builds it)
          fr,    \* the frame in pieces: [b1, fs, pad]
          wire,  \* its bytes
          dm,    \* damages done: sequence of <<name, value>>
          plan,  \* [mode, max, ops]
          sent,  \* frames sent before this one
          subm   \* packets handed to the library for writing
vars == <<ph, p, fr, wire, dm, plan, sent, subm>>

-----------------------------------------------------------------------------
Flat(s) == FoldLeft(LAMBDA a, b : a \o b, <<>>, s)

(* Small distinguishable values *)
T(n, o) == RBytes([i \in 1..n |-> 97 + ((i + o) % 26)])
B(n, o) == RBytes([i \in 1..n |-> (37 * i + 91 * o + 200) % 256])

SampleValue(id, i) ==
  LET t == PropTypes[id] IN
  CASE t = "u8" -> 1
    [] t = "u16" -> 258 + id + i
    [] t = "u32" -> <<772, 256 + id + i>>
    [] t = "vbi" -> 200 + 100 * i + id
    [] t = "str" -> T(3 + i, id)
    [] t = "bin" -> B(2 + i, id)
    [] t = "pair" -> <<T(1 + i, id), T(2, id + i)>>

U8Vals  == <<0, 1, 2, 127, 128, 255>>
U16Vals == <<0, 1, 2, 127, 128, 255, 256, 257, 512, 4660, 32767, 32768, 43981, 65280, 65534, 65535>>
U32Vals == << <<0,0>>, <<0,1>>, <<0,255>>, <<0,256>>, <<0,65535>>, <<1,0>>, <<258,772>>, <<32767,65535>>,
              <<32768,0>>, <<65280,255>>, <<65535,65534>>, <<65535,65535>> >>
VbiVals == <<0, 1, 127, 128, 129, 255, 256, 300, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152,
             16777216, 134217728, 268435454, 268435455>>
StrVals == << <<>>, T(1, 0), T(2, 3), RBytes(<<0>>), RBytes(<<47>>), RBytes(<<32, 97, 32>>),
              RBytes(<<195, 169>>), RBytes(<<239, 187, 191, 97>>), RBytes(<<239, 191, 189>>),
              RBytes(<<240, 159, 146, 150>>), RBytes(<<244, 143, 191, 191>>), RBytes(<<13, 10>>),
              RRep(97, 127), RRep(98, 128), RRep(99, 255), RRep(100, 256),
              RBytes(<<35>>), RBytes(<<43>>), RBytes(<<47, 47>>), RBytes(<<97, 47, 43, 47, 35>>), RBytes(<<36, 83, 89, 83>>),
              RBytes(<<36, 115, 104, 97, 114, 101, 47, 103, 47, 35>>), RBytes(<<239, 187, 191>>), RBytes(<<239, 191, 191>>),
              RBytes(<<127>>), RBytes(<<194, 133>>), RBytes(<<97, 0, 98>>), RBytes(<<101, 204, 129>>), RBytes(<<77, 81, 84, 84>>) >>
BinVals == << <<>>, RBytes(<<0>>), RBytes(<<255>>), RBytes(<<0, 0, 255, 254>>), B(9, 1), RRep(0, 128), RRep(255, 256) >>
PairVals == << << <<>>, <<>> >>, <<T(1, 1), <<>> >>, << <<>>, T(1, 2)>>, <<T(2, 1), T(2, 1)>>,
               <<RRep(97, 126), T(2, 9)>>, <<T(1, 4), RRep(122, 255)>>, <<RBytes(<<195, 169>>), RBytes(<<240, 159, 146, 150>>)>> >>
ValuesOf(id) ==
  LET t == PropTypes[id] IN
  CASE t = "u8" -> U8Vals [] t = "u16" -> U16Vals [] t = "u32" -> U32Vals [] t = "vbi" -> VbiVals
    [] t = "str" -> StrVals [] t = "bin" -> BinVals [] t = "pair" -> PairVals

FullProps(ctx) ==
  Flat([i \in 1..Len(Allowed[ctx]) |->
     LET id == Allowed[ctx][i]
     IN IF Repeatable(ctx, id) THEN << <<id, SampleValue(id, 0)>>, <<id, SampleValue(id, 1)>> >>
        ELSE << <<id, SampleValue(id, 0)>> >>])

Contexts == DOMAIN Allowed
CtxSeq == <<"CONNECT", "WILL", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
            "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "DISCONNECT">>

MkFilter(n, i) == [path |-> T(n, i), qos |-> i % 3, nl |-> i % 2 = 1, rap |-> (i \div 2) % 2 = 1, rh |-> (i + 1) % 3]

(* a packet of kind k with the given (raw) property set; will packets are   *)
(* CONNECTs whose will has them                                            *)
With(ctx, ps) ==
  CASE ctx = "CONNECT" -> [k |-> "CONNECT", keep |-> 300, cid |-> T(4, 2), clean |-> TRUE, props |-> ps,
                           will |-> <<>>, login |-> <<>>]
    [] ctx = "WILL" -> [k |-> "CONNECT", keep |-> 513, cid |-> T(3, 5), clean |-> FALSE, props |-> <<>>,
                        will |-> << [topic |-> T(2, 7), msg |-> B(4, 3), qos |-> 1, retain |-> TRUE, props |-> ps] >>,
                        login |-> << [u |-> T(2, 11), p |-> T(3, 13)] >>]
    [] ctx = "CONNACK" -> [k |-> "CONNACK", sp |-> TRUE, reason |-> "Success", props |-> ps]
    [] ctx = "PUBLISH" -> [k |-> "PUBLISH", dup |-> FALSE, qos |-> 1, retain |-> FALSE, topic |-> T(3, 1),
                           pkid |-> 4660, props |-> ps, payload |-> B(5, 2)]
    [] ctx \in AckKinds -> [k |-> ctx, pkid |-> 4660, reason |-> "Success", props |-> ps]
    [] ctx = "SUBSCRIBE" -> [k |-> ctx, pkid |-> 4660, props |-> ps, filters |-> <<MkFilter(2, 1), MkFilter(3, 5)>>]
    [] ctx = "UNSUBSCRIBE" -> [k |-> ctx, pkid |-> 4660, props |-> ps, filters |-> <<T(2, 1), T(3, 4)>>]
    [] ctx = "SUBACK" -> [k |-> ctx, pkid |-> 4660, props |-> ps, codes |-> <<"Granted1", "QuotaExceeded">>]
    [] ctx = "UNSUBACK" -> [k |-> ctx, pkid |-> 4660, props |-> ps, codes |-> <<"NoSubscriptionExisted", "Success">>]
    [] ctx = "DISCONNECT" -> [k |-> ctx, reason |-> "ServerBusy", props |-> ps]

Ping(k) == [k |-> k]
Small == [i \in 1..13 |-> With(CtxSeq[i], <<>>)] \o <<Ping("PINGREQ"), Ping("PINGRESP")>>
Rich  == [i \in 1..13 |-> With(CtxSeq[i], <<FullProps(CtxSeq[i])>>)]
(* everything a CONNECT can have *)
Whole == [With("WILL", <<FullProps("WILL")>>) EXCEPT !.props = <<FullProps("CONNECT")>>]

SetReason(x, name) == IF x.k \in ListAcks THEN [x EXCEPT !.codes = <<name>>] ELSE [x EXCEPT !.reason = name]
ReasonCtx == <<"CONNACK", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK", "DISCONNECT">>

-----------------------------------------------------------------------------
(* Frames in pieces *)
PTag(n, v)  == [t |-> "tag", n |-> n, v |-> v]
PRaw(n, b)  == [t |-> "raw", n |-> n, b |-> b]
PStr(b)     == [t |-> "str", b |-> b, txt |-> TRUE, d |-> 0]
PBin(b)     == [t |-> "str", b |-> b, txt |-> FALSE, d |-> 0]
PVbi(v)     == [t |-> "vbi", v |-> v, pad |-> 0]
PVal(type, v) ==
  CASE type = "u8" -> <<PTag("u8", v)>>
    [] type = "u16" -> <<PRaw("u16", EncU16(v))>>
    [] type = "u32" -> <<PRaw("u32", EncU32(v))>>
    [] type = "vbi" -> <<PVbi(v)>>
    [] type = "str" -> <<PStr(v)>>
    [] type = "bin" -> <<PBin(v)>>
    [] type = "pair" -> <<PStr(v[1]), PStr(v[2])>>
PSec(ctx, l) == [t |-> "sec", ctx |-> ctx, d |-> 0, pad |-> 0,
                 ps |-> [i \in 1..Len(l) |-> [id |-> l[i][1], fs |-> PVal(PropTypes[l[i][1]], l[i][2])]]]

Pieces(x) ==                        \* x: a packet in normal form
  CASE x.k = "CONNECT" ->
         <<PRaw("proto", RBytes(<<0, 4, 77, 81, 84, 84>>)), PTag("level", 5),
           PTag("cflags", (IF x.clean THEN 2 ELSE 0) + (IF x.will = <<>> THEN 0 ELSE WillFlags(x.will[1]))
                          + (IF x.login = <<>> THEN 0 ELSE LoginFlags(x.login[1]))),
           PRaw("keep", EncU16(x.keep)), PSec("CONNECT", x.props), PStr(x.cid)>>
         \o (IF x.will = <<>> THEN <<>>
             ELSE <<PSec("WILL", x.will[1].props), PBin(x.will[1].topic), PBin(x.will[1].msg)>>)
         \o (IF x.login = <<>> \/ x.login[1].u = <<>> THEN <<>> ELSE <<PStr(x.login[1].u)>>)
         \o (IF x.login = <<>> \/ x.login[1].p = <<>> THEN <<>> ELSE <<PBin(x.login[1].p)>>)
    [] x.k = "CONNACK" -> <<PTag("ackflags", IF x.sp THEN 1 ELSE 0),
                            PTag("reason", ReasonNum[x.k][x.reason]), PSec(x.k, x.props)>>
    [] x.k = "PUBLISH" -> <<PStr(x.topic)>> \o (IF x.qos = 0 THEN <<>> ELSE <<PRaw("pkid", EncU16(x.pkid))>>)
                          \o <<PSec(x.k, x.props), PRaw("payload", x.payload)>>
    [] x.k \in AckKinds -> <<PRaw("pkid", EncU16(x.pkid)), PTag("reason", ReasonNum[x.k][x.reason]), PSec(x.k, x.props)>>
    [] x.k = "SUBSCRIBE" -> <<PRaw("pkid", EncU16(x.pkid)), PSec(x.k, x.props)>>
         \o Flat([i \in 1..Len(x.filters) |->
              LET f == x.filters[i]
              IN <<PStr(f.path), PTag("subopt", f.qos + (IF f.nl THEN 4 ELSE 0) + (IF f.rap THEN 8 ELSE 0) + 16 * f.rh)>>])
    [] x.k = "UNSUBSCRIBE" -> <<PRaw("pkid", EncU16(x.pkid)), PSec(x.k, x.props)>>
         \o [i \in 1..Len(x.filters) |-> PStr(x.filters[i])]
    [] x.k \in ListAcks -> <<PRaw("pkid", EncU16(x.pkid)), PSec(x.k, x.props)>>
         \o [i \in 1..Len(x.codes) |-> PTag("reason", ReasonNum[x.k][x.codes[i]])]
    [] x.k \in {"PINGREQ", "PINGRESP"} -> <<>>
    [] x.k = "DISCONNECT" -> <<PTag("reason", ReasonNum[x.k][x.reason]), PSec(x.k, x.props)>>

(* a length with pad superfluous continuation bytes *)
PadVbi(n, pad) ==
  LET b == VbiBytes(n) IN
  IF pad = 0 THEN RBytes(b)
  ELSE RBytes([i \in 1..(Len(b) + pad) |->
         IF i < Len(b) THEN b[i] ELSE IF i = Len(b) THEN b[i] + 128 ELSE IF i < Len(b) + pad THEN 128 ELSE 0])

Clamp(n, m) == IF n < 0 THEN 0 ELSE IF n > m THEN m ELSE n

PieceBytes(x) ==
  CASE x.t = "tag" -> EncU8(x.v)
    [] x.t = "raw" -> x.b
    [] x.t = "str" -> RCat(EncU16(Clamp(RLen(x.b) + x.d, 65535)), x.b)
    [] x.t = "vbi" -> PadVbi(x.v, x.pad)
FlatProp(q) == RCat(EncU8(q.id), RCatAll([i \in 1..Len(q.fs) |-> PieceBytes(q.fs[i])]))
SecBody(x)  == RCatAll([i \in 1..Len(x.ps) |-> FlatProp(x.ps[i])])
TopBytes(x) == IF x.t = "sec"
               THEN LET b == SecBody(x) IN RCat(PadVbi(Clamp(RLen(b) + x.d, MaxVbi), x.pad), b)
               ELSE PieceBytes(x)
BodyBytes(fs) == RCatAll([i \in 1..Len(fs) |-> TopBytes(fs[i])])
FrameBytes(b1, body, pad) == RCatAll(<<EncU8(b1), PadVbi(RLen(body), pad), body>>)
Bytes(f) == FrameBytes(f.b1, BodyBytes(f.fs), f.pad)

FrameOf(x) == LET np == Norm(x) IN [b1 |-> Byte1(np), fs |-> Pieces(np), pad |-> 0]

(* positions of pieces of a type (and name) in a frame *)
At(f, t)     == {i \in 1..Len(f.fs) : f.fs[i].t = t}
Tag(f, n)    == {i \in At(f, "tag") : f.fs[i].n = n}
Raw(f, n)    == {i \in At(f, "raw") : f.fs[i].n = n}
Secs(f)      == At(f, "sec")
(* lengths at which a body can be cut *)
BodyLen(f)   == RLen(BodyBytes(f.fs))

-----------------------------------------------------------------------------
(* Session plans *)
OpF(b)   == [o |-> "F", b |-> b]
OpR(m)   == [o |-> "R", max |-> m]
OpD(m)   == [o |-> "D", max |-> m]
OpW(x)   == [o |-> "W", p |-> x]
OpT(n)   == [o |-> "T", n |-> n]
OpO(b)   == [o |-> "O", b |-> b]
OpZ(of, how) == [o |-> "Z", of |-> of, how |-> how]
OpP(k, F, b) == [o |-> "P", k |-> k, fl |-> F, b |-> b]
OpK(n, a) == [o |-> "K", n |-> n, a |-> a]
OpH(b, m, lim) == [o |-> "H", b |-> b, max |-> m, lim |-> lim]
Plan(mode, max, ops) == [mode |-> mode, max |-> max, ops |-> ops]
(* two endpoints in one process, their steps taken in the order sched (repeated) *)
Duo(a, b, sched) == [lanes |-> <<a, b>>, sched |-> sched]

PingBytes == RBytes(<<192, 0>>)
(* one frame, followed by another packet *)
OneShot(w) == Plan("one", <<>>, <<OpF(w), OpF(PingBytes), OpR(<<>>), OpR(<<>>)>>)
(* a stream, a byte at a time, reading whenever possible *)
Trickle(w, m) ==
  Plan("chunk", m, Flat([i \in 1..RLen(w) |-> <<OpF(RByte(RAt(w, i))), OpD(m)>>]))
(* a stream in two deliveries *)
Halves(w, c, m) == Plan("chunk", m, <<OpF(RTake(w, c)), OpD(m), OpF(RDrop(w, c)), OpD(m)>>)
(* a reader that fetches what it is asked for, from a source that may give less *)
Asking(w, m, lim) == Plan("hint", m, <<OpH(w, m, lim)>>)
WriteIt(x) == Plan("one", <<>>, <<OpO(RBytes(<<208, 0, 7>>)), OpW(x)>>)
OnlyWrite(x) == Plan("one", <<>>, <<OpW(x)>>)

-----------------------------------------------------------------------------
(***************************************************************************)
(* Families.  Starts: the packets; Damages(f): the set of <<name, value,   *)
(* frame>>; whether the packet is also written; deliveries of the bytes.   *)
(***************************************************************************)
EachProp(mk(_, _, _)) ==            \* over contexts, identifiers, values
  Flat([c \in 1..Len(CtxSeq) |->
    Flat([i \in 1..Len(Allowed[CtxSeq[c]]) |->
      LET id == Allowed[CtxSeq[c]][i]
      IN [j \in 1..Len(ValuesOf(id)) |-> mk(CtxSeq[c], id, ValuesOf(id)[j])]])])

ValsStarts == EachProp(LAMBDA c, id, v : With(c, << << <<id, v>> >> >>))

(* every ordered pair of properties of a packet, in the order they are sent *)
PairsStarts ==
  Flat([c \in 1..Len(CtxSeq) |->
    LET A == Allowed[CtxSeq[c]] IN
    Flat([i \in 1..Len(A) |->
      SelectSeq([j \in 1..Len(A) |->
         With(CtxSeq[c], << << <<A[i], SampleValue(A[i], 0)>>, <<A[j], SampleValue(A[j], 1)>> >> >>)],
         LAMBDA x : TRUE)])])
SectionOf(x) == IF x.k = "CONNECT" /\ x.will # <<>> THEN x.will[1].props ELSE x.props
ContextOf(x) == IF x.k = "CONNECT" /\ x.will # <<>> THEN "WILL" ELSE x.k
Sorted(x) ==                        \* in normal order, nothing twice that must not be
  IF x.k \in {"PINGREQ", "PINGRESP"} THEN TRUE
  ELSE IF SectionOf(x) = <<>> THEN TRUE
  ELSE LET l == SectionOf(x)[1]
       IN \A i \in 1..(Len(l) - 1) :
            l[i][1] < l[i+1][1] \/ (l[i][1] = l[i+1][1] /\ Repeatable(ContextOf(x), l[i][1]))

ReasonStarts ==
  Flat([c \in 1..Len(ReasonCtx) |->
    LET k == ReasonCtx[c]
        names == [i \in 1..Len(ReasonTable[k]) |-> ReasonTable[k][i][2]]
    IN Flat([i \in 1..Len(names) |->
         <<SetReason(With(k, <<>>), names[i]), SetReason(With(k, << <<>> >>), names[i]),
           SetReason(With(k, << << <<38, SampleValue(38, 0)>> >> >>), names[i])>>])])
  \o [i \in 1..3 |-> SetReason(With("CONNACK", <<>>), <<"RefusedProtocolVersion", "BadClientId", "ServiceUnavailable">>[i])]

(* flag combinations of packets *)
Bools == <<FALSE, TRUE>>
FlagStarts ==
  Flat([q \in 1..3 |-> Flat([d \in 1..2 |-> [r \in 1..2 |->
     [With("PUBLISH", <<>>) EXCEPT !.qos = q - 1, !.dup = Bools[d], !.retain = Bools[r],
                                   !.pkid = IF q = 1 THEN 0 ELSE @]]])])
  \o Flat([q \in 1..3 |-> Flat([n \in 1..2 |-> Flat([a \in 1..2 |-> [h \in 1..3 |->
       [With("SUBSCRIBE", <<>>) EXCEPT !.filters =
          << [path |-> T(2, 1), qos |-> q - 1, nl |-> Bools[n], rap |-> Bools[a], rh |-> h - 1] >>]]])])])
  \o Flat([w \in 1..7 |-> Flat([l \in 1..6 |-> Flat([c \in 1..2 |->
       LET will == IF w = 1 THEN <<>>
                   ELSE << [topic |-> T(2, 3), msg |-> B(3, 1), qos |-> (w - 2) % 3, retain |-> w > 4, props |-> <<>>] >>
           login == <<<<>>, << [u |-> T(2, 0), p |-> T(3, 4)] >>, << [u |-> T(2, 0), p |-> <<>>] >>,
                      << [u |-> <<>>, p |-> T(3, 4)] >>, << [u |-> <<>>, p |-> <<>>] >>,
                      << [u |-> RRep(117, 200), p |-> T(1, 4)] >>>>[l]
       IN << [With("CONNECT", <<>>) EXCEPT !.clean = Bools[c], !.will = will, !.login = login],
             [With("CONNECT", << << <<33, 10>> >> >>) EXCEPT !.clean = Bools[c], !.will = will, !.login = login,
                                                            !.cid = <<>>, !.keep = 0],
             IF w = 1 THEN With("WILL", <<>>)
             ELSE [With("CONNECT", <<>>) EXCEPT !.clean = Bools[c], !.login = login, !.keep = 65535,
                     !.will = << [will[1] EXCEPT !.msg = <<>>, !.props = << << <<24, <<0, 5>>>> >> >>] >>] >>])])])
  \o <<[With("CONNACK", <<>>) EXCEPT !.sp = FALSE], With("CONNACK", <<>>),
       [With("CONNACK", <<>>) EXCEPT !.reason = "NotAuthorized"],
       [With("CONNACK", <<>>) EXCEPT !.reason = "NotAuthorized", !.sp = FALSE]>>

PkIds == <<1, 2, 3, 4, 8, 16, 32, 64, 127, 128, 129, 255, 256, 257, 511, 512, 1024, 2048, 4096, 8192, 12336, 16384,
           32767, 32768, 32769, 48879, 65280, 65407, 65534, 65535>>
PkIdStarts ==
  Flat([i \in 1..Len(PkIds) |->
    [c \in 1..9 |->
       LET k == <<"PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK">>[c]
       IN [With(k, <<>>) EXCEPT !.pkid = PkIds[i]]]
    \o <<[With("PUBLISH", <<>>) EXCEPT !.pkid = PkIds[i], !.qos = 2, !.dup = TRUE],
         [With("CONNECT", <<>>) EXCEPT !.keep = PkIds[i]]>>])

(* one string field at a time gets each length *)
Lengths == <<0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 16380, 16383, 16384, 16385, 32767, 32768, 65534, 65535>>
OverLengths == <<65536, 65537, 65791, 65792, 131071, 131072, 196608>>
StrFields(L) ==                     \* packets with a string of the length L in each place
  <<[With("CONNECT", <<>>) EXCEPT !.cid = L],
    [With("WILL", <<>>) EXCEPT !.login = << [u |-> L, p |-> T(1, 1)] >>],
    [With("WILL", <<>>) EXCEPT !.login = << [u |-> T(1, 1), p |-> L] >>],
    [With("WILL", <<>>) EXCEPT !.login = << [u |-> <<>>, p |-> L] >>],
    [With("WILL", <<>>) EXCEPT !.will = << [@[1] EXCEPT !.topic = L] >>],
    [With("WILL", <<>>) EXCEPT !.will = << [@[1] EXCEPT !.msg = L] >>],
    [With("PUBLISH", <<>>) EXCEPT !.topic = L],
    [With("PUBLISH", <<>>) EXCEPT !.payload = L],
    [With("SUBSCRIBE", <<>>) EXCEPT !.filters = << [@[1] EXCEPT !.path = L], @[2] >>],
    [With("SUBSCRIBE", <<>>) EXCEPT !.filters = << @[1], [@[2] EXCEPT !.path = L] >>],
    [With("UNSUBSCRIBE", <<>>) EXCEPT !.filters = <<L, @[2]>>],
    [With("UNSUBSCRIBE", <<>>) EXCEPT !.filters = <<@[1], L>>]>>
  \o Flat([c \in 1..Len(CtxSeq) |->
       Flat([i \in 1..Len(Allowed[CtxSeq[c]]) |->
          LET id == Allowed[CtxSeq[c]][i] IN
          CASE PropTypes[id] \in {"str", "bin"} -> <<With(CtxSeq[c], << << <<id, L>> >> >>)>>
            [] PropTypes[id] = "pair" -> <<With(CtxSeq[c], << << <<id, <<L, T(1, 0)>>>> >> >>),
                                           With(CtxSeq[c], << << <<id, <<T(1, 0), L>>>> >> >>)>>
            [] OTHER -> <<>>])])
(* ... and each of the texts that mean something to somebody *)
TextStarts == Flat([i \in 1..Len(StrVals) |-> StrFields(StrVals[i])])
(* the sets of properties a packet can have: all of them, or the smallest and
   the largest where there are too many *)
SubsetStarts ==
  Flat([c \in 1..Len(CtxSeq) |->
    LET A  == Allowed[CtxSeq[c]]
        n  == Len(A)
        Pick(m) == SelectSeq([i \in 1..n |-> IF i \in m THEN <<A[i], SampleValue(A[i], 0)>> ELSE <<0>>],
                             LAMBDA e : Len(e) = 2)
        ok == {m \in SUBSET (1..n) : n < 10 \/ Cardinality(m) < 4 \/ Cardinality(m) > n - 4}
        sq == SetToSeq(ok)
    IN [j \in 1..Len(sq) |-> With(CtxSeq[c], << Pick(sq[j]) >>)]])
SizeStarts == Flat([i \in 1..Len(Lengths) |-> StrFields(RRep(113, Lengths[i]))])
OverStarts == Flat([i \in 1..Len(OverLengths) |-> StrFields(RRep(113, OverLengths[i]))])
  \o Flat([i \in 1..4 |->
       LET v == <<268435456, 268435457, 536870912, 2000000000>>[i] IN
       <<With("PUBLISH", << << <<11, v>> >> >>), With("PUBLISH", << << <<11, 1>>, <<11, v>>, <<11, 2>> >> >>),
         With("SUBSCRIBE", << << <<11, v>> >> >>)>>])
  \o Flat([q \in 1..2 |-> Flat([d \in 1..2 |-> Flat([n \in 1..2 |->
       <<[With("PUBLISH", IF n = 1 THEN <<>> ELSE <<FullProps("PUBLISH")>>)
            EXCEPT !.qos = q, !.dup = Bools[d], !.pkid = 0],
         [With("PUBLISH", IF n = 1 THEN <<>> ELSE <<FullProps("PUBLISH")>>)
            EXCEPT !.qos = q, !.dup = Bools[d], !.pkid = 0, !.payload = <<>>]>>])])])
  \o Flat([i \in 1..3 |->
       LET r == <<"RefusedProtocolVersion", "BadClientId", "ServiceUnavailable">>[i] IN
       <<SetReason(With("CONNACK", <<>>), r), SetReason(With("CONNACK", <<FullProps("CONNACK")>>), r),
         [SetReason(With("CONNACK", << <<>> >>), r) EXCEPT !.sp = FALSE]>>])

(* how many: filters, reason codes, user properties, subscription identifiers *)
Counts == <<1, 2, 3, 16, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257>>
CountStarts ==
  Flat([i \in 1..Len(Counts) |->
    LET n == Counts[i]
        ups == [j \in 1..n |-> <<38, <<RByte(97 + (j % 26)), RByte(65 + (j % 7))>>>>]
        sids == [j \in 1..n |-> <<11, 100 + j>>]
    IN <<[With("SUBSCRIBE", <<>>) EXCEPT !.filters = [j \in 1..n |-> MkFilter(1, j)]],
         [With("UNSUBSCRIBE", <<>>) EXCEPT !.filters = [j \in 1..n |-> T(1, j)]],
         [With("SUBACK", <<>>) EXCEPT !.codes = [j \in 1..n |-> ReasonTable["SUBACK"][1 + (j % 12)][2]]],
         [With("UNSUBACK", <<>>) EXCEPT !.codes = [j \in 1..n |-> ReasonTable["UNSUBACK"][1 + (j % 7)][2]]],
         With("PUBLISH", <<sids>>)>>
       \o (IF n \in {3, 32, 128, 257} THEN [c \in 1..Len(CtxSeq) |-> With(CtxSeq[c], <<ups>>)] ELSE <<>>)])
BigCountStarts ==
  Flat([i \in 1..3 |->
    LET n == <<1023, 1025, 4097>>[i] IN
    <<[With("SUBACK", <<>>) EXCEPT !.codes = [j \in 1..n |-> ReasonTable["SUBACK"][1 + ((j \div 50) % 12)][2]]],
      [With("UNSUBACK", <<>>) EXCEPT !.codes = [j \in 1..n |-> ReasonTable["UNSUBACK"][1 + ((j \div 50) % 7)][2]]]>>])
  \o <<[With("SUBSCRIBE", <<>>) EXCEPT !.filters = [j \in 1..1025 |-> MkFilter(1, j)]],
       [With("UNSUBSCRIBE", <<>>) EXCEPT !.filters = [j \in 1..1025 |-> T(1, j)]]>>

(* elements of lists that equal one another, in every arrangement *)
Words(A, lens) == SetToSeq(UNION {[1..n -> A] : n \in lens})
SameStarts ==
  LET ups == Words({1, 2, 3}, 2..3) \o Words({1, 2}, {4}) \o Words({1}, 5..6)
      up(j) == <<38, <<<<RBytes(<<107>>), RBytes(<<118>>)>>, <<RBytes(<<107>>), RBytes(<<119>>)>>, <<RBytes(<<118>>), RBytes(<<118>>)>>>>[j]>>
      ids == Words({1, 200}, 2..5) \o Words({1, 2, 70000}, {3})
      cs  == Words({1, 2, 3}, 2..4) \o Words({1, 2}, {5}) \o Words({1, 3}, {5}) \o Words({2, 3}, {5})
      flt == <<MkFilter(1, 1), [MkFilter(1, 1) EXCEPT !.qos = 2, !.nl = ~@], MkFilter(2, 2)>>
      un  == <<T(1, 1), T(1, 2), <<>>>>
      f   == Words({1, 2, 3}, 2..4) \o Words({1}, 5..6)
  IN Flat([c \in 1..Len(CtxSeq) |-> [i \in 1..Len(ups) |-> With(CtxSeq[c], <<[j \in 1..Len(ups[i]) |-> up(ups[i][j])]>>)]])
     \o [i \in 1..Len(ids) |-> With("PUBLISH", <<[j \in 1..Len(ids[i]) |-> <<11, ids[i][j]>>]>>)]
     \o [i \in 1..Len(cs) |-> [With("SUBACK", <<>>) EXCEPT !.codes = [j \in 1..Len(cs[i]) |-> ReasonTable["SUBACK"][(<<1, 4, 7>>)[cs[i][j]]][2]]]]
     \o [i \in 1..Len(cs) |-> [With("UNSUBACK", <<>>) EXCEPT !.codes = [j \in 1..Len(cs[i]) |-> ReasonTable["UNSUBACK"][(<<1, 2, 5>>)[cs[i][j]]][2]]]]
     \o [i \in 1..Len(f) |-> [With("SUBSCRIBE", <<>>) EXCEPT !.filters = [j \in 1..Len(f[i]) |-> flt[f[i][j]]]]]
     \o [i \in 1..Len(f) |-> [With("UNSUBSCRIBE", <<>>) EXCEPT !.filters = [j \in 1..Len(f[i]) |-> un[f[i][j]]]]]

(***************************************************************************)
(* Fields that have the same value.  A slot is a place for a text (or      *)
(* bytes), or for a number, in a packet: <<where, property, part>>.        *)
(***************************************************************************)
PropSlots(where, l, types) ==
  Flat([i \in 1..Len(l) |->
     LET t == PropTypes[l[i][1]] IN
     IF t \notin types THEN <<>>
     ELSE IF t = "pair" THEN << <<where, i, 1>>, <<where, i, 2>> >>
     ELSE << <<where, i, 0>> >>])
TextTypes   == {"str", "bin", "pair"}
NumberTypes == {"u8", "u16", "u32", "vbi"}
SlotsOf(x, types) ==
  (IF x.k = "CONNECT" /\ types = TextTypes THEN << <<"cid", 0, 0>> >>
   ELSE IF x.k = "CONNECT" THEN << <<"keep", 0, 0>> >> ELSE <<>>)
  \o (IF x.k = "PUBLISH" /\ types = TextTypes THEN << <<"topic", 0, 0>>, <<"payload", 0, 0>> >> ELSE <<>>)
  \o (IF types = NumberTypes /\ x.k \notin {"CONNECT", "CONNACK", "DISCONNECT"} THEN << <<"pkid", 0, 0>> >> ELSE <<>>)
  \o (IF x.k \in {"SUBSCRIBE", "UNSUBSCRIBE"} /\ types = TextTypes THEN << <<"filters", 1, 0>>, <<"filters", 2, 0>> >> ELSE <<>>)
  \o (IF x.props = <<>> THEN <<>> ELSE PropSlots("props", x.props[1], types))
  \o (IF x.k # "CONNECT" \/ x.will = <<>> THEN <<>>
      ELSE (IF x.will[1].props = <<>> THEN <<>> ELSE PropSlots("wprops", x.will[1].props[1], types))
           \o (IF types # TextTypes THEN <<>>
               ELSE << <<"wtopic", 0, 0>>, <<"wmsg", 0, 0>>, <<"u", 0, 0>>, <<"pw", 0, 0>> >>))
PutProp(l, t, v) == [l EXCEPT ![t[2]] = IF t[3] = 0 THEN <<@[1], v>>
                                        ELSE <<@[1], [@[2] EXCEPT ![t[3]] = v]>>]
NumberFor(x, t, v) ==               \* numbers of 32 bits are kept in two halves
  IF t[1] = "props" /\ PropTypes[x.props[1][t[2]][1]] = "u32" THEN <<0, v>>
  ELSE IF t[1] = "wprops" /\ PropTypes[x.will[1].props[1][t[2]][1]] = "u32" THEN <<0, v>>
  ELSE v
Put(x, t, v) ==
  CASE t[1] = "cid"     -> [x EXCEPT !.cid = v]
    [] t[1] = "keep"    -> [x EXCEPT !.keep = v]
    [] t[1] = "topic"   -> [x EXCEPT !.topic = v]
    [] t[1] = "payload" -> [x EXCEPT !.payload = v]
    [] t[1] = "pkid"    -> [x EXCEPT !.pkid = v]
    [] t[1] = "filters" -> IF x.k = "SUBSCRIBE" THEN [x EXCEPT !.filters[t[2]].path = v]
                           ELSE [x EXCEPT !.filters[t[2]] = v]
    [] t[1] = "props"   -> [x EXCEPT !.props = << PutProp(@[1], t, v) >>]
    [] t[1] = "wprops"  -> [x EXCEPT !.will = << [x.will[1] EXCEPT !.props = << PutProp(@[1], t, v) >>] >>]
    [] t[1] = "wtopic"  -> [x EXCEPT !.will = << [x.will[1] EXCEPT !.topic = v] >>]
    [] t[1] = "wmsg"    -> [x EXCEPT !.will = << [x.will[1] EXCEPT !.msg = v] >>]
    [] t[1] = "u"       -> [x EXCEPT !.login = << [x.login[1] EXCEPT !.u = v] >>]
    [] t[1] = "pw"      -> [x EXCEPT !.login = << [x.login[1] EXCEPT !.p = v] >>]
(* only the properties at the places in S *)
Keep(l, S) == LET r == SelectSeq([i \in 1..Len(l) |-> <<i, l[i]>>], LAMBDA e : e[1] \in S)
              IN IF r = <<>> THEN <<>> ELSE << [i \in 1..Len(r) |-> r[i][2]] >>
OnlySlots(x, S) ==
  LET at(w) == {t[2] : t \in {u \in S : u[1] = w}}
      y == [x EXCEPT !.props = IF @ = <<>> THEN @ ELSE Keep(@[1], at("props"))]
  IN IF x.k # "CONNECT" \/ x.will = <<>> THEN y
     ELSE IF {t \in S : t[1] \in {"wprops", "wtopic", "wmsg"}} = {}
     THEN [y EXCEPT !.will = <<>>, !.login = IF {t \in S : t[1] \in {"u", "pw"}} = {} THEN <<>> ELSE @]
     ELSE [y EXCEPT !.will = << [x.will[1] EXCEPT !.props = IF @ = <<>> THEN @ ELSE Keep(@[1], at("wprops"))] >>,
                    !.login = IF {t \in S : t[1] \in {"u", "pw"}} = {} THEN <<>> ELSE @]
(* packets of every kind that have nothing in common with those above *)
Others ==
  <<[k |-> "CONNECT", keep |-> 9, cid |-> T(11, 9), clean |-> TRUE, props |-> << << <<17, <<7, 9>>>>, <<38, <<T(9, 4), T(7, 1)>>>> >> >>,
     will |-> << [topic |-> T(7, 8), msg |-> B(9, 8), qos |-> 2, retain |-> FALSE, props |-> << << <<24, <<1, 1>>>> >> >>] >>,
     login |-> << [u |-> T(9, 1), p |-> T(8, 2)] >>],
    [k |-> "CONNACK", sp |-> FALSE, reason |-> "ServerBusy", props |-> << << <<31, T(20, 3)>> >> >>],
    [k |-> "PUBLISH", dup |-> TRUE, qos |-> 2, retain |-> TRUE, topic |-> T(12, 5), pkid |-> 257,
     props |-> << << <<35, 77>>, <<38, <<T(5, 5), T(6, 6)>>>> >> >>, payload |-> B(40, 6)]>>
  \o [i \in 1..4 |-> LET k == (<<"PUBACK", "PUBREC", "PUBREL", "PUBCOMP">>)[i]
                      IN [k |-> k, pkid |-> 999, reason |-> IF i < 3 THEN "QuotaExceeded" ELSE "PacketIdentifierNotFound",
                          props |-> << << <<31, T(15, 8)>> >> >>]]
  \o <<[k |-> "SUBSCRIBE", pkid |-> 17, props |-> << << <<11, 70000>> >> >>, filters |-> [j \in 1..3 |-> MkFilter(5 + j, j + 9)]],
        [k |-> "SUBACK", pkid |-> 18, props |-> <<>>, codes |-> <<"Granted0", "Granted2", "NotAuthorized", "Granted0">>],
        [k |-> "UNSUBSCRIBE", pkid |-> 19, props |-> <<>>, filters |-> [j \in 1..3 |-> T(5 + j, j + 9)]],
        [k |-> "UNSUBACK", pkid |-> 20, props |-> <<>>, codes |-> <<"Success", "NotAuthorized", "Success", "Success">>],
        [k |-> "DISCONNECT", reason |-> "KeepAliveTimeout", props |-> << << <<31, T(18, 3)>> >> >>]>>
AlikeBases == <<Whole, [With("PUBLISH", <<FullProps("PUBLISH")>>) EXCEPT !.qos = 2]>>
              \o [c \in 1..10 |-> LET k == (<<"CONNACK", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
                                              "UNSUBSCRIBE", "UNSUBACK", "DISCONNECT">>)[c]
                                   IN With(k, <<FullProps(k)>>)]
AlikeTexts   == <<T(1, 20), T(5, 16), RRep(98, 255)>>
AlikeStarts ==
  Flat([b \in 1..Len(AlikeBases) |->
    LET x == AlikeBases[b]
        pairs(types, vals, num(_, _)) ==
          LET S == SlotsOf(x, types) IN
          Flat([i \in 1..Len(S) |->
            Flat([j \in 1..(i - 1) |->
              Flat([k \in 1..Len(vals) |->
                 LET y == Put(Put(x, S[i], num(S[i], vals[k])), S[j], num(S[j], vals[k]))
                     z == OnlySlots(y, {S[i], S[j]})
                 IN <<y, z>>])])])
        all(types, vals, num(_, _)) ==
          LET S == SlotsOf(x, types) IN
          [k \in 1..Len(vals) |-> FoldLeft(LAMBDA y, t : Put(y, t, num(t, vals[k])), x, S)]
        text(t, v) == v
        number(t, v) == IF t[1] = "pkid" /\ v = 0 THEN 1 ELSE NumberFor(x, t, v)
    IN pairs(TextTypes, AlikeTexts, text) \o all(TextTypes, AlikeTexts \o << <<>>, RRep(98, 4), RBytes(<<77, 81, 84, 84>>) >>, text)
       \o pairs(NumberTypes, <<1, 10>>, number) \o all(NumberTypes, <<0, 1, 2, 5, 127, 128, 255>>, number)])

(* property sections and packets whose length sits on a boundary *)
Bounds == <<126, 127, 128, 129, 16382, 16383, 16384, 16385>>
PadProps(n) ==                      \* a property list of exactly n bytes, n >= 5
  IF n <= 5 + 65535 THEN << <<38, <<RRep(107, 0), RRep(118, n - 5)>>>> >>
  ELSE << <<38, <<RRep(107, 60000), RRep(118, (n - 5) - 60000)>>>> >>
BoundStarts ==
  Flat([i \in 1..Len(Bounds) |->
    Flat([c \in 1..Len(CtxSeq) |->
      LET n    == Bounds[i]
          base == BodySize(Norm(With(CtxSeq[c], << PadProps(n) >>))) - n
          (* the section that makes the whole packet n bytes long *)
          fit  == {m \in (n - base - 4)..(n - base + 4) :
                     m >= 5 /\ BodySize(Norm(With(CtxSeq[c], << PadProps(m) >>))) = n}
      IN <<With(CtxSeq[c], << PadProps(n) >>)>>
         \o (IF fit = {} THEN <<>> ELSE <<With(CtxSeq[c], << PadProps(CHOOSE m \in fit : TRUE) >>)>>)])])
  \o Flat([i \in 1..Len(Bounds) |->
       [q \in 1..3 |-> [With("PUBLISH", <<>>) EXCEPT !.qos = q - 1, !.pkid = q - 1,
                          !.payload = RRep(80, Bounds[i] - (IF q = 1 THEN 6 ELSE 8))]]])

Starts ==
  CASE Fam = "vals" -> ValsStarts
    [] Fam = "pairs" -> PairsStarts
    [] Fam = "reasons" -> ReasonStarts
    [] Fam = "flags" -> FlagStarts
    [] Fam = "pkids" -> PkIdStarts
    [] Fam = "sizes" -> SizeStarts
    [] Fam = "texts" -> TextStarts
    [] Fam = "subsets" -> SubsetStarts
    [] Fam = "over" -> OverStarts
    [] Fam = "counts" -> CountStarts
    [] Fam = "bigcounts" -> BigCountStarts
    [] Fam = "bounds" -> BoundStarts
    [] Fam = "same" -> SameStarts
    [] Fam = "alike" -> AlikeStarts
    [] Fam \in {"cuts", "sections"} -> Rich \o Small \o <<Whole>>
                 \o [c \in 1..13 |-> With(CtxSeq[c], << << <<38, SampleValue(38, 0)>> >> >>)]
    [] Fam = "ids" -> [c \in 1..13 |-> With(CtxSeq[c], << << <<38, SampleValue(38, 0)>> >> >>)]
    [] Fam = "tags" -> Small \o [c \in 1..13 |-> With(CtxSeq[c], << << <<38, SampleValue(38, 0)>> >> >>)]
    [] Fam = "reasonnums" -> [c \in 1..8 |-> With(ReasonCtx[c], <<>>)]
                 \o [c \in 1..8 |-> With(ReasonCtx[c], << << <<38, SampleValue(38, 0)>> >> >>)]
    [] Fam = "utf8" -> Rich \o Small
    [] Fam = "bytes" -> Small \o [c \in 1..13 |-> With(CtxSeq[c], << << <<Allowed[CtxSeq[c]][1], SampleValue(Allowed[CtxSeq[c]][1], 0)>> >> >>)]
    [] Fam = "forms" -> Rich \o Small \o <<Whole>>
    [] Fam = "limits" -> Small \o <<With("PUBLISH", << PadProps(127) >>), With("CONNACK", << PadProps(16384) >>)>>
    [] Fam = "headers" -> <<Ping("PINGREQ"), With("PUBLISH", <<>>)>>
    [] Fam \in {"chops", "again"} -> Small \o Rich
    [] Fam = "trickle" -> Small \o Rich \o <<Whole>>
    [] Fam = "hints" -> Small \o Rich \o <<Whole, With("PUBLISH", << PadProps(127) >>), With("CONNACK", << PadProps(16384) >>),
                                          [With("PUBLISH", <<>>) EXCEPT !.payload = RRep(80, 2097152)]>>
    [] Fam \in {"seq", "seqmax", "duo", "duowr", "behind"} -> Small
    [] Fam = "parts" -> Rich \o Small \o <<Whole>>
    [] Fam \in {"made", "deep"} -> <<Ping("PINGREQ")>>
    [] Fam \in {"storm", "gale"} -> Small \o Rich \o Others
    [] Fam = "seqwr" -> Small \o Rich \o <<SetReason(With("CONNACK", <<>>), "BadClientId"),
                 [With("PUBLISH", <<>>) EXCEPT !.pkid = 0],
                 [With("SUBSCRIBE", <<>>) EXCEPT !.filters = Append(@, [MkFilter(1, 1) EXCEPT !.path = RRep(97, 65536)])],
                 With("DISCONNECT", << << <<28, RRep(97, 65536)>> >> >>)>>
    [] OTHER -> <<>>

Writes  == {"texts", "subsets", "vals", "pairs", "reasons", "flags", "pkids", "sizes", "over", "counts", "bigcounts", "bounds", "same", "alike", "seqwr", "duowr", "storm", "gale"}
Reads   == {"texts", "subsets", "vals", "pairs", "reasons", "flags", "pkids", "sizes", "counts", "bigcounts", "bounds", "same", "alike", "forms"}
Damaged == {"cuts", "sections", "ids", "tags", "reasonnums", "utf8", "bytes", "forms", "seq", "seqmax", "parts", "behind"}
Streams == {"again", "behind", "limits", "headers", "chops", "hints", "trickle", "seq", "seqmax", "duo", "parts", "made", "deep"}
Two     == {"duo", "duowr", "storm", "gale"}  \* plans with two endpoints

-----------------------------------------------------------------------------
(* Damages: sets of <<name, value, new frame or bytes>> *)
Fr(f)      == [f |-> f, w |-> <<>>]
Wire(f, w) == [f |-> f, w |-> <<w>>]

Cuts(f) ==
  LET b == BodyBytes(f.fs)
      n == RLen(b)
  IN {<<"cut", k, Wire(f, FrameBytes(f.b1, RTake(b, k), 0))>> : k \in 0..(n - 1)}

(* a section declared shorter or longer than it is; also cut after the
   property list, with the section length adjusted to what is left *)
SecLens(f) ==
  UNION {LET x == f.fs[i]
             m == RLen(SecBody(x))
             pre == BodyBytes(SubSeq(f.fs, 1, i - 1))
         IN {<<"seclen", d, Fr([f EXCEPT !.fs[i].d = d])>> : d \in ((0 - m)..12) \ {0}}
            \cup {<<"seclen", d, Fr([f EXCEPT !.fs[i].d = d])>> : d \in {127 - m, 128 - m, 255, 16384, 65535, 2097152, MaxVbi}}
            \cup {<<"seccut", k, Wire(f, FrameBytes(f.b1, RCat(pre, RCat(EncVbi(k), RTake(SecBody(x), k))), 0))>>
                   : k \in 0..(m - 1)}
         : i \in Secs(f)}

(* an identifier in front of, instead of, or behind the property that is there *)
UnknownBody(id) == IF id \in DOMAIN PropTypes THEN PVal(PropTypes[id], SampleValue(id, 0))
                   ELSE <<PRaw("?", RBytes(<<0, 1, 97, 0, 1, 98>>))>>
Ids(f) ==
  UNION {{<<"id", id, Fr([f EXCEPT !.fs[i].ps = <<[id |-> id, fs |-> UnknownBody(id)]>> \o @])>> : id \in 0..255}
         \cup {<<"id", id, Fr([f EXCEPT !.fs[i].ps = @ \o <<[id |-> id, fs |-> UnknownBody(id)]>>])>> : id \in 0..255}
         \cup {<<"id", id, Fr([f EXCEPT !.fs[i].ps = <<[id |-> id, fs |-> <<>>]>>])>> : id \in 0..255}
         : i \in {j \in Secs(f) : f.fs[j].ps # <<>>}}

PartIds(f) ==
  UNION {{<<"id", id, Fr([f EXCEPT !.fs[i].ps = <<[id |-> id, fs |-> UnknownBody(id)]>> \o @])>> : id \in 0..50}
         : i \in Secs(f)}

(* every value of every one-byte field, and of the first byte *)
Tags(f) ==
  UNION {{<<f.fs[i].n, v, Fr([f EXCEPT !.fs[i].v = v])>> : v \in 0..255} : i \in At(f, "tag") \ Tag(f, "reason")}
  \cup {<<"b1", v, Fr([f EXCEPT !.b1 = v])>> : v \in 0..255}
  \cup {<<"nobody", v, Fr([f EXCEPT !.b1 = v, !.fs = <<>>])>> : v \in {f.b1, 0, 240, 255}}
  \cup {<<"pkidzero", 0, Fr([f EXCEPT !.fs[i].b = RRep(0, 2)])>> : i \in Raw(f, "pkid")}
  \cup {<<"emptylist", 0, Fr([f EXCEPT !.fs = SubSeq(@, 1, 2)])>> :
          x \in {y \in {1} : f.b1 \div 16 \in {8, 9, 10, 11}}}
  \cup {<<"protocol", j, Fr([f EXCEPT !.fs[i].b =
            <<RBytes(<<0, 4, 109, 113, 116, 116>>), RBytes(<<0, 6, 77, 81, 73, 115, 100, 112>>), RBytes(<<0, 3, 77, 81, 84>>),
              RBytes(<<0, 5, 77, 81, 84, 84, 84>>), RBytes(<<0, 0>>), RBytes(<<0, 5, 77, 81, 84, 84, 0>>),
              RBytes(<<0, 4, 77, 81, 84, 85>>), RBytes(<<0, 4, 76, 81, 84, 84>>), RBytes(<<0, 5, 32, 77, 81, 84, 84>>),
              RBytes(<<0, 4, 77, 81, 84, 116>>), RBytes(<<0, 1, 77>>), RBytes(<<0, 8, 77, 81, 84, 84, 77, 81, 84, 84>>)>>[j]])>>
            : i \in Raw(f, "proto"), j \in 1..12}

ReasonNumbers(f) ==
  UNION {{<<"reason", v, Fr([f EXCEPT !.fs[i].v = v])>> : v \in 0..255} : i \in Tag(f, "reason")}
  \cup (IF f.b1 \div 16 \in {4, 5, 6, 7, 14}
        THEN UNION {{<<"reason", v, Fr([f EXCEPT !.fs = SubSeq([@ EXCEPT ![i].v = v], 1, i)])>> : v \in 0..255}
                    : i \in Tag(f, "reason")}
        ELSE {})

(* text that is not UTF-8, in every string *)
BadText == <<RBytes(<<128>>), RBytes(<<191>>), RBytes(<<192, 128>>), RBytes(<<193, 191>>), RBytes(<<194>>),
             RBytes(<<194, 65>>), RBytes(<<97, 195>>), RBytes(<<224, 128, 128>>), RBytes(<<224, 159, 191>>),
             RBytes(<<225, 128>>), RBytes(<<237, 160, 128>>), RBytes(<<237, 191, 191>>), RBytes(<<240, 128, 128, 128>>),
             RBytes(<<240, 143, 191, 191>>), RBytes(<<241, 128, 128>>), RBytes(<<244, 144, 128, 128>>),
             RBytes(<<245, 128, 128, 128>>), RBytes(<<248, 136, 128, 128, 128>>), RBytes(<<254>>), RBytes(<<97, 98, 255>>)>>
GoodText == <<RBytes(<<127>>), RBytes(<<194, 128>>), RBytes(<<223, 191>>), RBytes(<<224, 160, 128>>), RBytes(<<236, 191, 191>>),
              RBytes(<<237, 159, 191>>), RBytes(<<238, 128, 128>>), RBytes(<<239, 191, 191>>), RBytes(<<240, 144, 128, 128>>),
              RBytes(<<244, 143, 191, 191>>), RBytes(<<239, 187, 191>>), <<>>, RBytes(<<97, 0, 98>>)>>
Texts == BadText \o GoodText
Utf8s(f) ==
  UNION {{<<IF j <= Len(BadText) /\ f.fs[i].txt THEN "utf8" ELSE "text", j, Fr([f EXCEPT !.fs[i].b = Texts[j]])>>
            : j \in 1..Len(Texts)} : i \in At(f, "str")}
  \cup UNION {UNION {UNION {{<<IF j <= Len(BadText) /\ f.fs[i].ps[q].fs[x].txt THEN "utf8" ELSE "text", j,
                               Fr([f EXCEPT !.fs[i].ps[q].fs[x].b = Texts[j]])>> : j \in 1..Len(Texts)}
                            : x \in {y \in 1..Len(f.fs[i].ps[q].fs) : f.fs[i].ps[q].fs[y].t = "str"}}
                     : q \in 1..Len(f.fs[i].ps)}
              : i \in Secs(f)}
  (* and every declared string length, around the real one *)
  \cup UNION {{<<"strlen", d, Fr([f EXCEPT !.fs[i].d = d])>> : d \in {-300, -2, -1, 1, 2, 3, 5, 9, 127, 128, 256, 65535}}
              : i \in At(f, "str")}
  \cup UNION {UNION {UNION {{<<"strlen", d, Fr([f EXCEPT !.fs[i].ps[q].fs[x].d = d])>> : d \in {-1, 1, 2, 3, 9, 255, 256, 65535}}
                            : x \in {y \in 1..Len(f.fs[i].ps[q].fs) : f.fs[i].ps[q].fs[y].t = "str"}}
                     : q \in 1..Len(f.fs[i].ps)}
              : i \in Secs(f)}

PartText(f) ==
  UNION {UNION {UNION {{<<"text", j, Fr([f EXCEPT !.fs[i].ps[q].fs[x].b = Texts[j]])>> : j \in {1, 7, 11, 20, 30}}
                          \cup {<<"strlen", d, Fr([f EXCEPT !.fs[i].ps[q].fs[x].d = d])>> : d \in {-1, 1, 2, 256}}
                       : x \in {y \in 1..Len(f.fs[i].ps[q].fs) : f.fs[i].ps[q].fs[y].t = "str"}}
                : q \in 1..Len(f.fs[i].ps)}
         : i \in Secs(f)}
  \cup UNION {{<<"text", j, Fr([f EXCEPT !.fs[i].b = Texts[j]])>> : j \in {1, 7, 11, 20, 30}}
              \cup {<<"strlen", d, Fr([f EXCEPT !.fs[i].d = d])>> : d \in {-1, 1, 2, 256}} : i \in At(f, "str")}

ByteVals(b) == {0, 1, 2, 3, 4, 5, 11, 31, 38, 127, 128, 129, 255} \cup {(b + 1) % 256, (b + 255) % 256}
Flip(b) == {IF (b \div x) % 2 = 1 THEN b - x ELSE b + x : x \in {1, 2, 4, 8, 16, 32, 64, 128}}
OneByte(f) ==
  LET b == BodyBytes(f.fs)
      n == RLen(b)
      put(i, y) == RCatAll(<<RTake(b, i - 1), y, RDrop(b, i)>>)
  IN UNION {{<<"byte", i, Wire(f, FrameBytes(f.b1, put(i, RByte(v)), 0))>> : v \in (ByteVals(RAt(b, i)) \cup Flip(RAt(b, i)))}
            \cup {<<"lost", i, Wire(f, FrameBytes(f.b1, put(i, <<>>), 0))>>,
                  <<"twice", i, Wire(f, FrameBytes(f.b1, put(i, RCat(RByte(RAt(b, i)), RByte(RAt(b, i)))), 0))>>}
            : i \in 1..n}
     \cup {<<"more", k, Wire(f, FrameBytes(f.b1, RCat(b, B(k, 5)), 0))>> : k \in 1..3}

(* forms the crate's encoder never chooses, well-formed or tolerated *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rot(s) == IF s = <<>> THEN s ELSE Append(Tail(s), Head(s))
Forms(f) ==
  UNION {{<<"form", 1, Fr([f EXCEPT !.fs[i].ps = Rev(@)])>>, <<"form", 2, Fr([f EXCEPT !.fs[i].ps = Rot(@)])>>,
          <<"form", 3, Fr([f EXCEPT !.fs[i].ps = Rot(Rot(@))])>>}
         \cup {<<"form", 10 + k, Fr([f EXCEPT !.fs[i].pad = k])>> : k \in 1..4}
         \cup {<<"twice", q, Fr([f EXCEPT !.fs[i].ps = Append(@, @[q])])>> : q \in 1..Len(f.fs[i].ps)}
         \cup UNION {{<<"form", 30 + k, Fr([f EXCEPT !.fs[i].ps[q].fs[1].pad = k])>> : k \in 1..4}
                     : q \in {y \in 1..Len(f.fs[i].ps) : f.fs[i].ps[y].fs # <<>> /\ f.fs[i].ps[y].fs[1].t = "vbi"}}
         : i \in Secs(f)}
  \cup {<<"form", 20 + k, Fr([f EXCEPT !.pad = k])>> : k \in 1..4}
  \cup (IF f.b1 \div 16 \in {4, 5, 6, 7, 14}
        THEN {<<"short", 1, Fr([f EXCEPT !.fs = SubSeq(@, 1, Len(@) - 1)])>>,
              <<"short", 2, Fr([f EXCEPT !.fs = SubSeq(@, 1, Len(@) - 2)])>>}
        ELSE {})

-----------------------------------------------------------------------------
(* limits and cut points around the header and the frame's end *)
HugeLimits == 1999999990..1999999997    \* stand for 2^31 ... 2^64 - 3
LimitPlans(w) ==
  LET F == Frame(w, <<>>)
      maxs == {F.rl - 2, F.rl - 1, F.rl, F.rl + 1, F.rl + 2, F.total - 1, F.total, 0, 1, 127, 128, MaxVbi, 1999999999, 2000000000} \cup HugeLimits
      pts == {1, F.hl - 1, F.hl, F.hl + 1, F.total - 1, F.total}
  IN {Plan("one", <<>>, <<OpF(RTake(w, c)), OpR(<<m>>)>>
                        \o (IF c = F.total THEN <<>> ELSE <<OpF(RDrop(w, c)), OpR(<<m>>)>>)
                        \o <<OpF(PingBytes), OpR(<<m>>)>>)
       : m \in {x \in maxs : x >= 0}, c \in {x \in pts : x >= 1 /\ x <= F.total}}

(* every start of a fixed header, looked at after each byte *)
HdrVals == <<0, 1, 127, 128, 255>>
Look(b) == <<OpF(RByte(b)), OpR(<<0>>), OpR(<<1>>), OpR(<<16384>>), OpR(<<>>)>>
HeaderPlans(b1) ==
  {Plan("one", <<>>, Look(b1) \o Look(HdrVals[a]) \o Look(HdrVals[b]) \o Look(HdrVals[c]) \o Look(HdrVals[d]))
     : a \in 1..5, b \in 1..5, c \in 1..5, d \in 1..5}

(* what lies behind a frame, accepted or not: one byte of another one, or   *)
(* part of the same frame again                                            *)
BehindPlans(w) ==
  LET n == RLen(w)
      tails == {(16 * k) + g : k \in 0..15, g \in {0, 2}} \cup {RAt(w, 1), 255}
  IN {Plan("chunk", <<>>, <<OpF(RCat(w, RByte(t))), OpD(<<>>), OpF(RCat(RByte(0), PingBytes)), OpD(<<>>)>>) : t \in tails}
     \cup {Halves(RCat(w, w), n + c, <<>>) : c \in {x \in {1, 2, 3, n - 1, n} : x >= 1 /\ x <= n}}

(* A connection is lost in the middle of a frame, and another one begins   *)
(* with a frame of the same kind and another length: nothing is left of    *)
(* the first.                                                              *)
Firsts == {Encode(Norm(x)) : x \in {Small[i] : i \in 1..Len(Small)} \cup {Rich[i] : i \in 1..Len(Rich)}}
AgainPlans(w) ==
  LET n == RLen(w) IN
  UNION {
  {Plan("one", <<>>,
        <<OpF(RTake(v, c)), OpR(m), OpZ("in", how)>>
        \o (IF d = n THEN <<OpF(RCat(w, PingBytes)), OpR(m), OpR(<<>>)>>
            ELSE <<OpF(RTake(w, d)), OpR(m), OpF(RCat(RDrop(w, d), PingBytes)), OpR(m), OpR(<<>>)>>))
   : c \in {x \in {1, 2, 3, 7, 60} : x < RLen(v)}, d \in {x \in {1, 2, 3, n} : x <= n}, how \in {0, 1}, m \in {<<>>, <<40>>}}
   : v \in {x \in Firsts : x[1][1] = w[1][1]}}

(* what is sent first must not matter to what is sent next *)
StreamPlans(fs) ==
  LET w == RCatAll(fs)
      n == RLen(w)
      F == Frame(w, <<>>)
  IN CASE Fam = "limits" -> LimitPlans(w)
       [] Fam = "again" -> AgainPlans(w)
       [] Fam = "headers" -> HeaderPlans(fr.b1)
       [] Fam = "behind" -> BehindPlans(w)
       [] Fam = "chops" -> {Halves(RCat(w, PingBytes), c, <<>>) : c \in 1..n}
       [] Fam = "hints" -> {Asking(RCat(w, w), m, lim)
                             : m \in {<<>>, <<F.rl>>, <<IF F.rl = 0 THEN 0 ELSE F.rl - 1>>},
                               lim \in IF n < 300 THEN {<<>>, <<1>>, <<1, 9>>, <<1, 1, 9>>, <<2, 9>>, <<7>>}
                                       ELSE {<<>>, <<1, 2, n - 10>>, <<7, n \div 5>>}}
       [] Fam = "trickle" -> {Trickle(RCat(w, PingBytes), <<>>)}
       [] Fam = "seq" -> {Trickle(w, <<>>), Asking(w, <<>>, <<>>), Asking(w, <<>>, <<1, 9>>)}
       [] Fam = "seqmax" -> {Plan("chunk", m, <<OpF(w), OpD(m)>>) : m \in {<<0>>, <<2>>, <<6>>, <<12>>}}

WritePlans(ps) ==
  LET ws == [i \in 1..Len(ps) |-> OpW(ps[i])]
  IN {Plan("wr", <<>>, ws \o <<OpT(MaxVbi), OpD(<<>>)>>),
      Plan("wr", <<>>, ws \o <<OpT(3), OpD(<<>>)>> \o ws \o <<OpT(MaxVbi), OpD(<<>>), ws[1], OpT(MaxVbi), OpD(<<>>)>>)}

(* two connections served alternately: one in two deliveries, the other in *)
(* one or two, in between                                                  *)
DuoPlans(w1, w2) ==
  LET n1 == RLen(w1)
      n2 == RLen(w2)
      v  == RCat(w2, PingBytes)
      whole == Plan("chunk", <<>>, <<OpF(v), OpD(<<>>)>>)
  IN {Duo(Halves(w1, c, <<>>), whole, sch)
        : c \in {x \in {1, 2, 3, n1 \div 2, n1 - 1} : x >= 1 /\ x < n1},
          sch \in {<<0, 0, 0, 1, 1, 1, 1, 1>>, <<0, 1>>, <<1, 0, 0>>}}
     \cup {Duo(Halves(w1, c, <<>>), Halves(v, d, <<>>), sch)
        : c \in {x \in {1, n1 - 1} : x >= 1 /\ x < n1}, d \in {1, 2, n2},
          sch \in {<<0, 0, 0, 1, 1, 1>>, <<0, 1>>}}
     \cup {Duo(Halves(w1, n1 - 1, <<>>), Asking(v, <<>>, <<>>), <<0, 1, 1>>)}
DuoWrites(a, b) ==
  LET ws(x) == Plan("wr", <<>>, <<OpW(x), OpT(3), OpD(<<>>), OpW(x), OpT(MaxVbi), OpD(<<>>)>>)
  IN {Duo(ws(a), ws(b), sch) : sch \in {<<0, 1>>, <<0, 0, 0, 1>>, <<0, 0, 0, 1, 1, 1>>}}

(* The parts of a (damaged) frame handed to their own functions, with what *)
(* follows them in the frame.                                              *)
FlagsOf(f) == f.fs[CHOOSE i \in Tag(f, "cflags") : TRUE].v
Rest(f, i) == BodyBytes(SubSeq(f.fs, i, Len(f.fs)))
FirstAfter(f, S) == 1 + CHOOSE i \in S : \A j \in S : j <= i
PartOps(f) ==
  LET k   == Kinds[f.b1 \div 16]
      sec == SetToSeq(Secs(f))
      ws  == {i \in Secs(f) : f.fs[i].ctx = "WILL"}
      F   == FlagsOf(f)
      big == IF ws # {} THEN CHOOSE i \in ws : TRUE ELSE Len(f.fs) + 1
  IN [i \in 1..Len(sec) |-> OpP(f.fs[sec[i]].ctx, 0, Rest(f, sec[i]))]
     \o (IF k = "SUBSCRIBE" THEN <<OpP("filters", 0, Rest(f, FirstAfter(f, Secs(f))))>> ELSE <<>>)
     \o (IF k # "CONNECT" THEN <<>>
         ELSE <<OpP("lastwill", F, Rest(f, big)),
                OpP("login", F, Rest(f, IF ws = {} THEN 7 ELSE big + 3))>>)
(* undamaged: also cut off anywhere, and under every value of the flags *)
PartPlans(f) ==
  LET ops == PartOps(f) IN
  {Plan("one", <<>>, ops)}
  \cup (IF dm # <<>> THEN {}
        ELSE {Plan("one", <<>>, [j \in 1..RLen(ops[i].b) |-> [ops[i] EXCEPT !.b = RTake(@, j - 1)]]) : i \in 1..Len(ops)}
             \cup {Plan("one", <<>>, [j \in 1..256 |-> [ops[i] EXCEPT !.fl = j - 1]])
                     : i \in {x \in 1..Len(ops) : ops[x].k \in {"lastwill", "login"}}}
             \cup {Plan("one", <<>>, [j \in 1..RLen(ops[i].b) |->
                        [ops[i] EXCEPT !.b = RCatAll(<<RTake(@, j - 1), RByte(v), RDrop(@, j)>>)]])
                     : i \in 1..Len(ops), v \in {0, 1, 38, 128, 255}})

(* Constructors and conversions *)
SomeProps(ctx) == << <<>>, << <<>> >>, << << <<38, SampleValue(38, 0)>> >> >>, <<FullProps(ctx)>> >>
MadeStrings == StrVals \o [i \in 1..Len(Lengths) |-> RRep(113, Lengths[i])] \o <<RRep(113, 65536)>>
MadePlans ==
  LET acks == <<"puback", "pubrec", "pubrel", "pubcomp">>
      k(ctx) == SomeProps(ctx)
      one(ops) == Plan("one", <<>>, ops)
  IN {one([i \in 1..256 |-> OpK("qos", [num |-> i - 1])]),
      one([i \in 1..256 |-> OpK("reason", [num |-> i - 1])]),
      one([i \in 1..Len(ReasonTable["DISCONNECT"]) |->
             OpK("number", [of |-> "DISCONNECT", reason |-> ReasonTable["DISCONNECT"][i][2]])]),
      one([i \in 1..Len(ReasonTable["DISCONNECT"]) |->
             OpK("disconnect", [reason |-> ReasonTable["DISCONNECT"][i][2]])]),
      one([i \in 1..3 |-> OpK("number", [of |-> "QoS", qos |-> i - 1])]),
      one(<<OpK("defaults", [num |-> 0]), OpK("connackprops", [num |-> 0]), OpK("connectprops", [num |-> 0])>>)}
     \cup {one([i \in 1..256 |-> OpK("header", [b1 |-> i - 1, ll |-> x[1], rl |-> x[2]])])
            : x \in {<<1, 0>>, <<1, 1>>, <<1, 127>>, <<2, 128>>, <<2, 16383>>, <<3, 16384>>, <<4, 2097152>>, <<4, MaxVbi>>,
                     <<4, 0>>, <<2, 5>>}}
     \cup {one([i \in 1..Len(MadeStrings) |-> OpK("string", [topic |-> MadeStrings[i]])])}
     \cup {one([i \in 1..Len(MadeStrings) |-> OpK("filter", [topic |-> MadeStrings[i], qos |-> q])]) : q \in 0..2}
     \cup {one([i \in 1..Len(MadeStrings) |->
              OpK("login", [u |-> MadeStrings[i], p |-> MadeStrings[1 + ((i + d) % Len(MadeStrings))]])]) : d \in {0, 1, 2}}
     \cup {one([i \in 1..Len(PkIds) |-> OpK(acks[a], [pkid |-> PkIds[i], props |-> k("PUBACK")[j]])])
            : a \in 1..4, j \in 1..4}
     \cup {one(<<OpK(acks[a], [pkid |-> 0, props |-> k("PUBACK")[j]])>>) : a \in 1..4, j \in 1..4}
     \cup {one([i \in 1..Len(MadeStrings) |->
              OpK("publish", [topic |-> MadeStrings[i], qos |-> q, payload |-> MadeStrings[Len(MadeStrings) + 1 - i],
                              props |-> k("PUBLISH")[j]])]) : q \in 0..2, j \in 1..4}
     \cup {one([i \in 1..Len(MadeStrings) |->
              OpK("unsubscribe", [topic |-> MadeStrings[i], props |-> k("UNSUBSCRIBE")[j]])]) : j \in 1..4}
     \cup {one([i \in 1..24 |-> OpK("subscribe", [filters |-> <<MkFilter(1 + (i % 4), i)>>, props |-> k("SUBSCRIBE")[j]])])
            : j \in 1..4}
     \cup {one([i \in 1..9 |-> OpK("subscribe_many", [filters |-> [x \in 1..(<<0, 1, 2, 3, 4, 5, 17, 64, 130>>[i]) |-> MkFilter(1, x)],
                                                     props |-> k("SUBSCRIBE")[j]])]) : j \in 1..4}

(* Lists as long as it gets: nothing may depend on there being room on a    *)
(* stack for each element.  (Sessions of mode "deep" are judged by how the  *)
(* calls end.)                                                              *)
DeepBodies(n, m) ==
  LET up  == RCatAll([i \in 1..m |-> << <<38, 1>>, <<0, 4>> >>])
      sec(b) == RCat(EncVbi(RLen(b)), b)
      proto == RCatAll(<<EncU16(4), RBytes(<<77, 81, 84, 84>>), EncU8(5)>>)
      conn(F, props, rest) == <<16, RCatAll(<<proto, EncU8(F), EncU16(9), sec(props), EncU16(0), rest>>)>>
      id  == EncU16(7)
  IN <<conn(2, RRep(23, 2 * n), <<>>), conn(6, <<>>, RCat(sec(RRep(1, 2 * n)), RRep(0, 4))),
       conn(2, up, <<>>), conn(6, <<>>, RCat(sec(up), RRep(0, 4))),
       <<32, RCat(RRep(0, 2), sec(RRep(36, 2 * n)))>>, <<32, RCat(RRep(0, 2), sec(up))>>,
       <<48, RCat(RRep(0, 2), sec(RRep(11, 2 * n)))>>, <<48, RCat(RRep(0, 2), sec(RRep(1, 2 * n)))>>,
       <<48, RCat(RRep(0, 2), sec(up))>>,
       <<64, RCatAll(<<id, EncU8(0), sec(up)>>)>>, <<80, RCatAll(<<id, EncU8(0), sec(up)>>)>>,
       <<98, RCatAll(<<id, EncU8(0), sec(up)>>)>>, <<112, RCatAll(<<id, EncU8(0), sec(up)>>)>>,
       <<130, RCatAll(<<id, RRep(0, 1), RRep(0, 3 * n)>>)>>, <<130, RCatAll(<<id, sec(up), RRep(0, 3)>>)>>,
       <<162, RCatAll(<<id, RRep(0, 1), RRep(0, 2 * n)>>)>>, <<162, RCatAll(<<id, sec(up), RRep(0, 2)>>)>>,
       <<144, RCatAll(<<id, RRep(0, 1), RRep(0, n)>>)>>, <<144, RCatAll(<<id, sec(up), RRep(0, 1)>>)>>,
       <<176, RCatAll(<<id, RRep(0, 1), RRep(0, n)>>)>>, <<176, RCatAll(<<id, sec(up), RRep(0, 1)>>)>>,
       <<224, RCat(EncU8(0), sec(up))>>>>
DeepPlans ==
  LET b == DeepBodies(30000, 8000)
  IN {Plan("deep", <<>>, <<OpF(FrameBytes(b[i][1], b[i][2], 0)), OpR(<<>>), OpR(<<>>)>>) : i \in 1..Len(b)}

(* Two endpoints in two threads, over and over: their calls overlap in any  *)
(* way the machine makes them.  Neither must notice the other.              *)
(* (three times over, and every call `burst' times before it counts)       *)
Storm(a, b, n) == [lanes |-> <<a, b>>, sched |-> <<0>>, storm |-> 3, burst |-> n]
StormPlans(a, b) ==
  LET ws(x) == Plan("wr", <<>>, <<OpW(x), OpT(3), OpD(<<>>), OpW(x), OpT(MaxVbi), OpD(<<>>)>>)
      wa == Encode(Norm(a))
      wb == Encode(Norm(b))
      cut(w) == (RLen(w) + 1) \div 2
      n == IF a.k = b.k THEN 3000 ELSE 100
  IN {Storm(ws(a), ws(b), n)}
     \cup (IF Encodable(Norm(a)) /\ Encodable(Norm(b))
           THEN {Storm(Halves(wa, cut(wa), <<>>), Halves(RCat(wb, PingBytes), cut(wb), <<>>), n)} ELSE {})

(* a few ways for a frame to be refused *)
Refused(f) ==
  LET b == BodyBytes(f.fs)
      n == RLen(b)
      put(i, y) == RCatAll(<<RTake(b, i - 1), y, RDrop(b, i)>>)
  IN (IF n = 0 THEN {} ELSE
      {<<"cut", n - 1, Wire(f, FrameBytes(f.b1, RTake(b, n - 1), 0))>>,
       <<"byte", 1, Wire(f, FrameBytes(f.b1, put(1, RByte(255)), 0))>>,
       <<"byte", n, Wire(f, FrameBytes(f.b1, put(n, RByte(3)), 0))>>})
     \cup {<<"b1", 240, Fr([f EXCEPT !.b1 = 240])>>, <<"b1", 15, Fr([f EXCEPT !.b1 = 15])>>,
           <<"nobody", f.b1, Fr([f EXCEPT !.fs = <<>>])>>}

Damages(f) ==
  CASE Fam = "cuts" -> Cuts(f)
    [] Fam = "sections" -> SecLens(f)
    [] Fam = "ids" -> Ids(f)
    [] Fam = "tags" -> Tags(f)
    [] Fam = "reasonnums" -> ReasonNumbers(f)
    [] Fam = "utf8" -> Utf8s(f)
    [] Fam = "bytes" -> OneByte(f)
    [] Fam = "forms" -> Forms(f)
    [] Fam \in {"seq", "seqmax"} -> Refused(f)
    [] Fam = "behind" -> Refused(f)
         \cup {<<"more", k, Wire(f, FrameBytes(f.b1, RCat(BodyBytes(f.fs), B(k, 5)), 0))>> : k \in 1..2}
    [] Fam = "parts" -> SecLens(f) \cup Forms(f) \cup PartIds(f) \cup PartText(f)
    [] OTHER -> {}


Nothing == [b1 |-> 0, fs |-> <<>>, pad |-> 0]
NoPlan  == [mode |-> "", max |-> <<>>, ops |-> <<>>]

Init == /\ LET S == Starts IN \E i \in 1..Len(S) : p = S[i]
        /\ ph = "packet" /\ fr = Nothing /\ wire = <<>> /\ dm = <<>> /\ plan = NoPlan
        /\ sent = <<>> /\ subm = <<>>

EncodeIt ==
  /\ ph = "packet" /\ Fam \in Reads \cup Damaged \cup Streams /\ Encodable(Norm(p))
  /\ ph' = "frame" /\ fr' = FrameOf(p) /\ wire' = Bytes(fr')
  /\ UNCHANGED <<p, dm, plan, sent, subm>>

(* hand the packet to the library for writing *)
Submit ==
  /\ ph = "packet" /\ Fam \in Writes /\ Sorted(p)
  /\ ph' = "submitted" /\ subm' = Append(subm, p)
  /\ UNCHANGED <<p, fr, wire, dm, plan, sent>>

DamageIt ==
  /\ ph = "frame" /\ dm = <<>> /\ Fam \in Damaged
  /\ \E x \in Damages(fr) :
       /\ dm' = << <<x[1], x[2]>> >>
       /\ fr' = x[3].f
       /\ wire' = IF x[3].w = <<>> THEN Bytes(x[3].f) ELSE x[3].w[1]
  /\ UNCHANGED <<ph, p, plan, sent, subm>>

(* one more packet for the same connection *)
Another ==
  /\ \/ ph = "frame" /\ Fam \in {"seq", "seqmax", "duo"} /\ Len(sent) < 1
     \/ ph = "submitted" /\ Fam \in {"seqwr", "duowr", "storm", "gale"} /\ Len(subm) < 2
  /\ ph' = "packet"
  /\ sent' = IF ph = "frame" THEN Append(sent, wire) ELSE sent
  /\ LET S == Starts IN \E i \in 1..Len(S) : p' = S[i]
  /\ fr' = Nothing /\ wire' = <<>> /\ dm' = <<>>
  /\ UNCHANGED <<plan, subm>>

Deliver ==
  /\ \/ ph = "frame" /\ (dm # <<>> \/ Fam \in Reads \cup Streams)
     \/ ph = "submitted"
  /\ Fam = "duo" => Len(sent) = 1
  /\ Fam \in {"duowr", "storm", "gale"} => Len(subm) = 2
  /\ Fam = "storm" => subm[1].k = subm[2].k
  /\ Fam = "gale" => subm[1].k # subm[2].k
  /\ ph' = "plan"
  /\ plan' \in IF ph = "submitted"
               THEN (IF Fam = "seqwr" THEN WritePlans(subm)
                     ELSE IF Fam = "duowr" THEN DuoWrites(subm[1], subm[2])
                     ELSE IF Fam \in {"storm", "gale"} THEN StormPlans(subm[1], subm[2])
                     ELSE {WriteIt(subm[1])})
               ELSE IF Fam = "parts" THEN PartPlans(fr)
               ELSE IF Fam = "made" THEN MadePlans
               ELSE IF Fam = "deep" THEN DeepPlans
               ELSE IF Fam = "duo" THEN DuoPlans(sent[1], wire)
               ELSE IF Fam \in Streams THEN StreamPlans(Append(sent, wire))
               ELSE {OneShot(wire)}
  /\ UNCHANGED <<p, fr, wire, dm, sent, subm>>

Next == EncodeIt \/ Submit \/ DamageIt \/ Another \/ Deliver
Spec == Init /\ [][Next]_vars

View == IF ph = "plan" THEN <<"plan", plan>> ELSE <<ph, p, wire, sent, subm>>

-----------------------------------------------------------------------------
(* The specification's own theorems, on every behaviour *)
D(w) == Decode("text", w)

RoundTrip ==
  ph = "frame" /\ dm = <<>> =>
    LET d == D(wire) IN
    /\ d.f = <<>>
    /\ Sorted(p) => d.v = Norm(p) /\ "form" \notin d.g
    /\ Fam # "pairs" => Sorted(p)

(* the canonical encoding denotes the packet, and has the computed size;   *)
(* only the family "over" has packets without one                          *)
Canonical ==
  ph = "packet" =>
    LET np == Norm(p) IN
    /\ Fam # "seqwr" =>
         Encodable(np) = (IF Fam = "over" THEN np.k = "PUBLISH" /\ RLen(np.payload) > MaxStr
                          ELSE ~(np.k = "CONNACK" /\ np.reason \in NoWireCode))
    /\ Encodable(np) /\ Sorted(p) =>
         LET e == Encode(np) IN
         /\ Denotes("text", e, np)
         /\ RLen(e) = 1 + VbiLen(BodySize(np)) + BodySize(np)

(* a damage with a name is found under that name, and nothing else is *)
FaultFound ==
  ph = "frame" /\ dm # <<>> /\ Fam \notin {"seq", "seqmax", "behind"} =>
    LET d == D(wire)
        n == dm[1][1]
        v == dm[1][2]
        k == Norm(p).k
        only(x)  == d.f = <<x>>
        first(x) == d.f # <<>> /\ d.f[1][1] = x
    IN CASE n = "id" -> \/ v \in UNION {AllowedSet[fr.fs[i].ctx] : i \in Secs(fr)}
                        \/ d.f # <<>> /\ d.f[1] = <<"prop", v>>
         [] n = "reason" -> IF v \in ReasonNums[k] THEN d.f = <<>> ELSE only(<<"reason", v>>)
         [] n = "level" -> v = 5 \/ only(<<"level", v>>)
         [] n = "protocol" -> first("protocol")
         [] n = "utf8" -> first("utf8")
         [] n = "emptylist" -> first("emptysub") \/ first("emptyack")
         [] n = "nobody" -> first("nobody") \/ first("type") \/ (v \div 16) \in {12, 13, 14}
         [] n = "pkidzero" -> IF k = "PUBLISH" THEN only(<<"pkidzero", 0>>) ELSE "value" \in d.g
         [] n = "subopt" -> ((v % 4 # 3) /\ ((v \div 16) % 4 # 3)) = (d.f = <<>>)
         [] n = "short" -> d.f = <<>>
         [] n = "cut" -> d.f # <<>> \/ k \in {"PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE", "SUBACK", "UNSUBACK", "DISCONNECT"}
                                              \cup AckKinds
         [] OTHER -> TRUE

(* the beginning of a frame asks for no more than the rest of it, exactly the *)
(* rest once its length is known; what stands behind a frame does not matter *)
(* to it, and a limit does so from the fixed header on                       *)
Framing ==
  ph = "frame" =>
    LET F == Frame(wire, <<>>) IN
    F.t = "frame" =>
      /\ \A k \in {x \in (0..6) \cup {F.total - 1} : x < F.total} :
           LET G == Frame(RTake(wire, k), <<>>) IN
           /\ G.t = "need" /\ G.hi >= 1 /\ G.hi <= F.total - k
           /\ G.exact = (k >= F.hl)
           /\ G.exact => G.hi = F.total - k
      /\ Frame(RCat(wire, << <<0, 3>> >>), <<>>) = F
      /\ Frame(RTake(wire, F.hl), <<F.rl>>) = Frame(RTake(wire, F.hl), <<>>)
      /\ F.rl > 0 => Frame(RTake(wire, F.hl), <<F.rl - 1>>).t = "limit"

(* whatever has a meaning can be passed on *)
Relay ==
  ph = "frame" /\ Frame(wire, <<>>).t = "frame" =>
    LET d == D(wire) IN
    d.f = <<>> /\ "form" \notin d.g =>
      /\ Encodable(d.v)
      /\ LET e == D(Encode(d.v)) IN e.f = <<>> /\ "form" \notin e.g /\ e.v = d.v

Emit == ph = "plan" => PrintT("PLAN " \o ToJson(plan))
=============================================================================
