------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* The design-level check: do the listed properties, demanded of single    *)
(* steps, give the endpoint what its user relies on over a whole stream?   *)
(*                                                                         *)
(* A stream of frames (well-formed, refused, cut off, with a malformed     *)
(* length) reaches a reader in arbitrary portions, or in portions no       *)
(* larger than the reader was told to fetch.  The library is NOT modelled  *)
(* as an algorithm: a read may have any outcome out of a set that includes *)
(* wrong packets, wrong errors, wrong hints and every amount of            *)
(* consumption, as long as JudgeRead finds nothing wrong with the step.    *)
(* Invariants: what the reader has obtained is the meaning of the stream,  *)
(* nothing is lost or duplicated, a hint-follower never holds a byte of    *)
(* the next frame, and a reader that is left waiting has everything there  *)
(* is.  Progress: with everything delivered and read, the end is reached.  *)
(*                                                                         *)
(* The environment variable DROP leaves out what is demanded of the steps: *)
(* "none" must hold, and every other choice must not: each is needed.      *)
(***************************************************************************)
EXTENDS MqttStream, IOUtils

Dropped ==
  CASE IOEnv.DROP = "none"        -> {}
    [] IOEnv.DROP = "consumption" -> {"C09", "C11", "C17"}    \* all of them speak of it
    [] IOEnv.DROP = "requests"    -> {"C10", "C17"}
    [] IOEnv.DROP = "meaning"     -> {"C03", "C05", "C17"}
    [] IOEnv.DROP = "refusal"     -> {"C04", "C05"}
    [] IOEnv.DROP = "limit"       -> {"C12", "C17"}

Ping  == [k |-> "PINGREQ"]
Pub   == [k |-> "PUBLISH", dup |-> FALSE, qos |-> 0, retain |-> FALSE, topic |-> RBytes(<<97>>),
          pkid |-> 0, props |-> <<>>, payload |-> RBytes(<<192, 0>>)]
Ack   == [k |-> "PUBACK", pkid |-> 7, reason |-> "Success", props |-> <<>>]
Packets == <<Ping, Pub, Ack>>
Frames  == <<Encode(Norm(Ping)), Encode(Norm(Pub)), Encode(Norm(Ack)),
             RBytes(<<0, 0>>),                  \* no such type
             RBytes(<<64, 3, 0, 7, 1>>),        \* no such reason
             RBytes(<<224, 2, 0, 9>>)>>         \* a section longer than the frame
Tails   == <<<<>>, RBytes(<<48>>), RBytes(<<48, 130>>), RBytes(<<64, 2, 0>>),
             RBytes(<<48, 255, 255, 255, 255, 1>>)>>
Streams == {RCatAll(<<Frames[i], Frames[j], Tails[t]>>) : i \in 1..Len(Frames), j \in 1..Len(Frames), t \in 1..Len(Tails)}
Limits  == {<<>>, << <<4>> >>}

VARIABLES whole, lim, hinted,    \* the stream, the size limit, whether the reader follows hints
          src, inb,              \* not yet delivered, delivered and not yet consumed
          got,                   \* results obtained
          want,                  \* bytes the reader asks for: <<>> any amount
          st                     \* "ready", "waiting" (after a request for more), "stuck" (no way on)
vars == <<whole, lim, hinted, src, inb, got, want, st>>

Lim == IF lim = <<>> THEN <<>> ELSE lim[1]

(* The meaning of a stream *)
RECURSIVE Meaning(_, _)
Meaning(b, max) ==
  LET F == Frame(b, max) IN
  CASE F.t = "frame" ->
         LET d == DecodeAt("text", RTake(b, F.total), F.hl)
         IN << IF d.f = <<>> THEN [t |-> "ok", p |-> d.v] ELSE [t |-> "refused"] >>
            \o Meaning(RDrop(b, F.total), max)
    [] F.t \in {"badlen", "limit"} -> << [t |-> "refused"] >>
    [] F.t = "need" -> <<>>
RECURSIVE Consumed(_, _, _)
Consumed(b, max, k) ==              \* bytes of the first k frames
  IF k = 0 THEN 0
  ELSE LET F == Frame(b, max) IN
       IF F.t = "frame" THEN F.total + Consumed(RDrop(b, F.total), max, k - 1) ELSE 0

Init ==
  /\ whole \in Streams
  /\ lim \in Limits
  /\ hinted \in BOOLEAN
  /\ src = whole /\ inb = <<>> /\ got = <<>> /\ st = "ready"
  /\ want = IF hinted THEN <<0>> ELSE <<>>

Deliver ==
  /\ src # <<>> /\ st # "stuck"
  /\ \E n \in 1..(IF want = <<>> THEN RLen(src) ELSE IF want[1] < RLen(src) THEN want[1] ELSE RLen(src)) :
       /\ inb' = RCat(inb, RTake(src, n))
       /\ src' = RDrop(src, n)
       /\ want' = IF want = <<>> THEN <<>> ELSE <<want[1] - n>>
  /\ st' = "ready"
  /\ UNCHANGED <<whole, lim, hinted, got>>

Answers ==
  {[t |-> "ok", p |-> Packets[i]] : i \in 1..Len(Packets)}
  \cup {[t |-> "err", e |-> "InsufficientBytes", a |-> <<n>>] : n \in 0..6}
  \cup {[t |-> "err", e |-> "InvalidPacketType", a |-> <<n>>] : n \in {0, 4}}
  \cup {[t |-> "err", e |-> "InvalidReason", a |-> <<n>>] : n \in {0, 1}}
  \cup {[t |-> "err", e |-> "MalformedPacket", a |-> <<>>], [t |-> "panic"],
         [t |-> "err", e |-> "MalformedRemainingLength", a |-> <<>>]}
  \cup (IF lim = <<>> THEN {} ELSE {[t |-> "err", e |-> "PayloadSizeLimitExceeded", a |-> <<n, Lim[1]>>] : n \in 3..8})

(* what a read with that outcome looks like, its secondary observations     *)
(* agreeing with it                                                         *)
Event(r, post, F) ==
  [max |-> Lim, r |-> r, post |-> post,
   chk |-> IF F.t = "frame"
           THEN [t |-> "ok", n |-> F.total,
                 ty |-> LET k == inb[1][1] \div 16 IN IF k \in {0, 15} THEN "?" ELSE Kinds[k]]
           ELSE [t |-> "="],
   tr |-> <<>>, al |-> <<>>,
   nl |-> IF Lim = <<>> THEN <<>> ELSE << [t |-> "="] >>,
   fw |-> IF r.t = "ok" THEN << [r |-> [t |-> "ok", n |-> 0], rr |-> [t |-> "="], left |-> <<>>] >> ELSE <<>>]

Read ==
  /\ st = "ready"
  /\ LET F == Frame(inb, Lim) IN
     \E r \in Answers : \E k \in 0..RLen(inb) :
       LET post == RDrop(inb, k)
           bad  == JudgeRead("ANY", "text", inb, Event(r, post, F))
           stay == k = 0
       IN /\ bad \ Dropped = {}
          /\ inb' = post
          /\ got' = IF IsNeed(r) THEN got
                    ELSE Append(got, IF r.t = "ok" THEN [t |-> "ok", p |-> Norm(r.p)] ELSE [t |-> "refused"])
          /\ st' = IF IsNeed(r) THEN "waiting" ELSE IF stay THEN "stuck" ELSE "ready"
          /\ want' = IF ~hinted THEN <<>> ELSE IF IsNeed(r) THEN r.a ELSE <<0>>
  /\ UNCHANGED <<whole, lim, hinted, src>>

Next == Deliver \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
M == Meaning(whole, Lim)
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Frames0(k) == IF st = "stuck" THEN k - 1 ELSE k

(* the results are those of the stream, whatever the portions and whichever *)
(* of the permitted outcomes the library chose                              *)
Faithful == IsPrefixOf(got, M)
(* every byte is either consumed by a result or still there                 *)
Conserved == RCat(inb, src) = RDrop(whole, Consumed(whole, Lim, Frames0(Len(got))))
(* a reader left waiting, or at the end of everything, has all there is     *)
Complete == (src = <<>> /\ st # "ready") => got = M
(* a hint-follower never holds a byte beyond the frame it is reading        *)
NoExcess == hinted => LET F == Frame(inb, <<>>) IN F.t = "frame" => F.total = RLen(inb)
(* it ends *)
Ends == <>[](src = <<>> \/ st = "stuck") /\ <>[](st # "ready")
=============================================================================
