------------------------------ MODULE MqttMake ------------------------------
(***************************************************************************)
(* The constructors and number conversions of the public interface: what   *)
(* each must give for its arguments.                                       *)
(*   a constructor's packet has the arguments it was given and otherwise   *)
(*   what an empty packet has: no flags, packet identifier zero, success,  *)
(*   nothing optional;                                                     *)
(*   a number is converted to what the standard means by it, and any other *)
(*   is refused by its number.                                             *)
(***************************************************************************)
EXTENDS MqttStream

Ok(v)     == [t |-> "ok", v |-> v]
PropsArg(a) == a.props
NoFilter  == [path |-> <<>>, qos |-> 0, nl |-> FALSE, rap |-> FALSE, rh |-> 0]
EmptyPublish == [k |-> "PUBLISH", dup |-> FALSE, qos |-> 0, retain |-> FALSE, topic |-> <<>>,
                 pkid |-> 0, props |-> <<>>, payload |-> <<>>]
EmptyList3(k) == [k |-> k, pkid |-> 0, props |-> <<>>, filters |-> <<>>]
AckName == ("puback" :> "PUBACK") @@ ("pubrec" :> "PUBREC") @@ ("pubrel" :> "PUBREL") @@ ("pubcomp" :> "PUBCOMP")

Made(n, a) ==                       \* the value, for a call that must succeed
  CASE n = "publish" -> [EmptyPublish EXCEPT !.topic = a.topic, !.qos = a.qos, !.payload = a.payload,
                                             !.props = a.props]
    [] n = "subscribe" -> [EmptyList3("SUBSCRIBE") EXCEPT !.filters = << a.filters[1] >>, !.props = a.props]
    [] n = "subscribe_many" -> [EmptyList3("SUBSCRIBE") EXCEPT !.filters = a.filters, !.props = a.props]
    [] n = "unsubscribe" -> [EmptyList3("UNSUBSCRIBE") EXCEPT !.filters = << a.topic >>, !.props = a.props]
    [] n \in DOMAIN AckName -> [k |-> AckName[n], pkid |-> a.pkid, reason |-> "Success", props |-> a.props]
    [] n = "disconnect" -> [k |-> "DISCONNECT", reason |-> a.reason, props |-> <<>>]
    [] n = "filter" -> [NoFilter EXCEPT !.path = a.topic, !.qos = a.qos]
    [] n = "login" -> << [u |-> a.u, p |-> a.p] >>
    [] n = "string" -> a.topic
    [] n \in {"connackprops", "connectprops"} -> << <<>> >>
    [] n = "defaults" -> [publish |-> EmptyPublish, subscribe |-> EmptyList3("SUBSCRIBE"),
                          unsubscribe |-> EmptyList3("UNSUBSCRIBE"), filter |-> NoFilter,
                          publishprops |-> << <<>> >>, connackprops |-> << <<>> >>,
                          connectprops |-> << <<>> >>, qos |-> 0, rule |-> 0]
    [] n = "qos" -> IF a.num \in 0..2 THEN << a.num >> ELSE <<>>
    [] n = "reason" -> ReasonName["DISCONNECT"][a.num]
    [] n = "number" -> IF a.of = "DISCONNECT" THEN ReasonNum["DISCONNECT"][a.reason] ELSE a.qos
    [] n = "header" -> LET type == a.b1 \div 16 IN
                       [len |-> 1 + a.ll + a.rl,
                        ty  |-> IF type \in {0, 15} THEN "?" ELSE Kinds[type],
                        bad |-> IF type \in {0, 15} THEN << type >> ELSE <<>>]

MustFail(n, a) == n = "reason" /\ a.num \notin ReasonNums["DISCONNECT"]

JudgeMake(want, e) ==
  LET c18 == IF MustFail(e.n, e.a)
             THEN e.r.t = "err" /\ e.r.e \in ReasonErrors /\ e.r.a = << e.a.num >>
             ELSE e.r.t = "ok" /\ e.r.v = Made(e.n, e.a)
  IN UNION { Chk(want, "C18", c18), Chk(want, "C13", Returned(e.r)) }
=============================================================================
