----------------------------- MODULE MqttTables -----------------------------
(***************************************************************************)
(* The numbers of MQTT 5.0 (OASIS standard, sections 2.1.2, 2.2.2.2, 2.4   *)
(* and 3.x): packet types, property identifiers with their value types and *)
(* the packets they may occur in, and reason codes.  Written from the      *)
(* standard, not from the code; reason codes are named after the crate's   *)
(* public enum variants, which is how the harness reports them.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Kinds == << "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL",
            "PUBCOMP", "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK",
            "PINGREQ", "PINGRESP", "DISCONNECT" >>
KindSet == {Kinds[i] : i \in 1..Len(Kinds)}
TypeNum == [k \in KindSet |-> CHOOSE i \in 1..Len(Kinds) : Kinds[i] = k]

AckKinds  == {"PUBACK", "PUBREC", "PUBREL", "PUBCOMP"}
ListAcks  == {"SUBACK", "UNSUBACK"}

(* fixed-header flags required by table 2-2; PUBLISH carries data there *)
HeaderFlags == [k \in KindSet |->
                 IF k \in {"PUBREL", "SUBSCRIBE", "UNSUBSCRIBE"} THEN 2 ELSE 0]

MaxVbi == 268435455
MaxStr == 65535

-----------------------------------------------------------------------------
(* Property identifier -> value type *)
PropTypes ==
  (1 :> "u8") @@ (2 :> "u32") @@ (3 :> "str") @@ (8 :> "str") @@ (9 :> "bin")
  @@ (11 :> "vbi") @@ (17 :> "u32") @@ (18 :> "str") @@ (19 :> "u16")
  @@ (21 :> "str") @@ (22 :> "bin") @@ (23 :> "u8") @@ (24 :> "u32")
  @@ (25 :> "u8") @@ (26 :> "str") @@ (28 :> "str") @@ (31 :> "str")
  @@ (33 :> "u16") @@ (34 :> "u16") @@ (35 :> "u16") @@ (36 :> "u8")
  @@ (37 :> "u8") @@ (38 :> "pair") @@ (39 :> "u32") @@ (40 :> "u8")
  @@ (41 :> "u8") @@ (42 :> "u8")

(* Property identifiers allowed per packet (WILL: will properties), sorted *)
Allowed ==
  ("CONNECT"     :> <<17, 21, 22, 23, 25, 33, 34, 38, 39>>)
  @@ ("WILL"     :> <<1, 2, 3, 8, 9, 24, 38>>)
  @@ ("CONNACK"  :> <<17, 18, 19, 21, 22, 26, 28, 31, 33, 34, 36, 37, 38, 39, 40, 41, 42>>)
  @@ ("PUBLISH"  :> <<1, 2, 3, 8, 9, 11, 35, 38>>)
  @@ [k \in AckKinds \cup ListAcks |-> <<31, 38>>]
  @@ ("SUBSCRIBE"   :> <<11, 38>>)
  @@ ("UNSUBSCRIBE" :> <<38>>)
  @@ ("DISCONNECT"  :> <<17, 28, 31, 38>>)

AllowedSet == [c \in DOMAIN Allowed |-> {Allowed[c][i] : i \in 1..Len(Allowed[c])}]

(* may occur more than once in this packet *)
Repeatable(ctx, id) == id = 38 \/ (id = 11 /\ ctx = "PUBLISH")

(* Values the standard rules out although they can be encoded.  The crate *)
(* does not police them; see "gray" in MqttCodec.                         *)
OddValue(id, v) ==
  CASE id \in {1, 23, 25, 36, 37, 40, 41, 42} -> v > 1
    [] id \in {11, 33, 35}                    -> v = 0
    [] id = 39                                -> v = <<0, 0>>
    [] OTHER                                  -> FALSE

-----------------------------------------------------------------------------
(* Reason codes: sequences of <<number, name>> *)
PubReasons ==
  << <<0, "Success">>, <<16, "NoMatchingSubscribers">>, <<128, "UnspecifiedError">>,
     <<131, "ImplementationSpecificError">>, <<135, "NotAuthorized">>,
     <<144, "TopicNameInvalid">>, <<145, "PacketIdentifierInUse">>,
     <<151, "QuotaExceeded">>, <<153, "PayloadFormatInvalid">> >>
RelReasons == << <<0, "Success">>, <<146, "PacketIdentifierNotFound">> >>

ReasonTable ==
  ("CONNACK" :>
    << <<0, "Success">>, <<128, "UnspecifiedError">>, <<129, "MalformedPacket">>,
       <<130, "ProtocolError">>, <<131, "ImplementationSpecificError">>,
       <<132, "UnsupportedProtocolVersion">>, <<133, "ClientIdentifierNotValid">>,
       <<134, "BadUserNamePassword">>, <<135, "NotAuthorized">>,
       <<136, "ServerUnavailable">>, <<137, "ServerBusy">>, <<138, "Banned">>,
       <<140, "BadAuthenticationMethod">>, <<144, "TopicNameInvalid">>,
       <<149, "PacketTooLarge">>, <<151, "QuotaExceeded">>,
       <<153, "PayloadFormatInvalid">>, <<154, "RetainNotSupported">>,
       <<155, "QoSNotSupported">>, <<156, "UseAnotherServer">>,
       <<157, "ServerMoved">>, <<159, "ConnectionRateExceeded">> >>)
  @@ ("PUBACK" :> PubReasons) @@ ("PUBREC" :> PubReasons)
  @@ ("PUBREL" :> RelReasons) @@ ("PUBCOMP" :> RelReasons)
  @@ ("SUBACK" :>
    << <<0, "Granted0">>, <<1, "Granted1">>, <<2, "Granted2">>,
       <<128, "Unspecified">>, <<131, "ImplementationSpecific">>,
       <<135, "NotAuthorized">>, <<143, "TopicFilterInvalid">>,
       <<145, "PkidInUse">>, <<151, "QuotaExceeded">>,
       <<158, "SharedSubscriptionsNotSupported">>,
       <<161, "SubscriptionIdNotSupported">>,
       <<162, "WildcardSubscriptionsNotSupported">> >>)
  @@ ("UNSUBACK" :>
    << <<0, "Success">>, <<17, "NoSubscriptionExisted">>, <<128, "UnspecifiedError">>,
       <<131, "ImplementationSpecificError">>, <<135, "NotAuthorized">>,
       <<143, "TopicFilterInvalid">>, <<145, "PacketIdentifierInUse">> >>)
  @@ ("DISCONNECT" :>
    << <<0, "NormalDisconnection">>, <<4, "DisconnectWithWillMessage">>,
       <<128, "UnspecifiedError">>, <<129, "MalformedPacket">>, <<130, "ProtocolError">>,
       <<131, "ImplementationSpecificError">>, <<135, "NotAuthorized">>,
       <<137, "ServerBusy">>, <<139, "ServerShuttingDown">>, <<141, "KeepAliveTimeout">>,
       <<142, "SessionTakenOver">>, <<143, "TopicFilterInvalid">>,
       <<144, "TopicNameInvalid">>, <<147, "ReceiveMaximumExceeded">>,
       <<148, "TopicAliasInvalid">>, <<149, "PacketTooLarge">>,
       <<150, "MessageRateTooHigh">>, <<151, "QuotaExceeded">>,
       <<152, "AdministrativeAction">>, <<153, "PayloadFormatInvalid">>,
       <<154, "RetainNotSupported">>, <<155, "QoSNotSupported">>,
       <<156, "UseAnotherServer">>, <<157, "ServerMoved">>,
       <<158, "SharedSubscriptionNotSupported">>, <<159, "ConnectionRateExceeded">>,
       <<160, "MaximumConnectTime">>, <<161, "SubscriptionIdentifiersNotSupported">>,
       <<162, "WildcardSubscriptionsNotSupported">> >>)

(* Connect return codes of the public API that exist in MQTT 3 only. *)
NoWireCode == {"RefusedProtocolVersion", "BadClientId", "ServiceUnavailable"}

ReasonNums  == [k \in DOMAIN ReasonTable |->
                 {ReasonTable[k][i][1] : i \in 1..Len(ReasonTable[k])}]
ReasonName  == [k \in DOMAIN ReasonTable |->
                 [n \in ReasonNums[k] |->
                   ReasonTable[k][CHOOSE i \in 1..Len(ReasonTable[k]) :
                                    ReasonTable[k][i][1] = n][2]]]
ReasonNames == [k \in DOMAIN ReasonTable |->
                 {ReasonTable[k][i][2] : i \in 1..Len(ReasonTable[k])}]
ReasonNum   == [k \in DOMAIN ReasonTable |->
                 [m \in ReasonNames[k] |->
                   ReasonTable[k][CHOOSE i \in 1..Len(ReasonTable[k]) :
                                    ReasonTable[k][i][2] = m][1]]]

(* The tables themselves: every number and every name at most once. *)
TablesWellFormed ==
  \A k \in DOMAIN ReasonTable :
     /\ Cardinality(ReasonNums[k]) = Len(ReasonTable[k])
     /\ Cardinality(ReasonNames[k]) = Len(ReasonTable[k])
=============================================================================
