//! Real packets of the library under test: built from and projected to abstract ones.
use crate::json::{n, o, s, J};
use crate::meter::metered;
use crate::model::*;
use crate::rope::Rope;
use bytes::{Bytes, BytesMut};
use mqtt_bytes_v5::*;

#[cfg(feature = "boxed_string")]
pub type MS = Box<str>;
#[cfg(feature = "binary_string")]
pub type MS = Bytes;
#[cfg(feature = "cow_string")]
pub type MS = std::borrow::Cow<'static, str>;
#[cfg(not(any(feature = "boxed_string", feature = "binary_string", feature = "cow_string")))]
pub type MS = String;

pub const CONFIG: &str = if cfg!(feature = "boxed_string") {
    "boxed_string"
} else if cfg!(feature = "binary_string") {
    "binary_string"
} else if cfg!(feature = "cow_string") {
    "cow_string"
} else {
    "default"
};

#[cfg(feature = "binary_string")]
pub fn ms(r: &Rope) -> MS {
    Bytes::from(r.vec())
}
#[cfg(feature = "cow_string")]
pub fn ms(r: &Rope) -> MS {
    let s = String::from_utf8(r.vec()).expect("plan: text");
    // both variants of the type occur in real use
    if s.len() % 2 == 0 && s.len() < 64 {
        std::borrow::Cow::Borrowed(Box::leak(s.into_boxed_str()))
    } else {
        std::borrow::Cow::Owned(s)
    }
}
#[cfg(not(any(feature = "binary_string", feature = "cow_string")))]
pub fn ms(r: &Rope) -> MS {
    String::from_utf8(r.vec()).expect("plan: text").into()
}
#[cfg(feature = "binary_string")]
fn rs(m: &MS) -> Rope {
    Rope::of(m)
}
#[cfg(not(feature = "binary_string"))]
fn rs(m: &MS) -> Rope {
    Rope::of(m.as_bytes())
}

fn by(r: &Rope) -> Bytes {
    Bytes::from(r.vec())
}

// ---- property sets ----
struct In<'a>(&'a [(u8, Val)]);
impl In<'_> {
    fn get(&self, id: u8) -> Option<&Val> {
        self.0.iter().find(|e| e.0 == id).map(|e| &e.1)
    }
    fn b(&self, id: u8) -> Option<u8> {
        self.get(id).map(|v| match v {
            Val::U8(x) => *x,
            _ => unreachable!(),
        })
    }
    fn w(&self, id: u8) -> Option<u16> {
        self.get(id).map(|v| match v {
            Val::U16(x) => *x,
            _ => unreachable!(),
        })
    }
    fn d(&self, id: u8) -> Option<u32> {
        self.get(id).map(|v| match v {
            Val::U32(x) => *x,
            _ => unreachable!(),
        })
    }
    fn v(&self, id: u8) -> Vec<usize> {
        self.0
            .iter()
            .filter(|e| e.0 == id)
            .map(|e| match &e.1 {
                Val::Vbi(x) => *x as usize,
                _ => unreachable!(),
            })
            .collect()
    }
    fn s(&self, id: u8) -> Option<MS> {
        self.get(id).map(|v| match v {
            Val::Str(r) => ms(r),
            _ => unreachable!(),
        })
    }
    fn bin(&self, id: u8) -> Option<Bytes> {
        self.get(id).map(|v| match v {
            Val::Bin(r) => by(r),
            _ => unreachable!(),
        })
    }
    fn up(&self) -> Vec<(MS, MS)> {
        self.0
            .iter()
            .filter(|e| e.0 == 38)
            .map(|e| match &e.1 {
                Val::Pair(a, b) => (ms(a), ms(b)),
                _ => unreachable!(),
            })
            .collect()
    }
}

struct Out(Plist);
impl Out {
    fn b(&mut self, id: u8, x: &Option<u8>) {
        if let Some(x) = x {
            self.0.push((id, Val::U8(*x)));
        }
    }
    fn w(&mut self, id: u8, x: &Option<u16>) {
        if let Some(x) = x {
            self.0.push((id, Val::U16(*x)));
        }
    }
    fn d(&mut self, id: u8, x: &Option<u32>) {
        if let Some(x) = x {
            self.0.push((id, Val::U32(*x)));
        }
    }
    fn v(&mut self, id: u8, x: usize) {
        self.0.push((id, Val::Vbi(x as u64)));
    }
    fn s(&mut self, id: u8, x: &Option<MS>) {
        if let Some(x) = x {
            self.0.push((id, Val::Str(rs(x))));
        }
    }
    fn bin(&mut self, id: u8, x: &Option<Bytes>) {
        if let Some(x) = x {
            self.0.push((id, Val::Bin(Rope::of(x))));
        }
    }
    fn up(&mut self, x: &[(MS, MS)]) {
        for (a, b) in x {
            self.0.push((38, Val::Pair(rs(a), rs(b))));
        }
    }
    fn done(mut self) -> Plist {
        self.0.sort_by_key(|e| e.0); // stable: repeated ones stay in order
        self.0
    }
}

fn connect_props(p: &Props) -> Option<ConnectProperties> {
    p.as_ref().map(|l| {
        let i = In(l);
        ConnectProperties {
            session_expiry_interval: i.d(17),
            receive_maximum: i.w(33),
            max_packet_size: i.d(39),
            topic_alias_max: i.w(34),
            request_response_info: i.b(25),
            request_problem_info: i.b(23),
            user_properties: i.up(),
            authentication_method: i.s(21),
            authentication_data: i.bin(22),
        }
    })
}
fn un_connect_props(p: &Option<ConnectProperties>) -> Props {
    p.as_ref().map(|p| {
        let mut q = Out(vec![]);
        q.d(17, &p.session_expiry_interval);
        q.w(33, &p.receive_maximum);
        q.d(39, &p.max_packet_size);
        q.w(34, &p.topic_alias_max);
        q.b(25, &p.request_response_info);
        q.b(23, &p.request_problem_info);
        q.up(&p.user_properties);
        q.s(21, &p.authentication_method);
        q.bin(22, &p.authentication_data);
        q.done()
    })
}
fn will_props(p: &Props) -> Option<LastWillProperties> {
    p.as_ref().map(|l| {
        let i = In(l);
        LastWillProperties {
            delay_interval: i.d(24),
            payload_format_indicator: i.b(1),
            message_expiry_interval: i.d(2),
            content_type: i.s(3),
            response_topic: i.s(8),
            correlation_data: i.bin(9),
            user_properties: i.up(),
        }
    })
}
fn un_will_props(p: &Option<LastWillProperties>) -> Props {
    p.as_ref().map(|p| {
        let mut q = Out(vec![]);
        q.d(24, &p.delay_interval);
        q.b(1, &p.payload_format_indicator);
        q.d(2, &p.message_expiry_interval);
        q.s(3, &p.content_type);
        q.s(8, &p.response_topic);
        q.bin(9, &p.correlation_data);
        q.up(&p.user_properties);
        q.done()
    })
}
fn connack_props(p: &Props) -> Option<ConnAckProperties> {
    p.as_ref().map(|l| {
        let i = In(l);
        ConnAckProperties {
            session_expiry_interval: i.d(17),
            receive_max: i.w(33),
            max_qos: i.b(36),
            retain_available: i.b(37),
            max_packet_size: i.d(39),
            assigned_client_identifier: i.s(18),
            topic_alias_max: i.w(34),
            reason_string: i.s(31),
            user_properties: i.up(),
            wildcard_subscription_available: i.b(40),
            subscription_identifiers_available: i.b(41),
            shared_subscription_available: i.b(42),
            server_keep_alive: i.w(19),
            response_information: i.s(26),
            server_reference: i.s(28),
            authentication_method: i.s(21),
            authentication_data: i.bin(22),
        }
    })
}
fn un_connack_props(p: &Option<ConnAckProperties>) -> Props {
    p.as_ref().map(|p| {
        let mut q = Out(vec![]);
        q.d(17, &p.session_expiry_interval);
        q.w(33, &p.receive_max);
        q.b(36, &p.max_qos);
        q.b(37, &p.retain_available);
        q.d(39, &p.max_packet_size);
        q.s(18, &p.assigned_client_identifier);
        q.w(34, &p.topic_alias_max);
        q.s(31, &p.reason_string);
        q.up(&p.user_properties);
        q.b(40, &p.wildcard_subscription_available);
        q.b(41, &p.subscription_identifiers_available);
        q.b(42, &p.shared_subscription_available);
        q.w(19, &p.server_keep_alive);
        q.s(26, &p.response_information);
        q.s(28, &p.server_reference);
        q.s(21, &p.authentication_method);
        q.bin(22, &p.authentication_data);
        q.done()
    })
}
fn publish_props(p: &Props) -> Option<PublishProperties> {
    p.as_ref().map(|l| {
        let i = In(l);
        PublishProperties {
            payload_format_indicator: i.b(1),
            message_expiry_interval: i.d(2),
            topic_alias: i.w(35),
            response_topic: i.s(8),
            correlation_data: i.bin(9),
            user_properties: i.up(),
            subscription_identifiers: i.v(11),
            content_type: i.s(3),
        }
    })
}
fn un_publish_props(p: &Option<PublishProperties>) -> Props {
    p.as_ref().map(|p| {
        let mut q = Out(vec![]);
        q.b(1, &p.payload_format_indicator);
        q.d(2, &p.message_expiry_interval);
        q.w(35, &p.topic_alias);
        q.s(8, &p.response_topic);
        q.bin(9, &p.correlation_data);
        q.up(&p.user_properties);
        for x in &p.subscription_identifiers {
            q.v(11, *x);
        }
        q.s(3, &p.content_type);
        q.done()
    })
}
macro_rules! ack_props {
    ($t:ident, $build:ident, $un:ident) => {
        fn $build(p: &Props) -> Option<$t> {
            p.as_ref().map(|l| {
                let i = In(l);
                $t { reason_string: i.s(31), user_properties: i.up() }
            })
        }
        fn $un(p: &Option<$t>) -> Props {
            p.as_ref().map(|p| {
                let mut q = Out(vec![]);
                q.s(31, &p.reason_string);
                q.up(&p.user_properties);
                q.done()
            })
        }
    };
}
ack_props!(PubAckProperties, puback_props, un_puback_props);
ack_props!(PubRecProperties, pubrec_props, un_pubrec_props);
ack_props!(PubRelProperties, pubrel_props, un_pubrel_props);
ack_props!(PubCompProperties, pubcomp_props, un_pubcomp_props);
ack_props!(SubAckProperties, suback_props, un_suback_props);
ack_props!(UnsubAckProperties, unsuback_props, un_unsuback_props);

fn subscribe_props(p: &Props) -> Option<SubscribeProperties> {
    p.as_ref().map(|l| {
        let i = In(l);
        SubscribeProperties { id: i.v(11).first().copied(), user_properties: i.up() }
    })
}
fn un_subscribe_props(p: &Option<SubscribeProperties>) -> Props {
    p.as_ref().map(|p| {
        let mut q = Out(vec![]);
        if let Some(x) = p.id {
            q.v(11, x);
        }
        q.up(&p.user_properties);
        q.done()
    })
}
fn unsubscribe_props(p: &Props) -> Option<UnsubscribeProperties> {
    p.as_ref().map(|l| UnsubscribeProperties { user_properties: In(l).up() })
}
fn un_unsubscribe_props(p: &Option<UnsubscribeProperties>) -> Props {
    p.as_ref().map(|p| {
        let mut q = Out(vec![]);
        q.up(&p.user_properties);
        q.done()
    })
}
fn disconnect_props(p: &Props) -> Option<DisconnectProperties> {
    p.as_ref().map(|l| {
        let i = In(l);
        DisconnectProperties {
            session_expiry_interval: i.d(17),
            reason_string: i.s(31),
            user_properties: i.up(),
            server_reference: i.s(28),
        }
    })
}
fn un_disconnect_props(p: &Option<DisconnectProperties>) -> Props {
    p.as_ref().map(|p| {
        let mut q = Out(vec![]);
        q.d(17, &p.session_expiry_interval);
        q.s(31, &p.reason_string);
        q.up(&p.user_properties);
        q.s(28, &p.server_reference);
        q.done()
    })
}

// ---- enums by variant name ----
macro_rules! names {
    ($t:ty, $to:ident, $from:ident, [$($v:ident),* $(,)?]) => {
        fn $to(s: &str) -> $t {
            match s {
                $(stringify!($v) => <$t>::$v,)*
                _ => panic!("plan: {s} is not a {}", stringify!($t)),
            }
        }
        fn $from(x: $t) -> String {
            #[allow(unreachable_patterns)]
            match x {
                $(<$t>::$v => stringify!($v).to_string(),)*
                _ => "?".to_string(),
            }
        }
    };
}
names!(ConnectReturnCode, connack_code, un_connack_code, [
    Success, RefusedProtocolVersion, BadClientId, ServiceUnavailable, UnspecifiedError,
    MalformedPacket, ProtocolError, ImplementationSpecificError, UnsupportedProtocolVersion,
    ClientIdentifierNotValid, BadUserNamePassword, NotAuthorized, ServerUnavailable, ServerBusy,
    Banned, BadAuthenticationMethod, TopicNameInvalid, PacketTooLarge, QuotaExceeded,
    PayloadFormatInvalid, RetainNotSupported, QoSNotSupported, UseAnotherServer, ServerMoved,
    ConnectionRateExceeded,
]);
names!(PubAckReason, puback_reason, un_puback_reason, [
    Success, NoMatchingSubscribers, UnspecifiedError, ImplementationSpecificError, NotAuthorized,
    TopicNameInvalid, PacketIdentifierInUse, QuotaExceeded, PayloadFormatInvalid,
]);
names!(PubRecReason, pubrec_reason, un_pubrec_reason, [
    Success, NoMatchingSubscribers, UnspecifiedError, ImplementationSpecificError, NotAuthorized,
    TopicNameInvalid, PacketIdentifierInUse, QuotaExceeded, PayloadFormatInvalid,
]);
names!(PubRelReason, pubrel_reason, un_pubrel_reason, [Success, PacketIdentifierNotFound]);
names!(PubCompReason, pubcomp_reason, un_pubcomp_reason, [Success, PacketIdentifierNotFound]);
names!(UnsubAckReason, unsuback_reason, un_unsuback_reason, [
    Success, NoSubscriptionExisted, UnspecifiedError, ImplementationSpecificError, NotAuthorized,
    TopicFilterInvalid, PacketIdentifierInUse,
]);
names!(DisconnectReasonCode, disconnect_reason, un_disconnect_reason, [
    NormalDisconnection, DisconnectWithWillMessage, UnspecifiedError, MalformedPacket,
    ProtocolError, ImplementationSpecificError, NotAuthorized, ServerBusy, ServerShuttingDown,
    KeepAliveTimeout, SessionTakenOver, TopicFilterInvalid, TopicNameInvalid,
    ReceiveMaximumExceeded, TopicAliasInvalid, PacketTooLarge, MessageRateTooHigh, QuotaExceeded,
    AdministrativeAction, PayloadFormatInvalid, RetainNotSupported, QoSNotSupported,
    UseAnotherServer, ServerMoved, SharedSubscriptionNotSupported, ConnectionRateExceeded,
    MaximumConnectTime, SubscriptionIdentifiersNotSupported, WildcardSubscriptionsNotSupported,
]);
fn suback_code(s: &str) -> SubscribeReasonCode {
    use SubscribeReasonCode as C;
    match s {
        "Granted0" => C::Success(QoS::AtMostOnce),
        "Granted1" => C::Success(QoS::AtLeastOnce),
        "Granted2" => C::Success(QoS::ExactlyOnce),
        "Unspecified" => C::Unspecified,
        "ImplementationSpecific" => C::ImplementationSpecific,
        "NotAuthorized" => C::NotAuthorized,
        "TopicFilterInvalid" => C::TopicFilterInvalid,
        "PkidInUse" => C::PkidInUse,
        "QuotaExceeded" => C::QuotaExceeded,
        "SharedSubscriptionsNotSupported" => C::SharedSubscriptionsNotSupported,
        "SubscriptionIdNotSupported" => C::SubscriptionIdNotSupported,
        "WildcardSubscriptionsNotSupported" => C::WildcardSubscriptionsNotSupported,
        _ => panic!("plan: suback code {s}"),
    }
}
fn un_suback_code(c: SubscribeReasonCode) -> String {
    use SubscribeReasonCode as C;
    match c {
        C::Success(q) => format!("Granted{}", q as u8),
        C::Unspecified => "Unspecified".into(),
        C::ImplementationSpecific => "ImplementationSpecific".into(),
        C::NotAuthorized => "NotAuthorized".into(),
        C::TopicFilterInvalid => "TopicFilterInvalid".into(),
        C::PkidInUse => "PkidInUse".into(),
        C::QuotaExceeded => "QuotaExceeded".into(),
        C::SharedSubscriptionsNotSupported => "SharedSubscriptionsNotSupported".into(),
        C::SubscriptionIdNotSupported => "SubscriptionIdNotSupported".into(),
        C::WildcardSubscriptionsNotSupported => "WildcardSubscriptionsNotSupported".into(),
    }
}
fn un_rh(r: &RetainForwardRule) -> u8 {
    match r {
        RetainForwardRule::OnEverySubscribe => 0,
        RetainForwardRule::OnNewSubscribe => 1,
        RetainForwardRule::Never => 2,
    }
}
fn rh(n: u8) -> RetainForwardRule {
    match n {
        0 => RetainForwardRule::OnEverySubscribe,
        1 => RetainForwardRule::OnNewSubscribe,
        _ => RetainForwardRule::Never,
    }
}
fn aqos(n: u8) -> QoS {
    match n {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}
fn un_qos(q: QoS) -> u8 {
    match q {
        QoS::AtMostOnce => 0,
        QoS::AtLeastOnce => 1,
        QoS::ExactlyOnce => 2,
    }
}

fn filter(f: &AFilter) -> Filter {
    Filter {
        path: ms(&f.path),
        qos: aqos(f.qos),
        nolocal: f.nl,
        preserve_retain: f.rap,
        retain_forward_rule: rh(f.rh),
    }
}
fn un_filter(f: &Filter) -> AFilter {
    AFilter {
        path: rs(&f.path),
        qos: un_qos(f.qos),
        nl: f.nolocal,
        rap: f.preserve_retain,
        rh: un_rh(&f.retain_forward_rule),
    }
}
fn un_will(w: &LastWill) -> AWill {
    AWill {
        topic: Rope::of(&w.topic),
        msg: Rope::of(&w.message),
        qos: un_qos(w.qos),
        retain: w.retain,
        props: un_will_props(&w.properties),
    }
}
fn un_login(l: &Login) -> (Rope, Rope) {
    (rs(&l.username), rs(&l.password))
}

// ---- packets ----
pub fn build(p: &AP) -> Packet {
    match p {
        AP::Connect { keep, cid, clean, props, will, login } => Packet::Connect(
            Connect {
                keep_alive: *keep,
                client_id: ms(cid),
                clean_start: *clean,
                properties: connect_props(props),
            },
            will.as_ref().map(|w| LastWill {
                topic: by(&w.topic),
                message: by(&w.msg),
                qos: aqos(w.qos),
                retain: w.retain,
                properties: will_props(&w.props),
            }),
            login.as_ref().map(|(u, p)| Login { username: ms(u), password: ms(p) }),
        ),
        AP::ConnAck { sp, reason, props } => Packet::ConnAck(ConnAck {
            session_present: *sp,
            code: connack_code(reason),
            properties: connack_props(props),
        }),
        AP::Publish { dup, qos, retain, topic, pkid, props, payload } => Packet::Publish(Publish {
            dup: *dup,
            qos: aqos(*qos),
            retain: *retain,
            topic: ms(topic),
            pkid: *pkid,
            payload: by(payload),
            properties: publish_props(props),
        }),
        AP::Ack { k, pkid, reason, props } => match k.as_str() {
            "PUBACK" => Packet::PubAck(PubAck {
                pkid: *pkid,
                reason: puback_reason(reason),
                properties: puback_props(props),
            }),
            "PUBREC" => Packet::PubRec(PubRec {
                pkid: *pkid,
                reason: pubrec_reason(reason),
                properties: pubrec_props(props),
            }),
            "PUBREL" => Packet::PubRel(PubRel {
                pkid: *pkid,
                reason: pubrel_reason(reason),
                properties: pubrel_props(props),
            }),
            _ => Packet::PubComp(PubComp {
                pkid: *pkid,
                reason: pubcomp_reason(reason),
                properties: pubcomp_props(props),
            }),
        },
        AP::Subscribe { pkid, props, filters } => Packet::Subscribe(Subscribe {
            pkid: *pkid,
            filters: filters.iter().map(filter).collect(),
            properties: subscribe_props(props),
        }),
        AP::Unsubscribe { pkid, props, filters } => Packet::Unsubscribe(Unsubscribe {
            pkid: *pkid,
            filters: filters.iter().map(ms).collect(),
            properties: unsubscribe_props(props),
        }),
        AP::ListAck { k, pkid, props, codes } => {
            if k == "SUBACK" {
                Packet::SubAck(SubAck {
                    pkid: *pkid,
                    return_codes: codes.iter().map(|c| suback_code(c)).collect(),
                    properties: suback_props(props),
                })
            } else {
                Packet::UnsubAck(UnsubAck {
                    pkid: *pkid,
                    reasons: codes.iter().map(|c| unsuback_reason(c)).collect(),
                    properties: unsuback_props(props),
                })
            }
        }
        AP::Ping { k } => {
            if k == "PINGREQ" {
                Packet::PingReq(PingReq)
            } else {
                Packet::PingResp(PingResp)
            }
        }
        AP::Disconnect { reason, props } => Packet::Disconnect(Disconnect {
            reason_code: disconnect_reason(reason),
            properties: disconnect_props(props),
        }),
    }
}

pub fn project(p: &Packet) -> AP {
    let ack = |k: &str, pkid: u16, reason: String, props: Props| AP::Ack { k: k.into(), pkid, reason, props };
    match p {
        Packet::Connect(c, w, l) => AP::Connect {
            keep: c.keep_alive,
            cid: rs(&c.client_id),
            clean: c.clean_start,
            props: un_connect_props(&c.properties),
            will: w.as_ref().map(un_will),
            login: l.as_ref().map(un_login),
        },
        Packet::ConnAck(c) => AP::ConnAck {
            sp: c.session_present,
            reason: un_connack_code(c.code),
            props: un_connack_props(&c.properties),
        },
        Packet::Publish(p) => AP::Publish {
            dup: p.dup,
            qos: un_qos(p.qos),
            retain: p.retain,
            topic: rs(&p.topic),
            pkid: p.pkid,
            props: un_publish_props(&p.properties),
            payload: Rope::of(&p.payload),
        },
        Packet::PubAck(a) => ack("PUBACK", a.pkid, un_puback_reason(a.reason), un_puback_props(&a.properties)),
        Packet::PubRec(a) => ack("PUBREC", a.pkid, un_pubrec_reason(a.reason), un_pubrec_props(&a.properties)),
        Packet::PubRel(a) => ack("PUBREL", a.pkid, un_pubrel_reason(a.reason), un_pubrel_props(&a.properties)),
        Packet::PubComp(a) => ack("PUBCOMP", a.pkid, un_pubcomp_reason(a.reason), un_pubcomp_props(&a.properties)),
        Packet::Subscribe(x) => AP::Subscribe {
            pkid: x.pkid,
            props: un_subscribe_props(&x.properties),
            filters: x.filters.iter().map(un_filter).collect(),
        },
        Packet::Unsubscribe(x) => AP::Unsubscribe {
            pkid: x.pkid,
            props: un_unsubscribe_props(&x.properties),
            filters: x.filters.iter().map(rs).collect(),
        },
        Packet::SubAck(x) => AP::ListAck {
            k: "SUBACK".into(),
            pkid: x.pkid,
            props: un_suback_props(&x.properties),
            codes: x.return_codes.iter().map(|c| un_suback_code(*c)).collect(),
        },
        Packet::UnsubAck(x) => AP::ListAck {
            k: "UNSUBACK".into(),
            pkid: x.pkid,
            props: un_unsuback_props(&x.properties),
            codes: x.reasons.iter().map(|c| un_unsuback_reason(*c)).collect(),
        },
        Packet::PingReq(_) => AP::Ping { k: "PINGREQ".into() },
        Packet::PingResp(_) => AP::Ping { k: "PINGRESP".into() },
        Packet::Disconnect(d) => AP::Disconnect {
            reason: un_disconnect_reason(d.reason_code),
            props: un_disconnect_props(&d.properties),
        },
    }
}

// ---- entry points of the individual packet types ----
pub fn size(p: &Packet) -> Option<usize> {
    match p {
        Packet::ConnAck(x) => Some(x.size()),
        Packet::Publish(x) => Some(x.size()),
        Packet::PubAck(x) => Some(x.size()),
        Packet::PubRec(x) => Some(x.size()),
        Packet::PubRel(x) => Some(x.size()),
        Packet::PubComp(x) => Some(x.size()),
        Packet::Subscribe(x) => Some(x.size()),
        Packet::SubAck(x) => Some(x.size()),
        Packet::Unsubscribe(x) => Some(x.size()),
        Packet::UnsubAck(x) => Some(x.size()),
        Packet::Disconnect(x) => Some(x.size()),
        Packet::Connect(..) | Packet::PingReq(_) | Packet::PingResp(_) => None,
    }
}

pub fn type_write(p: &Packet, b: &mut BytesMut) -> Result<usize, Error> {
    match p {
        Packet::Connect(c, w, l) => c.write(w, l, b),
        Packet::ConnAck(x) => x.write(b),
        Packet::Publish(x) => x.write(b),
        Packet::PubAck(x) => x.write(b),
        Packet::PubRec(x) => x.write(b),
        Packet::PubRel(x) => x.write(b),
        Packet::PubComp(x) => x.write(b),
        Packet::Subscribe(x) => x.write(b),
        Packet::SubAck(x) => x.write(b),
        Packet::Unsubscribe(x) => x.write(b),
        Packet::UnsubAck(x) => x.write(b),
        Packet::PingReq(_) => PingReq::write(b),
        Packet::PingResp(_) => PingResp::write(b),
        Packet::Disconnect(x) => x.write(b),
    }
}

/// None: this packet type has no read function of its own
pub fn type_read(fh: FixedHeader, frame: Bytes) -> Option<Result<Packet, Error>> {
    let Ok(t) = fh.packet_type() else { return None };
    Some(match t {
        PacketType::Connect => Connect::read(fh, frame).map(|(c, w, l)| Packet::Connect(c, w, l)),
        PacketType::ConnAck => ConnAck::read(fh, frame).map(Packet::ConnAck),
        PacketType::Publish => Publish::read(fh, frame).map(Packet::Publish),
        PacketType::PubAck => PubAck::read(fh, frame).map(Packet::PubAck),
        PacketType::PubRec => PubRec::read(fh, frame).map(Packet::PubRec),
        PacketType::PubRel => PubRel::read(fh, frame).map(Packet::PubRel),
        PacketType::PubComp => PubComp::read(fh, frame).map(Packet::PubComp),
        PacketType::Subscribe => Subscribe::read(fh, frame).map(Packet::Subscribe),
        PacketType::SubAck => SubAck::read(fh, frame).map(Packet::SubAck),
        PacketType::Unsubscribe => Unsubscribe::read(fh, frame).map(Packet::Unsubscribe),
        PacketType::UnsubAck => UnsubAck::read(fh, frame).map(Packet::UnsubAck),
        PacketType::Disconnect => Disconnect::read(fh, frame).map(Packet::Disconnect),
        PacketType::PingReq | PacketType::PingResp => return None,
    })
}

pub fn type_name(t: PacketType) -> &'static str {
    match t {
        PacketType::Connect => "CONNECT",
        PacketType::ConnAck => "CONNACK",
        PacketType::Publish => "PUBLISH",
        PacketType::PubAck => "PUBACK",
        PacketType::PubRec => "PUBREC",
        PacketType::PubRel => "PUBREL",
        PacketType::PubComp => "PUBCOMP",
        PacketType::Subscribe => "SUBSCRIBE",
        PacketType::SubAck => "SUBACK",
        PacketType::Unsubscribe => "UNSUBSCRIBE",
        PacketType::UnsubAck => "UNSUBACK",
        PacketType::PingReq => "PINGREQ",
        PacketType::PingResp => "PINGRESP",
        PacketType::Disconnect => "DISCONNECT",
    }
}

// ---- parts of packets that have functions of their own ----
/// Reads one part; fl: the connect flags, where they say what to read
pub fn part_read(k: &str, fl: u8, b: &mut Bytes) -> Result<J, Error> {
    Ok(match k {
        "CONNECT" => jprops(&un_connect_props(&metered(|| ConnectProperties::read(b))?)),
        "WILL" => jprops(&un_will_props(&metered(|| LastWillProperties::read(b))?)),
        "CONNACK" => jprops(&un_connack_props(&metered(|| ConnAckProperties::read(b))?)),
        "PUBLISH" => jprops(&un_publish_props(&metered(|| PublishProperties::read(b))?)),
        "PUBACK" => jprops(&un_puback_props(&metered(|| PubAckProperties::read(b))?)),
        "PUBREC" => jprops(&un_pubrec_props(&metered(|| PubRecProperties::read(b))?)),
        "PUBREL" => jprops(&un_pubrel_props(&metered(|| PubRelProperties::read(b))?)),
        "PUBCOMP" => jprops(&un_pubcomp_props(&metered(|| PubCompProperties::read(b))?)),
        "SUBSCRIBE" => jprops(&un_subscribe_props(&metered(|| SubscribeProperties::read(b))?)),
        "SUBACK" => jprops(&un_suback_props(&metered(|| SubAckProperties::read(b))?)),
        "UNSUBSCRIBE" => jprops(&un_unsubscribe_props(&metered(|| UnsubscribeProperties::read(b))?)),
        "UNSUBACK" => jprops(&un_unsuback_props(&metered(|| UnsubAckProperties::read(b))?)),
        "DISCONNECT" => jprops(&un_disconnect_props(&metered(|| DisconnectProperties::extract(b))?)),
        "lastwill" => J::A(metered(|| LastWill::read(fl, b))?.iter().map(|w| un_will(w).json()).collect()),
        "login" => jlogin(&metered(|| Login::read(fl, b))?.as_ref().map(un_login)),
        "filters" => J::A(metered(|| Filter::read(b))?.iter().map(|f| un_filter(f).json()).collect()),
        x => panic!("part {x}"),
    })
}

/// The parts of a packet, by name
pub fn parts(p: &Packet) -> Vec<(&'static str, usize)> {
    fn one<T>(k: &'static str, x: &Option<T>) -> Vec<(&'static str, usize)> {
        x.iter().map(|_| (k, 0)).collect()
    }
    match p {
        Packet::Connect(c, w, l) => {
            let mut v = one("CONNECT", &c.properties);
            if let Some(w) = w {
                v.extend(one("WILL", &w.properties));
                v.push(("lastwill", 0));
            }
            v.extend(one("login", l));
            v
        }
        Packet::ConnAck(x) => one("CONNACK", &x.properties),
        Packet::Publish(x) => one("PUBLISH", &x.properties),
        Packet::PubAck(x) => one("PUBACK", &x.properties),
        Packet::PubRec(x) => one("PUBREC", &x.properties),
        Packet::PubRel(x) => one("PUBREL", &x.properties),
        Packet::PubComp(x) => one("PUBCOMP", &x.properties),
        Packet::Subscribe(x) => {
            let mut v = one("SUBSCRIBE", &x.properties);
            v.extend((0..x.filters.len().min(3)).map(|i| ("filters", i)));
            v
        }
        Packet::SubAck(x) => one("SUBACK", &x.properties),
        Packet::Unsubscribe(x) => one("UNSUBSCRIBE", &x.properties),
        Packet::UnsubAck(x) => one("UNSUBACK", &x.properties),
        // (the property set of a disconnect has no public write function)
        Packet::Disconnect(_) | Packet::PingReq(_) | Packet::PingResp(_) => vec![],
    }
}

/// Writes one of them: the flags it contributes
pub fn part_write(p: &Packet, k: &str, i: usize, b: &mut BytesMut) -> Result<usize, Error> {
    let none = |r: Result<(), Error>| r.map(|()| 0);
    match (p, k) {
        (Packet::Connect(c, _, _), "CONNECT") => none(c.properties.as_ref().unwrap().write(b)),
        (Packet::Connect(_, Some(w), _), "WILL") => none(w.properties.as_ref().unwrap().write(b)),
        (Packet::Connect(_, Some(w), _), "lastwill") => w.write(b).map(usize::from),
        (Packet::Connect(_, _, Some(l)), "login") => l.write(b).map(usize::from),
        (Packet::ConnAck(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::Publish(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::PubAck(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::PubRec(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::PubRel(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::PubComp(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::Subscribe(x), "filters") => none(x.filters[i].write(b)),
        (Packet::Subscribe(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::SubAck(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::Unsubscribe(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        (Packet::UnsubAck(x), _) => none(x.properties.as_ref().unwrap().write(b)),
        _ => panic!("part {k}"),
    }
}

// ---- constructors and conversions ----
pub fn make(name: &str, a: &J) -> Result<J, Error> {
    let props = || uprops(a.get("props"));
    let text = |f: &str| ms(&Rope::from(a.get(f)));
    let num = |f: &str| a.get(f).num() as usize;
    let pkid = || a.get("pkid").num() as u16;
    let fil = || a.get("filters").arr().iter().map(|f| filter(&AFilter::from(f)));
    let out = |p: Packet| Ok(project(&p).json());
    match name {
        "publish" => out(Packet::Publish(Publish::new(
            text("topic"),
            aqos(num("qos") as u8),
            by(&Rope::from(a.get("payload"))),
            publish_props(&props()),
        ))),
        "subscribe" => {
            out(Packet::Subscribe(Subscribe::new(fil().next().unwrap(), subscribe_props(&props()))))
        }
        "subscribe_many" => out(Packet::Subscribe(Subscribe::new_many(fil(), subscribe_props(&props())))),
        "unsubscribe" => out(Packet::Unsubscribe(Unsubscribe::new(text("topic"), unsubscribe_props(&props())))),
        "puback" => out(Packet::PubAck(PubAck::new(pkid(), puback_props(&props())))),
        "pubrec" => out(Packet::PubRec(PubRec::new(pkid(), pubrec_props(&props())))),
        "pubrel" => out(Packet::PubRel(PubRel::new(pkid(), pubrel_props(&props())))),
        "pubcomp" => out(Packet::PubComp(PubComp::new(pkid(), pubcomp_props(&props())))),
        "disconnect" => out(Packet::Disconnect(Disconnect::new(disconnect_reason(a.get("reason").str())))),
        "filter" => Ok(un_filter(&Filter::new(text("topic"), aqos(num("qos") as u8))).json()),
        "login" => Ok(jlogin(&Some(un_login(&Login::new(text("u"), text("p")))))),
        "string" => {
            // the borrowed form lives for ever
            let t = String::from_utf8(Rope::from(a.get("topic")).vec()).expect("plan: text");
            let t: &'static str = Box::leak(t.into_boxed_str());
            Ok(rs(&mqtt_string_new(t)).json())
        }
        "connackprops" => Ok(jprops(&un_connack_props(&Some(ConnAckProperties::new())))),
        "connectprops" => Ok(jprops(&un_connect_props(&Some(ConnectProperties::new())))),
        "defaults" => Ok(o(vec![
            ("publish", project(&Packet::Publish(Publish::default())).json()),
            ("subscribe", project(&Packet::Subscribe(Subscribe::default())).json()),
            ("unsubscribe", project(&Packet::Unsubscribe(Unsubscribe::default())).json()),
            ("filter", un_filter(&Filter::default()).json()),
            ("publishprops", jprops(&un_publish_props(&Some(PublishProperties::default())))),
            ("connackprops", jprops(&un_connack_props(&Some(ConnAckProperties::default())))),
            ("connectprops", jprops(&un_connect_props(&Some(ConnectProperties::default())))),
            ("qos", n(un_qos(QoS::default()).into())),
            ("rule", n(un_rh(&RetainForwardRule::default()).into())),
        ])),
        "qos" => Ok(J::A(qos(num("num") as u8).iter().map(|q| n(un_qos(*q).into())).collect())),
        "reason" => Ok(s(&un_disconnect_reason(DisconnectReasonCode::try_from(num("num") as u8)?))),
        // the numbers behind the names
        "number" => Ok(n(match a.get("of").str() {
            "DISCONNECT" => disconnect_reason(a.get("reason").str()) as usize,
            _ => aqos(num("qos") as u8) as usize,
        })),
        "header" => {
            let h = FixedHeader::new(num("b1") as u8, num("ll"), num("rl"));
            let t = h.packet_type().map(type_name);
            Ok(o(vec![
                ("len", n(h.frame_length())),
                ("ty", s(t.unwrap_or("?"))),
                (
                    "bad",
                    match h.packet_type() {
                        Err(Error::InvalidPacketType(x)) => J::A(vec![n(x.into())]),
                        _ => J::A(vec![]),
                    },
                ),
            ]))
        }
        x => panic!("make {x}"),
    }
}
