//! Seeded random plans.  Nothing here knows what is right: the specification judges.
use crate::json::{o, s, J};
use crate::model::*;
use crate::rope::Rope;
use std::io::Write;

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn to(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true in p of 100 cases
    pub fn p(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    /// index by weight
    pub fn pick(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut x = self.below(t.max(1));
        for (i, &k) in w.iter().enumerate() {
            if x < k {
                return i;
            }
            x -= k;
        }
        0
    }
}

pub const KINDS: [&str; 14] = [
    "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
    "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT",
];

const CONNACK: &[(u8, &str)] = &[
    (0, "Success"), (128, "UnspecifiedError"), (129, "MalformedPacket"), (130, "ProtocolError"),
    (131, "ImplementationSpecificError"), (132, "UnsupportedProtocolVersion"),
    (133, "ClientIdentifierNotValid"), (134, "BadUserNamePassword"), (135, "NotAuthorized"),
    (136, "ServerUnavailable"), (137, "ServerBusy"), (138, "Banned"), (140, "BadAuthenticationMethod"),
    (144, "TopicNameInvalid"), (149, "PacketTooLarge"), (151, "QuotaExceeded"),
    (153, "PayloadFormatInvalid"), (154, "RetainNotSupported"), (155, "QoSNotSupported"),
    (156, "UseAnotherServer"), (157, "ServerMoved"), (159, "ConnectionRateExceeded"),
];
const PUB: &[(u8, &str)] = &[
    (0, "Success"), (16, "NoMatchingSubscribers"), (128, "UnspecifiedError"),
    (131, "ImplementationSpecificError"), (135, "NotAuthorized"), (144, "TopicNameInvalid"),
    (145, "PacketIdentifierInUse"), (151, "QuotaExceeded"), (153, "PayloadFormatInvalid"),
];
const REL: &[(u8, &str)] = &[(0, "Success"), (146, "PacketIdentifierNotFound")];
const SUBACK: &[(u8, &str)] = &[
    (0, "Granted0"), (1, "Granted1"), (2, "Granted2"), (128, "Unspecified"),
    (131, "ImplementationSpecific"), (135, "NotAuthorized"), (143, "TopicFilterInvalid"),
    (145, "PkidInUse"), (151, "QuotaExceeded"), (158, "SharedSubscriptionsNotSupported"),
    (161, "SubscriptionIdNotSupported"), (162, "WildcardSubscriptionsNotSupported"),
];
const UNSUBACK: &[(u8, &str)] = &[
    (0, "Success"), (17, "NoSubscriptionExisted"), (128, "UnspecifiedError"),
    (131, "ImplementationSpecificError"), (135, "NotAuthorized"), (143, "TopicFilterInvalid"),
    (145, "PacketIdentifierInUse"),
];
const DISC: &[(u8, &str)] = &[
    (0, "NormalDisconnection"), (4, "DisconnectWithWillMessage"), (128, "UnspecifiedError"),
    (129, "MalformedPacket"), (130, "ProtocolError"), (131, "ImplementationSpecificError"),
    (135, "NotAuthorized"), (137, "ServerBusy"), (139, "ServerShuttingDown"), (141, "KeepAliveTimeout"),
    (142, "SessionTakenOver"), (143, "TopicFilterInvalid"), (144, "TopicNameInvalid"),
    (147, "ReceiveMaximumExceeded"), (148, "TopicAliasInvalid"), (149, "PacketTooLarge"),
    (150, "MessageRateTooHigh"), (151, "QuotaExceeded"), (152, "AdministrativeAction"),
    (153, "PayloadFormatInvalid"), (154, "RetainNotSupported"), (155, "QoSNotSupported"),
    (156, "UseAnotherServer"), (157, "ServerMoved"), (158, "SharedSubscriptionNotSupported"),
    (159, "ConnectionRateExceeded"), (160, "MaximumConnectTime"),
    (161, "SubscriptionIdentifiersNotSupported"), (162, "WildcardSubscriptionsNotSupported"),
];
pub fn reasons(k: &str) -> &'static [(u8, &'static str)] {
    match k {
        "CONNACK" => CONNACK,
        "PUBACK" | "PUBREC" => PUB,
        "PUBREL" | "PUBCOMP" => REL,
        "SUBACK" => SUBACK,
        "UNSUBACK" => UNSUBACK,
        _ => DISC,
    }
}
fn rnum(k: &str, name: &str) -> u8 {
    reasons(k).iter().find(|x| x.1 == name).map_or(1, |x| x.0)
}

/// What is being aimed at.
#[derive(Clone, Copy)]
pub struct Aim {
    pub odd: bool,    // values the standard forbids but that can be encoded
    pub plain: bool,  // keep everything but the properties simple
    pub long: usize,  // percentage of long strings
    pub props: usize, // percentage of packets with properties
}

pub struct G {
    pub r: Rng,
    pub aim: Aim,
}

impl G {
    // ---------- values ----------
    fn slen(&mut self) -> usize {
        if !self.r.p(self.aim.long) {
            return match self.r.below(10) {
                0 | 1 => 0,
                2 => 1,
                3..=7 => self.r.to(2, 9),
                _ => self.r.to(10, 40),
            };
        }
        match self.r.below(10) {
            0..=4 => self.r.of(&[120, 125, 126, 127, 128, 129, 130, 254, 255, 256, 257]),
            5 | 6 => self.r.to(100, 3000),
            7 => self.r.of(&[16380, 16381, 16382, 16383, 16384, 16385]),
            _ => self.r.of(&[32766, 32767, 32768, 65533, 65534, 65535]),
        }
    }
    fn ch(&mut self, room: usize) -> Vec<u8> {
        let c = match self.r.below(20) {
            0 => 0x80 + self.r.below(0x780) as u32,
            1 => 0x800 + self.r.below(0xD000) as u32,
            2 => 0x10000 + self.r.below(0x10_0000) as u32,
            3 => self.r.of(&[0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]),
            4 => u32::from(self.r.of(b"/+#$ \t")),
            5 => 1 + self.r.below(31) as u32,
            _ => u32::from(self.r.of(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789/")),
        };
        let c = char::from_u32(c).unwrap_or('x');
        let mut b = [0; 4];
        let e = c.encode_utf8(&mut b).as_bytes().to_vec();
        if e.len() <= room {
            e
        } else {
            vec![b'z']
        }
    }
    pub fn text_n(&mut self, len: usize) -> Rope {
        let mut v = Vec::new();
        let head = len.min(24);
        while v.len() < head {
            let c = self.ch(len - v.len());
            v.extend(c);
        }
        let mut r = Rope::of(&v);
        let fill = self.r.of(b"aQ7~");
        let rest = len - r.len();
        r.run(fill, rest);
        r
    }
    pub fn text(&mut self) -> Rope {
        if self.r.p(4) {
            // text that means something to somebody
            let t = self.r.of(&[
                "+", "#", "/", "//", "/a", "a/", "a/+/b", "a/#", "+/+", "#/a", "a+", "a#", "$SYS", "$SYS/#", "$share/g/t",
                "$share/g/+/#", "$share//t", "$queue/t", "MQTT", "MQIsdp", "true", "null", "0", " ", "  a", "a ", "\u{0}",
                "a\u{0}b", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}", "\u{ad}", "\u{200b}", "\u{202e}", "\u{feff}",
                "\u{feff}\u{feff}a", "a\u{feff}", "\u{fdd0}", "\u{fffe}", "\u{ffff}", "\u{1fffe}", "e\u{301}",
                "\u{e9}", "\u{130}", "\u{df}", "\n", "\r\n", "\t", "a\r", "\"", "\\", "%s", "{}", "A", "\u{3a9}",
            ]);
            return Rope::of(t.as_bytes());
        }
        let n = self.slen();
        self.text_n(n)
    }
    fn data_n(&mut self, len: usize) -> Rope {
        let mut r = Rope::new();
        for _ in 0..len.min(24) {
            let b = self.r.byte();
            r.byte(b);
        }
        let b = self.r.byte();
        r.run(b, len - r.len());
        r
    }
    fn data(&mut self) -> Rope {
        let n = self.slen();
        self.data_n(n)
    }
    fn bad_text(&mut self) -> Rope {
        let bad: &[&[u8]] = &[
            &[0x80], &[0xBF], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xC2], &[0xC2, 0x41], &[0xE0, 0x80, 0x80],
            &[0xE0, 0x9F, 0xBF], &[0xE1, 0x80], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xF0, 0x80, 0x80, 0x80],
            &[0xF0, 0x8F, 0xBF, 0xBF], &[0xF1, 0x80, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xF5, 0x80, 0x80, 0x80],
            &[0xF8, 0x88, 0x80, 0x80, 0x80], &[0xFE], &[0xFF], &[0xFF, 0xFE],
        ];
        let a = self.r.below(6);
        let mut r = self.text_n(a);
        let b = self.r.of(bad);
        r.bytes(b);
        let a = self.r.of(&[0, 0, 1, 3, 9]);
        r.cat(&self.text_n(a));
        r
    }
    fn u8v(&mut self, id: u8) -> u8 {
        let _ = id;
        if self.aim.odd && self.r.p(30) {
            self.r.of(&[2, 3, 127, 128, 254, 255])
        } else {
            self.r.of(&[0, 1])
        }
    }
    fn u16v(&mut self) -> u16 {
        match self.r.below(4) {
            0 => self.r.of(&[1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535]),
            1 if self.aim.odd => 0,
            _ => (self.r.next() as u16).max(1),
        }
    }
    fn u32v(&mut self) -> u32 {
        match self.r.below(4) {
            0 => self.r.of(&[1, 255, 256, 65535, 65536, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x0102_0304, 0xFF00_FF00]),
            1 if self.aim.odd => 0,
            _ => (self.r.next() as u32).max(1),
        }
    }
    fn vbiv(&mut self) -> u64 {
        match self.r.below(3) {
            0 => self.r.of(&[1, 126, 127, 128, 129, 16383, 16384, 2_097_151, 2_097_152, 268_435_454, 268_435_455]),
            1 if self.aim.odd => 0,
            _ => {
                let b = self.r.to(1, 28);
                (self.r.next() % (1 << b)).max(1)
            }
        }
    }
    fn value(&mut self, id: u8) -> Val {
        match ptype(id) {
            '1' => Val::U8(self.u8v(id)),
            '2' => {
                let v = self.u16v();
                // 0 is fine except for Receive Maximum and Topic Alias
                Val::U16(if (id == 19 || id == 34) && self.r.p(15) { 0 } else { v })
            }
            '4' => {
                let v = self.u32v();
                Val::U32(if id != 39 && self.r.p(15) { 0 } else { v })
            }
            'v' => Val::Vbi(self.vbiv()),
            's' => Val::Str(self.text()),
            'b' => Val::Bin(self.data()),
            _ => Val::Pair(self.text(), self.text()),
        }
    }
    pub fn props(&mut self, ctx: &str) -> Props {
        if !self.r.p(self.aim.props) {
            return if self.r.p(25) { Some(vec![]) } else { None };
        }
        let ids = allowed(ctx);
        let mut l = Vec::new();
        let style = self.r.below(10);
        for &id in ids {
            let rep = id == 38 || (id == 11 && ctx == "PUBLISH");
            let n = match style {
                0 => 1,                                                  // everything
                1 => usize::from(self.r.p(90)),
                2 if rep => self.r.to(2, 12),                            // many repeated ones
                2 => 0,
                3 | 4 => usize::from(self.r.p(50)) * if rep { self.r.to(1, 5) } else { 1 },
                _ => usize::from(self.r.p(170 / ids.len().max(2))) * if rep { self.r.to(1, 3) } else { 1 },
            };
            let mut vs: Vec<Val> = (0..n).map(|_| self.value(id)).collect();
            self.echo(&mut vs);
            l.extend(vs.into_iter().map(|v| (id, v)));
        }
        // authentication data needs a method
        if !self.aim.odd && l.iter().any(|e| e.0 == 22) && !l.iter().any(|e| e.0 == 21) {
            l.retain(|e| e.0 != 22);
        }
        if self.r.p(10) {
            let t = self.r.of(&[126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385]);
            pad_list(&mut l, t);
        }
        l.sort_by_key(|e| e.0);
        Some(l)
    }

    /// sometimes, elements of a list that equal one another
    fn echo<T: Clone>(&mut self, v: &mut Vec<T>) {
        if v.len() < 2 || !self.r.p(20) {
            return;
        }
        for i in 1..v.len() {
            if self.r.p(60) {
                let j = self.r.below(i);
                v[i] = v[j].clone();
            }
        }
    }

    // ---------- packets ----------
    fn pkid(&mut self) -> u16 {
        if self.aim.odd && self.r.p(6) {
            0
        } else {
            let odd = self.aim.odd;
            self.aim.odd = false;
            let v = self.u16v();
            self.aim.odd = odd;
            v
        }
    }
    pub fn packet(&mut self, kind: &str) -> AP {
        let k = kind.to_string();
        match kind {
            "CONNECT" => {
                let will = if self.r.p(50) {
                    Some(AWill {
                        topic: self.text(),
                        msg: self.data(),
                        qos: self.r.below(3) as u8,
                        retain: self.r.p(50),
                        props: self.props("WILL"),
                    })
                } else {
                    None
                };
                let login = match self.r.below(8) {
                    0 | 1 | 2 => Some((self.text(), self.text())),
                    3 => Some((self.text(), Rope::new())),
                    4 => Some((Rope::new(), self.text())),
                    5 => Some((Rope::new(), Rope::new())),
                    _ => None,
                };
                let keep = if self.r.p(10) { 0 } else { self.u16v() };
                AP::Connect { keep, cid: self.text(), clean: self.r.p(50), props: self.props("CONNECT"), will, login }
            }
            "CONNACK" => AP::ConnAck { sp: self.r.p(50), reason: self.reason(kind), props: self.props(kind) },
            "PUBLISH" => {
                let qos = self.r.below(3) as u8;
                let odd = self.aim.odd;
                let pkid = if qos > 0 {
                    self.aim.odd = false;
                    let x = self.pkid();
                    self.aim.odd = odd;
                    x
                } else if odd && self.r.p(30) {
                    self.pkid()
                } else {
                    0
                };
                let payload = if self.r.p(15) { Rope::new() } else { self.data() };
                AP::Publish {
                    dup: (qos > 0 || odd) && self.r.p(40),
                    qos,
                    retain: self.r.p(50),
                    topic: self.text(),
                    pkid,
                    props: self.props(kind),
                    payload,
                }
            }
            "PUBACK" | "PUBREC" | "PUBREL" | "PUBCOMP" => {
                AP::Ack { k, pkid: self.pkid(), reason: self.reason(kind), props: self.props(kind) }
            }
            "SUBSCRIBE" => {
                let n = self.count();
                let mut filters: Vec<AFilter> = (0..n)
                    .map(|_| AFilter {
                        path: self.text(),
                        qos: self.r.below(3) as u8,
                        nl: self.r.p(50),
                        rap: self.r.p(50),
                        rh: self.r.below(3) as u8,
                    })
                    .collect();
                self.echo(&mut filters);
                AP::Subscribe { pkid: self.pkid(), props: self.props(kind), filters }
            }
            "UNSUBSCRIBE" => {
                let n = self.count();
                let mut filters: Vec<Rope> = (0..n).map(|_| self.text()).collect();
                self.echo(&mut filters);
                AP::Unsubscribe { pkid: self.pkid(), props: self.props(kind), filters }
            }
            "SUBACK" | "UNSUBACK" => {
                let n = self.count();
                let mut codes: Vec<String> = (0..n).map(|_| self.reason(kind)).collect();
                self.echo(&mut codes);
                AP::ListAck { k, pkid: self.pkid(), props: self.props(kind), codes }
            }
            "PINGREQ" | "PINGRESP" => AP::Ping { k },
            _ => AP::Disconnect { reason: self.reason(kind), props: self.props(kind) },
        }
    }
    fn count(&mut self) -> usize {
        match self.r.below(12) {
            0..=4 => 1,
            5..=9 => self.r.to(2, 5),
            10 => self.r.to(6, 20),
            _ => {
                if self.aim.long > 0 {
                    self.r.of(&[30, 64, 100, 127, 128])
                } else {
                    3
                }
            }
        }
    }
    fn reason(&mut self, k: &str) -> String {
        let t = reasons(k);
        let p = if self.aim.plain { 90 } else { 25 };
        if self.r.p(p) {
            t[0].1.into()
        } else {
            self.r.of(t).1.into()
        }
    }
    pub fn kind(&mut self) -> &'static str {
        // ping carries nothing
        KINDS[self.r.pick(&[14, 10, 14, 7, 7, 7, 7, 9, 7, 7, 7, 1, 1, 10])]
    }
    pub fn any(&mut self) -> AP {
        let k = self.kind();
        let mut p = self.packet(k);
        if self.r.p(6) {
            self.pad_packet(&mut p);
        }
        p
    }

    /// stretch the packet until its remaining length sits on a length boundary
    fn pad_packet(&mut self, p: &mut AP) {
        let t = self.r.of(&[126usize, 127, 128, 129, 16382, 16383, 16384, 16385]);
        let cur = wire_len(p);
        let add = t.saturating_sub(cur);
        if add == 0 {
            return;
        }
        if let AP::Publish { payload, .. } = p {
            payload.run(b'p', add);
            return;
        }
        if let Some(pr) = p.props_mut() {
            let have = pr.clone().unwrap_or_default();
            for want in [add, add.saturating_sub(1), add.saturating_sub(2), add.saturating_sub(3)] {
                let mut l = have.clone();
                let base = lsize(&l);
                pad_list(&mut l, base + want);
                l.sort_by_key(|e| e.0);
                *pr = Some(l);
                break;
            }
        }
        // the short forms and the section length itself shift the total: settle
        for _ in 0..6 {
            let cur = wire_len(p);
            if cur == t {
                break;
            }
            let Some(Some(l)) = p.props_mut() else { break };
            let Some((_, Val::Pair(_, b))) = l.iter_mut().rev().find(|e| e.0 == 38) else { break };
            if cur < t {
                b.run(b'p', t - cur);
            } else {
                let n = b.len().saturating_sub(cur - t);
                *b = b.cut(0, n);
            }
            if b.len() > 65535 {
                break;
            }
        }
    }

    /// make one field of the packet unencodable
    pub fn spoil(&mut self, p: &mut AP) -> bool {
        let over = self.r.of(&[65536usize, 65537, 65536 + 7, 70000, 131_071, 131_072]);
        let big = self.text_n(over);
        let vbi = self.r.of(&[268_435_456u64, 268_435_457, 1 << 29, 1 << 31, 1 << 32, (1 << 35) + 5, u64::MAX]);
        let ctx = p.kind().to_string();
        let prop = |g: &mut G, l: &mut Plist, ctx: &str| -> bool {
            let ids: Vec<u8> =
                allowed(ctx).iter().copied().filter(|i| matches!(ptype(*i), 's' | 'b' | 'v' | 'p')).collect();
            if ids.is_empty() {
                return false;
            }
            let id = g.r.of(&ids);
            let v = match ptype(id) {
                's' => Val::Str(big.clone()),
                'b' => Val::Bin(big.clone()),
                'v' => Val::Vbi(vbi),
                _ if g.r.p(50) => Val::Pair(big.clone(), g.text_n(2)),
                _ => Val::Pair(g.text_n(2), big.clone()),
            };
            if id != 38 && !(id == 11 && ctx == "PUBLISH") {
                l.retain(|e| e.0 != id);
            }
            l.push((id, v));
            l.sort_by_key(|e| e.0);
            true
        };
        let which = self.r.below(6);
        match p {
            AP::Connect { cid, will, login, props, .. } => match which {
                0 => *cid = big,
                1 => {
                    let l = login.get_or_insert((Rope::of(b"u"), Rope::of(b"p")));
                    if self.r.p(50) {
                        l.0 = big;
                    } else {
                        l.1 = big;
                    }
                }
                2 | 3 => {
                    let w = will.get_or_insert(AWill {
                        topic: Rope::of(b"t"),
                        msg: Rope::new(),
                        qos: 1,
                        retain: false,
                        props: None,
                    });
                    match self.r.below(3) {
                        0 => w.topic = big,
                        1 => w.msg = big,
                        _ => {
                            let mut l = w.props.take().unwrap_or_default();
                            prop(self, &mut l, "WILL");
                            w.props = Some(l);
                        }
                    }
                }
                _ => {
                    let mut l = props.take().unwrap_or_default();
                    prop(self, &mut l, "CONNECT");
                    *props = Some(l);
                }
            },
            AP::ConnAck { reason, .. } if which < 3 => {
                *reason = self.r.of(&["RefusedProtocolVersion", "BadClientId", "ServiceUnavailable"]).into();
            }
            AP::Publish { topic, qos, pkid, .. } if which < 4 => {
                if which < 2 {
                    *topic = big;
                } else {
                    *qos = self.r.to(1, 2) as u8;
                    *pkid = 0;
                }
            }
            AP::Subscribe { filters, .. } if which < 3 => {
                let i = self.r.below(filters.len());
                filters[i].path = big;
            }
            AP::Unsubscribe { filters, .. } if which < 3 => {
                let i = self.r.below(filters.len());
                filters[i] = big;
            }
            AP::Ping { .. } => return false,
            p => {
                let Some(pr) = p.props_mut() else { return false };
                let mut l = pr.take().unwrap_or_default();
                prop(self, &mut l, &ctx);
                *pr = Some(l);
            }
        }
        true
    }
}

/// lengthen a property list to `target` bytes with user properties
fn pad_list(l: &mut Plist, target: usize) {
    let mut miss = target.saturating_sub(lsize(l));
    while miss >= 5 {
        let body = (miss - 5).min(2 * 65535);
        // never leave a rest of 1..4 bytes
        let body = if miss - 5 - body != 0 && miss - 5 - body < 5 { body - 5 } else { body };
        let a = body / 2;
        l.push((38, Val::Pair(Rope::rep(b'k', a.min(65535)), Rope::rep(b'v', body - a.min(65535)))));
        miss -= body + 5;
    }
}

fn wire_len(p: &AP) -> usize {
    let f = wire_of(p);
    f.body_rope().len()
}

// ---------------------------------------------------------------------------
// Frames as a peer might send them.

#[derive(Clone, Debug)]
pub enum Nd {
    Tag(&'static str, u8),
    Raw(&'static str, Rope),
    Str { text: bool, b: Rope, dlen: i64 },
    Vbi { v: u64, pad: usize },
    Sec { ctx: &'static str, props: Vec<(u8, Vec<Nd>)>, dlen: i64, pad: usize, omit: bool },
}

#[derive(Clone, Debug)]
pub struct Fr {
    pub k: &'static str,
    pub b1: u8,
    pub body: Vec<Nd>,
    pub pad: usize,
}

fn vbi_bytes(mut v: u64, pad: usize) -> Vec<u8> {
    let mut b = Vec::new();
    loop {
        let d = (v % 128) as u8;
        v /= 128;
        if v == 0 {
            b.push(d);
            break;
        }
        b.push(d | 128);
    }
    for _ in 0..pad {
        *b.last_mut().unwrap() |= 128;
        b.push(0);
    }
    b
}

fn flat(ns: &[Nd], r: &mut Rope) {
    for x in ns {
        match x {
            Nd::Tag(_, b) => r.byte(*b),
            Nd::Raw(_, b) => r.cat(b),
            Nd::Str { b, dlen, .. } => {
                let l = (b.len() as i64 + dlen).clamp(0, 65535) as u16;
                r.bytes(&l.to_be_bytes());
                r.cat(b);
            }
            Nd::Vbi { v, pad } => r.bytes(&vbi_bytes(*v, *pad)),
            Nd::Sec { props, dlen, pad, omit, .. } => {
                let mut q = Rope::new();
                for (id, vs) in props {
                    q.byte(*id);
                    flat(vs, &mut q);
                }
                if !*omit {
                    let l = (q.len() as i64 + dlen).clamp(0, 268_435_455) as u64;
                    r.bytes(&vbi_bytes(l, *pad));
                }
                r.cat(&q);
            }
        }
    }
}

impl Fr {
    pub fn body_rope(&self) -> Rope {
        let mut r = Rope::new();
        flat(&self.body, &mut r);
        r
    }
    pub fn rope(&self) -> Rope {
        frame(self.b1, &self.body_rope(), self.pad)
    }
    fn secs(&mut self) -> Vec<&mut Nd> {
        self.body.iter_mut().filter(|x| matches!(x, Nd::Sec { .. })).collect()
    }
}

pub fn frame(b1: u8, body: &Rope, pad: usize) -> Rope {
    let mut r = Rope::new();
    r.byte(b1);
    r.bytes(&vbi_bytes(body.len() as u64, pad));
    r.cat(body);
    r
}

fn nval(v: &Val) -> Vec<Nd> {
    let st = |b: &Rope, text| Nd::Str { text, b: b.clone(), dlen: 0 };
    match v {
        Val::U8(x) => vec![Nd::Tag("u8", *x)],
        Val::U16(x) => vec![Nd::Raw("u16", Rope::of(&x.to_be_bytes()))],
        Val::U32(x) => vec![Nd::Raw("u32", Rope::of(&x.to_be_bytes()))],
        Val::Vbi(x) => vec![Nd::Vbi { v: *x, pad: 0 }],
        Val::Str(b) => vec![st(b, true)],
        Val::Bin(b) => vec![st(b, false)],
        Val::Pair(a, b) => vec![st(a, true), st(b, true)],
    }
}
fn nsec(ctx: &'static str, p: &Props) -> Nd {
    Nd::Sec {
        ctx,
        props: p.iter().flatten().map(|(id, v)| (*id, nval(v))).collect(),
        dlen: 0,
        pad: 0,
        omit: false,
    }
}
fn kstat(k: &str) -> &'static str {
    KINDS.iter().find(|x| **x == k).unwrap()
}

/// the plainest wire form of a packet
pub fn wire_of(p: &AP) -> Fr {
    let k = kstat(p.kind());
    let ty = KINDS.iter().position(|x| *x == k).unwrap() as u8 + 1;
    let st = |b: &Rope| Nd::Str { text: true, b: b.clone(), dlen: 0 };
    let bi = |b: &Rope| Nd::Str { text: false, b: b.clone(), dlen: 0 };
    let id = |x: &u16| Nd::Raw("pkid", Rope::of(&x.to_be_bytes()));
    let mut b1 = ty << 4;
    let mut body = Vec::new();
    match p {
        AP::Connect { keep, cid, clean, props, will, login } => {
            let mut fl = if *clean { 2 } else { 0 };
            if let Some(w) = will {
                fl |= 4 | w.qos << 3 | if w.retain { 32 } else { 0 };
            }
            let (u, pw) = login.clone().unwrap_or_default();
            if u.len() > 0 {
                fl |= 128;
            }
            if pw.len() > 0 {
                fl |= 64;
            }
            body.push(Nd::Raw("proto", Rope::of(b"\0\x04MQTT")));
            body.push(Nd::Tag("level", 5));
            body.push(Nd::Tag("cflags", fl));
            body.push(Nd::Raw("keep", Rope::of(&keep.to_be_bytes())));
            body.push(nsec("CONNECT", props));
            body.push(st(cid));
            if let Some(w) = will {
                body.push(nsec("WILL", &w.props));
                body.push(bi(&w.topic));
                body.push(bi(&w.msg));
            }
            if u.len() > 0 {
                body.push(st(&u));
            }
            if pw.len() > 0 {
                body.push(st(&pw));
            }
        }
        AP::ConnAck { sp, reason, props } => {
            body.push(Nd::Tag("ackflags", u8::from(*sp)));
            body.push(Nd::Tag("reason", rnum(k, reason)));
            body.push(nsec("CONNACK", props));
        }
        AP::Publish { dup, qos, retain, topic, pkid, props, payload } => {
            b1 |= u8::from(*dup) << 3 | qos << 1 | u8::from(*retain);
            body.push(st(topic));
            if *qos > 0 {
                body.push(id(pkid));
            }
            body.push(nsec("PUBLISH", props));
            body.push(Nd::Raw("payload", payload.clone()));
        }
        AP::Ack { pkid, reason, props, .. } => {
            if k == "PUBREL" {
                b1 |= 2;
            }
            body.push(id(pkid));
            body.push(Nd::Tag("reason", rnum(k, reason)));
            body.push(nsec(k, props));
        }
        AP::Subscribe { pkid, props, filters } => {
            b1 |= 2;
            body.push(id(pkid));
            body.push(nsec("SUBSCRIBE", props));
            for f in filters {
                body.push(st(&f.path));
                body.push(Nd::Tag("subopt", f.qos | u8::from(f.nl) << 2 | u8::from(f.rap) << 3 | f.rh << 4));
            }
        }
        AP::Unsubscribe { pkid, props, filters } => {
            b1 |= 2;
            body.push(id(pkid));
            body.push(nsec("UNSUBSCRIBE", props));
            for f in filters {
                body.push(st(f));
            }
        }
        AP::ListAck { pkid, props, codes, .. } => {
            body.push(id(pkid));
            body.push(nsec(k, props));
            for c in codes {
                body.push(Nd::Tag("reason", rnum(k, c)));
            }
        }
        AP::Ping { .. } => {}
        AP::Disconnect { reason, props } => {
            body.push(Nd::Tag("reason", rnum(k, reason)));
            body.push(nsec("DISCONNECT", props));
        }
    }
    Fr { k, b1, body, pad: 0 }
}

impl G {
    /// a well-formed frame in some form a peer may choose
    pub fn peer(&mut self, p: &AP) -> Fr {
        let mut f = wire_of(p);
        for x in f.secs() {
            if let Nd::Sec { props, .. } = x {
                // any order, but repeated ones keep theirs among themselves
                for i in (1..props.len()).rev() {
                    let j = self.r.below(i + 1);
                    let (a, b) = (props[i].0, props[j].0);
                    if i != j && a != b {
                        props.swap(i, j);
                    }
                }
            }
        }
        let empty = |f: &Fr| {
            f.body.iter().any(|x| matches!(x, Nd::Sec { props, .. } if props.is_empty()))
        };
        match f.k {
            "PUBACK" | "PUBREC" | "PUBREL" | "PUBCOMP" | "DISCONNECT" if empty(&f) => {
                let zero = f.body.iter().any(|x| matches!(x, Nd::Tag("reason", 0)));
                match self.r.below(3) {
                    0 => {
                        f.body.retain(|x| !matches!(x, Nd::Sec { .. }));
                    }
                    1 if zero => {
                        f.body.retain(|x| !matches!(x, Nd::Sec { .. } | Nd::Tag("reason", _)));
                    }
                    _ => {}
                }
            }
            "CONNECT" if self.r.p(12) => {
                // a user name or password that is present but empty
                let has = |f: &Fr, bit: u8| f.body.iter().any(|x| matches!(x, Nd::Tag("cflags", c) if c & bit != 0));
                let e = || Nd::Str { text: true, b: Rope::new(), dlen: 0 };
                let mut set = 0;
                if !has(&f, 64) && self.r.p(60) {
                    f.body.push(e());
                    set |= 64;
                }
                if !has(&f, 128) && self.r.p(60) {
                    let at = if has(&f, 64) || set != 0 { f.body.len() - 1 } else { f.body.len() };
                    f.body.insert(at, e());
                    set |= 128;
                }
                for x in &mut f.body {
                    if let Nd::Tag("cflags", c) = x {
                        *c |= set;
                    }
                }
            }
            _ => {}
        }
        f
    }

    fn str_nodes(ns: &mut Vec<Nd>, f: &mut dyn FnMut(&mut Nd)) {
        for x in ns {
            match x {
                Nd::Str { .. } => f(x),
                Nd::Sec { props, .. } => {
                    for (_, v) in props {
                        G::str_nodes(v, f);
                    }
                }
                _ => {}
            }
        }
    }

    /// one change away from the given form; returns the whole frame
    pub fn harm(&mut self, f: &Fr) -> Rope {
        let mut f = f.clone();
        let w: &[usize] = match f.k {
            "PINGREQ" | "PINGRESP" => &[0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 2, 0, 1, 0, 0],
            _ => &[10, 9, 8, 9, 9, 12, 4, 3, 3, 4, 4, 6, 3, 5, 3, 1, 3],
        };
        match self.r.pick(w) {
            // the frame ends early
            0 => {
                let b = f.body_rope();
                let n = b.len();
                let to = match self.r.below(4) {
                    0 => n.saturating_sub(self.r.to(1, 4)),
                    1 => self.r.below(n.min(16) + 1),
                    _ => self.r.below(n.max(1)),
                };
                return frame(f.b1, &b.cut(0, to), 0);
            }
            // a property id that does not belong here
            1 => {
                let nat = self.r.p(60);
                let bad = if self.r.p(50) { self.r.byte() } else { self.r.of(&[1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42]) };
                let v = if ptype(bad) == '?' { vec![] } else { nval(&self.value(bad)) };
                let mut ss = f.secs();
                if !ss.is_empty() {
                    let i = self.r.below(ss.len());
                    if let Nd::Sec { props, .. } = &mut *ss[i] {
                        let at = self.r.below(props.len() + 1);
                        if nat || props.is_empty() {
                            props.insert(at, (bad, v));
                        } else {
                            let at = at.min(props.len() - 1);
                            props[at].0 = bad;
                        }
                    }
                }
            }
            // section length wrong
            2 => {
                let mut ss = f.secs();
                if !ss.is_empty() {
                    let i = self.r.below(ss.len());
                    if let Nd::Sec { dlen, .. } = &mut *ss[i] {
                        *dlen = self.r.of(&[-1, -1, -2, -3, -5, 1, 1, 2, 3, 5, 20, 127, 128, 300, 20000]);
                    }
                }
            }
            // string length wrong
            3 => {
                let mut c = 0;
                G::str_nodes(&mut f.body, &mut |_| c += 1);
                if c > 0 {
                    let at = self.r.below(c);
                    let d = self.r.of(&[1i64, 1, 2, 3, 7, 100, 256, 65535, -1, -2, -256]);
                    let mut i = 0;
                    G::str_nodes(&mut f.body, &mut |x| {
                        if i == at {
                            if let Nd::Str { dlen, .. } = x {
                                *dlen = d;
                            }
                        }
                        i += 1;
                    });
                }
            }
            // not UTF-8
            4 => {
                let bad = self.bad_text();
                let mut c = 0;
                G::str_nodes(&mut f.body, &mut |_| c += 1);
                if c > 0 {
                    let at = self.r.below(c);
                    let mut i = 0;
                    G::str_nodes(&mut f.body, &mut |x| {
                        if i == at {
                            if let Nd::Str { b, .. } = x {
                                *b = bad.clone();
                            }
                        }
                        i += 1;
                    });
                }
            }
            // one-byte fields
            5 => {
                let v = match self.r.below(3) {
                    0 => self.r.byte(),
                    1 => self.r.of(&[0, 1, 2, 3, 4, 5, 6, 16, 17, 48, 63, 64, 127, 128, 129, 135, 139, 148, 160, 163, 255]),
                    _ => 1 << self.r.below(8),
                };
                let flip = self.r.p(40);
                let mut t: Vec<&mut Nd> =
                    f.body.iter_mut().filter(|x| matches!(x, Nd::Tag(..))).collect();
                if !t.is_empty() {
                    let i = self.r.below(t.len());
                    if let Nd::Tag(_, b) = &mut *t[i] {
                        *b = if flip { *b ^ (1 << (v % 8)) } else { v };
                    }
                }
            }
            // header flags
            6 => f.b1 = (f.b1 & 0xF0) | (self.r.byte() & 0x0F),
            // packet type
            7 => f.b1 = (f.b1 & 0x0F) | (self.r.byte() & 0xF0),
            // nothing in the list
            8 => {
                if matches!(f.k, "SUBSCRIBE" | "UNSUBSCRIBE" | "SUBACK" | "UNSUBACK") {
                    f.body.retain(|x| matches!(x, Nd::Raw("pkid", _) | Nd::Sec { .. }));
                } else {
                    f.body.truncate(1);
                }
            }
            // packet id zero
            9 => {
                for x in &mut f.body {
                    if let Nd::Raw("pkid", b) = x {
                        *b = Rope::of(&[0, 0]);
                    }
                }
            }
            // protocol name
            10 => {
                let p = self.r.of(&[
                    &b"\0\x04mqtt"[..], b"\0\x06MQIsdp", b"\0\x03MQT", b"\0\x05MQTTT", b"\0\0", b"\0\x04MQTU",
                    b"\0\x04NQTT", b"\0\x05MQTT\0", b"\0\x04MQ\xC3\xA9", b"\0\x04\xFFQTT",
                ]);
                for x in &mut f.body {
                    if let Nd::Raw("proto", b) = x {
                        *b = Rope::of(p);
                    }
                }
            }
            // a byte somewhere
            11 => {
                let b = f.body_rope();
                let n = b.len();
                if n > 0 {
                    let i = if self.r.p(60) { self.r.below(n.min(24)) } else { self.r.below(n) };
                    let v = self.r.byte();
                    let b = match self.r.below(3) {
                        0 => b.set(i, v),
                        1 => {
                            let mut r = b.cut(0, i);
                            r.byte(v);
                            r.cat(&b.cut(i, n));
                            r
                        }
                        _ => {
                            let mut r = b.cut(0, i);
                            r.cat(&b.cut(i + 1, n));
                            r
                        }
                    };
                    return frame(f.b1, &b, 0);
                }
            }
            // trailing bytes
            12 => {
                let n = self.r.to(1, 5);
                let x = self.data_n(n);
                f.body.push(Nd::Raw("junk", x));
            }
            // a property again
            13 => {
                let mut ss = f.secs();
                if !ss.is_empty() {
                    let i = self.r.below(ss.len());
                    let mut add = None;
                    if let Nd::Sec { props, ctx, .. } = &*ss[i] {
                        let id = if props.is_empty() || self.r.p(30) {
                            self.r.of(allowed(ctx))
                        } else {
                            props[self.r.below(props.len())].0
                        };
                        add = Some(id);
                    }
                    if let (Some(id), Nd::Sec { props, .. }) = (add, &mut *ss[i]) {
                        let x = props.iter().find(|e| e.0 == id).map(|e| e.1.clone());
                        if let Some(v) = x {
                            props.push((id, v));
                        }
                    }
                }
            }
            // longer length encodings than needed, or too long
            14 => match self.r.below(3) {
                0 => f.pad = self.r.to(1, 3),
                1 => {
                    let k = self.r.to(1, 4);
                    if let Some(Nd::Sec { pad, .. }) = f.secs().into_iter().next_back() {
                        *pad = k;
                    }
                }
                _ => {
                    let k = self.r.to(1, 5);
                    for x in f.secs() {
                        if let Nd::Sec { props, .. } = x {
                            for (_, vs) in props {
                                for v in vs {
                                    if let Nd::Vbi { pad, .. } = v {
                                        *pad = k;
                                    }
                                }
                            }
                        }
                    }
                }
            },
            // no body at all
            15 => return frame(f.b1, &Rope::new(), 0),
            // anything
            _ => {
                let n = self.r.below(24);
                let b = self.data_n(n);
                return frame(f.b1, &b, 0);
            }
        }
        f.rope()
    }

    pub fn any_frame(&mut self) -> Rope {
        let p = self.any();
        let f = self.peer(&p);
        match self.r.below(10) {
            0..=5 => f.rope(),
            6..=8 => self.harm(&f),
            _ => {
                let x = self.harm(&f);
                // a second change, to the bytes
                let n = x.len();
                let i = self.r.below(n);
                let v = self.r.byte();
                x.set(i, v)
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Sessions

pub struct Weights {
    pub write: usize,   // single writes, plain and odd
    pub spoilt: usize,  // unencodable packets
    pub wr: usize,      // writes, transfers and reads interleaved
    pub peer: usize,    // one well-formed frame in a peer's form
    pub harm: usize,    // one damaged frame
    pub stream: usize,  // several frames in chunks
    pub bytes: usize,   // one frame, byte by byte, or a cut frame
    pub hint: usize,    // several frames to a hint-following reader
    pub limit: usize,   // limits around the frame's size
    pub junk: usize,    // arbitrary bytes
    pub section: usize, // property sections under stress
    pub part: usize,    // parts of packets read by their own functions
    pub make: usize,    // constructors and conversions
    pub plain: bool,
    pub long: usize,
}

pub fn weights(profile: &str) -> Weights {
    let z = Weights {
        write: 2, spoilt: 1, wr: 1, peer: 2, harm: 2, stream: 1, bytes: 1, hint: 1, limit: 1, junk: 1,
        section: 1, part: 0, make: 0, plain: false, long: 9,
    };
    match profile {
        "C01" => Weights { write: 40, wr: 10, spoilt: 0, harm: 0, junk: 0, ..z },
        "C02" => Weights { write: 50, wr: 1, spoilt: 0, peer: 0, harm: 0, stream: 0, bytes: 0, hint: 0, limit: 0, junk: 0, ..z },
        "C03" => Weights { peer: 40, section: 5, harm: 5, ..z },
        "C04" => Weights { harm: 40, junk: 4, section: 5, peer: 1, ..z },
        "C05" => Weights { section: 45, peer: 8, harm: 10, part: 15, plain: true, ..z },
        "C06" => Weights { write: 50, wr: 4, long: 16, peer: 0, harm: 0, stream: 0, bytes: 0, hint: 0, limit: 0, junk: 0, ..z },
        "C07" => Weights { write: 8, wr: 30, spoilt: 5, peer: 0, harm: 0, stream: 0, bytes: 0, hint: 0, limit: 0, junk: 0, section: 0, ..z },
        "C08" => Weights { write: 12, spoilt: 40, wr: 4, peer: 0, harm: 0, stream: 0, bytes: 0, hint: 0, limit: 0, junk: 0, section: 0, ..z },
        "C09" => Weights { stream: 12, peer: 10, harm: 10, bytes: 6, limit: 6, hint: 3, junk: 4, write: 0, spoilt: 0, wr: 3, ..z },
        "C10" => Weights { bytes: 20, harm: 14, stream: 8, hint: 10, limit: 6, junk: 5, write: 0, spoilt: 0, wr: 2, ..z },
        "C11" => Weights { stream: 30, hint: 20, bytes: 10, write: 0, spoilt: 0, wr: 4, ..z },
        "C12" => Weights { limit: 40, stream: 6, bytes: 4, hint: 4, write: 0, spoilt: 0, wr: 0, ..z },
        "C13" => Weights { junk: 20, harm: 20, write: 12, spoilt: 12, section: 10, peer: 5, part: 8, make: 1, ..z },
        "C14" => Weights { write: 12, spoilt: 5, wr: 3, peer: 14, harm: 20, section: 5, part: 5, make: 2, ..z },
        "C15" => Weights { peer: 30, harm: 16, section: 12, write: 0, spoilt: 0, ..z },
        "C16" => Weights { harm: 40, section: 6, junk: 2, write: 0, spoilt: 0, wr: 0, ..z },
        "C17" => Weights { write: 12, spoilt: 4, peer: 10, harm: 14, limit: 5, bytes: 4, part: 14, ..z },
        "C19" => Weights { junk: 12, harm: 20, section: 12, bytes: 10, hint: 10, limit: 10, part: 12, write: 12, ..z },
        "C18" => Weights {
            write: 0, spoilt: 0, wr: 0, peer: 0, harm: 0, stream: 0, bytes: 0, hint: 0, limit: 0, junk: 0, section: 0,
            make: 1, ..z
        },
        _ => z,
    }
}

fn opf(b: &Rope) -> J {
    o(vec![("o", s("F")), ("b", b.json())])
}
fn jmax(m: Option<usize>) -> J {
    J::A(m.iter().map(|x| J::N(*x as i64)).collect())
}
fn opr(o_: &str, m: Option<usize>) -> J {
    o(vec![("o", s(o_)), ("max", jmax(m))])
}
fn opw(p: &AP) -> J {
    o(vec![("o", s("W")), ("p", p.json())])
}
pub fn sess(id: usize, mode: &str, max: Option<usize>, ops: Vec<J>) -> J {
    o(vec![("id", J::N(id as i64)), ("mode", s(mode)), ("max", jmax(max)), ("ops", J::A(ops))])
}

impl G {
    fn set(&mut self, odd: bool, plain: bool, long: usize, props: usize) {
        self.aim = Aim { odd, plain, long, props };
    }
    fn some_limit(&mut self, rl: usize) -> Option<usize> {
        match self.r.below(5) {
            0 | 1 => None,
            2 => Some(rl),
            3 => Some(rl + self.r.of(&[1, 2, 5, 100])),
            _ => Some(self.r.of(&[0, 1, 2, 10, 127, 128, 1000, 65535, 268_435_455, 1_999_999_990, 1_999_999_991,
                1_999_999_992, 1_999_999_993, 1_999_999_995, 1_999_999_996, 1_999_999_997, 1_999_999_999, 2_000_000_000])),
        }
    }
    fn session(&mut self, id: usize, w: &Weights) -> J {
        let long = if self.r.p(50) { 0 } else { w.long };
        let props = self.r.of(&[20, 60, 60, 90]);
        let which = self.r.pick(&[
            w.write, w.spoilt, w.wr, w.peer, w.harm, w.stream, w.bytes, w.hint, w.limit, w.junk, w.section, w.part, w.make,
        ]);
        match which {
            0 => {
                let odd = self.r.p(50);
                self.set(odd, w.plain, w.long, props);
                let mut ops = Vec::new();
                if self.r.p(30) {
                    let n = self.r.to(1, 40);
                    let b = self.data_n(n);
                    ops.push(o(vec![("o", s("O")), ("b", b.json())]));
                }
                let mut p = self.any();
                if odd && self.r.p(5) {
                    match &mut p {
                        AP::Subscribe { filters, .. } => filters.clear(),
                        AP::Unsubscribe { filters, .. } => filters.clear(),
                        AP::ListAck { codes, .. } => codes.clear(),
                        _ => {}
                    }
                }
                ops.push(opw(&p));
                sess(id, "one", None, ops)
            }
            1 => {
                self.set(true, w.plain, 0, props);
                let mut ops = Vec::new();
                if self.r.p(50) {
                    let p = self.any();
                    ops.push(opw(&p));
                }
                let mut p = self.any();
                while !self.spoil(&mut p) {
                    p = self.any();
                }
                ops.push(opw(&p));
                if self.r.p(25) {
                    let how = i64::from(self.r.p(40));
                    ops.push(o(vec![("o", s("Z")), ("of", s("out")), ("how", J::N(how))]));
                }
                if self.r.p(30) {
                    let p = self.any();
                    ops.push(opw(&p));
                }
                sess(id, "one", None, ops)
            }
            2 => {
                self.set(false, w.plain, long / 3, props);
                let n = self.r.to(2, 6);
                let mut ops = Vec::new();
                for _ in 0..n {
                    if self.r.p(8) {
                        let mut p = self.any();
                        if self.spoil(&mut p) {
                            ops.push(opw(&p));
                        }
                    }
                    let p = self.any();
                    ops.push(opw(&p));
                    if self.r.p(40) {
                        let k = self.r.of(&[1, 2, 3, 5, 10, 30, 100, 100_000]);
                        ops.push(o(vec![("o", s("T")), ("n", J::N(k))]));
                        if self.r.p(60) {
                            ops.push(opr("R", None));
                        }
                    }
                }
                for _ in 0..self.r.below(3) {
                    let k = self.r.of(&[1, 2, 3, 5, 10, 30, 100]);
                    ops.push(o(vec![("o", s("T")), ("n", J::N(k))]));
                    ops.push(opr("R", None));
                }
                ops.push(o(vec![("o", s("T")), ("n", J::N(1_999_999_999))]));
                ops.push(opr("D", None));
                sess(id, "wr", None, ops)
            }
            3 => {
                let odd = self.r.p(15);
                self.set(odd, w.plain, long, props);
                let p = self.any();
                let f = self.peer(&p);
                self.one_frame(id, f.rope(), f.body_rope().len())
            }
            4 => {
                self.set(false, w.plain, long / 2, props);
                let p = self.any();
                let f = self.peer(&p);
                let mut x = self.harm(&f);
                if self.r.p(6) {
                    let n = x.len();
                    let i = self.r.below(n);
                    let v = self.r.byte();
                    x = x.set(i, v);
                }
                let l = x.len();
                self.one_frame(id, x, l)
            }
            5 | 7 => {
                self.set(false, w.plain, long / 3, props);
                let n = self.r.to(1, 6);
                let mut st = Rope::new();
                let mut rl = 0;
                for _ in 0..n {
                    let f = self.any_frame();
                    rl = f.len();
                    st.cat(&f);
                }
                match self.r.below(6) {
                    0 => {
                        // the stream stops inside a frame
                        let f = self.any_frame();
                        let k = self.r.below(f.len());
                        st.cat(&f.cut(0, k));
                    }
                    1 => {
                        let b = self.r.byte();
                        st.bytes(&[b, 0xFF, 0xFF, 0xFF, 0xFF]);
                        let k = self.r.below(4);
                        st.cat(&Rope::rep(self.r.byte(), k));
                    }
                    _ => {}
                }
                let max = if self.r.p(70) { None } else { self.some_limit(rl) };
                if which == 5 && self.r.p(15) {
                    // connections are lost, and others begin
                    let mut ops = Vec::new();
                    let mut left = st;
                    for _ in 0..self.r.to(2, 4) {
                        let k = if left.len() > 9 && self.r.p(70) { self.r.to(1, 9) } else { self.r.below(left.len()) };
                        ops.push(opf(&left.cut(0, k)));
                        ops.push(opr(self.r.of(&["R", "R", "D"]), max));
                        if self.r.p(50) {
                            let m = self.r.to(k, left.len());
                            ops.push(opf(&left.cut(k, m)));
                            ops.push(opr(self.r.of(&["R", "D"]), max));
                        }
                        let how = i64::from(self.r.p(40));
                        ops.push(o(vec![("o", s("Z")), ("of", s("in")), ("how", J::N(how))]));
                        left = self.any_frame();
                        if self.r.p(50) {
                            let f = self.any_frame();
                            left.cat(&f);
                        }
                    }
                    ops.push(opf(&left));
                    ops.push(opr("D", max));
                    return sess(id, "one", None, ops);
                }
                if which == 7 {
                    return sess(
                        id,
                        "hint",
                        max,
                        vec![o(vec![("o", s("H")), ("b", st.json()), ("max", jmax(max))])],
                    );
                }
                let total = st.len();
                let mut ops = Vec::new();
                let mut at = 0;
                let style = self.r.below(4);
                while at < total {
                    let k = match style {
                        0 => 1 + total / 12,
                        1 => self.r.to(1, 1 + total / 5),
                        2 => self.r.of(&[1, 1, 2, 3, 5, 8, 200]),
                        _ => total,
                    };
                    let k = k.max(total / 60);
                    let to = (at + k).min(total);
                    ops.push(opf(&st.cut(at, to)));
                    at = to;
                    match self.r.below(4) {
                        0 => {}
                        1 => ops.push(opr("D", max)),
                        _ => ops.push(opr("R", max)),
                    }
                }
                ops.push(opr("D", max));
                sess(id, "chunk", max, ops)
            }
            6 => {
                self.set(false, w.plain, long / 3, props);
                let f = self.any_frame();
                let n = f.len();
                let max = if self.r.p(80) { None } else { self.some_limit(n - 2) };
                let mut ops = Vec::new();
                if n <= 40 && self.r.p(60) {
                    ops.push(opr("R", max));
                    for i in 0..n {
                        ops.push(opf(&f.cut(i, i + 1)));
                        ops.push(opr("R", max));
                    }
                    ops.push(opr("D", max));
                    return sess(id, "chunk", max, ops);
                }
                let mut cuts: Vec<usize> = (0..self.r.to(1, 4))
                    .map(|_| match self.r.below(3) {
                        0 => self.r.below(n.min(7)),
                        1 => n - 1 - self.r.below(n.min(5)),
                        _ => self.r.below(n),
                    })
                    .collect();
                cuts.sort_unstable();
                let mut at = 0;
                for c in cuts {
                    ops.push(opf(&f.cut(at, c)));
                    ops.push(opr("R", max));
                    at = c;
                }
                if self.r.p(80) {
                    ops.push(opf(&f.cut(at, n)));
                }
                ops.push(opr("D", max));
                sess(id, "chunk", max, ops)
            }
            8 => {
                self.set(false, w.plain, long / 2, props);
                let f = self.any_frame();
                let v = f.cut(0, 5).vec();
                let mut rl = 0usize;
                let mut hl = 1;
                for (i, b) in v[1..].iter().enumerate() {
                    rl |= ((b & 127) as usize) << (7 * i);
                    hl += 1;
                    if b & 128 == 0 {
                        break;
                    }
                }
                let n = f.len();
                let max = self.r.of(&[
                    Some(rl), Some(rl), Some(rl.saturating_sub(1)), Some(rl.saturating_sub(1)), Some(rl + 1),
                    Some(0), Some(n), Some(n - 1), Some(rl.saturating_sub(2)), Some(rl / 2), Some(1_999_999_999),
                    Some(268_435_455), Some(2_000_000_000), None,
                ]);
                let mut ops = Vec::new();
                // the whole frame, the header alone, or something in between; then the rest
                let c = match self.r.below(5) {
                    0 | 1 => n,
                    2 => hl,
                    3 => self.r.below(hl + 1),
                    _ => self.r.below(n + 1),
                };
                let c = c.min(n);
                ops.push(opf(&f.cut(0, c)));
                ops.push(opr("R", max));
                if c < n {
                    ops.push(opf(&f.cut(c, n)));
                    ops.push(opr("R", max));
                }
                if self.r.p(30) {
                    let g = self.any_frame();
                    ops.push(opf(&g));
                    ops.push(opr("R", max));
                }
                sess(id, "one", None, ops)
            }
            9 => {
                let n = self.r.to(1, 60);
                let mut b = Rope::new();
                for _ in 0..n {
                    let x = if self.r.p(50) { self.r.byte() } else { self.r.of(&[0, 1, 2, 4, 5, 11, 38, 31, 127, 128, 255]) };
                    b.byte(x);
                }
                if self.r.p(60) {
                    let t = self.r.byte();
                    b = frame(t, &b, 0);
                }
                let max = self.some_limit(n);
                sess(id, "one", None, vec![opf(&b), opr("R", max), opr("R", None)])
            }
            10 => {
                let r = self.section();
                let l = r.len();
                self.one_frame(id, r, l)
            }
            11 => {
                let n = self.r.to(1, 6);
                let ops = (0..n).map(|_| self.part()).collect();
                sess(id, "one", None, ops)
            }
            _ => {
                let n = self.r.to(1, 12);
                let ops = (0..n).map(|_| self.make()).collect();
                sess(id, "one", None, ops)
            }
        }
    }

    /// what is left of a frame's body from one of its parts on, perhaps damaged
    fn part(&mut self) -> J {
        let lg = self.r.of(&[0, 0, 10, 25]);
        let plain = self.r.p(50);
        self.set(false, plain, lg, 90);
        let k = KINDS[self.r.pick(&[40, 8, 10, 8, 8, 8, 8, 16, 8, 8, 8, 0, 0, 10])];
        let p = self.packet(k);
        let mut f = if self.r.p(60) { self.peer(&p) } else { wire_of(&p) };
        if self.r.p(25) {
            let mut ss = f.secs();
            if !ss.is_empty() {
                let i = self.r.below(ss.len());
                if let Nd::Sec { dlen, .. } = &mut *ss[i] {
                    *dlen = self.r.of(&[-4, -3, -2, -1, 1, 2, 3, 4, 127, 128, 16384]);
                }
            }
        }
        let mut fl = if self.r.p(10) { self.r.byte() } else { 0 };
        let mut from = Vec::new();
        for (i, x) in f.body.iter().enumerate() {
            if let Nd::Sec { ctx, .. } = x {
                from.push((*ctx, i));
            }
        }
        match &p {
            AP::Connect { will, login, .. } => {
                let at = if will.is_some() { 9 } else { 6 };
                from.push(("lastwill", 6));
                from.push(("lastwill", 6));
                from.push(("login", at));
                from.push(("login", at));
                if let (true, Some(x)) = (self.r.p(90), f.body.get(2)) {
                    let mut q = Rope::new();
                    flat(std::slice::from_ref(x), &mut q);
                    fl = q.vec().first().copied().unwrap_or(0);
                }
                let _ = login;
            }
            AP::Subscribe { .. } => {
                from.push(("filters", 2));
                from.push(("filters", 2));
            }
            _ => {}
        }
        let (k, at) = if from.is_empty() { ("PUBACK", f.body.len()) } else { from[self.r.below(from.len())] };
        let mut b = Rope::new();
        if at < f.body.len() {
            flat(&f.body[at..], &mut b);
        }
        if k == "filters" && self.r.p(25) {
            let x = self.data_n(3);
            b.cat(&x);
        }
        if self.r.p(20) && b.len() > 0 {
            let n = self.r.below(b.len());
            b = b.cut(0, n);
        }
        if self.r.p(20) && b.len() > 0 {
            let i = self.r.below(b.len());
            let mut q = b.cut(0, i);
            q.byte(self.r.byte());
            q.cat(&b.cut(i + 1, b.len()));
            b = q;
        }
        o(vec![("o", s("P")), ("k", s(k)), ("fl", J::N(fl.into())), ("b", b.json())])
    }

    /// a constructor or conversion with arbitrary arguments
    fn make(&mut self) -> J {
        let (lg, odd) = (self.r.of(&[0, 10, 40]), self.r.p(50));
        self.set(odd, false, lg, 70);
        let filters = |g: &mut G, n: usize| -> J {
            J::A((0..n)
                .map(|_| {
                    let AP::Subscribe { filters, .. } = g.packet("SUBSCRIBE") else { unreachable!() };
                    filters[0].json()
                })
                .collect())
        };
        let name = self.r.of(&[
            "publish", "publish", "subscribe", "subscribe_many", "unsubscribe", "puback", "pubrec", "pubrel", "pubcomp",
            "disconnect", "filter", "login", "string", "qos", "reason", "number", "header", "defaults",
        ]);
        let text = |g: &mut G| g.text().json();
        let a = match name {
            "publish" => {
                let (t, q, l, pr) = (text(self), self.r.below(3), self.data().json(), self.props("PUBLISH"));
                vec![("topic", t), ("qos", J::N(q as i64)), ("payload", l), ("props", jprops(&pr))]
            }
            "subscribe" => vec![("filters", filters(self, 1)), ("props", jprops(&self.props("SUBSCRIBE")))],
            "subscribe_many" => {
                let n = self.r.below(12);
                vec![("filters", filters(self, n)), ("props", jprops(&self.props("SUBSCRIBE")))]
            }
            "unsubscribe" => vec![("topic", text(self)), ("props", jprops(&self.props("UNSUBSCRIBE")))],
            "disconnect" => vec![("reason", s(DISC[self.r.below(DISC.len())].1))],
            "filter" => vec![("topic", text(self)), ("qos", J::N(self.r.below(3) as i64))],
            "login" => vec![("u", text(self)), ("p", text(self))],
            "string" => vec![("topic", text(self))],
            "qos" | "reason" => vec![("num", J::N(self.r.byte().into()))],
            "number" if self.r.p(50) => vec![("of", s("QoS")), ("qos", J::N(self.r.below(3) as i64))],
            "number" => vec![("of", s("DISCONNECT")), ("reason", s(DISC[self.r.below(DISC.len())].1))],
            "header" => {
                let rl = self.vbiv();
                let ll = vbi_bytes(rl, 0).len() + if self.r.p(20) { 1 } else { 0 };
                vec![("b1", J::N(self.r.byte().into())), ("ll", J::N(ll as i64)), ("rl", J::N(rl as i64))]
            }
            "defaults" => vec![("num", J::N(0))],
            _ => {
                let up = name.to_uppercase();
                vec![("pkid", J::N(self.r.to(0, 65535) as i64)), ("props", jprops(&self.props(&up)))]
            }
        };
        o(vec![("o", s("K")), ("n", s(name)), ("a", o(a))])
    }

    /// frames whose property sections are long, crowded or wrongly delimited
    fn section(&mut self) -> Rope {
        let lg = self.r.of(&[0, 0, 10, 25]);
        self.set(false, true, lg, 95);
        let k = KINDS[self.r.pick(&[14, 12, 14, 8, 8, 8, 8, 10, 8, 8, 8, 0, 0, 10])];
        let mut p = self.packet(k);
        if let AP::Publish { payload, .. } = &mut p {
            // a payload that could pass for properties
            let f = wire_of(&AP::Publish {
                dup: false, qos: 0, retain: false, topic: Rope::new(), pkid: 0,
                props: self.props("PUBLISH"), payload: Rope::new(),
            });
            if self.r.p(50) {
                let b = f.body_rope();
                *payload = b.cut(3, b.len());
            }
        }
        let many = self.r.p(35);
        let style = self.r.below(8);
        let mut f = self.peer(&p);
        let mut extra = Vec::new();
        if many {
            for _ in 0..self.r.to(3, 40) {
                extra.push((38u8, nval(&self.value(38))));
                if k == "PUBLISH" {
                    extra.push((11, nval(&self.value(11))));
                }
            }
        }
        let mut ss = f.secs();
        if ss.is_empty() {
            return f.rope();
        }
        let i = self.r.below(ss.len());
        if let Nd::Sec { props, dlen, .. } = &mut *ss[i] {
            for e in extra {
                let at = self.r.below(props.len() + 1);
                props.insert(at, e);
            }
            match style {
                0 => *dlen = self.r.of(&[-1, -2, -3, -4, -5, -6, -8]),
                1 => *dlen = self.r.of(&[1, 2, 3, 4, 5, 6, 8, 12]),
                2 => {
                    // end the section inside the last property
                    if let Some((_, vs)) = props.last() {
                        let mut q = Rope::new();
                        flat(vs, &mut q);
                        *dlen = -(self.r.to(0, q.len()) as i64) - i64::from(self.r.p(20));
                    }
                }
                _ => {}
            }
        }
        f.rope()
    }

    fn one_frame(&mut self, id: usize, f: Rope, rl: usize) -> J {
        let mut ops = vec![opf(&f)];
        match self.r.below(5) {
            0 => {
                let x = self.any_frame();
                ops.push(opf(&x));
            }
            1 => {
                let k = self.r.to(1, 6);
                let x = self.data_n(k);
                ops.push(opf(&x));
            }
            _ => {}
        }
        let max = if self.r.p(80) { None } else { self.some_limit(rl) };
        ops.push(opr("R", max));
        if self.r.p(20) {
            ops.push(opr("R", max));
        }
        sess(id, "one", None, ops)
    }
}

/// The few sessions at the very top of the size range.
pub fn huge(mut id: usize, profile: &str) -> Vec<J> {
    let mut v = Vec::new();
    let mut add = |mode: &str, max: Option<usize>, ops: Vec<J>| {
        v.push(sess(id, mode, max, ops));
        id += 1;
    };
    let publish = |topic: &[u8], qos: u8, props: Props, payload: usize| AP::Publish {
        dup: false, qos, retain: false, topic: Rope::of(topic), pkid: u16::from(qos), props,
        payload: Rope::rep(b'P', payload),
    };
    let m = 268_435_455usize;
    let w = matches!(profile, "C01" | "C02" | "C06" | "C07" | "C08" | "C13" | "C17" | "C14");
    if w {
        // remaining length 2097151, 2097152
        for t in [2_097_151usize, 2_097_152] {
            add("one", None, vec![opw(&publish(b"t", 0, None, t - 4))]);
            let mut l = vec![];
            pad_list(&mut l, t);
            add("one", None, vec![opw(&publish(b"t", 1, Some(l.clone()), 3))]);
            add("one", None, vec![opw(&AP::Ack { k: "PUBREC".into(), pkid: 7, reason: "Success".into(), props: Some(l) })]);
        }
    }
    if matches!(profile, "C06" | "C08" | "C02" | "C13") {
        for (qos, d) in [(0u8, 4usize), (1, 6)] {
            add("one", None, vec![opw(&publish(b"t", qos, None, m - d))]);
            add("one", None, vec![
                o(vec![("o", s("O")), ("b", Rope::of(b"abc").json())]),
                opw(&publish(b"t", qos, None, m - d + 1)),
            ]);
        }
    }
    if profile == "C08" {
        // property sections at and over the limit
        for t in [m - 8, m - 7, m + 1] {
            let mut l = vec![];
            pad_list(&mut l, t);
            add("one", None, vec![opw(&publish(b"t", 0, Some(l), 0))]);
        }
    }
    if matches!(profile, "C03" | "C09" | "C10" | "C11" | "C12" | "C19") {
        for t in [2_097_151usize, 2_097_152] {
            let p = publish(b"t", 0, None, t - 4);
            let f = wire_of(&p).rope();
            for max in [None, Some(t), Some(t - 1)] {
                let n = f.len();
                add("chunk", max, vec![
                    opf(&f.cut(0, 3)), opr("R", max), opf(&f.cut(3, 5)), opr("R", max), opf(&f.cut(5, n - 1)),
                    opr("R", max), opf(&f.cut(n - 1, n)), opr("D", max),
                ]);
            }
        }
        // announced, never sent
        for v in [m, m - 1, 2_097_152, 2_097_151, 16384, 16383] {
            let mut r = Rope::new();
            r.byte(0x30);
            r.bytes(&vbi_bytes(v as u64, 0));
            let n = r.len();
            for max in [None, Some(v), Some(v - 1), Some(v + 1)] {
                add("one", None, vec![
                    opf(&r.cut(0, 2)), opr("R", max), opf(&r.cut(2, n)), opr("R", max), opf(&Rope::rep(0, 3)), opr("R", max),
                ]);
            }
        }
    }
    if matches!(profile, "C03" | "C09") {
        let f = wire_of(&publish(b"t", 0, None, m - 4)).rope();
        add("one", None, vec![opf(&f), opf(&Rope::of(&[0xC0, 0])), opr("R", None), opr("R", None)]);
    }
    v
}

impl G {
    /// A long life: some hundreds of small packets through one buffer
    fn long(&mut self, id: usize, reading: bool, max: Option<usize>, n: usize) -> J {
        let mut ops = Vec::new();
        if !reading {
            for _ in 0..n {
                let props = self.r.of(&[0, 0, 0, 60]);
                self.set(false, false, 0, props);
                let p = self.any();
                ops.push(opw(&p));
                if self.r.p(12) {
                    let k = self.r.of(&[1, 2, 5, 20, 60, 200]);
                    ops.push(o(vec![("o", s("T")), ("n", J::N(k))]));
                    if self.r.p(70) {
                        ops.push(opr("D", None));
                    }
                }
            }
            ops.push(o(vec![("o", s("T")), ("n", J::N(1_999_999_999))]));
            ops.push(opr("D", None));
            return sess(id, "wr", None, ops);
        }
        let mut st = Rope::new();
        for _ in 0..n {
            let props = self.r.of(&[0, 0, 0, 60]);
            self.set(false, false, 0, props);
            let p = self.any();
            let f = self.peer(&p);
            let f = if self.r.p(10) {
                let x = self.harm(&f);
                let v = x.cut(0, x.len().min(5)).vec();
                // only what keeps the stream in step
                let whole = frame(f.b1, &f.body_rope(), 0).len();
                if v.len() > 1 && v[1] < 128 && x.len() == 2 + v[1] as usize { x } else { f.rope().cut(0, whole.min(f.rope().len())) }
            } else {
                f.rope()
            };
            st.cat(&f);
        }
        let total = st.len();
        let mut at = 0;
        while at < total {
            let k = self.r.of(&[1, 3, 7, 20, 64, 200, 600]);
            let to = (at + k).min(total);
            ops.push(opf(&st.cut(at, to)));
            at = to;
            match self.r.below(3) {
                0 => {}
                1 => ops.push(opr("D", max)),
                _ => ops.push(opr("R", max)),
            }
        }
        ops.push(opr("D", max));
        sess(id, "chunk", max, ops)
    }
}

/// gen PROFILE SEED COUNT OUT [FIRST-ID] [huge]
pub fn gen(profile: &str, seed: u64, count: usize, out: &str, first: usize, with_huge: bool) {
    let h = profile.bytes().fold(seed.wrapping_mul(0x1000_0001), |a, b| a.wrapping_mul(131).wrapping_add(b.into()));
    let mut g = G { r: Rng(h), aim: Aim { odd: false, plain: false, long: 0, props: 50 } };
    let w = weights(profile);
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..count {
        let j = g.session(first + i, &w);
        writeln!(f, "{}", j.to_string()).unwrap();
    }
    if with_huge {
        for j in huge(first + count, profile) {
            writeln!(f, "{}", j.to_string()).unwrap();
        }
        let id = first + count + 1000;
        let (wr, rd) = match profile {
            "C01" | "C07" => (3, 0),
            "C06" | "C08" => (1, 0),
            "C09" | "C11" => (0, 3),
            "C10" | "C12" | "C15" => (0, 1),
            "C13" | "C14" | "C17" | "C19" => (1, 1),
            _ => (0, 0),
        };
        for k in 0..wr + rd {
            let max = if k > wr { Some(40) } else { None };
            let j = g.long(id + k, k >= wr, max, 300);
            writeln!(f, "{}", j.to_string()).unwrap();
        }
    }
}
