//! Abstract packets: the form in which the specification talks about them.
use crate::json::{o, s, J};
use crate::rope::Rope;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U8(u8),
    U16(u16),
    U32(u32),
    Vbi(u64),
    Str(Rope),
    Bin(Rope),
    Pair(Rope, Rope),
}

pub type Plist = Vec<(u8, Val)>;
pub type Props = Option<Plist>;

#[derive(Clone, Debug, PartialEq)]
pub struct AWill {
    pub topic: Rope,
    pub msg: Rope,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq)]
pub struct AFilter {
    pub path: Rope,
    pub qos: u8,
    pub nl: bool,
    pub rap: bool,
    pub rh: u8,
}

impl AWill {
    pub fn json(&self) -> J {
        o(vec![
            ("topic", self.topic.json()),
            ("msg", self.msg.json()),
            ("qos", J::N(self.qos.into())),
            ("retain", J::B(self.retain)),
            ("props", jprops(&self.props)),
        ])
    }
}
impl AFilter {
    pub fn json(&self) -> J {
        o(vec![
            ("path", self.path.json()),
            ("qos", J::N(self.qos.into())),
            ("nl", J::B(self.nl)),
            ("rap", J::B(self.rap)),
            ("rh", J::N(self.rh.into())),
        ])
    }
    pub fn from(f: &J) -> AFilter {
        AFilter {
            path: Rope::from(f.get("path")),
            qos: f.get("qos").num() as u8,
            nl: f.get("nl").bool(),
            rap: f.get("rap").bool(),
            rh: f.get("rh").num() as u8,
        }
    }
}
pub fn jlogin(l: &Option<(Rope, Rope)>) -> J {
    J::A(l.iter().map(|(u, p)| o(vec![("u", u.json()), ("p", p.json())])).collect())
}

#[derive(Clone, Debug, PartialEq)]
pub enum AP {
    Connect { keep: u16, cid: Rope, clean: bool, props: Props, will: Option<AWill>, login: Option<(Rope, Rope)> },
    ConnAck { sp: bool, reason: String, props: Props },
    Publish { dup: bool, qos: u8, retain: bool, topic: Rope, pkid: u16, props: Props, payload: Rope },
    Ack { k: String, pkid: u16, reason: String, props: Props },
    Subscribe { pkid: u16, props: Props, filters: Vec<AFilter> },
    Unsubscribe { pkid: u16, props: Props, filters: Vec<Rope> },
    ListAck { k: String, pkid: u16, props: Props, codes: Vec<String> },
    Ping { k: String },
    Disconnect { reason: String, props: Props },
}

impl AP {
    pub fn kind(&self) -> &str {
        match self {
            AP::Connect { .. } => "CONNECT",
            AP::ConnAck { .. } => "CONNACK",
            AP::Publish { .. } => "PUBLISH",
            AP::Subscribe { .. } => "SUBSCRIBE",
            AP::Unsubscribe { .. } => "UNSUBSCRIBE",
            AP::Disconnect { .. } => "DISCONNECT",
            AP::Ack { k, .. } | AP::ListAck { k, .. } | AP::Ping { k } => k,
        }
    }
    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            AP::Connect { props, .. }
            | AP::ConnAck { props, .. }
            | AP::Publish { props, .. }
            | AP::Ack { props, .. }
            | AP::Subscribe { props, .. }
            | AP::Unsubscribe { props, .. }
            | AP::ListAck { props, .. }
            | AP::Disconnect { props, .. } => Some(props),
            AP::Ping { .. } => None,
        }
    }
    pub fn json(&self) -> J {
        let nm = |x: u32| J::N(x.into());
        match self {
            AP::Connect { keep, cid, clean, props, will, login } => o(vec![
                ("k", s("CONNECT")),
                ("keep", nm((*keep).into())),
                ("cid", cid.json()),
                ("clean", J::B(*clean)),
                ("props", jprops(props)),
                (
                    "will",
                    J::A(will.iter().map(AWill::json).collect()),
                ),
                ("login", jlogin(login)),
            ]),
            AP::ConnAck { sp, reason, props } => o(vec![
                ("k", s("CONNACK")),
                ("sp", J::B(*sp)),
                ("reason", s(reason)),
                ("props", jprops(props)),
            ]),
            AP::Publish { dup, qos, retain, topic, pkid, props, payload } => o(vec![
                ("k", s("PUBLISH")),
                ("dup", J::B(*dup)),
                ("qos", nm((*qos).into())),
                ("retain", J::B(*retain)),
                ("topic", topic.json()),
                ("pkid", nm((*pkid).into())),
                ("props", jprops(props)),
                ("payload", payload.json()),
            ]),
            AP::Ack { k, pkid, reason, props } => o(vec![
                ("k", s(k)),
                ("pkid", nm((*pkid).into())),
                ("reason", s(reason)),
                ("props", jprops(props)),
            ]),
            AP::Subscribe { pkid, props, filters } => o(vec![
                ("k", s("SUBSCRIBE")),
                ("pkid", nm((*pkid).into())),
                ("props", jprops(props)),
                ("filters", J::A(filters.iter().map(AFilter::json).collect())),
            ]),
            AP::Unsubscribe { pkid, props, filters } => o(vec![
                ("k", s("UNSUBSCRIBE")),
                ("pkid", nm((*pkid).into())),
                ("props", jprops(props)),
                ("filters", J::A(filters.iter().map(Rope::json).collect())),
            ]),
            AP::ListAck { k, pkid, props, codes } => o(vec![
                ("k", s(k)),
                ("pkid", nm((*pkid).into())),
                ("props", jprops(props)),
                ("codes", J::A(codes.iter().map(|c| s(c)).collect())),
            ]),
            AP::Ping { k } => o(vec![("k", s(k))]),
            AP::Disconnect { reason, props } => {
                o(vec![("k", s("DISCONNECT")), ("reason", s(reason)), ("props", jprops(props))])
            }
        }
    }
    pub fn from(j: &J) -> AP {
        let k = j.get("k").str().to_string();
        let props = || uprops(j.get("props"));
        let pkid = || j.get("pkid").num() as u16;
        let reason = || j.get("reason").str().to_string();
        match k.as_str() {
            "CONNECT" => AP::Connect {
                keep: j.get("keep").num() as u16,
                cid: Rope::from(j.get("cid")),
                clean: j.get("clean").bool(),
                props: props(),
                will: j.get("will").arr().first().map(|w| AWill {
                    topic: Rope::from(w.get("topic")),
                    msg: Rope::from(w.get("msg")),
                    qos: w.get("qos").num() as u8,
                    retain: w.get("retain").bool(),
                    props: uprops(w.get("props")),
                }),
                login: j
                    .get("login")
                    .arr()
                    .first()
                    .map(|l| (Rope::from(l.get("u")), Rope::from(l.get("p")))),
            },
            "CONNACK" => AP::ConnAck { sp: j.get("sp").bool(), reason: reason(), props: props() },
            "PUBLISH" => AP::Publish {
                dup: j.get("dup").bool(),
                qos: j.get("qos").num() as u8,
                retain: j.get("retain").bool(),
                topic: Rope::from(j.get("topic")),
                pkid: pkid(),
                props: props(),
                payload: Rope::from(j.get("payload")),
            },
            "PUBACK" | "PUBREC" | "PUBREL" | "PUBCOMP" => {
                AP::Ack { k, pkid: pkid(), reason: reason(), props: props() }
            }
            "SUBSCRIBE" => AP::Subscribe {
                pkid: pkid(),
                props: props(),
                filters: j
                    .get("filters")
                    .arr()
                    .iter()
                    .map(AFilter::from)
                    .collect(),
            },
            "UNSUBSCRIBE" => AP::Unsubscribe {
                pkid: pkid(),
                props: props(),
                filters: j.get("filters").arr().iter().map(Rope::from).collect(),
            },
            "SUBACK" | "UNSUBACK" => AP::ListAck {
                k,
                pkid: pkid(),
                props: props(),
                codes: j.get("codes").arr().iter().map(|c| c.str().to_string()).collect(),
            },
            "PINGREQ" | "PINGRESP" => AP::Ping { k },
            "DISCONNECT" => AP::Disconnect { reason: reason(), props: props() },
            _ => panic!("kind {k}"),
        }
    }
}

pub fn ptype(id: u8) -> char {
    match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => '1',
        19 | 33 | 34 | 35 => '2',
        2 | 17 | 24 | 39 => '4',
        3 | 8 | 18 | 21 | 26 | 28 | 31 => 's',
        9 | 22 => 'b',
        11 => 'v',
        38 => 'p',
        _ => '?',
    }
}

pub fn allowed(ctx: &str) -> &'static [u8] {
    match ctx {
        "CONNECT" => &[17, 21, 22, 23, 25, 33, 34, 38, 39],
        "WILL" => &[1, 2, 3, 8, 9, 24, 38],
        "CONNACK" => &[17, 18, 19, 21, 22, 26, 28, 31, 33, 34, 36, 37, 38, 39, 40, 41, 42],
        "PUBLISH" => &[1, 2, 3, 8, 9, 11, 35, 38],
        "SUBSCRIBE" => &[11, 38],
        "UNSUBSCRIBE" => &[38],
        "DISCONNECT" => &[17, 28, 31, 38],
        "PINGREQ" | "PINGRESP" => &[],
        _ => &[31, 38],
    }
}

fn jval(v: &Val) -> J {
    match v {
        Val::U8(x) => J::N((*x).into()),
        Val::U16(x) => J::N((*x).into()),
        Val::U32(x) => J::A(vec![J::N((x >> 16).into()), J::N((x & 0xFFFF).into())]),
        Val::Vbi(x) => J::N(i64::try_from((*x).min(2_000_000_000)).unwrap()),
        Val::Str(r) | Val::Bin(r) => r.json(),
        Val::Pair(a, b) => J::A(vec![a.json(), b.json()]),
    }
}

pub fn jprops(p: &Props) -> J {
    match p {
        None => J::A(vec![]),
        Some(l) => J::A(vec![J::A(
            l.iter().map(|(id, v)| J::A(vec![J::N((*id).into()), jval(v)])).collect(),
        )]),
    }
}

pub fn uprops(j: &J) -> Props {
    j.arr().first().map(|l| {
        l.arr()
            .iter()
            .map(|e| {
                let e = e.arr();
                let id = e[0].num() as u8;
                let v = &e[1];
                (
                    id,
                    match ptype(id) {
                        '1' => Val::U8(v.num() as u8),
                        '2' => Val::U16(v.num() as u16),
                        '4' => Val::U32(((v.arr()[0].num() as u32) << 16) | v.arr()[1].num() as u32),
                        'v' => Val::Vbi(v.num() as u64),
                        's' => Val::Str(Rope::from(v)),
                        'b' => Val::Bin(Rope::from(v)),
                        _ => Val::Pair(Rope::from(&v.arr()[0]), Rope::from(&v.arr()[1])),
                    },
                )
            })
            .collect()
    })
}

// ---- sizes, used by the generator to hit length boundaries ----
pub fn vlen(n: usize) -> usize {
    if n < 128 { 1 } else if n < 16384 { 2 } else if n < 2_097_152 { 3 } else { 4 }
}
pub fn lsize(l: &[(u8, Val)]) -> usize {
    l.iter()
        .map(|(_, v)| {
            1 + match v {
                Val::U8(_) => 1,
                Val::U16(_) => 2,
                Val::U32(_) => 4,
                Val::Vbi(x) => vlen(*x as usize),
                Val::Str(r) | Val::Bin(r) => 2 + r.len(),
                Val::Pair(a, b) => 4 + a.len() + b.len(),
            }
        })
        .sum()
}
