//! Runs a plan against the real library and records what happened.
use crate::json::{n, o, s, J};
use crate::meter;
use crate::model::AP;
use crate::real::*;
use crate::rope::Rope;
use bytes::{Bytes, BytesMut};
use mqtt_bytes_v5::{check, Error, Packet};
use std::collections::VecDeque;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// What a dying process still has to say about the session it is in: one record
/// per lane, and the call that is under way.
struct Lines {
    head: String,
    events: Vec<String>,
    /// events whose secondary observations are still to be made
    late: bool,
}
struct Progress {
    lanes: Vec<Lines>,
    now: usize,
    pending: String,
}
static PROGRESS: Mutex<Progress> = Mutex::new(Progress {
    lanes: Vec::new(),
    now: 0,
    pending: String::new(),
});
static TICK: AtomicU64 = AtomicU64::new(0);

fn line(head: &str, evs: &[String]) -> String {
    let mut x =
        String::with_capacity(evs.iter().map(|e| e.len() + 1).sum::<usize>() + head.len() + 16);
    x.push_str(head);
    x.push_str(",\"ev\":[");
    for (i, e) in evs.iter().enumerate() {
        if i > 0 {
            x.push(',');
        }
        x.push_str(e);
    }
    x.push_str("]}\n");
    x
}

fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    meter::metered(|| catch_unwind(AssertUnwindSafe(f)).ok())
}

fn err(e: &Error) -> J {
    let d = format!("{e:?}");
    let name: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    let mut args = Vec::new();
    if name != "PayloadNotUtf8" {
        let rest = &d[name.len()..];
        let mut cur = String::new();
        for c in rest.chars().chain(std::iter::once(' ')) {
            if c.is_ascii_digit() {
                cur.push(c);
            } else if !cur.is_empty() {
                args.push(n(cur.parse::<usize>().unwrap_or(usize::MAX)));
                cur.clear();
            }
        }
    }
    o(vec![("t", s("err")), ("e", s(&name)), ("a", J::A(args))])
}
fn panicked() -> J {
    o(vec![("t", s("panic"))])
}
fn rnum(r: Option<Result<usize, Error>>) -> J {
    match r {
        None => panicked(),
        Some(Ok(k)) => o(vec![("t", s("ok")), ("n", n(k))]),
        Some(Err(e)) => err(&e),
    }
}
fn rpkt(r: &Option<Result<Packet, Error>>) -> J {
    match r {
        None => panicked(),
        Some(Ok(p)) => o(vec![("t", s("ok")), ("p", project(p).json())]),
        Some(Err(e)) => err(e),
    }
}
fn same(x: J, main: &str) -> J {
    if x.to_string() == main {
        o(vec![("t", s("="))])
    } else {
        x
    }
}
/// 2000000000 stands for the greatest limit there is
fn limit(j: &J) -> Option<usize> {
    j.arr().first().map(|x| match x.num() {
        2_000_000_000 => usize::MAX,
        // beyond the numbers a history holds (all are written down as 2 000 000 000)
        1_999_999_990 => 1 << 31,
        1_999_999_991 => u32::MAX as usize,
        1_999_999_992 => 1 << 32,
        1_999_999_993 => (1 << 32) + 3,
        1_999_999_994 => 1 << 48,
        1_999_999_995 => isize::MAX as usize,
        1_999_999_996 => 1 << 63,
        1_999_999_997 => usize::MAX - 2,
        x => x as usize,
    })
}
fn jlimit(m: Option<usize>) -> J {
    J::A(m.iter().map(|x| n(*x)).collect())
}

/// One endpoint of a session: its operations, buffers and history.
struct Lane {
    at: usize,
    head: String,
    ops: Vec<J>,
    pc: usize,
    sub: Option<Sub>,
    /// only the calls of the plan are made while it runs; the secondary
    /// observations follow when it is over
    bare: bool,
    /// one of several running at once: nothing is said of its progress
    quiet: bool,
    /// how often each call is made (on copies of the buffer) before the one that
    /// counts, unless it goes otherwise than alone, and then that one counts
    burst: usize,
    alone: Arc<Vec<Seen>>,
    seen: Vec<Seen>,
    out: BytesMut,
    inb: BytesMut,
    evs: Vec<Ev>,
    dead: bool,
    ended: bool,
}

/// An operation that takes several steps
enum Sub {
    Drain {
        max: Option<usize>,
        left: usize,
    },
    Hint {
        max: Option<usize>,
        stream: Vec<u8>,
        lim: Vec<usize>,
        at: usize,
        turn: usize,
    },
}

/// How a call went: the event it made, its result, the buffer afterwards
enum Seen {
    Wrote(usize, Option<Result<usize, Error>>, BytesMut),
    Read(usize, Option<Result<Packet, Error>>, BytesMut),
}

enum Ev {
    Done(String),
    Wrote {
        p: J,
        r: J,
        post: J,
        mem: usize,
    },
    Read {
        pre: Bytes,
        max: Option<usize>,
        x: Option<Result<Packet, Error>>,
        used: usize,
        post: J,
        mem: usize,
    },
}

fn hang() -> J {
    o(vec![("t", s("hang"))])
}
#[allow(clippy::too_many_arguments)]
fn write_event(p: &J, r: J, post: J, solo: J, sz: J, tw: J, rt: J, pt: J) -> J {
    o(vec![
        ("o", s("W")),
        ("p", p.clone()),
        ("r", r),
        ("post", post),
        ("solo", solo),
        ("sz", sz),
        ("tw", tw),
        ("rt", rt),
        ("pt", pt),
    ])
}
fn read_event(max: Option<usize>, chk: J, r: J, post: J, tr: J, nl: J, al: J, fw: J) -> J {
    o(vec![
        ("o", s("R")),
        ("max", jlimit(max)),
        ("chk", chk),
        ("r", r),
        ("post", post),
        ("tr", tr),
        ("nl", nl),
        ("al", al),
        ("fw", fw),
    ])
}
/// what the event's calls had in use at most, where that is asked for
fn with_memory(mut e: J, mem: usize) -> J {
    static WANTED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    if *WANTED.get_or_init(|| std::env::var("HARNESS_METER").is_ok()) {
        if let J::O(fields) = &mut e {
            fields.push(("mem".into(), n(mem)));
        }
    }
    e
}
fn none() -> J {
    J::A(vec![])
}

/// A part of the packet written on its own, behind a byte that is there already.
/// Its bytes are given as their place in the whole packet, if they occur there.
fn part_more(p: &Packet, k: &str, i: usize, whole: &[u8]) -> J {
    let mut b = BytesMut::from(&[0xA5u8][..]);
    let r = rnum(guard(|| part_write(p, k, i, &mut b)));
    let kept = b.first() == Some(&0xA5);
    let own = if kept { &b[1..] } else { &b[..] };
    let at = if own.is_empty() {
        None
    } else {
        find(whole, own)
    };
    o(vec![
        ("k", s(k)),
        ("i", n(i)),
        ("r", r),
        ("kept", J::B(kept)),
        ("at", J::A(at.iter().map(|x| n(*x)).collect())),
        ("n", n(own.len())),
        (
            "b",
            if at.is_some() {
                none()
            } else {
                Rope::of(own).json()
            },
        ),
    ])
}
fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    if needle.len() > hay.len() {
        return None;
    }
    let mut i = 0;
    while i + needle.len() <= hay.len() {
        if hay[i] == needle[0] && &hay[i..i + needle.len()] == needle {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// The secondary observations of a write
fn write_more(pj: &J, r: J, post: J, mem: usize) -> J {
    meter::most(0);
    let p = build(&AP::from(pj));
    let rtext = r.to_string();
    let sz = match guard(|| size(&p)) {
        None => J::A(vec![panicked()]),
        Some(None) => none(),
        Some(Some(k)) => J::A(vec![o(vec![("t", s("ok")), ("n", n(k))])]),
    };
    let mut solo = BytesMut::new();
    let sr = rnum(guard(|| p.write(&mut solo)));
    let stext = sr.to_string();
    let mut tb = BytesMut::new();
    let tr = rnum(guard(|| type_write(&p, &mut tb)));
    let eq = tb == solo;
    let rt = if stext.starts_with("{\"t\":\"ok\"") {
        let mut b = solo.clone();
        let x = guard(|| Packet::read(&mut b, None));
        J::A(vec![o(vec![
            ("r", rpkt(&x)),
            ("left", Rope::of(&b).json()),
        ])])
    } else {
        none()
    };
    let pt = J::A(
        parts(&p)
            .into_iter()
            .map(|(k, i)| part_more(&p, k, i, &solo))
            .collect(),
    );
    let solo = o(vec![("r", same(sr, &rtext)), ("b", Rope::of(&solo).json())]);
    let tw = o(vec![
        ("r", same(tr, &stext)),
        ("eq", J::B(eq)),
        ("b", if eq { none() } else { Rope::of(&tb).json() }),
    ]);
    with_memory(
        write_event(pj, r, post, solo, sz, tw, rt, pt),
        meter::most(mem),
    )
}

/// The secondary observations of a read
fn read_more(
    pre: &Bytes,
    max: Option<usize>,
    x: &Option<Result<Packet, Error>>,
    used: usize,
    post: J,
    mem: usize,
) -> J {
    meter::most(0);
    let chk = guard(|| check(pre.iter(), max));
    let r = rpkt(x);
    let rtext = r.to_string();
    let mut tr = none();
    let chk = match chk {
        None => panicked(),
        Some(Err(e)) => same(err(&e), &rtext),
        Some(Ok(fh)) => {
            let ty = match guard(|| fh.packet_type()) {
                Some(Ok(t)) => type_name(t),
                _ => "?",
            };
            let fl = guard(|| fh.frame_length()).unwrap_or(usize::MAX);
            if fl <= pre.len() {
                let frame = pre.slice(0..fl);
                match guard(|| type_read(fh, frame)) {
                    None => tr = J::A(vec![panicked()]),
                    Some(None) => {}
                    Some(Some(y)) => tr = J::A(vec![same(rpkt(&Some(y)), &rtext)]),
                }
            }
            o(vec![("t", s("ok")), ("n", n(fl)), ("ty", s(ty))])
        }
    };
    let nl = if max.is_some() {
        let mut b = BytesMut::from(&pre[..]);
        let y = guard(|| Packet::read(&mut b, None));
        J::A(vec![same(rpkt(&y), &rtext)])
    } else {
        none()
    };
    let al = if used > 0 {
        let mut b = BytesMut::from(&pre[..used]);
        let y = guard(|| Packet::read(&mut b, max));
        J::A(vec![same(rpkt(&y), &rtext)])
    } else {
        none()
    };
    let fw = if let Some(Ok(p)) = x {
        let mut b = BytesMut::new();
        let w = rnum(guard(|| p.write(&mut b)));
        let y = guard(|| Packet::read(&mut b, None));
        J::A(vec![o(vec![
            ("r", w),
            ("rr", same(rpkt(&y), &rtext)),
            ("left", Rope::of(&b).json()),
        ])])
    } else {
        none()
    };
    with_memory(
        read_event(max, chk, r, post, tr, nl, al, fw),
        meter::most(mem),
    )
}

/// An empty buffer: where it comes from must not matter
fn room(made: usize) -> BytesMut {
    match made % 4 {
        0 => BytesMut::new(),
        1 => BytesMut::with_capacity(1 << 16),
        // what is left of a buffer: on its own, or with its other part still in use
        2 => {
            let mut b = BytesMut::from(&[0xEE; 40][..]);
            let other = b.split_to(40);
            drop(other);
            b
        }
        _ => {
            let mut b = BytesMut::with_capacity(600);
            b.extend_from_slice(&[0xEE; 40]);
            let other = b.split_to(40).freeze();
            LENT.lock().unwrap().push_back(other);
            if LENT.lock().unwrap().len() > 8 {
                LENT.lock().unwrap().pop_front();
            }
            b
        }
    }
}
static LENT: Mutex<VecDeque<Bytes>> = Mutex::new(VecDeque::new());

impl Lane {
    fn new(at: usize, head: String, ops: &[J], bare: bool, made: usize) -> Lane {
        Lane {
            at,
            head,
            ops: ops.to_vec(),
            pc: 0,
            sub: None,
            bare,
            quiet: false,
            burst: 0,
            alone: Arc::new(Vec::new()),
            seen: Vec::new(),
            out: room(made),
            inb: room(made / 4),
            evs: Vec::new(),
            dead: false,
            ended: false,
        }
    }
    fn pending(&self, j: &J) {
        if self.quiet {
            TICK.fetch_add(1, Ordering::SeqCst);
            return;
        }
        let mut p = PROGRESS.lock().unwrap();
        p.now = self.at;
        p.pending = j.to_string();
        TICK.fetch_add(1, Ordering::SeqCst);
    }
    fn event(&mut self, j: J) {
        let x = j.to_string();
        if !self.quiet {
            PROGRESS.lock().unwrap().lanes[self.at]
                .events
                .push(x.clone());
        }
        self.evs.push(Ev::Done(x));
    }
    fn later(&mut self, e: Ev) {
        if !self.quiet {
            PROGRESS.lock().unwrap().lanes[self.at].late = true;
        }
        self.evs.push(e);
    }

    fn write(&mut self, pj: &J) {
        let p = build(&AP::from(pj));
        let solo = o(vec![("r", hang()), ("b", none())]);
        let tw = o(vec![("r", hang()), ("eq", J::B(true)), ("b", none())]);
        self.pending(&write_event(
            pj,
            hang(),
            Rope::of(&self.out).json(),
            solo,
            none(),
            tw,
            none(),
            none(),
        ));
        meter::most(0);
        let mut odd = None;
        if self.burst > 0 {
            let now = self.evs.len();
            let want = self.alone.iter().find_map(|x| match x {
                Seen::Wrote(at, r, b) if *at == now => Some((r, b)),
                _ => None,
            });
            if let Some((r, after)) = want {
                let mut b = BytesMut::new();
                for _ in 0..self.burst {
                    b.clear();
                    b.extend_from_slice(&self.out);
                    let x = guard(|| p.write(&mut b));
                    if x != *r || b != *after {
                        odd = Some((x, b));
                        break;
                    }
                }
            }
        }
        let r = match odd {
            Some((x, b)) => {
                self.out = b;
                x
            }
            None => guard(|| p.write(&mut self.out)),
        };
        if self.quiet {
            let after = BytesMut::from(&self.out[..]);
            self.seen.push(Seen::Wrote(self.evs.len(), r, after));
        }
        let r = rnum(r);
        let mem = meter::most(0);
        if r.to_string().contains("panic") {
            self.dead = true;
        }
        let post = Rope::of(&self.out).json();
        if self.bare {
            self.later(Ev::Wrote {
                p: pj.clone(),
                r,
                post,
                mem,
            });
        } else {
            let ev = write_more(pj, r, post, mem);
            self.event(ev);
        }
    }

    /// bytes consumed, asked-for bytes if it was a request for more
    fn read(&mut self, max: Option<usize>) -> (usize, Option<usize>) {
        let pre = Bytes::copy_from_slice(&self.inb);
        self.pending(&read_event(
            max,
            hang(),
            hang(),
            Rope::of(&self.inb).json(),
            none(),
            none(),
            none(),
            none(),
        ));
        meter::most(0);
        let mut odd = None;
        if self.burst > 0 {
            let now = self.evs.len();
            let want = self.alone.iter().find_map(|x| match x {
                Seen::Read(at, x, b) if *at == now => Some((x, b)),
                _ => None,
            });
            if let Some((r, after)) = want {
                for _ in 0..self.burst {
                    let mut b = BytesMut::from(&self.inb[..]);
                    let x = guard(|| Packet::read(&mut b, max));
                    if x != *r || b != *after {
                        odd = Some((x, b));
                        break;
                    }
                }
            }
        }
        let x = match odd {
            Some((x, b)) => {
                self.inb = b;
                x
            }
            None => guard(|| Packet::read(&mut self.inb, max)),
        };
        if self.quiet {
            let after = BytesMut::from(&self.inb[..]);
            self.seen
                .push(Seen::Read(self.evs.len(), x.clone(), after));
        }
        let mem = meter::most(0);
        let need = match &x {
            Some(Err(Error::InsufficientBytes(k))) => Some(*k),
            _ => None,
        };
        let used = pre.len().saturating_sub(self.inb.len());
        if x.is_none() {
            self.dead = true;
        }
        let post = Rope::of(&self.inb).json();
        if self.bare {
            self.later(Ev::Read {
                pre,
                max,
                x,
                used,
                post,
                mem,
            });
        } else {
            let ev = read_more(&pre, max, &x, used, post, mem);
            self.event(ev);
        }
        (used, need)
    }

    fn feed(&mut self, b: &[u8]) {
        self.inb.extend_from_slice(b);
        self.event(o(vec![("o", s("F")), ("b", Rope::of(b).json())]));
    }

    fn over(&self) -> bool {
        self.dead || self.ended
    }

    /// One call of the library, or one movement of bytes
    fn step(&mut self) {
        match self.sub.take() {
            Some(Sub::Drain { max, left }) => {
                let (used, need) = self.read(max);
                if left > 1 && need.is_none() && used > 0 {
                    self.sub = Some(Sub::Drain {
                        max,
                        left: left - 1,
                    });
                }
                return;
            }
            Some(Sub::Hint {
                max,
                stream,
                lim,
                mut at,
                mut turn,
            }) => {
                let (used, need) = self.read(max);
                let more = match need {
                    // asked for nothing: a reader can only wait for ever
                    Some(0) => false,
                    Some(k) if at < stream.len() => {
                        let k = if lim.is_empty() {
                            k
                        } else {
                            k.min(lim[turn % lim.len()].max(1))
                        };
                        turn += 1;
                        let to = at.saturating_add(k).min(stream.len());
                        self.feed(&stream[at..to]);
                        at = to;
                        true
                    }
                    Some(_) => false,
                    None => used > 0,
                };
                if more {
                    self.sub = Some(Sub::Hint {
                        max,
                        stream,
                        lim,
                        at,
                        turn,
                    });
                }
                return;
            }
            None => {}
        }
        let Some(op) = self.ops.get(self.pc).cloned() else {
            self.event(o(vec![("o", s("E"))]));
            self.ended = true;
            return;
        };
        self.pc += 1;
        match op.get("o").str() {
            "W" => self.write(op.get("p")),
            "O" => {
                let b = Rope::from(op.get("b"));
                self.out.extend_from_slice(&b.vec());
                self.event(o(vec![("o", s("O")), ("b", b.json())]));
            }
            "T" => {
                let k = (op.get("n").num() as usize).min(self.out.len());
                let b = self.out.split_to(k);
                self.inb.extend_from_slice(&b);
                self.event(o(vec![("o", s("T")), ("n", n(k))]));
            }
            // what a buffer held is gone: it is emptied, or replaced by a new one
            "Z" => {
                let of = op.get("of").str();
                let b = if of == "in" {
                    &mut self.inb
                } else {
                    &mut self.out
                };
                if op.get("how").num() == 0 {
                    b.clear();
                } else {
                    *b = BytesMut::new();
                }
                self.event(o(vec![("o", s("Z")), ("of", s(of))]));
            }
            // a part of a packet, read by its own function
            "P" => {
                let (k, fl) = (op.get("k").str(), op.get("fl").num() as u8);
                let b = Rope::from(op.get("b"));
                let head = |r: J, left: J| {
                    o(vec![
                        ("o", s("P")),
                        ("k", s(k)),
                        ("fl", n(fl.into())),
                        ("b", b.json()),
                        ("r", r),
                        ("left", left),
                    ])
                };
                self.pending(&head(hang(), none()));
                let mut bytes = Bytes::from(b.vec());
                meter::most(0);
                // (part_read itself meters the library's share)
                let r = match catch_unwind(AssertUnwindSafe(|| part_read(k, fl, &mut bytes))).ok() {
                    None => panicked(),
                    Some(Ok(v)) => o(vec![("t", s("ok")), ("v", v)]),
                    Some(Err(e)) => err(&e),
                };
                let mem = meter::most(0);
                self.event(with_memory(head(r, Rope::of(&bytes).json()), mem));
            }
            // a constructor or conversion
            "K" => {
                let head = |r: J| {
                    o(vec![
                        ("o", s("K")),
                        ("n", op.get("n").clone()),
                        ("a", op.get("a").clone()),
                        ("r", r),
                    ])
                };
                self.pending(&head(hang()));
                let r = match guard(|| make(op.get("n").str(), op.get("a"))) {
                    None => panicked(),
                    Some(Ok(v)) => o(vec![("t", s("ok")), ("v", v)]),
                    Some(Err(e)) => err(&e),
                };
                self.event(head(r));
            }
            "F" => self.feed(&Rope::from(op.get("b")).vec()),
            "R" => {
                self.read(limit(op.get("max")));
            }
            // read until nothing more comes
            "D" => {
                self.sub = Some(Sub::Drain {
                    max: limit(op.get("max")),
                    left: 10_000,
                })
            }
            // fetch what is asked for, or, where the source gives less at a time
            // (lim, used cyclically), as much of it as there is
            "H" => {
                self.sub = Some(Sub::Hint {
                    max: limit(op.get("max")),
                    stream: Rope::from(op.get("b")).vec(),
                    lim: op.opt("lim").map_or(Vec::new(), |l| {
                        l.arr().iter().map(|x| x.num() as usize).collect()
                    }),
                    at: 0,
                    turn: 0,
                });
            }
            x => panic!("op {x}"),
        }
    }

    /// what happened so far, without the secondary observations
    fn outline(&self) -> String {
        let mut x = String::new();
        for e in &self.evs {
            match e {
                Ev::Done(t) => x.push_str(t),
                Ev::Wrote { r, post, .. } => {
                    x.push_str(&r.to_string());
                    x.push_str(&post.to_string());
                }
                Ev::Read { x: r, post, .. } => {
                    x.push_str(&rpkt(r).to_string());
                    x.push_str(&post.to_string());
                }
            }
            x.push('|');
        }
        x
    }

    fn text(self) -> String {
        let at = self.at;
        let evs: Vec<String> = self
            .evs
            .into_iter()
            .map(|e| {
                TICK.fetch_add(1, Ordering::SeqCst);
                PROGRESS.lock().unwrap().now = at;
                match e {
                    Ev::Done(x) => x,
                    Ev::Wrote { p, r, post, mem } => write_more(&p, r, post, mem).to_string(),
                    Ev::Read {
                        pre,
                        max,
                        x,
                        used,
                        post,
                        mem,
                    } => read_more(&pre, max, &x, used, post, mem).to_string(),
                }
            })
            .collect();
        line(&self.head, &evs)
    }
}

fn reference(stream: &[u8], max: Option<usize>) -> J {
    let mut b = BytesMut::from(stream);
    let mut res = Vec::new();
    for _ in 0..stream.len() + 2 {
        let n0 = b.len();
        let x = guard(|| Packet::read(&mut b, max));
        if let Some(Err(Error::InsufficientBytes(_))) = x {
            break;
        }
        res.push(rpkt(&x));
        if x.is_none() || b.len() == n0 {
            break;
        }
    }
    J::A(res)
}

/// The part of a lane's record that precedes its events
fn heading(id: i64, j: &J) -> String {
    let mode = j.get("mode").str();
    let max = limit(j.get("max"));
    let mut refs = none();
    if mode == "chunk" || mode == "hint" {
        let mut st = Vec::new();
        for op in j.get("ops").arr() {
            if let Some(b) = op.opt("b") {
                st.extend(Rope::from(b).vec());
            }
        }
        TICK.fetch_add(1, Ordering::SeqCst);
        refs = reference(&st, max);
    }
    format!(
        "{{\"id\":{id},\"mode\":\"{mode}\",\"ref\":{}",
        refs.to_string()
    )
}

/// The lanes, each in a thread of its own, over and over.  Of each lane the first
/// run that went differently from how it goes alone is kept, or the last.
fn storm(defs: &[J], heads: &[String], rounds: usize, burst: usize) -> Vec<Lane> {
    for l in &mut PROGRESS.lock().unwrap().lanes {
        l.late = true;
    }
    let lane = |k: usize| {
        let mut l = Lane::new(k, heads[k].clone(), defs[k].get("ops").arr(), true, 0);
        l.quiet = true;
        l
    };
    let run = |mut l: Lane| {
        while !l.over() {
            l.step();
        }
        l
    };
    let alone: Vec<(String, Arc<Vec<Seen>>)> = (0..defs.len())
        .map(|k| {
            let mut l = run(lane(k));
            (l.outline(), Arc::new(std::mem::take(&mut l.seen)))
        })
        .collect();
    let (alone, lane, run) = (&alone, &lane, &run);
    let gate = AtomicU64::new(0);
    let gate = &gate;
    std::thread::scope(|sc| {
        let running: Vec<_> = (0..defs.len())
            .map(|k| {
                sc.spawn(move || {
                    let (alone, seen) = &alone[k];
                    let mut odd: Option<Lane> = None;
                    let mut last = None;
                    for round in 0..rounds {
                        let mut lane = lane(k);
                        lane.burst = burst;
                        lane.alone = seen.clone();
                        // begin together
                        gate.fetch_add(1, Ordering::SeqCst);
                        let all = ((round + 1) * defs.len()) as u64;
                        let mut spins = 0;
                        while gate.load(Ordering::SeqCst) < all {
                            spins += 1;
                            if spins % 256 == 0 {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                        let lane = run(lane);
                        if odd.is_none() {
                            if lane.outline() == *alone {
                                last = Some(lane);
                            } else {
                                odd = Some(lane);
                            }
                        }
                    }
                    odd.or(last).unwrap()
                })
            })
            .collect();
        running.into_iter().map(|t| t.join().unwrap()).collect()
    })
}

/// A plan entry is one lane, or several lanes whose steps are taken in the
/// order of sched (cyclically; lanes that are over are passed by).  Lane k of
/// entry id is recorded under id + k.
fn session(j: &J) -> String {
    let id = j.get("id").num();
    let own = [j.clone()];
    let defs: &[J] = j.opt("lanes").map_or(&own, |l| l.arr());
    let sched: Vec<usize> = j.opt("sched").map_or(vec![0], |l| {
        l.arr().iter().map(|x| x.num() as usize).collect()
    });
    let bare = j.opt("bare").is_some() || defs.len() > 1;
    {
        let mut p = PROGRESS.lock().unwrap();
        p.lanes = (0..defs.len())
            .map(|k| Lines {
                head: format!("{{\"id\":{},\"mode\":\"one\",\"ref\":[]", id + k as i64),
                events: Vec::new(),
                late: false,
            })
            .collect();
        p.now = 0;
        p.pending =
            read_event(None, hang(), hang(), none(), none(), none(), none(), none()).to_string();
    }
    let heads: Vec<String> = defs
        .iter()
        .enumerate()
        .map(|(k, d)| heading(id + k as i64, d))
        .collect();
    {
        let mut p = PROGRESS.lock().unwrap();
        for (k, h) in heads.iter().enumerate() {
            p.lanes[k].head.clone_from(h);
        }
    }
    if let Some(n) = j.opt("storm") {
        let burst = j.get("burst").num() as usize;
        return storm(defs, &heads, n.num() as usize, burst)
            .into_iter()
            .map(Lane::text)
            .collect();
    }
    let mut lanes: Vec<Lane> = heads
        .into_iter()
        .zip(defs)
        .enumerate()
        .map(|(k, (h, d))| Lane::new(k, h, d.get("ops").arr(), bare, id as usize / 3 + k))
        .collect();
    let mut turn = 0;
    while lanes.iter().any(|l| !l.over()) {
        let mut k = sched[turn % sched.len()] % lanes.len();
        turn += 1;
        while lanes[k].over() {
            k = (k + 1) % lanes.len();
        }
        lanes[k].step();
    }
    lanes.into_iter().map(Lane::text).collect()
}

/// processor time this process has used
fn cpu_seconds() -> u64 {
    let x = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<u64> = x
        .rsplit(')')
        .next()
        .unwrap_or("")
        .split(' ')
        .map(|x| x.parse().unwrap_or(0))
        .collect();
    f.get(12)
        .zip(f.get(13))
        .map_or(u64::MAX / 2, |(u, s)| (u + s) / 100)
}

/// exec PLAN OUT [SKIP]: appends one line per session; SKIP sessions are done already.
/// Exit 3: a call did not return; the session was recorded up to it.
pub fn exec(plan: &str, outp: &str, skip: usize, secs: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut f = File::options()
        .create(true)
        .write(true)
        .truncate(skip == 0)
        .open(outp)
        .unwrap();
    f.seek(SeekFrom::End(0)).unwrap();
    let f2 = f.try_clone().unwrap();
    let w = Arc::new(Mutex::new(BufWriter::with_capacity(1 << 20, f2)));
    let w2 = w.clone();
    std::thread::spawn(move || {
        let mut last = 0;
        let mut quiet = 0;
        let mut spent = cpu_seconds();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::SeqCst);
            if t != last {
                last = t;
                quiet = 0;
                spent = cpu_seconds();
                continue;
            }
            quiet += 1;
            // a machine that is merely busy is given more time
            let busy = cpu_seconds().saturating_sub(spent) >= secs;
            if quiet * 500 >= secs * 1000 && (busy || quiet * 500 >= secs * 6000) {
                let p = PROGRESS.lock().unwrap();
                let mut w = w2.lock().unwrap();
                for (k, l) in p.lanes.iter().enumerate() {
                    // a lane whose events are not complete is recorded as dead
                    let mut e = if l.late { Vec::new() } else { l.events.clone() };
                    if l.late {
                        e.push("{\"o\":\"X\"}".to_string());
                    } else if k == p.now {
                        e.push(p.pending.clone());
                    }
                    let _ = w.write_all(line(&l.head, &e).as_bytes());
                }
                let _ = w.flush();
                std::process::exit(3);
            }
        }
    });
    let careful = std::env::var("HARNESS_CAREFUL").is_ok();
    // (in a thread with the usual stack, as a server's threads have)
    let plan = plan.to_string();
    let outp = outp.to_string();
    let work = move || {
        for (i, l) in BufReader::new(File::open(plan).unwrap())
            .lines()
            .enumerate()
        {
            if i < skip {
                continue;
            }
            let j = J::parse(&l.unwrap());
            if careful {
                // leave behind a record of the session in case the process dies in it
                std::fs::write(format!("{outp}.current"), format!("{i}")).unwrap();
            }
            let x = session(&j);
            TICK.fetch_add(1, Ordering::SeqCst);
            let mut w = w.lock().unwrap();
            w.write_all(x.as_bytes()).unwrap();
            if careful {
                w.flush().unwrap();
            }
        }
        w.lock().unwrap().flush().unwrap();
    };
    std::thread::spawn(work).join().unwrap();
    std::process::exit(0);
}
