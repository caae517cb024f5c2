//! Run-length encoded byte strings: the exchange format with the specification.
use crate::json::J;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Rope(pub Vec<(u8, u32)>);

impl Rope {
    pub fn new() -> Rope {
        Rope(Vec::new())
    }
    pub fn of(b: &[u8]) -> Rope {
        let mut r = Rope::new();
        r.bytes(b);
        r
    }
    pub fn rep(b: u8, n: usize) -> Rope {
        let mut r = Rope::new();
        r.run(b, n);
        r
    }
    pub fn run(&mut self, b: u8, n: usize) {
        if n == 0 {
            return;
        }
        if let Some(l) = self.0.last_mut() {
            if l.0 == b {
                l.1 += n as u32;
                return;
            }
        }
        self.0.push((b, n as u32));
    }
    pub fn byte(&mut self, b: u8) {
        self.run(b, 1);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() {
            let c = b[i];
            let mut j = i + 1;
            while j < b.len() && b[j] == c {
                j += 1;
            }
            self.run(c, j - i);
            i = j;
        }
    }
    pub fn cat(&mut self, r: &Rope) {
        for &(b, n) in &r.0 {
            self.run(b, n as usize);
        }
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|x| x.1 as usize).sum()
    }
    pub fn vec(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.len());
        for &(b, n) in &self.0 {
            v.resize(v.len() + n as usize, b);
        }
        v
    }
    /// bytes from .. to
    pub fn cut(&self, from: usize, to: usize) -> Rope {
        let mut r = Rope::new();
        let mut at = 0;
        for &(b, n) in &self.0 {
            let n = n as usize;
            let lo = from.max(at);
            let hi = to.min(at + n);
            if lo < hi {
                r.run(b, hi - lo);
            }
            at += n;
        }
        r
    }
    pub fn at(&self, i: usize) -> u8 {
        self.cut(i, i + 1).0[0].0
    }
    pub fn set(&self, i: usize, b: u8) -> Rope {
        let mut r = self.cut(0, i);
        r.byte(b);
        r.cat(&self.cut(i + 1, usize::MAX));
        r
    }
    pub fn json(&self) -> J {
        J::A(
            self.0
                .iter()
                .map(|&(b, n)| J::A(vec![J::N(b.into()), J::N(n.into())]))
                .collect(),
        )
    }
    pub fn from(j: &J) -> Rope {
        let mut r = Rope::new();
        for x in j.arr() {
            let x = x.arr();
            r.run(u8::try_from(x[0].num()).unwrap(), usize::try_from(x[1].num()).unwrap());
        }
        r
    }
}
