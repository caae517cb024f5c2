//! Just enough JSON.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        self.opt(k).unwrap_or_else(|| panic!("no field {k}"))
    }
    pub fn opt(&self, k: &str) -> Option<&J> {
        match self {
            J::O(v) => v.iter().find(|(n, _)| n == k).map(|(_, j)| j),
            _ => None,
        }
    }
    pub fn num(&self) -> i64 {
        match self {
            J::N(n) => *n,
            _ => panic!("number expected"),
        }
    }
    pub fn bool(&self) -> bool {
        match self {
            J::B(b) => *b,
            _ => panic!("bool expected"),
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::S(s) => s,
            _ => panic!("string expected"),
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::A(v) => v,
            _ => panic!("array expected"),
        }
    }
    pub fn to_string(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    pub fn put(&self, s: &mut String) {
        match self {
            J::B(b) => s.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(s, "{n}");
            }
            J::S(x) => {
                s.push('"');
                for c in x.chars() {
                    match c {
                        '"' => s.push_str("\\\""),
                        '\\' => s.push_str("\\\\"),
                        c if (c as u32) < 32 => {
                            let _ = write!(s, "\\u{:04x}", c as u32);
                        }
                        c => s.push(c),
                    }
                }
                s.push('"');
            }
            J::A(v) => {
                s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    x.put(s);
                }
                s.push(']');
            }
            J::O(v) => {
                s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    s.push('"');
                    s.push_str(k);
                    s.push_str("\":");
                    x.put(s);
                }
                s.push('}');
            }
        }
    }
    pub fn parse(t: &str) -> J {
        let b = t.as_bytes();
        let mut i = 0;
        let j = val(b, &mut i);
        ws(b, &mut i);
        assert!(i == b.len(), "trailing text in JSON");
        j
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && b[*i].is_ascii_whitespace() {
        *i += 1;
    }
}

fn val(b: &[u8], i: &mut usize) -> J {
    ws(b, i);
    match b[*i] {
        b'{' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b'}' {
                    *i += 1;
                    return J::O(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                let J::S(k) = val(b, i) else { panic!("key") };
                ws(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                let x = val(b, i);
                v.push((k, x));
            }
        }
        b'[' => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                if b[*i] == b']' {
                    *i += 1;
                    return J::A(v);
                }
                if b[*i] == b',' {
                    *i += 1;
                    continue;
                }
                v.push(val(b, i));
            }
        }
        b'"' => {
            *i += 1;
            let mut s = Vec::new();
            loop {
                match b[*i] {
                    b'"' => {
                        *i += 1;
                        return J::S(String::from_utf8(s).unwrap());
                    }
                    b'\\' => {
                        *i += 1;
                        match b[*i] {
                            b'u' => {
                                let h = std::str::from_utf8(&b[*i + 1..*i + 5]).unwrap();
                                let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                                s.extend(c.to_string().bytes());
                                *i += 4;
                            }
                            c => s.push(c),
                        }
                        *i += 1;
                    }
                    c => {
                        s.push(c);
                        *i += 1;
                    }
                }
            }
        }
        b't' => {
            *i += 4;
            J::B(true)
        }
        b'f' => {
            *i += 5;
            J::B(false)
        }
        _ => {
            let st = *i;
            while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                *i += 1;
            }
            J::N(std::str::from_utf8(&b[st..*i]).unwrap().parse().expect("number"))
        }
    }
}

pub fn o(fields: Vec<(&str, J)>) -> J {
    J::O(fields.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
pub fn s(x: &str) -> J {
    J::S(x.to_string())
}
pub fn n(x: usize) -> J {
    J::N(i64::try_from(x).unwrap_or(2_000_000_000).min(2_000_000_000))
}
