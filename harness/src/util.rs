//! Small dependency-free helpers: RNG, number <-> byte-sequence conversion, JSON.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// true with probability n/100
    pub fn pct(&mut self, n: usize) -> bool {
        self.below(100) < n
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len());
        &s[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

/// canonical big-endian digits of a number: no leading zero bytes, 0 is empty
pub fn nb(x: u128) -> Vec<i32> {
    x.to_be_bytes().iter().copied().skip_while(|b| *b == 0).map(|b| b as i32).collect()
}
pub fn ints(b: &[u8]) -> Vec<i32> {
    b.iter().map(|b| *b as i32).collect()
}
pub fn bytes(v: &[i32]) -> Vec<u8> {
    v.iter().map(|b| *b as u8).collect()
}
pub fn num(v: &[i32]) -> u128 {
    v.iter().fold(0u128, |a, b| a.wrapping_mul(256).wrapping_add(*b as u8 as u128))
}
pub fn opt(v: Option<Vec<i32>>) -> Vec<i32> {
    match v {
        None => vec![0],
        Some(x) => {
            let mut r = vec![1];
            r.extend(x);
            r
        }
    }
}

pub fn jints(out: &mut String, v: &[i32]) {
    out.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        out.push_str(&x.to_string());
    }
    out.push(']');
}
pub fn jintss(out: &mut String, v: &[Vec<i32>]) {
    out.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        jints(out, x);
    }
    out.push(']');
}

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(i64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Num(n) => *n,
            J::Bool(b) => *b as i64,
            _ => 0,
        }
    }
    pub fn truth(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn ints(&self) -> Vec<i32> {
        self.arr().iter().map(|x| x.int() as i32).collect()
    }
    pub fn parse(s: &str) -> J {
        let b = s.as_bytes();
        let mut i = 0;
        let r = Self::val(b, &mut i);
        r
    }
    fn ws(b: &[u8], i: &mut usize) {
        while *i < b.len() && (b[*i] as char).is_whitespace() {
            *i += 1
        }
    }
    fn val(b: &[u8], i: &mut usize) -> J {
        Self::ws(b, i);
        match b[*i] {
            b'{' => {
                let mut m = BTreeMap::new();
                *i += 1;
                loop {
                    Self::ws(b, i);
                    match b[*i] {
                        b'}' => {
                            *i += 1;
                            break;
                        }
                        b',' => *i += 1,
                        _ => {
                            let k = match Self::val(b, i) {
                                J::Str(s) => s,
                                _ => panic!("bad key"),
                            };
                            Self::ws(b, i);
                            assert_eq!(b[*i], b':');
                            *i += 1;
                            let v = Self::val(b, i);
                            m.insert(k, v);
                        }
                    }
                }
                J::Obj(m)
            }
            b'[' => {
                let mut v = vec![];
                *i += 1;
                loop {
                    Self::ws(b, i);
                    match b[*i] {
                        b']' => {
                            *i += 1;
                            break;
                        }
                        b',' => *i += 1,
                        _ => v.push(Self::val(b, i)),
                    }
                }
                J::Arr(v)
            }
            b'"' => {
                *i += 1;
                let mut s = String::new();
                while b[*i] != b'"' {
                    if b[*i] == b'\\' {
                        *i += 1;
                    }
                    s.push(b[*i] as char);
                    *i += 1;
                }
                *i += 1;
                J::Str(s)
            }
            b't' => {
                *i += 4;
                J::Bool(true)
            }
            b'f' => {
                *i += 5;
                J::Bool(false)
            }
            b'n' => {
                *i += 4;
                J::Null
            }
            _ => {
                let st = *i;
                while *i < b.len() && (b[*i] == b'-' || b[*i].is_ascii_digit()) {
                    *i += 1
                }
                J::Num(std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap())
            }
        }
    }
}
