//! Random sessions: configurations, client bytes and target events, weighted by the property under study.
use crate::drive::*;
use crate::mock::*;
use crate::util::*;
use std::collections::VecDeque;

pub const FAMS: &[&str] = &[
    "q", "g", "G", "m", "M", "X", "p", "P", "H", "T", "thr", "D", "kill", "att", "sup", "noack", "c", "s", "vcont",
    "CS", "bc", "bs", "bp", "ext", "run", "qC", "env", "mon", "off", "feat", "mmap", "exec", "auxv", "libs", "hio",
    "catch", "extra", "lldb", "tp", "tpup", "unk", "raw",
];

#[derive(Clone)]
pub struct Focus {
    pub w: Vec<(&'static str, usize)>,
    /// features that should nearly always be on / off
    pub on: &'static [&'static str],
    pub off: &'static [&'static str],
    /// probability (percent) that any other feature is on
    pub base: usize,
    /// percent of malformed packets
    pub bad: usize,
    /// percent of line noise between packets
    pub noise: usize,
    pub err: usize,
    pub fatal: usize,
    pub wild: usize,
    pub connfail: usize,
    /// percent of Ctrl-C bytes between packets
    pub irq: usize,
    pub blocking: usize,
    /// percent of non-plain target / connection adapters
    pub variants: usize,
    /// percent of small buffers
    pub tiny: usize,
    pub len: usize,
}

fn all(w: usize) -> Vec<(&'static str, usize)> {
    FAMS.iter().filter(|f| **f != "raw" && **f != "D" && **f != "kill").map(|f| (*f, w)).chain([("D", 1), ("kill", 1)]).collect()
}
fn few(l: &[(&'static str, usize)]) -> Vec<(&'static str, usize)> {
    l.to_vec()
}

pub fn focus(p: &str) -> Focus {
    let d = Focus {
        w: all(2),
        on: &[],
        off: &[],
        base: 65,
        bad: 4,
        noise: 3,
        err: 8,
        fatal: 0,
        wild: 0,
        connfail: 0,
        irq: 3,
        blocking: 15,
        variants: 20,
        tiny: 15,
        len: 14,
    };
    let res: &[(&str, usize)] = &[("c", 5), ("s", 4), ("vcont", 8), ("bc", 3), ("bs", 3)];
    let mix = |l: &[(&'static str, usize)]| -> Vec<(&'static str, usize)> {
        let mut v = all(1);
        for x in l {
            v.push((x.0, x.1 * 4));
        }
        v
    };
    let resv: Vec<(&'static str, usize)> = few(&[("c", 5), ("s", 4), ("vcont", 8), ("bc", 3), ("bs", 3)]);
    let _ = res;
    match p {
        "P01" => Focus { bad: 4, noise: 22, tiny: 50, len: 16, err: 4, w: mix(&[("m", 2), ("M", 3), ("X", 3), ("G", 2), ("unk", 3), ("raw", 5)]), ..d },
        "P02" => Focus { on: &["noack"], noise: 6, w: mix(&[("noack", 8), ("D", 2), ("kill", 2)]), ..d },
        "P03" => Focus {
            on: &["hostio", "hpread", "hreadlink", "exec", "auxv", "mmap", "libs", "tdesc", "usexml", "hfstat"],
            w: mix(&[("g", 4), ("m", 4), ("hio", 8), ("exec", 3), ("auxv", 3), ("mmap", 3), ("feat", 3), ("libs", 3), ("mon", 4), ("lldb", 3), ("extra", 3)]),
            bad: 1,
            noise: 1,
            len: 18,
            ..d
        },
        "P04" => Focus { base: 60, w: { let mut v = all(2); v.extend(resv.clone()); v.push(("unk", 4)); v.push(("noack", 2)); v }, ..d },
        "P05" => Focus { on: &["resume"], irq: 12, w: { let mut v = all(1); for x in &resv { v.push((x.0, x.1 * 3)) } v.push(("D", 10)); v.push(("kill", 12)); v }, ..d },
        "P06" => Focus { on: &["resume"], irq: 28, bad: 2, noise: 2, w: { let mut v = all(1); for x in &resv { v.push((x.0, x.1 * 5)) } v }, len: 20, ..d },
        "P07" => Focus { on: &["resume", "curpid", "ext"], bad: 1, noise: 1, irq: 6, w: { let mut v = few(&[("sup", 6), ("q", 2), ("H", 2)]); for x in &resv { v.push((x.0, x.1 * 2)) } v }, len: 20, ..d },
        "P08" => Focus { on: &["multi", "resume", "sra", "step"], bad: 2, w: few(&[("H", 24), ("g", 5), ("G", 5), ("m", 4), ("M", 4), ("X", 3), ("p", 5), ("P", 4), ("c", 6), ("s", 6), ("bs", 4), ("q", 2), ("thr", 2), ("qC", 3), ("T", 2), ("vcont", 2), ("extra", 1), ("att", 1), ("run", 1)]), len: 22, ..d },
        "P09" => Focus { on: &["resume"], bad: 8, irq: 2, w: { let mut v = few(&[("H", 6), ("CS", 2), ("g", 1)]); for x in &resv { v.push((x.0, x.1 * 2)) } v }, len: 20, ..d },
        "P10" => Focus { bad: 5, wild: 2, err: 8, tiny: 55, w: few(&[("m", 20), ("M", 14), ("X", 12), ("H", 4), ("g", 1)]), on: &["xpkt"], len: 18, ..d },
        "P11" => Focus { bad: 5, wild: 2, w: few(&[("g", 12), ("G", 12), ("p", 16), ("P", 12), ("H", 3), ("sup", 1)]), on: &["sra"], len: 18, ..d },
        "P12" => Focus { bad: 6, w: few(&[("bp", 30), ("m", 1), ("g", 1), ("unk", 1)]), on: &["bp"], base: 75, len: 18, ..d },
        "P13" => Focus { base: 50, w: mix(&[("sup", 12), ("thr", 4), ("q", 3), ("qC", 3)]), len: 12, ..d },
        "P14" => Focus { base: 30, w: { let mut v = all(3); v.extend([("unk", 8), ("c", 3), ("s", 3), ("CS", 5), ("vcont", 3), ("tp", 8), ("hio", 8), ("env", 4)]); v }, bad: 2, noise: 1, len: 18, ..d },
        "P15" => Focus { err: 30, fatal: 6, connfail: 25, len: 16, w: { let mut v = all(2); v.extend([("tp", 4), ("hio", 4), ("env", 2), ("tpup", 3)]); v }, ..d },
        "P16" => Focus { bad: 45, noise: 8, wild: 3, tiny: 55, fatal: 1, len: 12, w: { let mut v = all(2); v.extend([("m", 6), ("tp", 8), ("hio", 6), ("raw", 6), ("lldb", 3)]); v }, irq: 5, ..d },
        "P17" => Focus { on: &["usexml", "archxml"], base: 60, bad: 6, wild: 3, w: few(&[("feat", 20), ("mmap", 8), ("exec", 8), ("auxv", 8), ("libs", 8), ("sup", 1)]), len: 20, tiny: 30, ..d },
        "P18" => Focus { on: &["hostio"], base: 80, bad: 7, err: 20, wild: 2, w: few(&[("hio", 30), ("g", 1)]), len: 20, ..d },
        "P19" => Focus { on: &["ext", "curpid"], base: 75, bad: 5, err: 12, w: few(&[("ext", 8), ("run", 12), ("env", 16), ("att", 8), ("kill", 6), ("qC", 4), ("sup", 3), ("q", 2)]), len: 20, ..d },
        "P20" => Focus { on: &["tp", "tpsrc"], bad: 6, err: 6, w: few(&[("tp", 30), ("g", 1)]), len: 20, ..d },
        "P21" => Focus { on: &["tp", "tpsrc"], bad: 1, err: 5, w: few(&[("tpup", 40), ("tp", 4)]), len: 26, ..d },
        "P22" => Focus { on: &["multi", "extra"], base: 60, bad: 4, wild: 2, w: few(&[("thr", 8), ("T", 8), ("extra", 8), ("q", 6), ("qC", 6), ("sup", 7), ("H", 3), ("att", 2)]), len: 20, ..d },
        "P23" => Focus { variants: 100, base: 75, w: all(2), bad: 1, noise: 1, connfail: 3, ..d },
        "P24" => Focus { blocking: 100, irq: 10, on: &["resume"], noise: 3, fatal: 2, connfail: 10, w: { let mut v = all(1); for x in &resv { v.push((x.0, x.1 * 3)) } v.push(("D", 4)); v.push(("kill", 4)); v }, base: 60, ..d },
        "P26" => Focus { on: &["monitor"], bad: 2, w: few(&[("mon", 30), ("g", 1), ("unk", 1)]), len: 14, ..d },
        "P27" => Focus { on: &["catch", "offsets", "uselldb"], base: 60, bad: 5, w: few(&[("catch", 14), ("off", 8), ("lldb", 16)]), len: 20, ..d },
        _ => d,
    }
}

pub struct Gen {
    pub r: Rng,
    pub f: Focus,
    pub q: VecDeque<u8>,
    pub left: usize,
    pub cap: usize,
    pub owned: bool,
    pub uw: usize,
    pub xmllen: usize,
    pub single: bool,
    pub multi: bool,
    pub form_single: bool,
    pub blocking: bool,
    pub quiet: bool,
    pub tpmode: usize,
}

fn hex(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| format!("{x:02x}").into_bytes()).collect()
}
pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = vec![b'$'];
    v.extend(body);
    let c = body.iter().fold(0u8, |a, b| a.wrapping_add(*b));
    v.extend(format!("#{c:02x}").bytes());
    v
}
pub fn esc(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for x in b {
        if matches!(x, b'#' | b'$' | b'}' | b'*') {
            v.push(b'}');
            v.push(x ^ 0x20)
        } else {
            v.push(*x)
        }
    }
    v
}
macro_rules! cat {
    ($($x:expr),* $(,)?) => {{ let mut v: Vec<u8> = Vec::new(); $( v.extend_from_slice(($x).as_ref() as &[u8]); )* v }};
}

impl Gen {
    /// a hexadecimal number of at most `w` bytes
    fn num(&mut self, w: usize) -> Vec<u8> {
        let r = &mut self.r;
        let s = match r.below(12) {
            0 => "0".into(),
            1 => "1".into(),
            2 | 3 | 4 => format!("{:x}", r.below(20)),
            5 => "f".repeat(2 * w),
            6 => format!("8{}", "0".repeat(2 * w - 1)),
            7 => format!("{}{:x}", "0".repeat(r.range(1, 20)), r.below(300)),
            8 => format!("{:X}", r.next() as u128 >> (64 - (8 * w.min(8)).min(64)) as u32),
            _ => {
                let n = r.range(1, 2 * w);
                let mut s: String = (0..n).map(|_| *r.pick(b"0123456789abcdef") as char).collect();
                if s.is_empty() {
                    s = "0".into()
                }
                s
            }
        };
        s.into_bytes()
    }
    fn small(&mut self, n: usize) -> Vec<u8> {
        format!("{:x}", self.r.below(n)).into_bytes()
    }
    fn addr(&mut self) -> Vec<u8> {
        let w = self.uw;
        if self.r.pct(4) {
            return self.num(w + 1);
        }
        if self.r.pct(1) {
            return vec![];
        }
        self.num(w)
    }
    fn data(&mut self, max: usize) -> Vec<u8> {
        let n = self.r.below(max + 1);
        bytes(&gen_data(&mut self.r, n))
    }
    fn text(&mut self, max: usize) -> Vec<u8> {
        let n = self.r.below(max + 1);
        (0..n).map(|_| *self.r.pick(b"abcdefgh/._-=AZ09 \xff")).collect()
    }
    fn tid(&mut self) -> Vec<u8> {
        let r = &mut self.r;
        let t = match r.below(12) {
            0 => "-1".to_string(),
            1 => "0".to_string(),
            2..=8 => format!("{:x}", r.range(1, 5)),
            9 => "7fffffffffffffff".into(),
            10 => format!("{:x}", r.below(1 << 20)),
            _ => "ffffffffffffffff".into(),
        };
        if r.pct(45) {
            let p = match r.below(5) {
                0 => "-1".to_string(),
                1 => "0".to_string(),
                _ => format!("{:x}", r.range(1, 3)),
            };
            if r.pct(8) {
                format!("p{p}").into_bytes()
            } else {
                format!("p{p}.{t}").into_bytes()
            }
        } else {
            t.into_bytes()
        }
    }
    fn ctid(&mut self) -> Vec<u8> {
        let r = &mut self.r;
        let t = r.range(1, 5);
        if r.pct(40) {
            format!("p{:x}.{:x}", r.range(1, 3), t).into_bytes()
        } else {
            format!("{t:x}").into_bytes()
        }
    }
    fn sigx(&mut self) -> Vec<u8> {
        match self.r.below(8) {
            0 => b"0".to_vec(),
            1 => b"ff".to_vec(),
            2 => b"100".to_vec(),
            3 => b"05".to_vec(),
            _ => format!("{:02x}", self.r.below(256)).into_bytes(),
        }
    }
    fn window(&mut self) -> Vec<u8> {
        let x = self.xmllen.max(4);
        let off = match self.r.below(8) {
            0 => b"0".to_vec(),
            1 => format!("{x:x}").into_bytes(),
            2 => format!("{:x}", x + self.r.below(5)).into_bytes(),
            3 => self.num(8),
            _ => format!("{:x}", self.r.below(x)).into_bytes(),
        };
        let len = match self.r.below(8) {
            0 => b"0".to_vec(),
            1 => b"ffffffffffffffff".to_vec(),
            2 => self.num(8),
            3 => format!("{x:x}").into_bytes(),
            _ => format!("{:x}", self.r.range(1, 60)).into_bytes(),
        };
        cat!(off, ",", len)
    }
    fn vact(&mut self) -> Vec<u8> {
        let k = self.r.below(20);
        match k {
            0..=5 => b"c".to_vec(),
            6..=8 => {
                let s = self.sigx();
                cat!("C", s)
            }
            9..=12 => b"s".to_vec(),
            13..=14 => {
                let s = self.sigx();
                cat!("S", s)
            }
            15..=18 => {
                let w = self.uw;
                let (a, b) = (self.num(w), if self.r.pct(3) { self.num(w + 1) } else { self.num(w) });
                cat!("r", a, ",", b)
            }
            _ => b"t".to_vec(),
        }
    }
    fn tpn(&mut self) -> Vec<u8> {
        match self.r.below(8) {
            0 => self.num(8),
            _ => self.small(6),
        }
    }
    fn tpactions(&mut self) -> Vec<u8> {
        let mut v = vec![];
        for _ in 0..self.r.below(4) {
            match self.r.below(16) {
                0..=6 => {
                    // 'R' masks are hex: anything the digit set allows, but no digit may be taken for an action letter
                    let n = self.r.range(0, 6);
                    v.push(b'R');
                    for _ in 0..n {
                        v.push(*self.r.pick(b"0123456789abcdefABCDEF"));
                    }
                }
                7..=13 => {
                    let d = self.data(6);
                    let n = if self.r.pct(94) { d.len() } else { d.len() + 1 };
                    v.extend(format!("X{n:x},").bytes());
                    v.extend(hex(&d));
                }
                14 => v.extend(b"S"),
                _ => v.extend(b"M-1,10,4"),
            }
        }
        v
    }

    fn body(&mut self, fam: &str) -> Vec<u8> {
        match fam {
            "q" => b"?".to_vec(),
            "g" => b"g".to_vec(),
            "G" => {
                let mx = if self.r.pct(8) { 40 } else { 14 };
                let d = self.data(mx);
                let mut h = hex(&d);
                if self.r.pct(10) {
                    for x in h.iter_mut() {
                        if self.r.pct(30) {
                            *x = b'x'
                        }
                    }
                }
                if self.r.pct(4) {
                    h.push(b'7')
                }
                cat!("G", h)
            }
            "m" => {
                let a = self.addr();
                let cap = self.cap;
                let n = match self.r.below(10) {
                    0 => b"0".to_vec(),
                    1 => format!("{:x}", cap + self.r.below(40)).into_bytes(),
                    2 => format!("{:x}", (cap + self.r.below(cap + 1)).min(900)).into_bytes(),
                    3 if self.r.pct(25) => self.num(8),
                    _ => self.small(48),
                };
                cat!("m", a, ",", n)
            }
            "M" => {
                let a = self.addr();
                let d = self.data(24);
                let n = if self.r.pct(92) { format!("{:x}", d.len()).into_bytes() } else { self.num(4) };
                cat!("M", a, ",", n, ":", hex(&d))
            }
            "X" => {
                let a = self.addr();
                let d = self.data(24);
                let n = if self.r.pct(92) { format!("{:x}", d.len()).into_bytes() } else { self.num(4) };
                cat!("X", a, ",", n, ":", esc(&d))
            }
            "p" => {
                let n = if self.r.pct(90) { self.small(14) } else { self.num(8) };
                cat!("p", n)
            }
            "P" => {
                let n = if self.r.pct(90) { self.small(14) } else { self.num(8) };
                let d = self.data(10);
                cat!("P", n, "=", hex(&d))
            }
            "H" => {
                let t = if self.r.pct(80) { self.ctid() } else { self.tid() };
                let k = if self.r.pct(3) { "m" } else { *self.r.pick(&["g", "c"]) };
                cat!("H", k, t)
            }
            "T" => {
                let t = if self.r.pct(88) { self.ctid() } else { self.tid() };
                cat!("T", t)
            }
            "thr" => self.r.pick(&[&b"qfThreadInfo"[..], b"qfThreadInfo", b"qsThreadInfo"]).to_vec(),
            "D" => self.r.pick(&[&b"D"[..], b"D;1", b"D;ff", b"D;0", b"Dx"]).to_vec(),
            "kill" => {
                let n = self.num(8);
                match self.r.below(5) {
                    0 | 1 => b"k".to_vec(),
                    2 => b"vKill;1".to_vec(),
                    _ => cat!("vKill;", n),
                }
            }
            "att" => {
                let n = if self.r.pct(60) { self.small(5) } else { self.num(8) };
                match self.r.below(4) {
                    0 => b"qAttached".to_vec(),
                    _ => cat!("qAttached:", n),
                }
            }
            "sup" => {
                let mut fs: Vec<&str> = vec![];
                for _ in 0..self.r.range(1, 4) {
                    fs.push(self.r.pick(&[
                        "multiprocess+", "multiprocess+", "multiprocess-", "swbreak+", "xmlRegisters=i386", "foo?", "hwbreak-", "multiprocess?",
                        "multiprocess=1", "m+", "+", "multiprocessx+", "QStartNoAckMode+",
                    ]));
                }
                let mut v = cat!("qSupported:", fs.join(";"));
                if self.r.pct(2) {
                    v.push(b';')
                }
                v
            }
            "noack" => b"QStartNoAckMode".to_vec(),
            "c" => match self.r.below(6) {
                0 => {
                    let a = self.addr();
                    cat!("c", a)
                }
                _ => b"c".to_vec(),
            },
            "s" => match self.r.below(6) {
                0 => {
                    let a = self.addr();
                    cat!("s", a)
                }
                _ => b"s".to_vec(),
            },
            "CS" => {
                let s = self.sigx();
                let k = *self.r.pick(&["C", "S"]);
                cat!(k, s)
            }
            "vcont" => {
                if self.r.pct(12) {
                    return b"vCont?".to_vec();
                }
                let n = if self.multi { *self.r.pick(&[0, 1, 1, 2, 2, 3, 4]) } else { *self.r.pick(&[1, 1, 1, 1, 2, 3]) };
                let mut v = b"vCont".to_vec();
                for i in 0..n {
                    v.push(b';');
                    if !self.multi && i > 0 && self.r.pct(85) {
                        v.push(b'c');
                        continue;
                    }
                    v.extend(self.vact());
                    if self.r.pct(if self.multi { 88 } else { 50 }) {
                        v.push(b':');
                        let t = if self.r.pct(92) { self.ctid() } else { self.tid() };
                        v.extend(t);
                    }
                }
                v
            }
            "bc" => b"bc".to_vec(),
            "bs" => b"bs".to_vec(),
            "bp" => {
                let k = *self.r.pick(&["z", "Z"]);
                let t = match self.r.below(20) {
                    0 => b"5".to_vec(),
                    1 => self.num(1),
                    2 => b"04".to_vec(),
                    _ => self.small(5),
                };
                let a = self.addr();
                let n = match self.r.below(6) {
                    0 => self.num(8),
                    1 => {
                        let w = self.uw;
                        self.num(w)
                    }
                    _ => self.small(12),
                };
                let tail: &[u8] = if self.r.pct(10) { b";X3,220000" } else { b"" };
                cat!(k, t, ",", a, ",", n, tail)
            }
            "ext" => self.r.pick(&[&b"!"[..], b"R00", b"R", b"Rff", b"!"]).to_vec(),
            "run" => {
                if self.r.pct(30) {
                    let n = if self.r.pct(70) { cat!("1", self.small(9)) } else { self.num(8) };
                    return cat!("vAttach;", n);
                }
                let mut v = b"vRun;".to_vec();
                let f = self.text(8);
                v.extend(hex(&f));
                for _ in 0..self.r.below(4) {
                    let a = self.text(6);
                    v.push(b';');
                    v.extend(hex(&a));
                }
                v
            }
            "qC" => b"qC".to_vec(),
            "env" => match self.r.below(7) {
                0 => self.r.pick(&[&b"QDisableRandomization:0"[..], b"QDisableRandomization:1", b"QDisableRandomization:2"]).to_vec(),
                1 => self.r.pick(&[&b"QStartupWithShell:0"[..], b"QStartupWithShell:1", b"QStartupWithShell:"]).to_vec(),
                2 => b"QEnvironmentReset".to_vec(),
                3 => {
                    let k = self.text(8);
                    cat!("QEnvironmentUnset:", hex(&k))
                }
                4 => {
                    let k = self.text(12);
                    cat!("QSetWorkingDir:", hex(&k))
                }
                _ => {
                    let k = self.text(5);
                    let v = self.text(8);
                    let kv = match self.r.below(8) {
                        0 => k,
                        1 => cat!(k, "="),
                        _ => cat!(k, "=", v),
                    };
                    cat!("QEnvironmentHexEncoded:", hex(&kv))
                }
            },
            "mon" => {
                if self.r.pct(12) {
                    return self.r.pick(&[&b"qRcmd"[..], b"qRcmd,", b"qRcmdx"]).to_vec();
                }
                let t = if self.r.pct(70) { self.text(14) } else { self.data(10) };
                cat!("qRcmd,", hex(&t))
            }
            "off" => b"qOffsets".to_vec(),
            "feat" => {
                let a: &[u8] = match self.r.below(12) {
                    0 => b"foo.xml",
                    1 => b"",
                    2 => b"target.xm",
                    3 => b"target.xml2",
                    _ => b"target.xml",
                };
                let w = self.window();
                cat!("qXfer:features:read:", a, ":", w)
            }
            "mmap" | "auxv" | "libs" => {
                let n = match fam {
                    "mmap" => "memory-map",
                    "auxv" => "auxv",
                    _ => "libraries-svr4",
                };
                let a = if self.r.pct(5) { "x" } else { "" };
                let w = self.window();
                cat!("qXfer:", n, ":read:", a, ":", w)
            }
            "exec" => {
                let a = match self.r.below(4) {
                    0 => vec![],
                    1 => self.num(8),
                    _ => self.small(300),
                };
                let w = self.window();
                cat!("qXfer:exec-file:read:", a, ":", w)
            }
            "hio" => {
                let fd = if self.r.pct(80) { self.small(16) } else { self.num(4) };
                match self.r.below(9) {
                    0 => {
                        let t = self.text(12);
                        let fl = match self.r.below(8) {
                            0 => self.num(4),
                            _ => {
                                let mut x = 0;
                                for b in [1, 2, 8, 0x200, 0x400, 0x800] {
                                    if self.r.pct(30) {
                                        x |= b
                                    }
                                }
                                format!("{x:x}").into_bytes()
                            }
                        };
                        let md = match self.r.below(8) {
                            0 => self.num(4),
                            1 => format!("{:x}", *self.r.pick(&[0o100644, 0o40755, 0o100777, 0o140000])).into_bytes(),
                            _ => format!("{:x}", self.r.below(0o1000)).into_bytes(),
                        };
                        cat!("vFile:open:", hex(&t), ",", fl, ",", md)
                    }
                    1 => cat!("vFile:close:", fd),
                    2 | 3 => {
                        let n = if self.r.pct(85) { self.small(80) } else { self.num(8) };
                        let o = if self.r.pct(60) { self.small(4000) } else { self.num(8) };
                        cat!("vFile:pread:", fd, ",", n, ",", o)
                    }
                    4 => {
                        let o = self.addr();
                        let d = self.data(20);
                        cat!("vFile:pwrite:", fd, ",", o, ",", esc(&d))
                    }
                    5 => cat!("vFile:fstat:", fd),
                    6 => {
                        let t = self.text(12);
                        cat!("vFile:unlink:", hex(&t))
                    }
                    7 => {
                        let t = self.text(12);
                        cat!("vFile:readlink:", hex(&t))
                    }
                    _ => {
                        let n = if self.r.pct(60) { self.small(3) } else { self.num(8) };
                        cat!("vFile:setfs:", n)
                    }
                }
            }
            "catch" => match self.r.below(6) {
                0 => b"QCatchSyscalls:0".to_vec(),
                1 => b"QCatchSyscalls:1".to_vec(),
                2 if self.r.pct(20) => self.r.pick(&[&b"QCatchSyscalls:2"[..], b"QCatchSyscalls", b"QCatchSyscalls:1;", b"QCatchSyscalls:1;5;;6", b"QCatchSyscalls:1;g"]).to_vec(),
                _ => {
                    let mut v = b"QCatchSyscalls:1".to_vec();
                    for _ in 0..self.r.range(1, 5) {
                        v.push(b';');
                        let a = self.addr();
                        v.extend(a);
                    }
                    v
                }
            },
            "extra" => {
                let t = if self.r.pct(92) { self.ctid() } else { self.tid() };
                cat!("qThreadExtraInfo,", t)
            }
            "lldb" => {
                let n = if self.r.pct(80) { self.small(40) } else { self.num(8) };
                cat!("qRegisterInfo", n)
            }
            "tp" => {
                let n = self.tpn();
                let a = self.addr();
                match self.r.below(20) {
                    0..=4 => {
                        let e = if self.r.pct(97) { *self.r.pick(&["E", "D"]) } else { "X" };
                        let (s, p) = (self.num(8), self.num(8));
                        let o: &[u8] = match self.r.below(12) {
                            0 => b":F4",
                            1 => b":S",
                            2 => b":X2,2200",
                            3 if self.r.pct(20) => b":Q",
                            _ => b"",
                        };
                        let m: &[u8] = if self.r.pct(50) { b"-" } else { b"" };
                        cat!("QTDP:", n, ":", a, ":", e, ":", s, ":", p, o, m)
                    }
                    5..=9 => {
                        let x = self.tpactions();
                        let m: &[u8] = if self.r.pct(50) { b"-" } else { b"" };
                        cat!("QTDP:-", n, ":", a, ":", x, m)
                    }
                    10 | 11 => {
                        let k = if self.r.pct(97) { *self.r.pick(&["at", "cond", "cmd"]) } else { "foo" };
                        let (s, l) = (self.num(4), self.num(4));
                        let d = self.text(8);
                        cat!("QTDPsrc:", n, ":", a, ":", k, ":", s, ":", l, ":", hex(&d))
                    }
                    12 => b"QTinit".to_vec(),
                    13 => b"QTStart".to_vec(),
                    14 => b"QTStop".to_vec(),
                    15 => match self.r.below(5) {
                        0 => b"QTBuffer:circular:1".to_vec(),
                        1 => b"QTBuffer:circular:0".to_vec(),
                        2 => b"QTBuffer:size:-1".to_vec(),
                        _ => {
                            let s = self.num(8);
                            cat!("QTBuffer:size:", s)
                        }
                    },
                    16..=18 => {
                        let b = self.addr();
                        match self.r.below(6) {
                            0 => cat!("QTFrame:pc:", a),
                            1 => cat!("QTFrame:tdp:", n),
                            2 => cat!("QTFrame:range:", a, ":", b),
                            3 => cat!("QTFrame:outside:", a, ":", b),
                            4 => b"QTFrame:-1".to_vec(),
                            _ => {
                                let s = self.num(8);
                                cat!("QTFrame:", s)
                            }
                        }
                    }
                    _ => self.r.pick(&[&b"QTDV:1:0"[..], b"QTNotes:", b"QTEnable:1:2", b"qTMinFTPILen", b"qTV:1", b"qTsSTM"]).to_vec(),
                }
            }
            "tpup" => {
                let n = self.tpn();
                let a = self.addr();
                match self.r.below(16) {
                    0 | 1 => b"qTfP".to_vec(),
                    2..=9 => b"qTsP".to_vec(),
                    10 | 11 => b"qTStatus".to_vec(),
                    12 => cat!("qTP:", n, ":", a),
                    13 => {
                        let (o, l) = (self.num(8), if self.r.pct(80) { self.small(40) } else { self.num(8) });
                        cat!("qTBuffer:", o, ",", l)
                    }
                    14 => self.r.pick(&[&b"qTfV"[..], b"qTsV"]).to_vec(),
                    _ => {
                        let s = self.num(8);
                        cat!("QTFrame:", s)
                    }
                }
            }
            "unk" => match self.r.below(8) {
                0 => vec![],
                1 => self.text(10),
                2 => cat!("q", self.text(8)),
                3 => cat!("v", self.text(8)),
                4 => b"vMustReplyEmpty".to_vec(),
                5 => cat!("Q", self.text(8)),
                6 => self.r.pick(&[&b"qCRC:0,10"[..], b"qSymbol::", b"vCtrlC", b"qTStatu", b"x0,10", b"jThreads", b"_M10,rw", b"A6,0,61", b"i", b"e", b"B1,S", b"r", b"t", b"qP1", b"bq", b"vFlashErase:0,1", b"vFile:foo:1", b"qXfer:foo:read::0,1", b"qXfer:auxv:write::0", b"QAgent:1"]).to_vec(),
                _ => {
                    let n = self.r.range(1, 12);
                    (0..n).map(|_| *self.r.pick(b"qvQTCcsbzZmMgGpPXHDk:;,.=?!0123456789abcdef*}\x03\x00\xff")).filter(|b| *b != b'#').collect()
                }
            },
            _ => {
                // raw bytes
                let mx = if self.r.pct(10) { 60 } else { 10 };
                let n = self.r.below(mx);
                self.r.bytes(n).into_iter().filter(|b| *b != b'#').collect()
            }
        }
    }
    fn corrupt(&mut self, mut b: Vec<u8>) -> Vec<u8> {
        let huge: &[&[u8]] = &[b"ffffffffffffffff", b"10000000000000000", b"7fffffffffffffff", b"8000000000000000", b"8000000000000001", b"0", b"-1", b"", b"ffffffffffffffffffffffffffffffff", b"x", b"100", b"ff", b"fffffffffffffff0"];
        for _ in 0..self.r.range(1, 2) {
            match self.r.below(9) {
                0 => {
                    let n = self.r.below(b.len() + 1);
                    b.truncate(n)
                }
                1 if !b.is_empty() => {
                    let i = self.r.below(b.len());
                    b[i] = *self.r.pick(b",:;=#$}*xXpg-+.\x00\xffzR");
                }
                2 => {
                    let i = self.r.below(b.len() + 1);
                    b.insert(i, *self.r.pick(b",:;=}xX-0.p"));
                }
                3 if !b.is_empty() => {
                    let i = self.r.below(b.len());
                    b.remove(i);
                }
                4 => {
                    let t = self.text(4);
                    b.extend(t)
                }
                _ => {
                    // replace one hex number by an extreme one
                    let mut runs = vec![];
                    let mut i = 1;
                    while i < b.len() {
                        if b[i].is_ascii_hexdigit() && !b[i - 1].is_ascii_alphanumeric() {
                            let mut j = i;
                            while j < b.len() && b[j].is_ascii_hexdigit() {
                                j += 1
                            }
                            runs.push((i, j));
                            i = j
                        } else {
                            i += 1
                        }
                    }
                    if let Some((i, j)) = (!runs.is_empty()).then(|| *self.r.pick(&runs)) {
                        b.splice(i..j, self.r.pick(huge).to_vec());
                    } else {
                        b.extend_from_slice(self.r.pick(huge))
                    }
                }
            }
        }
        b
    }
    fn packet(&mut self) -> Vec<u8> {
        let tot: usize = self.f.w.iter().map(|x| x.1).sum();
        let mut k = self.r.below(tot);
        let mut fam = "unk";
        for (f, w) in &self.f.w {
            if k < *w {
                fam = f;
                break;
            }
            k -= w
        }
        let mut b = self.body(fam);
        let bad = self.r.pct(self.f.bad);
        if bad {
            b = self.corrupt(b);
        }
        if !self.owned && b.len() + 4 > self.cap && self.r.pct(85) {
            b = b"g".to_vec()
        }
        if self.owned || self.r.pct(3) {
            // now and then exactly as big as the buffer
        }
        let mut f = frame(&b);
        if self.f.noise > 10 && self.r.pct(6) || self.r.pct(self.f.noise.min(2)) && bad {
            // damage the framing itself
            let n = f.len();
            match self.r.below(6) {
                0 => f[n - 1] = *self.r.pick(b"0123456789abcdefgx-+$"),
                1 => f[n - 2] = *self.r.pick(b"0123456789abcdefgx-+$"),
                2 => {
                    let i = self.r.below(n);
                    f[i] ^= 1 << self.r.below(8)
                }
                3 => {
                    f.truncate(n - 1);
                }
                4 => f[n - 2..].make_ascii_uppercase(),
                _ => f.insert(self.r.range(1, n - 3), b'#'),
            }
        } else if self.r.pct(10) {
            let n = f.len();
            f[n - 2..].make_ascii_uppercase();
        }
        f
    }
    fn reason(&mut self) -> Reason {
        let k = *self.r.pick(REASONS);
        // exits are rarer
        let k = if matches!(k, "Exited" | "Terminated") && self.r.pct(50) { "DoneStep" } else { k };
        let optional = matches!(k, "ReplayLog" | "Catch");
        let single = if self.blocking { self.form_single } else { self.r.pct(40) };
        let t: Vec<i32> = match self.r.below(8) {
            0 => nb(0x7fff_ffff_ffff_ffff),
            1 => nb(0x1234),
            _ => vec![self.r.range(1, 5) as i32],
        };
        let tid = if single {
            if optional && self.r.pct(50) { vec![] } else { vec![1] }
        } else if optional && self.r.pct(40) {
            vec![]
        } else {
            t
        };
        Reason {
            k,
            st: single,
            tid,
            n: if self.r.pct(40) { *self.r.pick(&[0, 1, 2, 5, 9, 11, 15, 17, 19, 127, 128, 255]) } else { self.r.below(256) as i32 },
            m: self.r.below(if k == "Watch" { 3 } else { 2 }) as i32,
            x: {
                let w = self.uw;
                let n = self.r.below(w + 1);
                let mut v: Vec<i32> = if self.r.pct(20) { vec![255; n] } else { (0..n).map(|_| self.r.below(256) as i32).collect() };
                while v.first() == Some(&0) {
                    v.remove(0);
                }
                v
            },
        }
    }
}

impl Source for Gen {
    fn next(&mut self, st: St, blocking: bool) -> Step {
        self.blocking = blocking;
        let reading = matches!(st, St::Idle | St::Running);
        if reading {
            if let Some(b) = self.q.pop_front() {
                if blocking && self.r.below(4000) == 0 {
                    return Step::ReadErr(self.r.range(1, 90) as u32);
                }
                if st == St::Running && self.q.len() > 2 && self.r.below(300) == 0 && !blocking {
                    // the target stops in the middle of a packet
                    self.q.push_front(b);
                    return Step::Stop(self.reason());
                }
                return Step::Byte(b);
            }
        }
        if self.left == 0 {
            return Step::End;
        }
        self.left -= 1;
        match st {
            St::Idle => {
                if blocking && self.f.connfail > 0 && self.r.pct(1) {
                    return Step::ReadErr(self.r.range(1, 90) as u32);
                }
                if self.r.pct(self.f.irq) {
                    return Step::Byte(3);
                }
                if self.r.pct(self.f.noise) {
                    if self.r.pct(75) {
                        return Step::Byte(b'+');
                    }
                    if self.r.pct(35) {
                        return Step::Byte(*self.r.pick(b"-#g\x00\xff\x04}*?"));
                    }
                }
                let p = self.packet();
                self.q.extend(p);
                if self.r.pct(15) {
                    self.q.push_back(b'+')
                }
                if self.r.pct(3) {
                    let p = self.packet();
                    self.q.extend(p);
                }
                let b = self.q.pop_front().unwrap();
                Step::Byte(b)
            }
            St::Running => {
                let p = self.r.below(100);
                if p < 62 {
                    Step::Stop(self.reason())
                } else if p < 62 + self.f.irq.max(8) {
                    Step::Byte(3)
                } else if p < 84 && !self.quiet {
                    let p = self.packet();
                    self.q.extend(p);
                    let b = self.q.pop_front().unwrap();
                    Step::Byte(b)
                } else if blocking && self.f.connfail > 0 && self.r.pct(10) {
                    match self.r.below(3) {
                        0 => Step::WaitErrT(self.r.range(1, 200) as u32),
                        1 => Step::WaitErrC(self.r.range(1, 90) as u32),
                        _ => Step::ReadErr(self.r.range(1, 90) as u32),
                    }
                } else if self.r.pct(50) {
                    Step::Byte(b'+')
                } else {
                    Step::Stop(self.reason())
                }
            }
            St::CtrlC => {
                if blocking && self.f.connfail > 0 && self.r.pct(4) {
                    return Step::IrqErr(self.r.range(1, 200) as u32);
                }
                if self.r.pct(60) {
                    Step::Irq(Some(self.reason()))
                } else {
                    Step::Irq(None)
                }
            }
            St::Disc(_) => {
                if self.r.pct(80) {
                    Step::Ret
                } else {
                    Step::End
                }
            }
            St::Dead => Step::End,
        }
    }
}

pub fn gen_cfg(r: &mut Rng, f: &Focus) -> Cfg {
    let mut c = Cfg::new();
    // some sessions have everything, some next to nothing
    let base = match r.below(8) {
        0 => 100,
        1 => 12,
        _ => f.base,
    };
    for x in FEATURES {
        let p = if f.on.contains(x) {
            94
        } else if f.off.contains(x) {
            6
        } else {
            base
        };
        if r.pct(p) {
            c.insert(x);
        }
    }
    if !(c.contains("bp") && c.contains("sw")) && r.pct(98) {
        c.insert("guard");
    }
    c
}
