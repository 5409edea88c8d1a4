//! Records what the architecture definitions of gdbstub_arch do: one JSON event per line.
use crate::util::*;
use gdbstub::arch::{Arch, BreakpointKind, RegId, Registers};
use gdbstub_arch::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Fields = Vec<(String, Vec<u8>)>;

/// a register file whose fields can be listed (big-endian bytes)
trait File: Registers {
    fn list(&self) -> Fields;
    /// fill every field from the byte source
    fn fill(&mut self, r: &mut Rng);
}

trait Val {
    fn be(&self) -> Vec<u8>;
    fn draw(r: &mut Rng) -> Self;
}
fn draw_bytes(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(10) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = vec![0; n];
            let i = r.below(n);
            v[i] = 1 << r.below(8);
            v
        }
        _ => r.bytes(n),
    }
}
macro_rules! val {
    ($($t:ty),*) => {$(
        impl Val for $t {
            fn be(&self) -> Vec<u8> { self.to_be_bytes().to_vec() }
            fn draw(r: &mut Rng) -> Self {
                let v = draw_bytes(r, core::mem::size_of::<$t>());
                <$t>::from_be_bytes(v[..].try_into().unwrap())
            }
        }
    )*};
}
val!(u16, u32, u64, u128);
impl Val for f64 {
    fn be(&self) -> Vec<u8> {
        self.to_bits().to_be_bytes().to_vec()
    }
    fn draw(r: &mut Rng) -> Self {
        f64::from_bits(u64::draw(r))
    }
}
impl Val for [u8; 10] {
    // listed most significant byte first, like the others
    fn be(&self) -> Vec<u8> {
        self.iter().rev().copied().collect()
    }
    fn draw(r: &mut Rng) -> Self {
        draw_bytes(r, 10)[..].try_into().unwrap()
    }
}

macro_rules! file {
    ($ty:ty, $s:ident, { $($name:literal = $e:expr),* $(,)? }, { $($aname:literal = $a:expr),* $(,)? }) => {
        impl File for $ty {
            fn list(&self) -> Fields {
                let $s = self;
                let mut v: Fields = Vec::new();
                $( v.push(($name.to_string(), Val::be(&$e))); )*
                $( for (i, x) in $a.iter().enumerate() { v.push((format!("{}{}", $aname, i), Val::be(x))); } )*
                v
            }
            fn fill(&mut self, r: &mut Rng) {
                let $s = self;
                $( $e = Val::draw(r); )*
                $( for x in $a.iter_mut() { *x = Val::draw(r); } )*
            }
        }
    };
}

file!(arm::reg::ArmCoreRegs, s, {"sp" = s.sp, "lr" = s.lr, "pc" = s.pc, "cpsr" = s.cpsr}, {"r" = s.r});
file!(aarch64::reg::AArch64CoreRegs, s,
    {"sp" = s.sp, "pc" = s.pc, "cpsr" = s.cpsr, "fpsr" = s.fpsr, "fpcr" = s.fpcr}, {"x" = s.x, "v" = s.v});
macro_rules! mips {
    ($u:ty) => {
        file!(mips::reg::MipsCoreRegs<$u>, s,
            {"status" = s.cp0.status, "lo" = s.lo, "hi" = s.hi, "badvaddr" = s.cp0.badvaddr, "cause" = s.cp0.cause,
             "pc" = s.pc, "fcsr" = s.fpu.fcsr, "fir" = s.fpu.fir},
            {"r" = s.r, "f" = s.fpu.r});
        file!(mips::reg::MipsCoreRegsWithDsp<$u>, s,
            {"status" = s.core.cp0.status, "lo" = s.core.lo, "hi" = s.core.hi, "badvaddr" = s.core.cp0.badvaddr,
             "cause" = s.core.cp0.cause, "pc" = s.core.pc, "fcsr" = s.core.fpu.fcsr, "fir" = s.core.fpu.fir,
             "hi1" = s.dsp.hi1, "lo1" = s.dsp.lo1, "hi2" = s.dsp.hi2, "lo2" = s.dsp.lo2, "hi3" = s.dsp.hi3,
             "lo3" = s.dsp.lo3, "dspctl" = s.dsp.dspctl, "restart" = s.dsp.restart},
            {"r" = s.core.r, "f" = s.core.fpu.r});
    };
}
mips!(u32);
mips!(u64);
file!(msp430::reg::Msp430Regs<u16>, s, {"pc" = s.pc, "sp" = s.sp, "sr" = s.sr}, {"r" = s.r});
file!(msp430::reg::Msp430Regs<u32>, s, {"pc" = s.pc, "sp" = s.sp, "sr" = s.sr}, {"r" = s.r});
file!(ppc::reg::PowerPcCommonRegs, s,
    {"pc" = s.pc, "msr" = s.msr, "cr" = s.cr, "lr" = s.lr, "ctr" = s.ctr, "xer" = s.xer, "fpscr" = s.fpscr,
     "vscr" = s.vscr, "vrsave" = s.vrsave},
    {"r" = s.r, "f" = s.f, "vr" = s.vr});
file!(riscv::reg::RiscvCoreRegs<u32>, s, {"pc" = s.pc}, {"x" = s.x});
file!(riscv::reg::RiscvCoreRegs<u64>, s, {"pc" = s.pc}, {"x" = s.x});
file!(x86::reg::X86CoreRegs, s,
    {"eax" = s.eax, "ecx" = s.ecx, "edx" = s.edx, "ebx" = s.ebx, "esp" = s.esp, "ebp" = s.ebp, "esi" = s.esi,
     "edi" = s.edi, "eip" = s.eip, "eflags" = s.eflags,
     "cs" = s.segments.cs, "ss" = s.segments.ss, "ds" = s.segments.ds, "es" = s.segments.es,
     "fs" = s.segments.fs, "gs" = s.segments.gs,
     "fctrl" = s.fpu.fctrl, "fstat" = s.fpu.fstat, "ftag" = s.fpu.ftag, "fiseg" = s.fpu.fiseg,
     "fioff" = s.fpu.fioff, "foseg" = s.fpu.foseg, "fooff" = s.fpu.fooff, "fop" = s.fpu.fop, "mxcsr" = s.mxcsr},
    {"st" = s.st, "xmm" = s.xmm});
file!(x86::reg::X86_64CoreRegs, s,
    {"rip" = s.rip, "eflags" = s.eflags,
     "cs" = s.segments.cs, "ss" = s.segments.ss, "ds" = s.segments.ds, "es" = s.segments.es,
     "fs" = s.segments.fs, "gs" = s.segments.gs,
     "fctrl" = s.fpu.fctrl, "fstat" = s.fpu.fstat, "ftag" = s.fpu.ftag, "fiseg" = s.fpu.fiseg,
     "fioff" = s.fpu.fioff, "foseg" = s.fpu.foseg, "fooff" = s.fpu.fooff, "fop" = s.fpu.fop, "mxcsr" = s.mxcsr},
    {"g" = s.regs, "st" = s.st, "xmm" = s.xmm});

fn jfields(o: &mut String, f: &Fields) {
    o.push('{');
    for (i, (n, v)) in f.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("\"{n}\":"));
        jints(o, &ints(v));
    }
    o.push('}');
}
fn jstr(o: &mut String, f: &[String]) {
    o.push('[');
    for (i, x) in f.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("\"{}\"", x.replace('"', "'")));
    }
    o.push(']');
}

/// deserialize into a copy of `into`
fn de<F: File>(into: &F, b: &[u8]) -> (&'static str, Fields) {
    let mut x = into.clone();
    match catch_unwind(AssertUnwindSafe(|| x.gdb_deserialize(b))) {
        Ok(Ok(())) => ("ok", x.list()),
        Ok(Err(())) => ("no", into.list()),
        Err(_) => ("panic", into.list()),
    }
}

fn files<A: Arch>(o: &mut String, name: &str, r: &mut Rng, n: usize)
where
    A::Registers: File,
    A::Usize: Val,
{
    let mut id = 0;
    let mut open = |o: &mut String, k: &str| {
        id += 1;
        o.push_str(&format!("{{\"id\":\"{name}-{k}-{id}\",\"k\":\"{k}\",\"arch\":\"{name}\""));
    };
    let mut total = 0;
    for _ in 0..n {
        let mut f = <A::Registers as Default>::default();
        f.fill(r);
        let mut into = <A::Registers as Default>::default();
        into.fill(r);
        let mut out: Vec<i32> = Vec::new();
        f.gdb_serialize(|b| out.push(b.map(|b| b as i32).unwrap_or(256)));
        total = out.len();
        let flat: Vec<u8> = out.iter().map(|b| if *b == 256 { 0 } else { *b as u8 }).collect();
        let (ok, back) = de(&into, &flat);
        open(o, "ser");
        o.push_str(",\"f\":");
        jfields(o, &f.list());
        o.push_str(",\"out\":");
        jints(o, &out);
        o.push_str(",\"pc\":");
        jints(o, &ints(&f.pc().be()));
        o.push_str(&format!(",\"ok\":\"{ok}\",\"back\":"));
        jfields(o, &back);
        o.push_str("}\n");
    }
    for k in 0..2 * n {
        let len = match k % 8 {
            0 => total,
            1 => total.saturating_sub(r.below(40)),
            2 => total - 1,
            3 => r.below(total),
            4 => total + r.below(40),
            5 => (total / 8) * r.below(9),
            6 => 4 * r.below(total / 4 + 4),
            _ => total - r.below(total.min(12)),
        };
        let mut b = r.bytes(len);
        if r.pct(60) && name.starts_with("msp430") {
            let w = total / 16;
            for i in 3 * w..4 * w {
                if i < len {
                    b[i] = 0;
                }
            }
        }
        let mut into = <A::Registers as Default>::default();
        into.fill(r);
        let (ok, back) = de(&into, &b);
        open(o, "de");
        o.push_str(",\"in\":");
        jints(o, &ints(&b));
        o.push_str(&format!(",\"ok\":\"{ok}\",\"back\":"));
        jfields(o, &back);
        o.push_str("}\n");
    }
}

fn reg<A: Arch>(id: usize) -> (String, i32) {
    match catch_unwind(|| A::RegId::from_raw_id(id).map(|(r, n)| (format!("{r:?}"), n))) {
        Err(_) => ("panic".into(), -1),
        Ok(None) => (String::new(), 0),
        Ok(Some((r, n))) => (r, n.map(|n| n.get() as i32).unwrap_or(-1)),
    }
}

fn numbers<A: Arch>(o: &mut String, name: &str, r: &mut Rng, hi: usize, n: usize) {
    let mut lo = 0;
    while lo < hi {
        let m = 512.min(hi - lo);
        let v: Vec<_> = (lo..lo + m).map(reg::<A>).collect();
        o.push_str(&format!("{{\"id\":\"{name}-ids-{lo}\",\"k\":\"ids\",\"arch\":\"{name}\",\"lo\":{lo},\"names\":"));
        jstr(o, &v.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
        o.push_str(",\"sizes\":");
        jints(o, &v.iter().map(|x| x.1).collect::<Vec<_>>());
        o.push_str("}\n");
        lo += m;
    }
    // far away: nothing may be found, in particular not by truncation
    let mut names = Vec::new();
    let mut raws = Vec::new();
    for i in 0..n {
        let x = match i % 4 {
            0 => r.next() as usize | 1 << 20,
            1 => (1usize << r.range(20, 63)) + r.below(128),
            2 => usize::MAX - r.below(300),
            _ => (1usize << 32) + r.below(70000),
        };
        names.push(reg::<A>(x).0);
        raws.push(x);
    }
    o.push_str(&format!("{{\"id\":\"{name}-far\",\"k\":\"far\",\"arch\":\"{name}\",\"names\":"));
    jstr(o, &names);
    o.push_str(",\"raws\":");
    jstr(o, &raws.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    o.push_str("}\n");
    kinds::<A::BreakpointKind>(o, name, r, n);
}

fn kinds<K: BreakpointKind>(o: &mut String, name: &str, r: &mut Rng, n: usize) {
    let kind = |k: usize| match catch_unwind(|| K::from_usize(k).map(|k| format!("{k:?}"))) {
        Err(_) => "panic".into(),
        Ok(None) => String::new(),
        Ok(Some(k)) => k,
    };
    o.push_str(&format!("{{\"id\":\"{name}-bk\",\"k\":\"bk\",\"arch\":\"{name}\",\"names\":"));
    jstr(o, &(0..600).map(kind).collect::<Vec<_>>());
    o.push_str("}\n");
    let far: Vec<usize> = (0..n).map(|i| if i % 2 == 0 { (1usize << r.range(12, 63)) + r.below(6) } else { r.next() as usize | 1 << 30 }).collect();
    o.push_str(&format!("{{\"id\":\"{name}-bkfar\",\"k\":\"bkfar\",\"arch\":\"{name}\",\"raws\":"));
    jstr(o, &far.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    o.push_str(",\"names\":");
    jstr(o, &far.iter().map(|k| kind(*k)).collect::<Vec<_>>());
    o.push_str("}\n");
}

fn attr(tag: &str, a: &str) -> Option<String> {
    let k = format!(" {a}=\"");
    let i = tag.find(&k)? + k.len();
    Some(tag[i..i + tag[i..].find('"')?].to_string())
}

/// the registers listed in the target description, numbered as GDB numbers them
fn xml<A: Arch>(o: &mut String, name: &str) {
    let text = A::target_description_xml().unwrap_or("");
    let mut clean = String::new();
    let mut rest = text;
    while let Some(i) = rest.find("<!--") {
        clean.push_str(&rest[..i]);
        rest = match rest[i..].find("-->") {
            Some(j) => &rest[i + j + 3..],
            None => "",
        };
    }
    clean.push_str(rest);
    let arch = clean
        .find("<architecture>")
        .map(|i| clean[i + 14..].split('<').next().unwrap_or("").to_string())
        .unwrap_or_default();
    let (mut names, mut bits, mut nums) = (Vec::new(), Vec::new(), Vec::new());
    let mut next = 0;
    for t in clean.split('<') {
        if let Some(t) = t.strip_prefix("reg") {
            if !t.starts_with(|c: char| c.is_whitespace()) {
                continue;
            }
            let t = t.replace(['\n', '\t'], " ");
            if let Some(n) = attr(&t, "regnum").and_then(|n| n.parse::<i32>().ok()) {
                next = n;
            }
            names.push(attr(&t, "name").unwrap_or_default().to_lowercase());
            bits.push(attr(&t, "bitsize").and_then(|n| n.parse::<i32>().ok()).unwrap_or(0));
            nums.push(next);
            next += 1;
        }
    }
    o.push_str(&format!("{{\"id\":\"{name}-xml\",\"k\":\"xml\",\"arch\":\"{name}\",\"name\":\"{arch}\",\"names\":"));
    jstr(o, &names);
    o.push_str(",\"bits\":");
    jints(o, &bits);
    o.push_str(",\"nums\":");
    jints(o, &nums);
    o.push_str("}\n");
}

pub fn dump(seed: u64, n: usize) -> String {
    let mut o = String::new();
    let mut r = Rng::new(seed);
    macro_rules! all {
        ($($name:literal, $a:ty, $hi:expr;)*) => {$(
            files::<$a>(&mut o, $name, &mut r, n);
            numbers::<$a>(&mut o, $name, &mut r, $hi, 8 * n);
            xml::<$a>(&mut o, $name);
        )*};
    }
    all! {
        "arm", arm::Armv4t, 1200;
        "aarch64", aarch64::AArch64, 0x11000;
        "mips", mips::Mips, 1200;
        "mipsdsp", mips::MipsWithDsp, 1200;
        "mips64", mips::Mips64, 1200;
        "mips64dsp", mips::Mips64WithDsp, 1200;
        "msp430", msp430::Msp430, 1200;
        "msp430x", msp430::Msp430X, 1200;
        "ppc", ppc::PowerPcAltivec32<()>, 1200;
        "riscv32", riscv::Riscv32, 0x11000;
        "riscv64", riscv::Riscv64, 0x11000;
        "x86", x86::X86_SSE, 1200;
        "x86_64", x86::X86_64_SSE, 1200;
    }
    // what architectures without kinds use
    kinds::<()>(&mut o, "unit", &mut r, 8 * n);
    // named system registers
    o.push_str("{\"id\":\"aarch64-names\",\"k\":\"names\",\"arch\":\"aarch64\",\"names\":");
    jstr(&mut o, &crate::sysregs::CONSTS.iter().map(|x| x.0.to_lowercase()).collect::<Vec<_>>());
    o.push_str(",\"regs\":");
    jstr(&mut o, &crate::sysregs::CONSTS.iter().map(|x| format!("{:?}", x.1)).collect::<Vec<_>>());
    o.push_str("}\n");
    o
}
