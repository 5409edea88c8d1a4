//! A fully scriptable target: every optional feature can be switched on or off at run time, every call is
//! recorded with its arguments and its result, and every result comes either from a script or from the RNG.
use crate::util::*;
use gdbstub::arch::lldb;
use gdbstub::arch::{Arch, BreakpointKind, RegId, Registers};
use gdbstub::common::{Pid, Signal, Tid};
use gdbstub::target::ext::auxv::*;
use gdbstub::target::ext::base::multithread::*;
use gdbstub::target::ext::base::reverse_exec::*;
use gdbstub::target::ext::base::single_register_access::*;
use gdbstub::target::ext::base::singlethread::*;
use gdbstub::target::ext::base::BaseOps;
use gdbstub::target::ext::breakpoints::*;
use gdbstub::target::ext::catch_syscalls::*;
use gdbstub::target::ext::exec_file::*;
use gdbstub::target::ext::extended_mode::*;
use gdbstub::target::ext::host_io::*;
use gdbstub::target::ext::libraries::*;
use gdbstub::target::ext::lldb_register_info_override::*;
use gdbstub::target::ext::memory_map::*;
use gdbstub::target::ext::monitor_cmd::*;
use gdbstub::target::ext::section_offsets::*;
use gdbstub::target::ext::target_description_xml_override::*;
use gdbstub::target::ext::thread_extra_info::*;
use gdbstub::target::ext::tracepoints::*;
use gdbstub::target::{Target, TargetError, TargetResult};
use managed::ManagedSlice;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeSet, VecDeque};
use std::marker::PhantomData;
use std::num::NonZeroUsize;
use std::rc::Rc;

pub type V = Vec<Vec<i32>>;

/// names of all switchable features
pub const FEATURES: &[&str] = &[
    "multi", "resume", "step", "range", "rstep", "rcont", "sra", "extra", "bp", "sw", "hw", "hww", "monitor", "ext",
    "aslr", "env", "shell", "wd", "curpid", "offsets", "tp", "tpsrc", "tdesc", "lldbov", "mmap", "catch", "hostio",
    "hopen", "hclose", "hpread", "hpwrite", "hfstat", "hunlink", "hreadlink", "hsetfs", "exec", "auxv", "libs",
    "noack", "xpkt", "stub", "rle", "usexml", "uselldb", "guard", "archxml", "archlldb", "defalive",
];
pub type Cfg = BTreeSet<&'static str>;
pub fn feature(name: &str) -> &'static str {
    FEATURES.iter().find(|f| **f == name).unwrap_or_else(|| panic!("no feature {name}"))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Res {
    pub k: &'static str,
    pub v: V,
}
pub struct CallRec {
    pub f: &'static str,
    pub a: V,
    pub r: Res,
}

#[derive(Clone)]
pub struct Prof {
    pub err: usize,
    pub fatal: usize,
    pub small: bool,
    /// deliberately violate return-value contracts where the stub checks them
    pub wild: usize,
}

pub struct Shared {
    pub cfg: Cfg,
    pub uw: usize,
    pub rng: RefCell<Rng>,
    pub prof: RefCell<Prof>,
    pub script: RefCell<Option<VecDeque<(String, Res)>>>,
    pub calls: RefCell<Vec<CallRec>>,
    pub reads: Cell<usize>,
    /// answers to pure queries, stable within one step
    pub memo: RefCell<std::collections::BTreeMap<&'static str, Res>>,
    pub xml: RefCell<Vec<u8>>,
    pub threads: RefCell<Vec<usize>>,
}

thread_local! {
    pub static CUR: RefCell<Option<Rc<Shared>>> = const { RefCell::new(None) };
    static XMLS: RefCell<std::collections::BTreeMap<Vec<u8>, &'static str>> = RefCell::new(Default::default());
}
fn cur() -> Rc<Shared> {
    CUR.with(|c| c.borrow().clone().unwrap())
}

#[derive(Debug, Clone, PartialEq)]
pub struct MErr(pub u32);
impl std::fmt::Display for MErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "merr{}", self.0)
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Cls {
    /// TargetResult
    T,
    /// Result<_, Error>
    R,
    /// HostIoResult
    H,
    /// infallible
    I,
}

fn kind_of(s: &str) -> &'static str {
    for k in ["ok", "nonfatal", "errno", "io", "fatal", "herr", "hio"] {
        if k == s {
            return k;
        }
    }
    panic!("bad result kind {s}")
}

impl Shared {
    pub fn on(&self, f: &'static str) -> bool {
        self.cfg.contains(f)
    }
    pub fn pick(&self, f: &'static str, cls: Cls, gen: impl FnOnce(&mut Rng, &Prof) -> V) -> Res {
        {
            let mut s = self.script.borrow_mut();
            if let Some(q) = s.as_mut() {
                if let Some(i) = q.iter().position(|(n, _)| n == f) {
                    return q.remove(i).unwrap().1;
                }
                let p = Prof { err: 0, fatal: 0, small: true, wild: 0 };
                let mut rng = Rng::new(7);
                return Res { k: "ok", v: gen(&mut rng, &p) };
            }
        }
        let mut rng = self.rng.borrow_mut();
        let p = self.prof.borrow().clone();
        if cls != Cls::I && rng.pct(p.fatal) {
            return Res { k: "fatal", v: vec![nb(1 + rng.below(500) as u128)] };
        }
        if rng.pct(p.err) {
            match cls {
                Cls::T => {
                    return match rng.below(if crate::STD { 4 } else { 2 }) {
                        0 => Res { k: "nonfatal", v: vec![] },
                        1 => Res { k: "errno", v: vec![vec![rng.below(256) as i32]] },
                        2 => Res { k: "io", v: vec![opt(Some(vec![*rng.pick(&[1, 2, 5, 13, 22, 0, 133, 255])]))] },
                        _ => Res { k: "io", v: vec![opt(None)] },
                    }
                }
                Cls::H => {
                    return if rng.pct(70) || !crate::STD {
                        Res { k: "herr", v: vec![nb(*rng.pick(HERRS) as u128)] }
                    } else {
                        Res { k: "hio", v: vec![vec![rng.below(7) as i32]] }
                    }
                }
                _ => {}
            }
        }
        Res { k: "ok", v: gen(&mut rng, &p) }
    }
    /// a pure query: gives the same answer however often it is asked within one step
    pub fn query(&self, f: &'static str, gen: impl FnOnce(&mut Rng, &Prof) -> V) -> Res {
        if let Some(r) = self.memo.borrow().get(f) {
            self.log(f, vec![], r);
            return r.clone();
        }
        let r = self.call(f, vec![], Cls::R, gen);
        self.memo.borrow_mut().insert(f, r.clone());
        r
    }
    /// like pick, but an error may come after some data was already delivered: v = [error, data..]
    pub fn pick_part(&self, f: &'static str, cls: Cls, gen: impl Fn(&mut Rng, &Prof) -> V) -> Res {
        let mut r = self.pick(f, cls, &gen);
        if self.script.borrow().is_none() && matches!(r.k, "errno" | "fatal") {
            let mut rng = self.rng.borrow_mut();
            if rng.pct(50) {
                let p = self.prof.borrow().clone();
                let d = gen(&mut rng, &p);
                r.v.extend(d);
            }
        }
        r
    }
    /// the data delivered by a call made through pick_part
    pub fn part(r: &Res) -> &[Vec<i32>] {
        match r.k {
            "ok" => &r.v,
            "errno" | "fatal" => &r.v[1..],
            _ => &[],
        }
    }
    pub fn log(&self, f: &'static str, a: V, r: &Res) {
        self.calls.borrow_mut().push(CallRec { f, a, r: r.clone() });
    }
    /// pick + log
    pub fn call(&self, f: &'static str, a: V, cls: Cls, gen: impl FnOnce(&mut Rng, &Prof) -> V) -> Res {
        let r = self.pick(f, cls, gen);
        self.log(f, a, &r);
        r
    }
}

pub const HERRS: &[u32] = &[1, 2, 4, 9, 13, 14, 16, 17, 19, 20, 21, 22, 23, 24, 27, 28, 29, 30, 91, 9999];

fn herrno(n: u128) -> HostIoErrno {
    use HostIoErrno::*;
    match n {
        1 => EPERM,
        2 => ENOENT,
        4 => EINTR,
        9 => EBADF,
        13 => EACCES,
        14 => EFAULT,
        16 => EBUSY,
        17 => EEXIST,
        19 => ENODEV,
        20 => ENOTDIR,
        21 => EISDIR,
        22 => EINVAL,
        23 => ENFILE,
        24 => EMFILE,
        27 => EFBIG,
        28 => ENOSPC,
        29 => ESPIPE,
        30 => EROFS,
        91 => ENAMETOOLONG,
        _ => EUNKNOWN,
    }
}

/// numbers used as Arch::Usize
pub trait Num8: num_traits::PrimInt + num_traits::FromPrimitive + 'static {
    const W: usize;
    fn to_v(self) -> Vec<i32>;
    fn of_v(v: &[i32]) -> Self;
}
macro_rules! num8 {
    ($($t:ty)*) => {$(
        impl Num8 for $t {
            const W: usize = std::mem::size_of::<$t>();
            fn to_v(self) -> Vec<i32> { nb(self as u128) }
            fn of_v(v: &[i32]) -> Self { num(v) as $t }
        }
    )*};
}
num8!(u8 u16 u32 u64 u128);

#[derive(Debug, Clone, PartialEq)]
pub struct TRegs<U>(pub Vec<i32>, PhantomData<U>);
impl<U> Default for TRegs<U> {
    fn default() -> Self {
        TRegs(vec![], PhantomData)
    }
}
/// register files longer than this are rejected by gdb_deserialize
pub const MAXREGS: usize = 32;
impl<U: Num8 + std::fmt::Debug> Registers for TRegs<U> {
    type ProgramCounter = U;
    fn pc(&self) -> U {
        U::zero()
    }
    fn gdb_serialize(&self, mut write_byte: impl FnMut(Option<u8>)) {
        for b in &self.0 {
            write_byte(if *b == 256 { None } else { Some(*b as u8) })
        }
    }
    fn gdb_deserialize(&mut self, bytes: &[u8]) -> Result<(), ()> {
        if bytes.len() > MAXREGS {
            return Err(());
        }
        self.0 = ints(bytes);
        Ok(())
    }
}
#[derive(Debug)]
pub struct TRegId(usize);
impl RegId for TRegId {
    fn from_raw_id(id: usize) -> Option<(Self, Option<NonZeroUsize>)> {
        match id {
            0..=7 => Some((TRegId(id), NonZeroUsize::new(id + 1))),
            8..=11 => Some((TRegId(id), None)),
            12 => Some((TRegId(id), NonZeroUsize::new(200))),
            _ => None,
        }
    }
}
#[derive(Debug)]
pub struct TKind(usize);
impl BreakpointKind for TKind {
    fn from_usize(kind: usize) -> Option<Self> {
        if kind < 100 {
            Some(TKind(kind))
        } else {
            None
        }
    }
}
pub struct TArch<U>(PhantomData<U>);
impl<U> Arch for TArch<U>
where
    U: Num8 + Default + std::fmt::Debug + num_traits::Unsigned + gdbstub::internal::BeBytes + gdbstub::internal::LeBytes,
{
    type Usize = U;
    type Registers = TRegs<U>;
    type BreakpointKind = TKind;
    type RegId = TRegId;
    fn target_description_xml() -> Option<&'static str> {
        let s = cur();
        if !s.on("archxml") {
            return None;
        }
        let x = s.xml.borrow().clone();
        Some(XMLS.with(|m| {
            *m.borrow_mut()
                .entry(x.clone())
                .or_insert_with(|| Box::leak(String::from_utf8(x).unwrap().into_boxed_str()))
        }))
    }
    fn lldb_register_info(reg_id: usize) -> Option<lldb::RegisterInfo<'static>> {
        let s = cur();
        if !s.on("archlldb") {
            return None;
        }
        if reg_id == usize::MAX {
            // the stub's own probe for "is there any register info at all"
            return Some(lldb::RegisterInfo::Done);
        }
        let r = s.call("arch_lldb_register_info", vec![nb(reg_id as u128)], Cls::I, |g, _| {
            if g.pct(15) {
                vec![vec![2]]
            } else {
                gen_lldb(g)
            }
        });
        match r.v[0][0] {
            2 => None,
            0 => Some(lldb::RegisterInfo::Done),
            _ => Some(lldb::RegisterInfo::Register(lldb_reg(&r.v))),
        }
    }
}

fn leak(v: &[i32]) -> &'static str {
    let x = bytes(v);
    XMLS.with(|m| {
        *m.borrow_mut()
            .entry(x.clone())
            .or_insert_with(|| Box::leak(String::from_utf8(x).unwrap().into_boxed_str()))
    })
}
fn gen_name(g: &mut Rng) -> Vec<i32> {
    let n = g.range(0, 10);
    let c: &[u8] = if g.pct(30) { b"aaab" } else { b"abcxyz0129 -_." };
    (0..n).map(|_| *g.pick(c) as i32).collect()
}
fn gen_num(g: &mut Rng, maxw: usize) -> Vec<i32> {
    let w = g.below(maxw + 1);
    let mut v: Vec<i32> = if g.pct(10) {
        vec![255; w]
    } else if g.pct(10) {
        let mut v = vec![0; w];
        if w > 0 {
            v[0] = 1
        }
        v
    } else {
        (0..w).map(|_| g.below(256) as i32).collect()
    };
    while v.first() == Some(&0) {
        v.remove(0);
    }
    v
}
fn gen_opt(g: &mut Rng, f: impl FnOnce(&mut Rng) -> Vec<i32>) -> Vec<i32> {
    if g.pct(50) {
        opt(None)
    } else {
        let x = f(g);
        opt(Some(x))
    }
}
fn gen_lldb(g: &mut Rng) -> V {
    if g.pct(15) {
        return vec![vec![0]];
    }
    let list = |g: &mut Rng| -> Vec<i32> {
        gen_opt(g, |g| {
            let lo = if g.pct(20) { 0 } else { 1 };
            let n = g.range(lo, 4);
            (0..n).map(|_| g.below(256) as i32).collect()
        })
    };
    let c = list(g);
    let i = list(g);
    vec![
        vec![1],
        gen_name(g),
        gen_opt(g, gen_name),
        gen_num(g, 3),
        gen_num(g, 3),
        vec![g.below(4) as i32],
        vec![g.below(12) as i32],
        gen_name(g),
        gen_opt(g, |g| gen_num(g, 3)),
        gen_opt(g, |g| gen_num(g, 3)),
        gen_opt(g, |g| vec![g.below(13) as i32]),
        c,
        i,
    ]
}
fn unopt(v: &[i32]) -> Option<Vec<i32>> {
    if v.first() == Some(&1) {
        Some(v[1..].to_vec())
    } else {
        None
    }
}
fn lldb_reg(v: &V) -> lldb::Register<'static> {
    use lldb::*;
    let lst = |v: &[i32]| -> Option<&'static [usize]> {
        unopt(v).map(|l| &*Box::leak(l.iter().map(|x| *x as usize).collect::<Vec<_>>().into_boxed_slice()))
    };
    Register {
        name: leak(&v[1]),
        alt_name: unopt(&v[2]).map(|x| leak(&x)),
        bitsize: num(&v[3]) as usize,
        offset: num(&v[4]) as usize,
        encoding: match v[5][0] {
            0 => Encoding::Uint,
            1 => Encoding::Sint,
            2 => Encoding::IEEE754,
            _ => Encoding::Vector,
        },
        format: match v[6][0] {
            0 => Format::Binary,
            1 => Format::Decimal,
            2 => Format::Hex,
            3 => Format::Float,
            4 => Format::VectorSInt8,
            5 => Format::VectorUInt8,
            6 => Format::VectorSInt16,
            7 => Format::VectorUInt16,
            8 => Format::VectorSInt32,
            9 => Format::VectorUInt32,
            10 => Format::VectorFloat32,
            _ => Format::VectorUInt128,
        },
        set: leak(&v[7]),
        gcc: unopt(&v[8]).map(|x| num(&x) as usize),
        dwarf: unopt(&v[9]).map(|x| num(&x) as usize),
        generic: unopt(&v[10]).map(|x| match x[0] {
            0 => Generic::Pc,
            1 => Generic::Sp,
            2 => Generic::Fp,
            3 => Generic::Ra,
            4 => Generic::Flags,
            5 => Generic::Arg1,
            6 => Generic::Arg2,
            7 => Generic::Arg3,
            8 => Generic::Arg4,
            9 => Generic::Arg5,
            10 => Generic::Arg6,
            11 => Generic::Arg7,
            _ => Generic::Arg8,
        }),
        container_regs: lst(&v[11]),
        invalidate_regs: lst(&v[12]),
    }
}

#[cfg(feature = "std")]
fn managed_bytes(v: Vec<u8>) -> ManagedSlice<'static, u8> {
    ManagedSlice::Owned(v)
}
#[cfg(not(feature = "std"))]
fn managed_bytes(v: Vec<u8>) -> ManagedSlice<'static, u8> {
    ManagedSlice::Borrowed(Box::leak(v.into_boxed_slice()))
}
fn terr(r: &Res) -> TargetError<MErr> {
    match r.k {
        "nonfatal" => {
            // both spellings of a plain recoverable error
            TargetError::from(())
        }
        "errno" => TargetError::Errno(r.v[0][0] as u8),
        #[cfg(feature = "std")]
        "io" => TargetError::from(match unopt(&r.v[0]) {
            Some(n) => std::io::Error::from_raw_os_error(n[0]),
            None => std::io::Error::new(std::io::ErrorKind::Other, "x"),
        }),
        "fatal" => TargetError::Fatal(MErr(num(&r.v[0]) as u32)),
        k => panic!("harness: bad result kind {k} for TargetResult"),
    }
}
fn tr<X>(r: &Res, f: impl FnOnce(&V) -> X) -> Result<X, TargetError<MErr>> {
    if r.k == "ok" {
        Ok(f(&r.v))
    } else {
        Err(terr(r))
    }
}
fn rr<X>(r: &Res, f: impl FnOnce(&V) -> X) -> Result<X, MErr> {
    match r.k {
        "ok" => Ok(f(&r.v)),
        "fatal" => Err(MErr(num(&r.v[0]) as u32)),
        k => panic!("harness: bad result kind {k} for Result"),
    }
}
fn hr<X>(r: &Res, f: impl FnOnce(&V) -> X) -> Result<X, HostIoError<MErr>> {
    #[cfg(feature = "std")]
    use std::io::ErrorKind::*;
    match r.k {
        "ok" => Ok(f(&r.v)),
        "fatal" => Err(HostIoError::Fatal(MErr(num(&r.v[0]) as u32))),
        "herr" => Err(HostIoError::Errno(herrno(num(&r.v[0])))),
        #[cfg(feature = "std")]
        "hio" => Err(HostIoError::from(std::io::Error::from(match r.v[0][0] {
            0 => PermissionDenied,
            1 => NotFound,
            2 => Interrupted,
            3 => AlreadyExists,
            4 => InvalidInput,
            5 => TimedOut,
            _ => Other,
        }))),
        k => panic!("harness: bad result kind {k} for HostIoResult"),
    }
}

pub struct Mock<U> {
    pub s: Rc<Shared>,
    enum_state: TracepointEnumerateState<U>,
}
pub trait UBound:
    Num8 + Default + std::fmt::Debug + num_traits::Unsigned + gdbstub::internal::BeBytes + gdbstub::internal::LeBytes
{
}
impl<T> UBound for T where
    T: Num8 + Default + std::fmt::Debug + num_traits::Unsigned + gdbstub::internal::BeBytes + gdbstub::internal::LeBytes
{
}

impl<U: UBound> Mock<U> {
    pub fn new(s: Rc<Shared>) -> Self {
        Mock { s, enum_state: Default::default() }
    }
    fn void_t(&self, f: &'static str, a: V) -> Result<(), TargetError<MErr>> {
        let r = self.s.call(f, a, Cls::T, |_, _| vec![]);
        tr(&r, |_| ())
    }
    fn void_r(&self, f: &'static str, a: V) -> Result<(), MErr> {
        let r = self.s.call(f, a, Cls::R, |_, _| vec![]);
        rr(&r, |_| ())
    }
    fn bool_t(&self, f: &'static str, a: V, yes: usize) -> Result<bool, TargetError<MErr>> {
        let r = self.s.call(f, a, Cls::T, |g, _| vec![vec![g.pct(yes) as i32]]);
        tr(&r, |v| v[0][0] == 1)
    }
    /// a call that fills `buf` with data; v[0] is what was put in, v[1] the returned length
    fn fill<X>(
        &self,
        f: &'static str,
        a: V,
        cls: Cls,
        max: usize,
        buf: &mut [u8],
        conv: impl FnOnce(&Res, usize) -> X,
    ) -> X {
        let lim = max.min(buf.len());
        let blen = buf.len();
        let mut r = self.s.pick(f, cls, |g, p| {
            let n = if g.pct(8) {
                0
            } else if g.pct(50) {
                lim.min(if p.small { 48 } else { 300 })
            } else {
                g.below(lim.min(64) + 1)
            };
            vec![gen_data(g, n)]
        });
        let mut ret = 0;
        if r.k == "ok" {
            let mut d = r.v[0].clone();
            d.truncate(lim);
            // a scripted answer marked as complete: as much as was asked for, however much that is
            let full = self.s.script.borrow().is_some() && r.v.len() > 2 && r.v[2] == [1];
            while full && d.len() < lim {
                d.push(((d.len() + 1) % 256) as i32);
            }
            for (i, b) in d.iter().enumerate() {
                buf[i] = *b as u8;
            }
            ret = d.len();
            if self.s.script.borrow().is_some() && r.v.len() > 1 && !full {
                ret = num(&r.v[1]) as usize;
            }
            let wild = self.s.prof.borrow().wild;
            if wild > 0 && self.s.script.borrow().is_none() && self.s.rng.borrow_mut().pct(wild) {
                ret = blen + 1 + self.s.rng.borrow_mut().below(3);
            }
            r.v = vec![d, nb(ret as u128)];
        }
        self.s.log(f, a, &r);
        conv(&r, ret)
    }
    fn fill_t(&self, f: &'static str, a: V, max: usize, buf: &mut [u8]) -> Result<usize, TargetError<MErr>> {
        self.fill(f, a, Cls::T, max, buf, |r, n| tr(r, |_| n))
    }
    fn do_read_regs(&self, tid: Vec<i32>, regs: &mut TRegs<U>) -> Result<(), TargetError<MErr>> {
        let r = self.s.call("read_registers", vec![tid], Cls::T, |g, _| {
            let n = g.below(13);
            let z = g.pct(40);
            let mut v: Vec<i32> = if z { vec![0; n] } else { gen_data(g, n) };
            for x in v.iter_mut() {
                if g.pct(15) {
                    *x = 256
                }
            }
            vec![v]
        });
        tr(&r, |v| regs.0 = v[0].clone())
    }
    fn do_write_regs(&self, tid: Vec<i32>, regs: &TRegs<U>) -> Result<(), TargetError<MErr>> {
        self.void_t("write_registers", vec![tid, regs.0.clone()])
    }
    fn do_read_addrs(&self, tid: Vec<i32>, addr: U, data: &mut [u8]) -> Result<usize, TargetError<MErr>> {
        let n = self.s.reads.get() + 1;
        self.s.reads.set(n);
        let a = vec![tid, addr.to_v(), nb(data.len() as u128)];
        if n > 24 {
            // the mock's memory is finite: a request that goes on for ever is cut off
            let r = Res { k: "errno", v: vec![vec![14]] };
            self.s.log("read_addrs", a, &r);
            return Err(terr(&r));
        }
        let len = data.len();
        let full = self.s.rng.borrow_mut().pct(80);
        if full && self.s.script.borrow().is_none() {
            let mut r = self.s.pick("read_addrs", Cls::T, |g, _| vec![gen_data(g, len)]);
            let mut ret = 0;
            if r.k == "ok" {
                for (i, b) in r.v[0].iter().enumerate() {
                    data[i] = *b as u8;
                }
                ret = r.v[0].len();
                let wild = self.s.prof.borrow().wild;
                if wild > 0 && self.s.rng.borrow_mut().pct(wild) {
                    ret += 1;
                }
                r.v.push(nb(ret as u128));
            }
            self.s.log("read_addrs", a, &r);
            return tr(&r, |_| ret);
        }
        self.fill("read_addrs", a, Cls::T, len, data, |r, n| tr(r, |_| n))
    }
    fn do_write_addrs(&self, tid: Vec<i32>, addr: U, data: &[u8]) -> Result<(), TargetError<MErr>> {
        self.void_t("write_addrs", vec![tid, addr.to_v(), ints(data)])
    }
    fn do_list(&self, cb: &mut dyn FnMut(Tid)) -> Result<(), MErr> {
        let th = self.s.threads.borrow().clone();
        let r = self.s.query("list_active_threads", |g, _| {
            if g.pct(10) {
                vec![]
            } else {
                th.iter().map(|t| nb(*t as u128)).collect()
            }
        });
        if r.k == "ok" {
            for t in &r.v {
                cb(Tid::new(num(t) as usize).unwrap())
            }
        }
        rr(&r, |_| ())
    }
    fn do_step_items(v: &V) -> (TracepointEnumerateStep<U>, &[Vec<i32>]) {
        let st = match v[0][0] {
            0 => TracepointEnumerateStep::Action,
            1 => TracepointEnumerateStep::Source,
            2 => TracepointEnumerateStep::Next { tp: Tracepoint(num(&v[1]) as usize), addr: U::of_v(&v[2]) },
            _ => TracepointEnumerateStep::Done,
        };
        (st, &v[3..])
    }
    fn gen_step(g: &mut Rng) -> V {
        let w = g.below(10);
        let k = match w {
            0..=3 => 0,
            4..=5 => 1,
            6..=7 => 2,
            _ => 3,
        };
        vec![vec![k], gen_num(g, 2), gen_num(g, U::W)]
    }
}

pub fn gen_data(g: &mut Rng, n: usize) -> Vec<i32> {
    match g.below(5) {
        0 => vec![*g.pick(&[0, 0, 255, 0x2a, 0x23, 0x24, 0x7d, 0x11]); n],
        1 => {
            // runs of various lengths
            let mut v = vec![];
            while v.len() < n {
                let b = g.below(256) as i32;
                let k = g.range(1, 12);
                for _ in 0..k {
                    v.push(b)
                }
            }
            v.truncate(n);
            v
        }
        2 => (0..n).map(|_| *g.pick(b"#$}*+-:;,. aZ09\x03\x00\xff") as i32).collect(),
        _ => (0..n).map(|_| g.below(256) as i32).collect(),
    }
}

impl<U: UBound> Target for Mock<U> {
    type Arch = TArch<U>;
    type Error = MErr;

    fn base_ops(&mut self) -> BaseOps<'_, Self::Arch, Self::Error> {
        if self.s.on("multi") {
            BaseOps::MultiThread(self)
        } else {
            BaseOps::SingleThread(self)
        }
    }
    fn guard_rail_implicit_sw_breakpoints(&self) -> bool {
        self.s.on("guard")
    }
    fn use_no_ack_mode(&self) -> bool {
        self.s.on("noack")
    }
    fn use_x_upcase_packet(&self) -> bool {
        self.s.on("xpkt")
    }
    fn use_resume_stub(&self) -> bool {
        self.s.on("stub")
    }
    fn use_rle(&self) -> bool {
        self.s.on("rle")
    }
    fn use_target_description_xml(&self) -> bool {
        self.s.on("usexml")
    }
    fn use_lldb_register_info(&self) -> bool {
        self.s.on("uselldb")
    }
    fn support_breakpoints(&mut self) -> Option<BreakpointsOps<'_, Self>> {
        self.s.on("bp").then_some(self as _)
    }
    fn support_monitor_cmd(&mut self) -> Option<MonitorCmdOps<'_, Self>> {
        self.s.on("monitor").then_some(self as _)
    }
    fn support_extended_mode(&mut self) -> Option<ExtendedModeOps<'_, Self>> {
        self.s.on("ext").then_some(self as _)
    }
    fn support_section_offsets(&mut self) -> Option<SectionOffsetsOps<'_, Self>> {
        self.s.on("offsets").then_some(self as _)
    }
    fn support_tracepoints(&mut self) -> Option<TracepointsOps<'_, Self>> {
        self.s.on("tp").then_some(self as _)
    }
    fn support_target_description_xml_override(&mut self) -> Option<TargetDescriptionXmlOverrideOps<'_, Self>> {
        self.s.on("tdesc").then_some(self as _)
    }
    fn support_lldb_register_info_override(&mut self) -> Option<LldbRegisterInfoOverrideOps<'_, Self>> {
        self.s.on("lldbov").then_some(self as _)
    }
    fn support_memory_map(&mut self) -> Option<MemoryMapOps<'_, Self>> {
        self.s.on("mmap").then_some(self as _)
    }
    fn support_catch_syscalls(&mut self) -> Option<CatchSyscallsOps<'_, Self>> {
        self.s.on("catch").then_some(self as _)
    }
    fn support_host_io(&mut self) -> Option<HostIoOps<'_, Self>> {
        self.s.on("hostio").then_some(self as _)
    }
    fn support_exec_file(&mut self) -> Option<ExecFileOps<'_, Self>> {
        self.s.on("exec").then_some(self as _)
    }
    fn support_auxv(&mut self) -> Option<AuxvOps<'_, Self>> {
        self.s.on("auxv").then_some(self as _)
    }
    fn support_libraries_svr4(&mut self) -> Option<LibrariesSvr4Ops<'_, Self>> {
        self.s.on("libs").then_some(self as _)
    }
}

impl<U: UBound> SingleThreadBase for Mock<U> {
    fn read_registers(&mut self, regs: &mut TRegs<U>) -> TargetResult<(), Self> {
        self.do_read_regs(vec![], regs)
    }
    fn write_registers(&mut self, regs: &TRegs<U>) -> TargetResult<(), Self> {
        self.do_write_regs(vec![], regs)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, (), Self>> {
        self.s.on("sra").then_some(self as _)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8]) -> TargetResult<usize, Self> {
        self.do_read_addrs(vec![], a, data)
    }
    fn write_addrs(&mut self, a: U, data: &[u8]) -> TargetResult<(), Self> {
        self.do_write_addrs(vec![], a, data)
    }
    fn support_resume(&mut self) -> Option<SingleThreadResumeOps<'_, Self>> {
        self.s.on("resume").then_some(self as _)
    }
}
fn sig(s: Option<Signal>) -> Vec<i32> {
    s.map(|s| vec![s.0 as i32]).unwrap_or_default()
}
fn tidv(t: Tid) -> Vec<i32> {
    nb(t.get() as u128)
}
impl<U: UBound> SingleThreadResume for Mock<U> {
    fn resume(&mut self, signal: Option<Signal>) -> Result<(), MErr> {
        self.void_r("resume", vec![sig(signal)])
    }
    fn support_single_step(&mut self) -> Option<SingleThreadSingleStepOps<'_, Self>> {
        self.s.on("step").then_some(self as _)
    }
    fn support_range_step(&mut self) -> Option<SingleThreadRangeSteppingOps<'_, Self>> {
        self.s.on("range").then_some(self as _)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, (), Self>> {
        self.s.on("rstep").then_some(self as _)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, (), Self>> {
        self.s.on("rcont").then_some(self as _)
    }
}
impl<U: UBound> SingleThreadSingleStep for Mock<U> {
    fn step(&mut self, signal: Option<Signal>) -> Result<(), MErr> {
        self.void_r("step", vec![sig(signal)])
    }
}
impl<U: UBound> SingleThreadRangeStepping for Mock<U> {
    fn resume_range_step(&mut self, start: U, end: U) -> Result<(), MErr> {
        self.void_r("resume_range_step", vec![start.to_v(), end.to_v()])
    }
}
impl<U: UBound> ReverseCont<()> for Mock<U> {
    fn reverse_cont(&mut self) -> Result<(), MErr> {
        self.void_r("reverse_cont", vec![])
    }
}
impl<U: UBound> ReverseStep<()> for Mock<U> {
    fn reverse_step(&mut self, _: ()) -> Result<(), MErr> {
        self.void_r("reverse_step", vec![vec![]])
    }
}
impl<U: UBound> ReverseCont<Tid> for Mock<U> {
    fn reverse_cont(&mut self) -> Result<(), MErr> {
        self.void_r("reverse_cont", vec![])
    }
}
impl<U: UBound> ReverseStep<Tid> for Mock<U> {
    fn reverse_step(&mut self, t: Tid) -> Result<(), MErr> {
        self.void_r("reverse_step", vec![tidv(t)])
    }
}
impl<U: UBound> Mock<U> {
    fn do_read_register(&self, tid: Vec<i32>, id: usize, buf: &mut [u8]) -> Result<usize, TargetError<MErr>> {
        let a = vec![tid, nb(id as u128), nb(buf.len() as u128)];
        let decl = TRegId::from_raw_id(id).and_then(|x| x.1).map(|x| x.get());
        let mut r = self.s.pick("read_register", Cls::T, |g, _| {
            let n = if g.pct(15) {
                0
            } else {
                match decl {
                    Some(n) if g.pct(85) => n,
                    _ => g.below(14),
                }
            };
            vec![gen_data(g, n)]
        });
        let mut ret = 0;
        if r.k == "ok" {
            ret = if self.s.script.borrow().is_some() && r.v.len() > 1 { num(&r.v[1]) as usize } else { r.v[0].len() };
            let d: Vec<i32> = r.v[0].iter().copied().take(buf.len()).collect();
            for (i, b) in d.iter().enumerate() {
                buf[i] = *b as u8
            }
            r.v = vec![d, nb(ret as u128)];
        }
        self.s.log("read_register", a, &r);
        tr(&r, |_| ret)
    }
}
impl<U: UBound> SingleRegisterAccess<()> for Mock<U> {
    fn read_register(&mut self, _: (), r: TRegId, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.do_read_register(vec![], r.0, buf)
    }
    fn write_register(&mut self, _: (), r: TRegId, val: &[u8]) -> TargetResult<(), Self> {
        self.void_t("write_register", vec![vec![], nb(r.0 as u128), ints(val)])
    }
}
impl<U: UBound> SingleRegisterAccess<Tid> for Mock<U> {
    fn read_register(&mut self, t: Tid, r: TRegId, buf: &mut [u8]) -> TargetResult<usize, Self> {
        self.do_read_register(tidv(t), r.0, buf)
    }
    fn write_register(&mut self, t: Tid, r: TRegId, val: &[u8]) -> TargetResult<(), Self> {
        self.void_t("write_register", vec![tidv(t), nb(r.0 as u128), ints(val)])
    }
}

/// same target, but without an `is_thread_alive` of its own: exercises the trait's default method
struct DefAlive<'a, U: UBound>(&'a mut Mock<U>);
impl<U: UBound> Target for DefAlive<'_, U> {
    type Arch = TArch<U>;
    type Error = MErr;
    fn base_ops(&mut self) -> BaseOps<'_, Self::Arch, Self::Error> {
        BaseOps::MultiThread(self)
    }
}
impl<U: UBound> MultiThreadBase for DefAlive<'_, U> {
    fn read_registers(&mut self, _: &mut TRegs<U>, _: Tid) -> TargetResult<(), Self> {
        unreachable!()
    }
    fn write_registers(&mut self, _: &TRegs<U>, _: Tid) -> TargetResult<(), Self> {
        unreachable!()
    }
    fn read_addrs(&mut self, _: U, _: &mut [u8], _: Tid) -> TargetResult<usize, Self> {
        unreachable!()
    }
    fn write_addrs(&mut self, _: U, _: &[u8], _: Tid) -> TargetResult<(), Self> {
        unreachable!()
    }
    fn list_active_threads(&mut self, cb: &mut dyn FnMut(Tid)) -> Result<(), MErr> {
        self.0.do_list(cb)
    }
}

impl<U: UBound> MultiThreadBase for Mock<U> {
    fn read_registers(&mut self, regs: &mut TRegs<U>, tid: Tid) -> TargetResult<(), Self> {
        self.do_read_regs(tidv(tid), regs)
    }
    fn write_registers(&mut self, regs: &TRegs<U>, tid: Tid) -> TargetResult<(), Self> {
        self.do_write_regs(tidv(tid), regs)
    }
    fn support_single_register_access(&mut self) -> Option<SingleRegisterAccessOps<'_, Tid, Self>> {
        self.s.on("sra").then_some(self as _)
    }
    fn read_addrs(&mut self, a: U, data: &mut [u8], tid: Tid) -> TargetResult<usize, Self> {
        self.do_read_addrs(tidv(tid), a, data)
    }
    fn write_addrs(&mut self, a: U, data: &[u8], tid: Tid) -> TargetResult<(), Self> {
        self.do_write_addrs(tidv(tid), a, data)
    }
    fn list_active_threads(&mut self, cb: &mut dyn FnMut(Tid)) -> Result<(), MErr> {
        self.do_list(cb)
    }
    fn is_thread_alive(&mut self, tid: Tid) -> Result<bool, MErr> {
        if self.s.on("defalive") {
            return DefAlive(self).is_thread_alive(tid);
        }
        let alive = self.s.threads.borrow().contains(&tid.get());
        let r = self.s.call("is_thread_alive", vec![tidv(tid)], Cls::R, |_, _| vec![vec![alive as i32]]);
        rr(&r, |v| v[0][0] == 1)
    }
    fn support_resume(&mut self) -> Option<MultiThreadResumeOps<'_, Self>> {
        self.s.on("resume").then_some(self as _)
    }
    fn support_thread_extra_info(&mut self) -> Option<ThreadExtraInfoOps<'_, Self>> {
        self.s.on("extra").then_some(self as _)
    }
}
impl<U: UBound> MultiThreadResume for Mock<U> {
    fn resume(&mut self) -> Result<(), MErr> {
        self.void_r("resume", vec![])
    }
    fn clear_resume_actions(&mut self) -> Result<(), MErr> {
        self.void_r("clear_resume_actions", vec![])
    }
    fn set_resume_action_continue(&mut self, tid: Tid, s: Option<Signal>) -> Result<(), MErr> {
        self.void_r("set_resume_action_continue", vec![tidv(tid), sig(s)])
    }
    fn support_single_step(&mut self) -> Option<MultiThreadSingleStepOps<'_, Self>> {
        self.s.on("step").then_some(self as _)
    }
    fn support_range_step(&mut self) -> Option<MultiThreadRangeSteppingOps<'_, Self>> {
        self.s.on("range").then_some(self as _)
    }
    fn support_reverse_step(&mut self) -> Option<ReverseStepOps<'_, Tid, Self>> {
        self.s.on("rstep").then_some(self as _)
    }
    fn support_reverse_cont(&mut self) -> Option<ReverseContOps<'_, Tid, Self>> {
        self.s.on("rcont").then_some(self as _)
    }
}
impl<U: UBound> MultiThreadSingleStep for Mock<U> {
    fn set_resume_action_step(&mut self, tid: Tid, s: Option<Signal>) -> Result<(), MErr> {
        self.void_r("set_resume_action_step", vec![tidv(tid), sig(s)])
    }
}
impl<U: UBound> MultiThreadRangeStepping for Mock<U> {
    fn set_resume_action_range_step(&mut self, tid: Tid, start: U, end: U) -> Result<(), MErr> {
        self.void_r("set_resume_action_range_step", vec![tidv(tid), start.to_v(), end.to_v()])
    }
}
impl<U: UBound> ThreadExtraInfo for Mock<U> {
    fn thread_extra_info(&self, tid: Tid, buf: &mut [u8]) -> Result<usize, MErr> {
        let a = vec![tidv(tid), nb(buf.len() as u128)];
        let max = buf.len();
        self.fill("thread_extra_info", a, Cls::R, max, buf, |r, n| rr(r, |_| n))
    }
}
impl<U: UBound> Breakpoints for Mock<U> {
    fn support_sw_breakpoint(&mut self) -> Option<SwBreakpointOps<'_, Self>> {
        self.s.on("sw").then_some(self as _)
    }
    fn support_hw_breakpoint(&mut self) -> Option<HwBreakpointOps<'_, Self>> {
        self.s.on("hw").then_some(self as _)
    }
    fn support_hw_watchpoint(&mut self) -> Option<HwWatchpointOps<'_, Self>> {
        self.s.on("hww").then_some(self as _)
    }
}
impl<U: UBound> SwBreakpoint for Mock<U> {
    fn add_sw_breakpoint(&mut self, a: U, k: TKind) -> TargetResult<bool, Self> {
        self.bool_t("add_sw_breakpoint", vec![a.to_v(), nb(k.0 as u128)], 75)
    }
    fn remove_sw_breakpoint(&mut self, a: U, k: TKind) -> TargetResult<bool, Self> {
        self.bool_t("remove_sw_breakpoint", vec![a.to_v(), nb(k.0 as u128)], 75)
    }
}
impl<U: UBound> HwBreakpoint for Mock<U> {
    fn add_hw_breakpoint(&mut self, a: U, k: TKind) -> TargetResult<bool, Self> {
        self.bool_t("add_hw_breakpoint", vec![a.to_v(), nb(k.0 as u128)], 75)
    }
    fn remove_hw_breakpoint(&mut self, a: U, k: TKind) -> TargetResult<bool, Self> {
        self.bool_t("remove_hw_breakpoint", vec![a.to_v(), nb(k.0 as u128)], 75)
    }
}
fn wk(k: WatchKind) -> Vec<i32> {
    vec![match k {
        WatchKind::Write => 0,
        WatchKind::Read => 1,
        WatchKind::ReadWrite => 2,
    }]
}
impl<U: UBound> HwWatchpoint for Mock<U> {
    fn add_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> {
        self.bool_t("add_hw_watchpoint", vec![a.to_v(), l.to_v(), wk(k)], 75)
    }
    fn remove_hw_watchpoint(&mut self, a: U, l: U, k: WatchKind) -> TargetResult<bool, Self> {
        self.bool_t("remove_hw_watchpoint", vec![a.to_v(), l.to_v(), wk(k)], 75)
    }
}
impl<U: UBound> MonitorCmd for Mock<U> {
    fn handle_monitor_cmd(&mut self, cmd: &[u8], mut out: ConsoleOutput<'_>) -> Result<(), MErr> {
        // v: [0, bytes..] = write_raw, [1] = flush, [2, text..] = via the output! macro, [3, text..] = outputln!
        let r = self.s.pick_part("handle_monitor_cmd", Cls::R, |g, _| {
            let n = g.below(5);
            (0..n)
                .map(|_| {
                    let k = g.below(4) as i32;
                    let mut v = vec![k];
                    match k {
                        0 => {
                            let n = g.below(20);
                            v.extend(gen_data(g, n))
                        }
                        2 | 3 => v.extend(gen_name(g)),
                        _ => {}
                    }
                    v
                })
                .collect()
        });
        self.s.log("handle_monitor_cmd", vec![ints(cmd)], &r);
        {
            for op in Shared::part(&r) {
                match op[0] {
                    0 => out.write_raw(&bytes(&op[1..])),
                    1 => {
                        // without an allocator nothing is held back
                        #[cfg(feature = "std")]
                        out.flush()
                    }
                    2 => gdbstub::output!(out, "{}", leak(&op[1..])),
                    _ => gdbstub::outputln!(out, "{}", leak(&op[1..])),
                }
            }
        }
        rr(&r, |_| ())
    }
}
fn pid(v: &[i32]) -> Pid {
    Pid::new(num(v) as usize).unwrap()
}
fn gen_pid(g: &mut Rng) -> Vec<i32> {
    match g.below(4) {
        0 => vec![1],
        1 => vec![g.range(1, 255) as i32],
        2 => vec![0x12, 0x34],
        _ => vec![0x7f, 255, 255, 255, 255, 255, 255, 255],
    }
}
impl<U: UBound> ExtendedMode for Mock<U> {
    fn run(&mut self, filename: Option<&[u8]>, args: Args<'_, '_>) -> TargetResult<Pid, Self> {
        let mut a = vec![opt(filename.map(ints))];
        for x in args {
            a.push(ints(x))
        }
        let r = self.s.call("run", a, Cls::T, |g, _| vec![gen_pid(g)]);
        tr(&r, |v| pid(&v[0]))
    }
    fn attach(&mut self, p: Pid) -> TargetResult<(), Self> {
        self.void_t("attach", vec![nb(p.get() as u128)])
    }
    fn query_if_attached(&mut self, p: Pid) -> TargetResult<AttachKind, Self> {
        let r =
            self.s.call("query_if_attached", vec![nb(p.get() as u128)], Cls::T, |g, _| vec![vec![g.pct(50) as i32]]);
        tr(&r, |v| if v[0][0] == 1 { AttachKind::Attach } else { AttachKind::Run })
    }
    fn kill(&mut self, p: Option<Pid>) -> TargetResult<ShouldTerminate, Self> {
        let a = vec![opt(p.map(|p| nb(p.get() as u128)))];
        let r = self.s.call("kill", a, Cls::T, |g, _| vec![vec![g.pct(40) as i32]]);
        tr(&r, |v| if v[0][0] == 1 { ShouldTerminate::Yes } else { ShouldTerminate::No })
    }
    fn restart(&mut self) -> Result<(), MErr> {
        self.void_r("restart", vec![])
    }
    fn on_start(&mut self) -> Result<(), MErr> {
        self.void_r("on_start", vec![])
    }
    fn support_configure_aslr(&mut self) -> Option<ConfigureAslrOps<'_, Self>> {
        self.s.on("aslr").then_some(self as _)
    }
    fn support_configure_env(&mut self) -> Option<ConfigureEnvOps<'_, Self>> {
        self.s.on("env").then_some(self as _)
    }
    fn support_configure_startup_shell(&mut self) -> Option<ConfigureStartupShellOps<'_, Self>> {
        self.s.on("shell").then_some(self as _)
    }
    fn support_configure_working_dir(&mut self) -> Option<ConfigureWorkingDirOps<'_, Self>> {
        self.s.on("wd").then_some(self as _)
    }
    fn support_current_active_pid(&mut self) -> Option<CurrentActivePidOps<'_, Self>> {
        self.s.on("curpid").then_some(self as _)
    }
}
impl<U: UBound> ConfigureAslr for Mock<U> {
    fn cfg_aslr(&mut self, e: bool) -> TargetResult<(), Self> {
        self.void_t("cfg_aslr", vec![vec![e as i32]])
    }
}
impl<U: UBound> ConfigureEnv for Mock<U> {
    fn set_env(&mut self, key: &[u8], val: Option<&[u8]>) -> TargetResult<(), Self> {
        self.void_t("set_env", vec![ints(key), opt(val.map(ints))])
    }
    fn remove_env(&mut self, key: &[u8]) -> TargetResult<(), Self> {
        self.void_t("remove_env", vec![ints(key)])
    }
    fn reset_env(&mut self) -> TargetResult<(), Self> {
        self.void_t("reset_env", vec![])
    }
}
impl<U: UBound> ConfigureStartupShell for Mock<U> {
    fn cfg_startup_with_shell(&mut self, e: bool) -> TargetResult<(), Self> {
        self.void_t("cfg_startup_with_shell", vec![vec![e as i32]])
    }
}
impl<U: UBound> ConfigureWorkingDir for Mock<U> {
    fn cfg_working_dir(&mut self, dir: Option<&[u8]>) -> TargetResult<(), Self> {
        self.void_t("cfg_working_dir", vec![opt(dir.map(ints))])
    }
}
impl<U: UBound> CurrentActivePid for Mock<U> {
    fn current_active_pid(&mut self) -> Result<Pid, MErr> {
        let r = self.s.query("current_active_pid", |g, _| vec![gen_pid(g)]);
        rr(&r, |v| pid(&v[0]))
    }
}
impl<U: UBound> SectionOffsets for Mock<U> {
    fn get_section_offsets(&mut self) -> Result<Offsets<U>, MErr> {
        let r = self.s.call("get_section_offsets", vec![], Cls::R, |g, _| {
            if g.pct(50) {
                vec![vec![0], gen_num(g, U::W), gen_num(g, U::W), gen_opt(g, |g| gen_num(g, U::W))]
            } else {
                vec![vec![1], gen_num(g, U::W), gen_opt(g, |g| gen_num(g, U::W))]
            }
        });
        rr(&r, |v| {
            if v[0][0] == 0 {
                Offsets::Sections {
                    text: U::of_v(&v[1]),
                    data: U::of_v(&v[2]),
                    bss: unopt(&v[3]).map(|x| U::of_v(&x)),
                }
            } else {
                Offsets::Segments { text_seg: U::of_v(&v[1]), data_seg: unopt(&v[2]).map(|x| U::of_v(&x)) }
            }
        })
    }
}
impl<U: UBound> TargetDescriptionXmlOverride for Mock<U> {
    fn target_description_xml(&self, annex: &[u8], o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let a = vec![ints(annex), nb(o as u128), nb(l as u128), nb(buf.len() as u128)];
        self.fill_t("target_description_xml", a, l, buf)
    }
}
impl<U: UBound> MemoryMap for Mock<U> {
    fn memory_map_xml(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let a = vec![nb(o as u128), nb(l as u128), nb(buf.len() as u128)];
        self.fill_t("memory_map_xml", a, l, buf)
    }
}
impl<U: UBound> ExecFile for Mock<U> {
    fn get_exec_file(&self, p: Option<Pid>, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let a =
            vec![opt(p.map(|p| nb(p.get() as u128))), nb(o as u128), nb(l as u128), nb(buf.len() as u128)];
        self.fill_t("get_exec_file", a, l, buf)
    }
}
impl<U: UBound> Auxv for Mock<U> {
    fn get_auxv(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let a = vec![nb(o as u128), nb(l as u128), nb(buf.len() as u128)];
        self.fill_t("get_auxv", a, l, buf)
    }
}
impl<U: UBound> LibrariesSvr4 for Mock<U> {
    fn get_libraries_svr4(&self, o: u64, l: usize, buf: &mut [u8]) -> TargetResult<usize, Self> {
        let a = vec![nb(o as u128), nb(l as u128), nb(buf.len() as u128)];
        self.fill_t("get_libraries_svr4", a, l, buf)
    }
}
impl<U: UBound> LldbRegisterInfoOverride for Mock<U> {
    fn lldb_register_info<'a>(&mut self, id: usize, cb: Callback<'a>) -> Result<CallbackToken<'a>, MErr> {
        let r = self.s.call("lldb_register_info", vec![nb(id as u128)], Cls::R, |g, _| gen_lldb(g));
        rr(&r, |v| if v[0][0] == 0 { cb.done() } else { cb.write(lldb_reg(v)) })
    }
}
impl<U: UBound> CatchSyscalls for Mock<U> {
    fn enable_catch_syscalls(&mut self, filter: Option<SyscallNumbers<'_, U>>) -> TargetResult<(), Self> {
        let a = match filter {
            None => vec![vec![0]],
            Some(it) => {
                let mut a = vec![vec![1]];
                for n in it {
                    a.push(n.to_v())
                }
                a
            }
        };
        self.void_t("enable_catch_syscalls", a)
    }
    fn disable_catch_syscalls(&mut self) -> TargetResult<(), Self> {
        self.void_t("disable_catch_syscalls", vec![])
    }
}
impl<U: UBound> HostIo for Mock<U> {
    fn support_open(&mut self) -> Option<HostIoOpenOps<'_, Self>> {
        self.s.on("hopen").then_some(self as _)
    }
    fn support_close(&mut self) -> Option<HostIoCloseOps<'_, Self>> {
        self.s.on("hclose").then_some(self as _)
    }
    fn support_pread(&mut self) -> Option<HostIoPreadOps<'_, Self>> {
        self.s.on("hpread").then_some(self as _)
    }
    fn support_pwrite(&mut self) -> Option<HostIoPwriteOps<'_, Self>> {
        self.s.on("hpwrite").then_some(self as _)
    }
    fn support_fstat(&mut self) -> Option<HostIoFstatOps<'_, Self>> {
        self.s.on("hfstat").then_some(self as _)
    }
    fn support_unlink(&mut self) -> Option<HostIoUnlinkOps<'_, Self>> {
        self.s.on("hunlink").then_some(self as _)
    }
    fn support_readlink(&mut self) -> Option<HostIoReadlinkOps<'_, Self>> {
        self.s.on("hreadlink").then_some(self as _)
    }
    fn support_setfs(&mut self) -> Option<HostIoSetfsOps<'_, Self>> {
        self.s.on("hsetfs").then_some(self as _)
    }
}
impl<U: UBound> HostIoOpen for Mock<U> {
    fn open(&mut self, f: &[u8], fl: HostIoOpenFlags, m: HostIoOpenMode) -> HostIoResult<u32, Self> {
        let a = vec![ints(f), nb(fl.bits() as u128), nb(m.bits() as u128)];
        let r = self.s.call("open", a, Cls::H, |g, _| vec![gen_num(g, 4)]);
        hr(&r, |v| num(&v[0]) as u32)
    }
}
impl<U: UBound> HostIoClose for Mock<U> {
    fn close(&mut self, fd: u32) -> HostIoResult<(), Self> {
        let r = self.s.call("close", vec![nb(fd as u128)], Cls::H, |_, _| vec![]);
        hr(&r, |_| ())
    }
}
impl<U: UBound> HostIoPread for Mock<U> {
    fn pread(&mut self, fd: u32, count: usize, offset: u64, buf: &mut [u8]) -> HostIoResult<usize, Self> {
        let a = vec![nb(fd as u128), nb(count as u128), nb(offset as u128), nb(buf.len() as u128)];
        self.fill("pread", a, Cls::H, count, buf, |r, n| hr(r, |_| n))
    }
}
impl<U: UBound> HostIoPwrite for Mock<U> {
    fn pwrite(&mut self, fd: u32, offset: U, data: &[u8]) -> HostIoResult<U, Self> {
        let a = vec![nb(fd as u128), offset.to_v(), ints(data)];
        let r = self.s.call("pwrite", a, Cls::H, |g, _| vec![gen_num(g, U::W)]);
        hr(&r, |v| U::of_v(&v[0]))
    }
}
impl<U: UBound> HostIoFstat for Mock<U> {
    fn fstat(&mut self, fd: u32) -> HostIoResult<HostIoStat, Self> {
        let r = self.s.call("fstat", vec![nb(fd as u128)], Cls::H, |g, _| {
            (0..13).map(|i| gen_num(g, if (7..=9).contains(&i) { 8 } else { 4 })).collect()
        });
        hr(&r, |v| HostIoStat {
            st_dev: num(&v[0]) as u32,
            st_ino: num(&v[1]) as u32,
            st_mode: HostIoOpenMode::from_bits_retain(num(&v[2]) as u32),
            st_nlink: num(&v[3]) as u32,
            st_uid: num(&v[4]) as u32,
            st_gid: num(&v[5]) as u32,
            st_rdev: num(&v[6]) as u32,
            st_size: num(&v[7]) as u64,
            st_blksize: num(&v[8]) as u64,
            st_blocks: num(&v[9]) as u64,
            st_atime: num(&v[10]) as u32,
            st_mtime: num(&v[11]) as u32,
            st_ctime: num(&v[12]) as u32,
        })
    }
}
impl<U: UBound> HostIoUnlink for Mock<U> {
    fn unlink(&mut self, f: &[u8]) -> HostIoResult<(), Self> {
        let r = self.s.call("unlink", vec![ints(f)], Cls::H, |_, _| vec![]);
        hr(&r, |_| ())
    }
}
impl<U: UBound> HostIoReadlink for Mock<U> {
    fn readlink(&mut self, f: &[u8], buf: &mut [u8]) -> HostIoResult<usize, Self> {
        let a = vec![ints(f), nb(buf.len() as u128)];
        let max = buf.len();
        self.fill("readlink", a, Cls::H, max, buf, |r, n| hr(r, |_| n))
    }
}
impl<U: UBound> HostIoSetfs for Mock<U> {
    fn setfs(&mut self, fs: FsKind) -> HostIoResult<(), Self> {
        let a = match fs {
            FsKind::Stub => vec![vec![0]],
            FsKind::Pid(p) => vec![vec![1], nb(p.get() as u128)],
        };
        let r = self.s.call("setfs", a, Cls::H, |_, _| vec![]);
        hr(&r, |_| ())
    }
}

fn tpv(t: Tracepoint) -> Vec<i32> {
    nb(t.0 as u128)
}
impl<U: UBound> Tracepoints for Mock<U> {
    fn tracepoints_init(&mut self) -> TargetResult<(), Self> {
        self.void_t("tracepoints_init", vec![])
    }
    fn tracepoint_create_begin(&mut self, t: NewTracepoint<U>) -> TargetResult<(), Self> {
        self.void_t(
            "tracepoint_create_begin",
            vec![
                tpv(t.number),
                vec![t.enabled as i32],
                t.addr.to_v(),
                nb(t.step_count as u128),
                nb(t.pass_count as u128),
            ],
        )
    }
    fn tracepoint_create_continue(&mut self, tp: Tracepoint, act: &TracepointAction<'_, U>) -> TargetResult<(), Self> {
        let mut a = vec![tpv(tp)];
        // half of the time look at the action through its owned copy
        #[cfg(feature = "std")]
        let owned = act.get_owned();
        #[cfg(feature = "std")]
        let act = if self.s.rng.borrow_mut().pct(50) { act } else { &owned };
        match act {
            TracepointAction::Registers { mask } => {
                a.push(vec![0]);
                a.push(ints(mask));
            }
            TracepointAction::Memory { basereg, offset, length } => {
                a.push(vec![1]);
                a.push(opt(basereg.map(|b| nb(b as u128))));
                a.push(offset.to_v());
                a.push(nb(*length as u128));
            }
            TracepointAction::Expression { expr } => {
                a.push(vec![2]);
                a.push(ints(expr));
            }
        }
        self.void_t("tracepoint_create_continue", a)
    }
    fn tracepoint_create_complete(&mut self, tp: Tracepoint) -> TargetResult<(), Self> {
        self.void_t("tracepoint_create_complete", vec![tpv(tp)])
    }
    fn tracepoint_status(&self, tp: Tracepoint, addr: U) -> TargetResult<TracepointStatus, Self> {
        let r = self.s.call("tracepoint_status", vec![tpv(tp), addr.to_v()], Cls::T, |g, _| {
            vec![gen_num(g, 8), gen_num(g, 8)]
        });
        tr(&r, |v| TracepointStatus { hit_count: num(&v[0]) as u64, bytes_used: num(&v[1]) as u64 })
    }
    fn tracepoint_enumerate_state(&mut self) -> &mut TracepointEnumerateState<U> {
        &mut self.enum_state
    }
    fn tracepoint_enumerate_start(
        &mut self,
        tp: Option<Tracepoint>,
        f: &mut dyn FnMut(&NewTracepoint<U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let r = self.s.call("tracepoint_enumerate_start", vec![opt(tp.map(tpv))], Cls::T, |g, _| {
            let mut v = Self::gen_step(g);
            if g.pct(85) {
                v.push(gen_num(g, 2));
                v.push(vec![g.pct(50) as i32]);
                v.push(gen_num(g, U::W));
                v.push(gen_num(g, 8));
                v.push(gen_num(g, 8));
            }
            v
        });
        if r.k == "ok" {
            let (st, items) = Self::do_step_items(&r.v);
            for it in items.chunks(5) {
                f(&NewTracepoint {
                    number: Tracepoint(num(&it[0]) as usize),
                    enabled: it[1][0] == 1,
                    addr: U::of_v(&it[2]),
                    step_count: num(&it[3]) as u64,
                    pass_count: num(&it[4]) as u64,
                });
            }
            Ok(st)
        } else {
            Err(terr(&r))
        }
    }
    fn tracepoint_enumerate_action(
        &mut self,
        tp: Tracepoint,
        step: u64,
        f: &mut dyn FnMut(&TracepointAction<'_, U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let r = self.s.call("tracepoint_enumerate_action", vec![tpv(tp), nb(step as u128)], Cls::T, |g, _| {
            let mut v = Self::gen_step(g);
            if g.pct(85) {
                match g.below(3) {
                    0 => {
                        let n = g.range(1, 5);
                        v.extend([vec![0], gen_data(g, n), vec![], vec![]])
                    }
                    1 => v.extend([
                        vec![1],
                        gen_opt(g, |g| gen_num(g, 2)),
                        gen_num(g, U::W),
                        gen_num(g, 3),
                    ]),
                    _ => {
                        let n = g.range(0, 6);
                        v.extend([vec![2], gen_data(g, n), vec![], vec![]])
                    }
                }
            }
            v
        });
        if r.k == "ok" {
            let (st, items) = Self::do_step_items(&r.v);
            for it in items.chunks(4) {
                let act = match it[0][0] {
                    0 => TracepointAction::Registers { mask: managed_bytes(bytes(&it[1])) },
                    1 => TracepointAction::Memory {
                        basereg: unopt(&it[1]).map(|b| num(&b) as u64),
                        offset: U::of_v(&it[2]),
                        length: num(&it[3]) as u64,
                    },
                    _ => TracepointAction::Expression { expr: managed_bytes(bytes(&it[1])) },
                };
                // the target may keep actions as owned copies
                #[cfg(feature = "std")]
                let act = if self.s.rng.borrow_mut().pct(50) { act.get_owned() } else { act };
                f(&act);
            }
            Ok(st)
        } else {
            Err(terr(&r))
        }
    }
    fn trace_buffer_configure(&mut self, c: TraceBufferConfig) -> TargetResult<(), Self> {
        let a = match c {
            TraceBufferConfig::Shape(BufferShape::Circular) => vec![vec![0], vec![1]],
            TraceBufferConfig::Shape(BufferShape::Linear) => vec![vec![0], vec![0]],
            TraceBufferConfig::Size(s) => vec![vec![1], opt(s.map(|s| nb(s as u128)))],
        };
        self.void_t("trace_buffer_configure", a)
    }
    fn trace_buffer_request(&mut self, o: u64, len: usize, f: &mut dyn FnMut(&mut [u8])) -> TargetResult<(), Self> {
        let r = self.s.pick_part("trace_buffer_request", Cls::T, |g, _| {
            let n = g.below(3);
            let m = len.min(24);
            (0..n)
                .map(|_| {
                    let k = g.below(m + 1);
                    gen_data(g, k)
                })
                .collect()
        });
        self.s.log("trace_buffer_request", vec![nb(o as u128), nb(len as u128)], &r);
        for c in Shared::part(&r) {
            f(&mut bytes(c));
        }
        tr(&r, |_| ())
    }
    fn trace_experiment_status(&self, report: &mut dyn FnMut(ExperimentStatus<'_>)) -> TargetResult<(), Self> {
        // v: [code], text, number
        let r = self.s.call("trace_experiment_status", vec![], Cls::T, |g, _| {
            vec![vec![g.below(9) as i32], gen_opt(g, gen_name), gen_num(g, 2)]
        });
        if r.k == "ok" {
            let v = &r.v;
            let text = unopt(&v[1]).map(|x| bytes(&x));
            let t = Tracepoint(num(&v[2]) as usize);
            report(match v[0][0] {
                0 => ExperimentStatus::Running,
                1 => ExperimentStatus::NotRunning,
                2 => ExperimentStatus::NotRun,
                3 => ExperimentStatus::Stop(text.as_deref()),
                4 => ExperimentStatus::Full,
                5 => ExperimentStatus::Disconnected,
                6 => ExperimentStatus::PassCount(t),
                7 => ExperimentStatus::Error(text.as_deref().unwrap_or(b""), t),
                _ => ExperimentStatus::Unknown,
            });
        }
        tr(&r, |_| ())
    }
    fn trace_experiment_info(&self, report: &mut dyn FnMut(ExperimentExplanation<'_>)) -> TargetResult<(), Self> {
        // v: [code] value pairs
        let r = self.s.pick_part("trace_experiment_info", Cls::T, |g, _| {
            let n = g.below(4);
            let mut v = vec![];
            for _ in 0..n {
                let k = g.below(7) as i32;
                v.push(vec![k]);
                v.push(match k {
                    0..=3 => gen_num(g, 3),
                    4 | 5 => vec![g.pct(50) as i32],
                    _ => gen_name(g),
                });
            }
            v
        });
        self.s.log("trace_experiment_info", vec![], &r);
        {
            for p in Shared::part(&r).chunks(2) {
                let n = num(&p[1]) as usize;
                report(match p[0][0] {
                    0 => ExperimentExplanation::Frames(n),
                    1 => ExperimentExplanation::Created(n),
                    2 => ExperimentExplanation::Size(n),
                    3 => ExperimentExplanation::Free(n),
                    4 => ExperimentExplanation::Circular(p[1] == [1]),
                    5 => ExperimentExplanation::DisconnectedTracing(p[1] == [1]),
                    _ => ExperimentExplanation::Other(leak(&p[1])),
                });
            }
        }
        tr(&r, |_| ())
    }
    fn trace_experiment_start(&mut self) -> TargetResult<(), Self> {
        self.void_t("trace_experiment_start", vec![])
    }
    fn trace_experiment_stop(&mut self) -> TargetResult<(), Self> {
        self.void_t("trace_experiment_stop", vec![])
    }
    fn select_frame(&mut self, fr: FrameRequest<U>, report: &mut dyn FnMut(FrameDescription)) -> TargetResult<(), Self> {
        let a = match fr {
            FrameRequest::Select(n) => vec![vec![0], nb(n as u128)],
            FrameRequest::AtPC(a) => vec![vec![1], a.to_v()],
            FrameRequest::Hit(t) => vec![vec![2], tpv(t)],
            FrameRequest::Between(x, y) => vec![vec![3], x.to_v(), y.to_v()],
            FrameRequest::Outside(x, y) => vec![vec![4], x.to_v(), y.to_v()],
        };
        let r = self.s.pick_part("select_frame", Cls::T, |g, _| {
            let n = g.below(3);
            let mut v = vec![];
            for _ in 0..n {
                v.push(vec![g.below(2) as i32]);
                v.push(gen_num(g, 3));
            }
            v
        });
        self.s.log("select_frame", a, &r);
        {
            for p in Shared::part(&r).chunks(2) {
                report(if p[0][0] == 0 {
                    FrameDescription::FrameNumber(num(&p[1]) as u64)
                } else {
                    FrameDescription::Hit(Tracepoint(num(&p[1]) as usize))
                });
            }
        }
        tr(&r, |_| ())
    }
    fn support_tracepoint_source(&mut self) -> Option<TracepointSourceOps<'_, Self>> {
        self.s.on("tpsrc").then_some(self as _)
    }
}
fn srck(k: TracepointSourceType) -> Vec<i32> {
    vec![match k {
        TracepointSourceType::At => 0,
        TracepointSourceType::Cond => 1,
        TracepointSourceType::Cmd => 2,
    }]
}
impl<U: UBound> TracepointSource for Mock<U> {
    fn tracepoint_attach_source(&mut self, s: SourceTracepoint<'_, U>) -> TargetResult<(), Self> {
        #[cfg(feature = "std")]
        let s = if self.s.rng.borrow_mut().pct(50) { s.get_owned() } else { s };
        self.void_t(
            "tracepoint_attach_source",
            vec![
                tpv(s.number),
                s.addr.to_v(),
                srck(s.kind),
                nb(s.start as u128),
                nb(s.slen as u128),
                ints(&s.bytes),
            ],
        )
    }
    fn tracepoint_enumerate_source(
        &mut self,
        tp: Tracepoint,
        step: u64,
        f: &mut dyn FnMut(&SourceTracepoint<'_, U>),
    ) -> TargetResult<TracepointEnumerateStep<U>, Self> {
        let r = self.s.call("tracepoint_enumerate_source", vec![tpv(tp), nb(step as u128)], Cls::T, |g, _| {
            let mut v = Self::gen_step(g);
            if g.pct(85) {
                let n = g.below(8);
                v.extend([
                    gen_num(g, 2),
                    gen_num(g, U::W),
                    vec![g.below(3) as i32],
                    gen_num(g, 4),
                    gen_num(g, 4),
                    gen_data(g, n),
                ]);
            }
            v
        });
        if r.k == "ok" {
            let (st, items) = Self::do_step_items(&r.v);
            for it in items.chunks(6) {
                let src = SourceTracepoint {
                    number: Tracepoint(num(&it[0]) as usize),
                    addr: U::of_v(&it[1]),
                    kind: match it[2][0] {
                        0 => TracepointSourceType::At,
                        1 => TracepointSourceType::Cond,
                        _ => TracepointSourceType::Cmd,
                    },
                    start: num(&it[3]) as u32,
                    slen: num(&it[4]) as u32,
                    bytes: managed_bytes(bytes(&it[5])),
                };
                #[cfg(feature = "std")]
                let src = if self.s.rng.borrow_mut().pct(50) { src.get_owned() } else { src };
                f(&src);
            }
            Ok(st)
        } else {
            Err(terr(&r))
        }
    }
}

pub fn parse_res(j: &J) -> (String, Res) {
    (
        j.get("f").str().to_string(),
        Res { k: kind_of(j.get("k").str()), v: j.get("v").arr().iter().map(|x| x.ints()).collect() },
    )
}
