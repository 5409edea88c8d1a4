mod arch;
mod conn;
mod drive;
mod gen;
mod mock;
#[cfg(feature = "std")]
mod pipe;
mod sysregs;
#[cfg(feature = "std")]
mod tables;
mod util;

use conn::*;
use drive::*;
use gdbstub::arch::Arch;
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::GdbStub;
use gdbstub::target::Target;
use mock::*;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Mutex;
use util::*;

/// formats every log record and throws it away: what is only done for logging must not change anything
struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
fn logging(i: u64) {
    log::set_max_level(if i % 2 == 0 { log::LevelFilter::Trace } else { log::LevelFilter::Off })
}

static DONE: Mutex<String> = Mutex::new(String::new());

/// built with the library's `std` feature
pub const STD: bool = cfg!(feature = "std");

pub struct Spec {
    pub id: String,
    pub uw: usize,
    pub cfg: Cfg,
    pub tv: usize,
    pub cv: usize,
    pub blocking: bool,
    pub form_single: bool,
    pub owned: bool,
    pub cap: usize,
    /// builder: 0 plain, 1 explicit size on a larger borrowed buffer, 2 default owned (4096)
    pub bv: usize,
    pub xml: Vec<u8>,
    pub threads: Vec<usize>,
    pub prof: Prof,
    pub seed: u64,
    pub wfail: Option<usize>,
    pub ffail: Option<usize>,
    pub sfail: Option<u32>,
    pub results: Option<VecDeque<(String, Res)>>,
}

fn start_extra(s: &Spec) -> String {
    let mut o = format!(
        ",\"id\":\"{}\",\"uw\":{},\"tv\":{},\"cv\":{},\"blocking\":{},\"fs\":{},\"owned\":{},\"cap\":{},\"bv\":{},\"wf\":{},\"ff\":{},\"sf\":{}",
        s.id,
        s.uw,
        s.tv,
        s.cv,
        s.blocking,
        s.form_single,
        s.owned,
        s.cap,
        s.bv,
        s.wfail.unwrap_or(0),
        s.ffail.unwrap_or(0),
        s.sfail.unwrap_or(0)
    );
    o.push_str(",\"xml\":");
    jints(&mut o, &ints(&s.xml));
    o.push_str(",\"threads\":");
    jints(&mut o, &s.threads.iter().map(|t| *t as i32).collect::<Vec<_>>());
    o.push_str(",\"cfg\":{");
    for (i, f) in FEATURES.iter().enumerate() {
        if i > 0 {
            o.push(',')
        }
        o.push_str(&format!("\"{}\":{}", f, s.cfg.contains(f)));
    }
    o.push('}');
    o
}

fn with_conn<C, T>(s: &Spec, conn: C, target: &mut T)
where
    C: Connection,
    C::Error: ErrId,
    T: Target<Error = MErr>,
    <T::Arch as Arch>::Usize: Num8,
{
    let mut buf = vec![0xa5u8; s.cap + 7];
    if let Some(stub) = build(s, conn, &mut buf) {
        drive_sm(stub, target)
    }
}
fn with_conn_ext<C, T>(s: &Spec, conn: C, target: &mut T)
where
    C: ConnectionExt,
    C::Error: ErrId,
    T: Target<Error = MErr>,
    <T::Arch as Arch>::Usize: Num8,
{
    if !s.blocking {
        return with_conn(s, conn, target);
    }
    let mut buf = vec![0xa5u8; s.cap + 7];
    let Some(stub) = build(s, conn, &mut buf) else { return };
    if s.form_single {
        drive_blocking::<T, C, S>(stub, target)
    } else {
        drive_blocking::<T, C, M>(stub, target)
    }
}
/// a stub for the session; None: the builder refused (recorded)
fn build<'a, C: Connection, T: Target>(s: &Spec, conn: C, buf: &'a mut [u8]) -> Option<GdbStub<'a, T, C>> {
    let cap = s.cap;
    let r = match (s.owned, s.bv) {
        #[cfg(feature = "std")]
        (true, 2) if cap == 4096 => return Some(GdbStub::new(conn)),
        #[cfg(not(feature = "std"))]
        (true, _) => panic!("no owned buffer in this build"),
        #[cfg(feature = "std")]
        (true, _) => GdbStub::builder(conn).packet_buffer_size(cap).build(),
        (false, 0) => {
            let b = &mut buf[..cap];
            GdbStub::builder(conn).with_packet_buffer(b).build()
        }
        // more than there is: has to be refused
        (false, 3) => {
            let n = buf.len() + 1;
            GdbStub::builder(conn).with_packet_buffer(buf).packet_buffer_size(n).build()
        }
        (false, _) => GdbStub::builder(conn).packet_buffer_size(cap).with_packet_buffer(buf).build(),
    };
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            let _ = format!("{e} {e:?}");
            with(|r| r.observe(St::Dead, ("other", vec![]), true));
            None
        }
    }
}

fn run_t<T>(s: &Spec, target: &mut T)
where
    T: Target<Error = MErr>,
    <T::Arch as Arch>::Usize: Num8,
{
    let cs = with(|r| r.conn.clone());
    match s.cv {
        #[cfg(feature = "std")]
        5 => {
            let (a, b) = unix_pair();
            cs.borrow_mut().peer = Peer::Unix(b);
            with_conn_ext(s, Hook { inner: a, st: cs }, target)
        }
        #[cfg(feature = "std")]
        6 => {
            let (a, b) = tcp_pair();
            cs.borrow_mut().peer = Peer::Tcp(b);
            with_conn_ext(s, Hook { inner: a, st: cs }, target)
        }
        v => {
            let q = Rc::new(RefCell::new(VecDeque::new()));
            cs.borrow_mut().peer = Peer::Mem(q.clone());
            let mut h = Hook { inner: Mem(q), st: cs };
            match v {
                0 => with_conn_ext(s, h, target),
                #[cfg(feature = "std")]
                1 => with_conn_ext(s, Box::new(h) as Box<dyn ConnectionExt<Error = CErr>>, target),
                2 => with_conn_ext(s, &mut h as &mut dyn ConnectionExt<Error = CErr>, target),
                3 => with_conn(s, &mut h as &mut dyn Connection<Error = CErr>, target),
                #[cfg(not(feature = "std"))]
                _ => panic!("no such connection in this build"),
                #[cfg(feature = "std")]
                _ => with_conn(s, Box::new(h) as Box<dyn Connection<Error = CErr>>, target),
            }
        }
    }
}
fn run_u<U: UBound>(s: &Spec, sh: Rc<Shared>) {
    let mut m: Mock<U> = Mock::new(sh);
    let cs = with(|r| r.conn.clone());
    let q = Rc::new(RefCell::new(VecDeque::new()));
    cs.borrow_mut().peer = Peer::Mem(q.clone());
    with_conn_ext(s, Hook { inner: Mem(q), st: cs }, &mut m)
}
/// trait-object and connection variants are exercised with one address width only (compile time)
fn run_v(s: &Spec, sh: Rc<Shared>) {
    let mut m: Mock<u64> = Mock::new(sh);
    match s.tv {
        0 => run_t(s, &mut m),
        1 => {
            let mut d: &mut dyn Target<Arch = TArch<u64>, Error = MErr> = &mut m;
            run_t(s, &mut d)
        }
        #[cfg(not(feature = "std"))]
        _ => panic!("no such target in this build"),
        #[cfg(feature = "std")]
        _ => {
            let mut d: Box<dyn Target<Arch = TArch<u64>, Error = MErr>> = Box::new(m);
            run_t(s, &mut d)
        }
    }
}

fn session(s: &mut Spec, src: Box<dyn Source>) {
    let sh = Rc::new(Shared {
        cfg: s.cfg.clone(),
        uw: s.uw,
        rng: RefCell::new(Rng::new(s.seed)),
        prof: RefCell::new(s.prof.clone()),
        script: RefCell::new(s.results.take()),
        calls: Default::default(),
        reads: Cell::new(0),
        memo: Default::default(),
        xml: RefCell::new(s.xml.clone()),
        threads: RefCell::new(s.threads.clone()),
    });
    CUR.with(|c| *c.borrow_mut() = Some(sh.clone()));
    let mut cs = ConnState::new(Peer::Mem(Default::default()));
    cs.wfail = s.wfail;
    cs.ffail = s.ffail;
    cs.sfail = s.sfail;
    let rec = Rec {
        shared: sh.clone(),
        conn: Rc::new(RefCell::new(cs)),
        src,
        blocking: s.blocking,
        ev: "start",
        reason: None,
        eid: 0,
        inb: vec![],
        last: St::Idle,
        outpos: 0,
        lines: String::new(),
        nev: 0,
        ended: false,
        start_extra: start_extra(s),
    };
    REC.with(|r| *r.borrow_mut() = Some(rec));
    CUR_LINES.lock().unwrap().clear();
    CUR_IN.lock().unwrap().clear();
    match s.uw {
        1 => run_u::<u8>(s, sh),
        2 => run_u::<u16>(s, sh),
        4 => run_u::<u32>(s, sh),
        8 => run_v(s, sh),
        _ => run_u::<u128>(s, sh),
    }
    REC.with(|r| *r.borrow_mut() = None);
    CUR.with(|c| *c.borrow_mut() = None);
    let mut l = CUR_LINES.lock().unwrap();
    DONE.lock().unwrap().push_str(&l);
    l.clear();
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

fn random_session(f: &gen::Focus, focus: &str, seed: u64, i: u64, direct: bool) {
    logging(i);
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i));
    let cfg = gen::gen_cfg(&mut r, f);
    let mut uw = *r.pick(&[1usize, 2, 4, 4, 8, 8, 8, 16]);
    let var = r.pct(f.variants);
    if var {
        uw = 8
    }
    let mut blocking = r.pct(f.blocking);
    let mut cv = if var { r.range(1, 6) } else { 0 };
    if cv >= 5 && r.pct(60) {
        cv -= 4
    }
    if blocking && (cv == 3 || cv == 4) {
        cv -= 2
    }
    if cv == 6 && i % 8 != 0 {
        cv = 5
    }
    let tv = if var { r.below(3) } else { 0 };
    let owned = r.pct(35) && STD;
    let cap = if r.pct(f.tiny) {
        if owned {
            r.range(0, 40)
        } else if r.pct(10) {
            r.range(0, 12)
        } else {
            r.range(20, 70)
        }
    } else {
        *r.pick(&[128usize, 200, 256, 300, 400])
    };
    let mut bv = r.below(3);
    let mut cap = cap;
    if owned && bv == 2 {
        if r.pct(15) {
            cap = 4096
        } else {
            bv = 0
        }
    }
    if f.blocking == 100 {
        blocking = true
    }
    let xml: Vec<u8> = {
        let n = if r.pct(10) { 0 } else { r.below(90) };
        let mut x: Vec<u8> = (0..n).map(|_| *r.pick(b"<>/target=\"}#$* aaaa\n")).collect();
        if r.pct(30) {
            x.insert(0, b' ');
            x.push(b'\n');
        }
        x
    };
    let mut threads: Vec<usize> = vec![];
    for _ in 0..r.range(0, 4) {
        let t = *r.pick(&[1usize, 2, 3, 4, 0x1234, 0x7fff_ffff_ffff_ffff, 0x10, 5]);
        if !threads.contains(&t) {
            threads.push(t)
        }
    }
    let conn_fault = r.pct(f.connfail);
    if !owned && r.pct(1) {
        bv = 3
    }
    let mut s = Spec {
        id: format!("{focus}-{seed}-{i}"),
        uw,
        tv,
        cv,
        blocking,
        form_single: r.pct(50),
        owned,
        cap,
        bv,
        xml: xml.clone(),
        threads,
        prof: Prof { err: f.err, fatal: f.fatal, small: true, wild: f.wild },
        seed: r.next(),
        wfail: if conn_fault && r.pct(60) { Some(r.range(1, 120)) } else { None },
        ffail: if conn_fault && r.pct(40) { Some(r.range(1, 12)) } else { None },
        sfail: if conn_fault && r.pct(8) { Some(r.range(1, 90) as u32) } else { None },
        results: None,
        cfg,
    };
    let g = gen::Gen {
        r: Rng::new(r.next()),
        f: f.clone(),
        q: Default::default(),
        left: r.range(f.len / 2, f.len),
        cap: s.cap,
        owned: s.owned,
        uw,
        xmllen: xml.len(),
        single: false,
        multi: s.cfg.contains("multi"),
        form_single: s.form_single,
        blocking,
        quiet: r.pct(40),
        tpmode: 0,
    };
    if !STD {
        s.tv = s.tv.min(1);
        s.cv = match s.cv {
            0 => 0,
            2 | 3 => s.cv,
            _ => 2,
        };
    }
    if direct {
        // the same session without any adapter
        s.tv = 0;
        s.cv = 0;
    }
    session(&mut s, Box::new(g))
}

fn script_session(j: &J, i: usize) {
    logging(i as u64);
    let mut cfg = Cfg::new();
    for f in FEATURES {
        if j.get("cfg").get(f).truth() {
            cfg.insert(f);
        }
    }
    let mut steps = VecDeque::new();
    for t in j.get("steps").arr() {
        match t.get("t").str() {
            "b" => {
                for b in t.get("v").ints() {
                    steps.push_back(Step::Byte(b as u8))
                }
            }
            "pkt" => {
                for b in gen::frame(&bytes(&t.get("v").ints())) {
                    steps.push_back(Step::Byte(b))
                }
            }
            "stop" => steps.push_back(Step::Stop(Reason::parse(t.get("rs")))),
            "irq" => steps.push_back(Step::Irq(if t.get("rs").get("k").str() == "None" { None } else { Some(Reason::parse(t.get("rs"))) })),
            "ret" => steps.push_back(Step::Ret),
            "readerr" => steps.push_back(Step::ReadErr(t.get("eid").int() as u32)),
            "waiterrt" => steps.push_back(Step::WaitErrT(t.get("eid").int() as u32)),
            "waiterrc" => steps.push_back(Step::WaitErrC(t.get("eid").int() as u32)),
            "irqerr" => steps.push_back(Step::IrqErr(t.get("eid").int() as u32)),
            x => panic!("bad step {x}"),
        }
    }
    let n = |k: &str, d: i64| if *j.get(k) == J::Null { d } else { j.get(k).int() };
    let z = |k: &str| match n(k, 0) {
        0 => None,
        x => Some(x as usize),
    };
    let mut s = Spec {
        id: if j.get("id").str().is_empty() { format!("script-{i}") } else { j.get("id").str().into() },
        uw: n("uw", 8) as usize,
        cfg,
        tv: n("tv", 0) as usize,
        cv: n("cv", 0) as usize,
        blocking: n("blocking", 0) == 1,
        form_single: n("fs", 0) == 1,
        owned: n("owned", 0) == 1,
        cap: n("cap", 256) as usize,
        bv: n("bv", 0) as usize,
        xml: bytes(&j.get("xml").ints()),
        threads: j.get("threads").ints().iter().map(|x| *x as usize).collect(),
        prof: Prof { err: 0, fatal: 0, small: true, wild: 0 },
        seed: 1,
        wfail: z("wf"),
        ffail: z("ff"),
        sfail: z("sf").map(|x| x as u32),
        results: Some(j.get("results").arr().iter().map(parse_res).collect()),
    };
    session(&mut s, Box::new(Script(steps)))
}

fn finish(out: &str) {
    let d = DONE.lock().unwrap();
    let mut f = std::fs::File::create(out).expect("output file");
    f.write_all(d.as_bytes()).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = arg(&a, "--out").unwrap_or("/dev/stdout".into());
    let mode = a.get(1).cloned().unwrap_or_default();
    #[cfg(feature = "std")]
    if mode == "tables" {
        DONE.lock().unwrap().push_str(&tables::dump());
        finish(&out);
        return;
    }
    #[cfg(feature = "std")]
    if mode == "pipe" {
        std::panic::set_hook(Box::new(|_| {}));
        for l in std::fs::read_to_string(arg(&a, "--script").expect("--script")).unwrap().lines() {
            let s = pipe::run(&J::parse(l));
            DONE.lock().unwrap().push_str(&s);
        }
        finish(&out);
        std::process::exit(0);
    }
    if mode == "arch" {
        DONE.lock().unwrap().push_str(&arch::dump(
            arg(&a, "--seed").map(|x| x.parse().unwrap()).unwrap_or(1),
            arg(&a, "--n").map(|x| x.parse().unwrap()).unwrap_or(20),
        ));
        finish(&out);
        return;
    }
    log::set_logger(&SINK).unwrap();
    std::panic::set_hook(Box::new(|i| {
        let m = match i.payload().downcast_ref::<&str>() {
            Some(s) => s.to_string(),
            None => i.payload().downcast_ref::<String>().cloned().unwrap_or_default(),
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
    let worker = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || match mode.as_str() {
            "gen" => {
                let focus = arg(&a, "--focus").unwrap_or("all".into());
                let f = gen::focus(&focus);
                let seed: u64 = arg(&a, "--seed").map(|x| x.parse().unwrap()).unwrap_or(1);
                let n: u64 = arg(&a, "--sessions").map(|x| x.parse().unwrap()).unwrap_or(10);
                let from: u64 = arg(&a, "--from").map(|x| x.parse().unwrap()).unwrap_or(0);
                let direct = a.iter().any(|x| x == "--direct");
                for i in from..from + n {
                    random_session(&f, &focus, seed, i, direct);
                }
            }
            "replay" => {
                let p = arg(&a, "--script").expect("--script");
                let t = std::fs::read_to_string(p).unwrap();
                for (i, l) in t.lines().filter(|l| !l.trim().is_empty()).enumerate() {
                    script_session(&J::parse(l), i)
                }
            }
            m => panic!("harness: unknown mode {m}"),
        })
        .unwrap();
    // watchdog: no observable progress for a long time means the stub hangs
    let mut last = (0u64, std::time::Instant::now());
    while !worker.is_finished() {
        std::thread::sleep(std::time::Duration::from_millis(5));
        let t = TICK.load(Ordering::Relaxed);
        if t != last.0 {
            last = (t, std::time::Instant::now());
        } else if last.1.elapsed().as_secs() >= 20 {
            let mut d = DONE.lock().unwrap();
            d.push_str(&CUR_LINES.lock().unwrap());
            let mut e = String::from("{\"ev\":\"b\",\"in\":");
            jints(&mut e, &CUR_IN.lock().unwrap());
            e.push_str(",\"rs\":{\"k\":\"None\",\"st\":false,\"tid\":[],\"n\":0,\"m\":0,\"x\":[]},\"eid\":[],\"calls\":[],\"out\":[],\"fl\":true,\"st\":\"Dead\",\"why\":[],\"err\":\"hang\",\"ed\":[],\"cf\":[],\"bad\":false}\n");
            d.push_str(&e);
            drop(d);
            finish(&out);
            std::process::exit(0);
        }
    }
    if worker.join().is_err() {
        eprintln!("harness worker panicked");
        std::process::exit(3);
    }
    finish(&out);
}
