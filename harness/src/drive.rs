//! Drives one session through the public API and records one event per observable step.
use crate::conn::*;
use crate::mock::*;
use crate::util::*;
use gdbstub::arch::Arch;
use gdbstub::common::{Signal, Tid};
use gdbstub::conn::{Connection, ConnectionExt};
use gdbstub::stub::run_blocking::{BlockingEventLoop, Event, WaitForStopReasonError};
use gdbstub::stub::state_machine::GdbStubStateMachine as SM;
use gdbstub::stub::{
    BaseStopReason, DisconnectReason, GdbStub, GdbStubError, MultiThreadStopReason, SingleThreadStopReason,
};
use gdbstub::target::ext::base::reverse_exec::ReplayLogPosition;
use gdbstub::target::ext::breakpoints::WatchKind;
use gdbstub::target::ext::catch_syscalls::CatchSyscallPosition;
use gdbstub::target::Target;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub struct Reason {
    /// DoneStep Exited Terminated Signal SignalThread SwBreak HwBreak Watch ReplayLog Catch
    pub k: &'static str,
    /// reported through the single-thread form of the type
    pub st: bool,
    /// thread id digits; empty = none (only for ReplayLog / Catch)
    pub tid: Vec<i32>,
    /// signal or exit code
    pub n: i32,
    /// watch kind / replay position / syscall direction
    pub m: i32,
    /// watch address / syscall number
    pub x: Vec<i32>,
}
pub const REASONS: &[&str] = &[
    "DoneStep",
    "Exited",
    "Terminated",
    "Signal",
    "SignalThread",
    "SwBreak",
    "HwBreak",
    "Watch",
    "ReplayLog",
    "Catch",
];
impl Reason {
    pub fn parse(j: &J) -> Reason {
        Reason {
            k: REASONS.iter().find(|x| **x == j.get("k").str()).expect("reason kind"),
            st: j.get("st").truth(),
            tid: j.get("tid").ints(),
            n: j.get("n").int() as i32,
            m: j.get("m").int() as i32,
            x: j.get("x").ints(),
        }
    }
    fn json(&self, o: &mut String) {
        o.push_str(&format!("{{\"k\":\"{}\",\"st\":{},\"tid\":", self.k, self.st));
        jints(o, &self.tid);
        o.push_str(&format!(",\"n\":{},\"m\":{},\"x\":", self.n, self.m));
        jints(o, &self.x);
        o.push('}');
    }
    fn wk(&self) -> WatchKind {
        match self.m {
            0 => WatchKind::Write,
            1 => WatchKind::Read,
            _ => WatchKind::ReadWrite,
        }
    }
    fn rp(&self) -> ReplayLogPosition {
        if self.m == 0 {
            ReplayLogPosition::Begin
        } else {
            ReplayLogPosition::End
        }
    }
    fn cp(&self) -> CatchSyscallPosition {
        if self.m == 0 {
            CatchSyscallPosition::Entry
        } else {
            CatchSyscallPosition::Return
        }
    }
    fn conv<T: Copy, U: Num8>(&self, tid: T) -> BaseStopReason<T, U> {
        let otid = if self.tid.is_empty() { None } else { Some(tid) };
        match self.k {
            "DoneStep" => BaseStopReason::DoneStep,
            "Exited" => BaseStopReason::Exited(self.n as u8),
            "Terminated" => BaseStopReason::Terminated(Signal(self.n as u8)),
            "Signal" => BaseStopReason::Signal(Signal(self.n as u8)),
            "SignalThread" => BaseStopReason::SignalWithThread { tid, signal: Signal(self.n as u8) },
            "SwBreak" => BaseStopReason::SwBreak(tid),
            "HwBreak" => BaseStopReason::HwBreak(tid),
            "Watch" => BaseStopReason::Watch { tid, kind: self.wk(), addr: U::of_v(&self.x) },
            "ReplayLog" => BaseStopReason::ReplayLog { tid: otid, pos: self.rp() },
            _ => BaseStopReason::CatchSyscall { tid: otid, number: U::of_v(&self.x), position: self.cp() },
        }
    }
    pub fn multi<U: Num8>(&self) -> MultiThreadStopReason<U> {
        self.conv(Tid::new((num(&self.tid) as usize).max(1)).unwrap())
    }
    pub fn single<U: Num8>(&self) -> SingleThreadStopReason<U> {
        self.conv(())
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Idle,
    Running,
    CtrlC,
    Disc(DisconnectReason),
    Dead,
}
impl St {
    pub fn name(&self) -> &'static str {
        match self {
            St::Idle => "Idle",
            St::Running => "Running",
            St::CtrlC => "CtrlC",
            St::Disc(_) => "Disc",
            St::Dead => "Dead",
        }
    }
    fn why(&self) -> Vec<i32> {
        match self {
            St::Disc(DisconnectReason::TargetExited(c)) => vec![0, *c as i32],
            St::Disc(DisconnectReason::TargetTerminated(s)) => vec![1, s.0 as i32],
            St::Disc(DisconnectReason::Disconnect) => vec![2],
            St::Disc(DisconnectReason::Kill) => vec![3],
            _ => vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Byte(u8),
    Stop(Reason),
    Irq(Option<Reason>),
    Ret,
    /// blocking driver only: the next read / wait / interrupt handler fails
    ReadErr(u32),
    WaitErrT(u32),
    WaitErrC(u32),
    IrqErr(u32),
    End,
}

pub trait Source {
    fn next(&mut self, st: St, blocking: bool) -> Step;
}

/// plays a fixed list of steps; a step that does not apply to the current state ends the session
pub struct Script(pub VecDeque<Step>);
impl Source for Script {
    fn next(&mut self, st: St, _: bool) -> Step {
        let ok = match self.0.front() {
            None => return Step::End,
            Some(Step::Byte(_)) => matches!(st, St::Idle | St::Running),
            Some(Step::Stop(_)) => matches!(st, St::Running),
            Some(Step::Irq(_)) => matches!(st, St::CtrlC),
            Some(Step::Ret) => matches!(st, St::Disc(_)),
            Some(Step::ReadErr(_)) => matches!(st, St::Idle | St::Running),
            Some(Step::WaitErrT(_) | Step::WaitErrC(_)) => matches!(st, St::Running),
            Some(Step::IrqErr(_)) => matches!(st, St::CtrlC),
            Some(Step::End) => true,
        };
        if ok {
            self.0.pop_front().unwrap()
        } else {
            Step::End
        }
    }
}

pub struct Rec {
    pub shared: Rc<Shared>,
    pub conn: Rc<RefCell<ConnState>>,
    pub src: Box<dyn Source>,
    pub blocking: bool,
    pub ev: &'static str,
    pub reason: Option<Reason>,
    pub eid: u32,
    pub inb: Vec<i32>,
    pub last: St,
    pub outpos: usize,
    pub lines: String,
    pub nev: usize,
    pub ended: bool,
    pub start_extra: String,
}

thread_local! {
    pub static REC: RefCell<Option<Rec>> = const { RefCell::new(None) };
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// lines of the session under way, readable by the watchdog
pub static CUR_LINES: Mutex<String> = Mutex::new(String::new());
pub static CUR_IN: Mutex<Vec<i32>> = Mutex::new(Vec::new());
pub static TICK: AtomicU64 = AtomicU64::new(0);
pub fn with<X>(f: impl FnOnce(&mut Rec) -> X) -> X {
    REC.with(|r| f(r.borrow_mut().as_mut().expect("no recorder")))
}

impl Rec {
    /// after a public call returned: emit an event if anything observable happened
    pub fn observe(&mut self, st: St, err: (&'static str, Vec<i32>), force: bool) {
        self.shared.reads.set(0);
        self.shared.memo.borrow_mut().clear();
        TICK.fetch_add(1, Ordering::Relaxed);
        let mut c = self.conn.borrow_mut();
        c.drain();
        let changed = force
            || st != self.last
            || c.out.len() != self.outpos
            || !self.shared.calls.borrow().is_empty()
            || err.0 != "none"
            || !matches!(self.ev, "b" | "end");
        if !changed {
            return;
        }
        let o = &mut self.lines;
        o.push_str(&format!("{{\"ev\":\"{}\",\"in\":", self.ev));
        jints(o, &self.inb);
        o.push_str(",\"rs\":");
        match &self.reason {
            None => o.push_str("{\"k\":\"None\",\"st\":false,\"tid\":[],\"n\":0,\"m\":0,\"x\":[]}"),
            Some(r) => r.json(o),
        }
        o.push_str(&format!(",\"eid\":"));
        jints(o, &nb(self.eid as u128));
        o.push_str(",\"calls\":[");
        for (i, k) in self.shared.calls.borrow_mut().drain(..).enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("{{\"f\":\"{}\",\"a\":", k.f));
            jintss(o, &k.a);
            o.push_str(&format!(",\"k\":\"{}\",\"v\":", k.r.k));
            jintss(o, &k.r.v);
            o.push('}');
        }
        o.push_str("],\"out\":");
        jints(o, &ints(&c.out[self.outpos..]));
        o.push_str(&format!(",\"fl\":{},\"st\":\"{}\",\"why\":", !c.dirty, st.name()));
        jints(o, &st.why());
        o.push_str(&format!(",\"err\":\"{}\",\"ed\":", err.0));
        jints(o, &err.1);
        o.push_str(",\"cf\":");
        jints(o, &cf(c.failed.take()));
        if c.bad {
            o.push_str(",\"bad\":true");
        } else {
            o.push_str(",\"bad\":false");
        }
        if self.ev == "start" {
            o.push_str(&format!(",\"ss\":{}", c.starts));
            o.push_str(&self.start_extra);
        }
        if err.0 == "panic" {
            let p = PANIC.with(|p| p.borrow().clone());
            let p: String = p.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\' && !c.is_control()).collect();
            o.push_str(&format!(",\"msg\":\"{p}\""));
        }
        o.push_str("}\n");
        CUR_LINES.lock().unwrap().push_str(o);
        o.clear();
        self.nev += 1;
        self.outpos = c.out.len();
        self.inb.clear();
        self.last = st;
        self.ev = "b";
        self.reason = None;
        self.eid = 0;
        if st == St::Dead {
            self.ended = true;
        }
    }
    fn next(&mut self, st: St) -> Step {
        let b = self.blocking;
        let s = self.src.next(st, b);
        TICK.fetch_add(1, Ordering::Relaxed);
        match &s {
            Step::Byte(b) => {
                self.ev = "b";
                self.inb.push(*b as i32);
                *CUR_IN.lock().unwrap() = self.inb.clone();
            }
            other => {
                if !self.inb.is_empty() {
                    // bytes with no effect so far: a packet left unfinished
                    self.observe(st, ("none", vec![]), true);
                }
                match other {
                    Step::Stop(r) => {
                        self.ev = "stop";
                        self.reason = Some(r.clone());
                    }
                    Step::Irq(r) => {
                        self.ev = "irq";
                        self.reason = r.clone();
                    }
                    Step::Ret => self.ev = "ret",
                    Step::ReadErr(n) => {
                        self.ev = "readerr";
                        self.eid = *n;
                    }
                    Step::WaitErrT(n) => {
                        self.ev = "waiterrt";
                        self.eid = *n;
                    }
                    Step::WaitErrC(n) => {
                        self.ev = "waiterrc";
                        self.eid = *n;
                    }
                    Step::IrqErr(n) => {
                        self.ev = "irqerr";
                        self.eid = *n;
                    }
                    _ => {}
                }
            }
        }
        s
    }
    fn finish(&mut self, st: St) {
        if self.ended {
            return;
        }
        self.ev = "end";
        self.observe(st, ("none", vec![]), true);
        self.ended = true;
    }
}

fn classify<CE: ErrId>(e: GdbStubError<MErr, CE>) -> (&'static str, Vec<i32>) {
    let _ = format!("{e} {e:?}");
    let (t, c) = (e.is_target_error(), e.is_connection_error());
    match (t, c) {
        (true, false) => match e.into_target_error() {
            Some(x) => ("target", nb(x.0 as u128)),
            None => ("target", vec![-1]),
        },
        (false, true) => match e.into_connection_error() {
            Some((x, k)) => {
                // ConnectionErrorKind is not nameable from here; its Debug form is the variant name
                let k = match format!("{k:?}").as_str() {
                    "Init" => 0,
                    "Read" => 1,
                    "Write" => 2,
                    _ => 9,
                };
                ("conn", cf(Some((k, x.id()))))
            }
            None => ("conn", vec![-1]),
        },
        (false, false) => {
            if e.into_target_error().is_some() {
                ("bogus", vec![])
            } else {
                ("other", vec![])
            }
        }
        _ => ("bogus", vec![]),
    }
}

fn state_of<T: Target, C: Connection>(sm: &SM<'_, T, C>) -> St {
    match sm {
        SM::Idle(_) => St::Idle,
        SM::Running(_) => St::Running,
        SM::CtrlCInterrupt(_) => St::CtrlC,
        SM::Disconnected(d) => St::Disc(d.get_reason()),
    }
}

type Us<T> = <<T as Target>::Arch as Arch>::Usize;

pub fn drive_sm<'a, T, C>(stub: GdbStub<'a, T, C>, target: &mut T)
where
    T: Target<Error = MErr>,
    Us<T>: Num8,
    C: Connection,
    C::Error: ErrId,
{
    let r = catch_unwind(AssertUnwindSafe(|| stub.run_state_machine(target)));
    let mut sm = match done(r) {
        Some(sm) => sm,
        None => return,
    };
    loop {
        let st = state_of(&sm);
        let step = with(|r| r.next(st));
        let r = catch_unwind(AssertUnwindSafe(|| match (sm, step) {
            (SM::Idle(g), Step::Byte(b)) => Some(g.incoming_data(target, b)),
            (SM::Running(g), Step::Byte(b)) => Some(g.incoming_data(target, b)),
            (SM::Running(g), Step::Stop(r)) => Some(if r.st {
                g.report_stop(target, r.single::<Us<T>>())
            } else {
                g.report_stop(target, r.multi::<Us<T>>())
            }),
            (SM::CtrlCInterrupt(g), Step::Irq(r)) => Some(match r {
                Some(r) if r.st => g.interrupt_handled(target, Some(r.single::<Us<T>>())),
                Some(r) => g.interrupt_handled(target, Some(r.multi::<Us<T>>())),
                None => g.interrupt_handled(target, None::<MultiThreadStopReason<Us<T>>>),
            }),
            (SM::Disconnected(g), Step::Ret) => Some(Ok(g.return_to_idle())),
            (_, Step::End) => None,
            (_, s) => panic!("harness: step {s:?} does not apply"),
        }));
        let r = match r {
            Ok(None) => {
                with(|r| r.finish(st));
                return;
            }
            Ok(Some(x)) => Ok(x),
            Err(e) => Err(e),
        };
        sm = match done(r) {
            Some(s) => s,
            None => return,
        };
    }
}

fn done<'a, T, C>(
    r: Result<Result<SM<'a, T, C>, GdbStubError<MErr, C::Error>>, Box<dyn std::any::Any + Send>>,
) -> Option<SM<'a, T, C>>
where
    T: Target<Error = MErr>,
    C: Connection,
    C::Error: ErrId,
{
    match r {
        Ok(Ok(s)) => {
            let st = state_of(&s);
            with(|r| r.observe(st, ("none", vec![]), false));
            Some(s)
        }
        Ok(Err(e)) => {
            let e = classify(e);
            with(|r| r.observe(St::Dead, e, true));
            None
        }
        Err(_) => {
            if PANIC.with(|p| p.borrow().contains("harness:")) {
                eprintln!("{}", PANIC.with(|p| p.borrow().clone()));
                std::process::exit(3);
            }
            with(|r| r.observe(St::Dead, ("panic", vec![]), true));
            None
        }
    }
}

// ---------------------------------------------------------------- blocking driver

struct EndOfScript;

/// the session script is over while run_blocking still wants input: leave it by unwinding
fn leave() -> ! {
    std::panic::panic_any(EndOfScript)
}

/// Hook::read: the stub (or the event loop) reads one byte
pub fn next_read() -> Result<u8, u32> {
    // a pending byte chosen by wait_for_stop_reason?
    if let Some(b) = PENDING.with(|p| p.borrow_mut().take()) {
        return Ok(b);
    }
    with(|r| r.observe(St::Idle, ("none", vec![]), false));
    match with(|r| r.next(St::Idle)) {
        Step::Byte(b) => Ok(b),
        Step::ReadErr(id) => Err(id),
        _ => {
            with(|r| r.finish(St::Idle));
            leave()
        }
    }
}
thread_local! {
    static PENDING: RefCell<Option<u8>> = const { RefCell::new(None) };
}

pub struct Loop<T, C, R>(PhantomData<(T, C, R)>);
pub struct M;
pub struct S;

macro_rules! event_loop {
    ($form:ty, $sr:ident, $conv:ident) => {
        impl<T, C> BlockingEventLoop for Loop<T, C, $form>
        where
            T: Target<Error = MErr>,
            Us<T>: Num8,
            C: ConnectionExt,
            C::Error: ErrId,
        {
            type Target = T;
            type Connection = C;
            type StopReason = $sr<Us<T>>;

            fn wait_for_stop_reason(
                _target: &mut T,
                conn: &mut C,
            ) -> Result<Event<Self::StopReason>, WaitForStopReasonError<MErr, C::Error>> {
                with(|r| r.observe(St::Running, ("none", vec![]), false));
                match with(|r| r.next(St::Running)) {
                    Step::Byte(b) => {
                        PENDING.with(|p| *p.borrow_mut() = Some(b));
                        let b = conn.read().map_err(WaitForStopReasonError::Connection)?;
                        Ok(Event::IncomingData(b))
                    }
                    Step::Stop(r) => Ok(Event::TargetStopped(r.$conv())),
                    Step::WaitErrT(id) => Err(WaitForStopReasonError::Target(MErr(id))),
                    Step::WaitErrC(id) | Step::ReadErr(id) => {
                        Err(WaitForStopReasonError::Connection(C::Error::mk(id)))
                    }
                    _ => {
                        with(|r| r.finish(St::Running));
                        leave()
                    }
                }
            }
            fn on_interrupt(_target: &mut T) -> Result<Option<Self::StopReason>, MErr> {
                with(|r| r.observe(St::CtrlC, ("none", vec![]), false));
                match with(|r| r.next(St::CtrlC)) {
                    Step::Irq(r) => Ok(r.map(|r| r.$conv())),
                    Step::IrqErr(id) => Err(MErr(id)),
                    _ => {
                        with(|r| r.finish(St::CtrlC));
                        leave()
                    }
                }
            }
        }
    };
}
event_loop!(M, MultiThreadStopReason, multi);
event_loop!(S, SingleThreadStopReason, single);

pub fn drive_blocking<'a, T, C, F>(stub: GdbStub<'a, T, C>, target: &mut T)
where
    T: Target<Error = MErr>,
    Us<T>: Num8,
    C: ConnectionExt,
    C::Error: ErrId,
    Loop<T, C, F>: BlockingEventLoop<Target = T, Connection = C>,
{
    PENDING.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| stub.run_blocking::<Loop<T, C, F>>(target))) {
        Ok(Ok(reason)) => {
            with(|r| r.observe(St::Disc(reason), ("none", vec![]), true));
            with(|r| r.finish(St::Disc(reason)));
        }
        Ok(Err(e)) => {
            let e = classify(e);
            with(|r| r.observe(St::Dead, e, true));
        }
        Err(p) => {
            if p.is::<EndOfScript>() {
                return;
            }
            with(|r| r.observe(St::Dead, ("panic", vec![]), true));
        }
    }
}
