//! Recording connection with fault injection, over memory or a real socket pair.
use crate::drive;
use crate::util::*;
use gdbstub::conn::{Connection, ConnectionExt};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::net::TcpStream;
use std::os::unix::net::UnixStream;
use std::rc::Rc;

#[derive(Debug, PartialEq)]
pub struct CErr(pub u32);
impl std::fmt::Display for CErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "cerr{}", self.0)
    }
}
pub trait ErrId: std::fmt::Debug + std::fmt::Display {
    fn mk(id: u32) -> Self;
    fn id(&self) -> u32;
}
impl ErrId for CErr {
    fn mk(id: u32) -> Self {
        CErr(id)
    }
    fn id(&self) -> u32 {
        self.0
    }
}
impl ErrId for std::io::Error {
    fn mk(id: u32) -> Self {
        std::io::Error::from_raw_os_error(id as i32)
    }
    fn id(&self) -> u32 {
        self.raw_os_error().map(|x| x as u32).unwrap_or(9999)
    }
}

pub enum Peer {
    Mem(Rc<RefCell<VecDeque<u8>>>),
    Unix(UnixStream),
    Tcp(TcpStream),
}
pub struct ConnState {
    pub out: Vec<u8>,
    pub unread: usize,
    pub dirty: bool,
    pub writes: usize,
    pub flushes: usize,
    pub starts: usize,
    pub wfail: Option<usize>,
    pub ffail: Option<usize>,
    pub sfail: Option<u32>,
    /// last injected failure: (kind, id)
    pub failed: Option<(i32, u32)>,
    pub bad: bool,
    /// a write or flush failed: what is still written after that is not looked at
    pub broken: bool,
    pub peer: Peer,
}
impl ConnState {
    pub fn new(peer: Peer) -> Self {
        ConnState {
            out: vec![],
            unread: 0,
            dirty: false,
            writes: 0,
            flushes: 0,
            starts: 0,
            wfail: None,
            ffail: None,
            sfail: None,
            failed: None,
            bad: false,
            broken: false,
            peer,
        }
    }
    fn feed(&mut self, b: u8) {
        match &mut self.peer {
            Peer::Mem(q) => q.borrow_mut().push_back(b),
            Peer::Unix(s) => std::io::Write::write_all(s, &[b]).unwrap(),
            Peer::Tcp(s) => std::io::Write::write_all(s, &[b]).unwrap(),
        }
    }
    /// fetch what the stub wrote from the peer end
    pub fn drain(&mut self) {
        if self.unread == 0 {
            return;
        }
        let mut buf = vec![0; self.unread];
        let ok = match &mut self.peer {
            Peer::Mem(_) => return,
            Peer::Unix(s) => std::io::Read::read_exact(s, &mut buf).is_ok(),
            Peer::Tcp(s) => std::io::Read::read_exact(s, &mut buf).is_ok(),
        };
        if !ok {
            self.bad = true;
        }
        self.unread = 0;
        self.out.extend(buf);
    }
}

/// the innermost in-memory byte stream
pub struct Mem(pub Rc<RefCell<VecDeque<u8>>>);
impl Connection for Mem {
    type Error = CErr;
    fn write(&mut self, _: u8) -> Result<(), CErr> {
        Ok(())
    }
    fn flush(&mut self) -> Result<(), CErr> {
        Ok(())
    }
}
impl ConnectionExt for Mem {
    fn read(&mut self) -> Result<u8, CErr> {
        self.0.borrow_mut().pop_front().ok_or(CErr(77))
    }
    fn peek(&mut self) -> Result<Option<u8>, CErr> {
        Ok(self.0.borrow().front().copied())
    }
}

pub struct Hook<C> {
    pub inner: C,
    pub st: Rc<RefCell<ConnState>>,
}
impl<C: Connection> Connection for Hook<C>
where
    C::Error: ErrId,
{
    type Error = C::Error;
    fn write(&mut self, byte: u8) -> Result<(), C::Error> {
        let n = {
            let mut s = self.st.borrow_mut();
            s.writes += 1;
            s.writes
        };
        if self.st.borrow().wfail.map(|w| n == w).unwrap_or(false) {
            let id = 100 + (n % 7) as u32;
            let mut s = self.st.borrow_mut();
            s.failed = Some((2, id));
            s.broken = true;
            return Err(C::Error::mk(id));
        }
        if self.st.borrow().broken {
            return Ok(());
        }
        self.inner.write(byte)?;
        let mut s = self.st.borrow_mut();
        s.dirty = true;
        if matches!(s.peer, Peer::Mem(_)) {
            s.out.push(byte)
        } else {
            s.unread += 1;
            // one-byte socket writes are expensive in kernel buffer space: never let them pile up
            if s.unread >= 32 {
                s.drain()
            }
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), C::Error> {
        let n = {
            let mut s = self.st.borrow_mut();
            s.flushes += 1;
            s.flushes
        };
        if self.st.borrow().ffail.map(|w| n == w).unwrap_or(false) {
            let id = 200 + (n % 7) as u32;
            let mut s = self.st.borrow_mut();
            s.failed = Some((2, id));
            s.broken = true;
            return Err(C::Error::mk(id));
        }
        self.inner.flush()?;
        self.st.borrow_mut().dirty = false;
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), C::Error> {
        self.st.borrow_mut().starts += 1;
        let f = self.st.borrow().sfail;
        if let Some(id) = f {
            self.st.borrow_mut().failed = Some((0, id));
            return Err(C::Error::mk(id));
        }
        self.inner.on_session_start()
    }
}
impl<C: ConnectionExt> Hook<C>
where
    C::Error: ErrId,
{
    /// deliver `b` to the stub's end and read it back through the adapter under test
    fn through(&mut self, b: u8) -> Result<u8, C::Error> {
        let sock = !matches!(self.st.borrow().peer, Peer::Mem(_));
        if !matches!(self.inner.peek(), Ok(None)) {
            self.st.borrow_mut().bad = true;
        }
        self.st.borrow_mut().feed(b);
        let mut p = self.inner.peek()?;
        let mut tries = 0;
        while sock && p.is_none() && tries < 2000 {
            std::thread::sleep(std::time::Duration::from_millis(1));
            p = self.inner.peek()?;
            tries += 1;
        }
        if p != Some(b) {
            self.st.borrow_mut().bad = true;
        }
        let got = self.inner.read()?;
        if got != b {
            self.st.borrow_mut().bad = true;
        }
        Ok(got)
    }
}
impl<C: ConnectionExt> ConnectionExt for Hook<C>
where
    C::Error: ErrId,
{
    fn read(&mut self) -> Result<u8, C::Error> {
        // called by run_blocking while idle, or by the event loop while running
        match drive::next_read() {
            Ok(b) => self.through(b),
            Err(id) => Err(C::Error::mk(id)),
        }
    }
    fn peek(&mut self) -> Result<Option<u8>, C::Error> {
        self.inner.peek()
    }
}

pub fn unix_pair() -> (UnixStream, UnixStream) {
    UnixStream::pair().unwrap()
}
pub fn tcp_pair() -> (TcpStream, TcpStream) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (b, _) = l.accept().unwrap();
    b.set_nodelay(true).unwrap();
    b.set_read_timeout(Some(std::time::Duration::from_secs(10))).unwrap();
    (a, b)
}
pub fn cf(f: Option<(i32, u32)>) -> Vec<i32> {
    match f {
        None => vec![],
        Some((k, id)) => {
            let mut v = vec![k];
            v.extend(nb(id as u128));
            v
        }
    }
}
