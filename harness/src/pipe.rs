//! Drives the library's connections (sockets, boxed and borrowed trait objects, the default methods of the trait)
//! through scripts of operations of both ends, and records what each of them did.
use crate::conn::{tcp_pair, unix_pair, CErr};
use crate::util::*;
use gdbstub::conn::{Connection, ConnectionExt};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::rc::Rc;
use std::sync::mpsc;
use std::time::Duration;

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const i32, len: u32) -> i32;
}
fn shrink(fd: i32) {
    let v = 4096i32;
    unsafe {
        setsockopt(fd, 1, 7, &v, 4); // SO_SNDBUF
    }
}

/// a connection which implements only what it has to, and whose `fail`th write fails
#[derive(Default)]
struct Log {
    inq: VecDeque<u8>,
    out: Vec<u8>,
    writes: usize,
    fail: usize,
    flushes: i32,
    starts: i32,
}
struct Plain(Rc<RefCell<Log>>);
impl Connection for Plain {
    type Error = CErr;
    fn write(&mut self, b: u8) -> Result<(), CErr> {
        let mut l = self.0.borrow_mut();
        l.writes += 1;
        if l.writes == l.fail {
            return Err(CErr(l.fail as u32));
        }
        l.out.push(b);
        Ok(())
    }
    fn flush(&mut self) -> Result<(), CErr> {
        self.0.borrow_mut().flushes += 1;
        Ok(())
    }
    fn on_session_start(&mut self) -> Result<(), CErr> {
        self.0.borrow_mut().starts += 1;
        Ok(())
    }
}
impl ConnectionExt for Plain {
    fn read(&mut self) -> Result<u8, CErr> {
        self.0.borrow_mut().inq.pop_front().ok_or(CErr(77))
    }
    fn peek(&mut self) -> Result<Option<u8>, CErr> {
        Ok(self.0.borrow().inq.front().copied())
    }
}
/// like `Plain` without hooking the start of a session
struct Bare(Plain);
impl Connection for Bare {
    type Error = CErr;
    fn write(&mut self, b: u8) -> Result<(), CErr> {
        self.0.write(b)
    }
    fn flush(&mut self) -> Result<(), CErr> {
        self.0.flush()
    }
}
impl ConnectionExt for Bare {
    fn read(&mut self) -> Result<u8, CErr> {
        self.0.read()
    }
    fn peek(&mut self) -> Result<Option<u8>, CErr> {
        self.0.peek()
    }
}

trait Sock: Read + Write + Send + AsRawFd {
    fn dup(&self) -> Box<dyn Sock>;
    fn timeout(&self, ms: u64);
    fn nodelay(&self) -> Option<bool>;
    fn close(&self);
}
macro_rules! sock {
    ($t:ty, $nd:expr) => {
        impl Sock for $t {
            fn dup(&self) -> Box<dyn Sock> {
                Box::new(self.try_clone().unwrap())
            }
            fn timeout(&self, ms: u64) {
                self.set_read_timeout(Some(Duration::from_millis(ms))).unwrap()
            }
            fn nodelay(&self) -> Option<bool> {
                $nd(self)
            }
            fn close(&self) {
                self.shutdown(std::net::Shutdown::Both).unwrap()
            }
        }
    };
}
sock!(std::net::TcpStream, |s: &std::net::TcpStream| Some(s.nodelay().unwrap()));
sock!(std::os::unix::net::UnixStream, |_| None);

enum Far {
    Sock { peer: Box<dyn Sock>, near: Box<dyn Sock> },
    Log(Rc<RefCell<Log>>),
}

fn segs(b: &[u8]) -> Vec<i32> {
    let mut v: Vec<i32> = vec![];
    for x in b {
        let n = v.len();
        if n > 0 && (v[n - 2] + v[n - 1]) % 251 == *x as i32 {
            v[n - 1] += 1
        } else if n < 10 {
            v.extend([*x as i32, 1])
        }
    }
    v
}
/// `n` bytes, or as many as come until nothing does for a while
fn take(s: &mut dyn Sock, n: usize, patience: u64) -> Vec<u8> {
    let mut v = vec![0; n];
    let mut got = 0;
    s.timeout(patience);
    while got < n {
        match s.read(&mut v[got..]) {
            Ok(0) | Err(_) => break,
            Ok(k) => got += k,
        }
    }
    v.truncate(got);
    v
}

type Out = (i32, Vec<i32>);
struct Run {
    far: Far,
    wr: usize, // handed to the connection
    ok: usize, // of which it accepted
    rd: usize, // seen at the other end
    unread: usize,
}
impl Run {
    fn recv(&mut self) -> Vec<i32> {
        match &mut self.far {
            Far::Sock { peer, .. } => {
                let mut b = take(&mut **peer, self.ok.saturating_sub(self.rd), 1000);
                self.rd += b.len();
                let more = take(&mut **peer, 1, 1);
                self.rd += more.len();
                b.extend(more);
                segs(&b)
            }
            Far::Log(l) => {
                let mut l = l.borrow_mut();
                self.rd += l.out.len();
                let b = std::mem::take(&mut l.out);
                segs(&b)
            }
        }
    }
    fn write<E>(&mut self, n: usize, all: bool, id: fn(E) -> i32, w: &mut dyn FnMut(Option<u8>, &[u8]) -> Result<(), E>) -> Out {
        let r = self.write1(n, all, id, w);
        if let Far::Log(l) = &self.far {
            self.wr = self.rd + l.borrow().out.len();
            self.ok = self.wr
        }
        r
    }
    fn write1<E>(&mut self, n: usize, all: bool, id: fn(E) -> i32, w: &mut dyn FnMut(Option<u8>, &[u8]) -> Result<(), E>) -> Out {
        let data: Vec<u8> = (0..n).map(|i| ((self.wr + i) % 251) as u8).collect();
        if all {
            return match w(None, &data) {
                Ok(()) => {
                    self.wr += n;
                    self.ok += n;
                    (0, vec![])
                }
                Err(e) => (2, vec![id(e)]),
            };
        }
        for b in data {
            match w(Some(b), &[]) {
                Ok(()) => {
                    self.wr += 1;
                    self.ok += 1;
                }
                Err(e) => return (2, vec![id(e)]),
            }
        }
        (0, vec![])
    }
    fn op<E>(&mut self, o: i32, a: i32, id: fn(E) -> i32, w: &mut dyn Connection<Error = E>) -> Option<Out> {
        Some(match o {
            0 => {
                match &mut self.far {
                    Far::Sock { peer, .. } => peer.write_all(&[a as u8]).unwrap(),
                    Far::Log(l) => l.borrow_mut().inq.push_back(a as u8),
                }
                self.unread += 1;
                (0, vec![])
            }
            1 => {
                if let Far::Sock { peer, .. } = &self.far {
                    peer.close()
                }
                (0, vec![])
            }
            5 | 6 => self.write(a as usize, o == 6, id, &mut |b, d| match b {
                Some(b) => w.write(b),
                None => w.write_all(d),
            }),
            7 => match w.flush() {
                Ok(()) => (0, if let Far::Log(l) = &self.far { vec![l.borrow().flushes] } else { vec![] }),
                Err(e) => (2, vec![id(e)]),
            },
            8 => match w.on_session_start() {
                Ok(()) => (
                    0,
                    match &self.far {
                        Far::Sock { near, .. } => near.nodelay().map(|x| x as i32).into_iter().collect(),
                        Far::Log(l) => vec![l.borrow().starts],
                    },
                ),
                Err(e) => (2, vec![id(e)]),
            },
            9 => (0, self.recv()),
            10 | 11 => {
                // the other end is slow to read
                let n = a as usize;
                let reader = match &self.far {
                    Far::Sock { peer, .. } => {
                        let mut p = peer.dup();
                        let k = self.ok.saturating_sub(self.rd) + n;
                        Some(std::thread::spawn(move || {
                            std::thread::sleep(Duration::from_millis(15));
                            take(&mut *p, k, 1500)
                        }))
                    }
                    _ => None,
                };
                let r = self.write(n, o == 11, id, &mut |b, d| match b {
                    Some(b) => w.write(b),
                    None => w.write_all(d),
                });
                match reader {
                    Some(h) => {
                        let b = h.join().unwrap();
                        self.rd += b.len();
                        (r.0, segs(&b))
                    }
                    None => (r.0, self.recv()),
                }
            }
            _ => return None,
        })
    }
    fn rop<E>(&mut self, o: i32, a: i32, id: fn(E) -> i32, c: &mut dyn ConnectionExt<Error = E>) -> Option<Out> {
        Some(match o {
            2 => {
                let mut r = c.peek();
                let mut n = 0;
                while self.unread > 0 && matches!(r, Ok(None)) && n < 1000 {
                    std::thread::sleep(Duration::from_millis(1));
                    r = c.peek();
                    n += 1;
                }
                match r {
                    Ok(Some(b)) => (0, vec![b as i32]),
                    Ok(None) => (1, vec![]),
                    Err(_) => (2, vec![]),
                }
            }
            3 | 4 => {
                let mut h = None;
                if o == 4 {
                    match &mut self.far {
                        Far::Sock { peer, .. } => {
                            let mut p = peer.dup();
                            h = Some(std::thread::spawn(move || {
                                std::thread::sleep(Duration::from_millis(6));
                                p.write_all(&[a as u8]).unwrap()
                            }))
                        }
                        Far::Log(l) => l.borrow_mut().inq.push_back(a as u8),
                    }
                    self.unread += 1;
                }
                let r = c.read();
                if let Some(h) = h {
                    h.join().unwrap()
                }
                match r {
                    Ok(b) => {
                        self.unread = self.unread.saturating_sub(1);
                        (0, vec![b as i32])
                    }
                    Err(e) => {
                        let _ = id(e);
                        (2, vec![])
                    }
                }
            }
            _ => return None,
        })
    }
}

fn script(via: i32, fail: usize, ops: &[(i32, i32)], tell: &dyn Fn(Out)) {
    fn io(e: std::io::Error) -> i32 {
        e.raw_os_error().unwrap_or(-1)
    }
    fn ce(e: CErr) -> i32 {
        e.0 as i32
    }
    macro_rules! socks {
        ($pair:expr) => {{
            let (near, peer) = $pair;
            shrink(near.as_raw_fd());
            let far = Far::Sock { peer: Box::new(peer), near: near.dup() };
            (near, Run { far, wr: 0, ok: 0, rd: 0, unread: 0 })
        }};
    }
    macro_rules! rw {
        ($c:expr, $run:expr, $id:expr) => {
            for (o, a) in ops {
                let r = match $run.rop(*o, *a, $id, &mut Via($c)) {
                    Some(r) => r,
                    None => $run.op(*o, *a, $id, &mut Via($c)).unwrap(),
                };
                tell(r)
            }
        };
    }
    macro_rules! wo {
        ($c:expr, $run:expr, $id:expr) => {
            for (o, a) in ops {
                tell($run.op(*o, *a, $id, &mut Via($c)).unwrap())
            }
        };
    }
    /// the connection under test, named only by its traits
    struct Via<'a, C>(&'a mut C);
    impl<C: Connection> Connection for Via<'_, C> {
        type Error = C::Error;
        fn write(&mut self, b: u8) -> Result<(), C::Error> {
            self.0.write(b)
        }
        fn write_all(&mut self, b: &[u8]) -> Result<(), C::Error> {
            self.0.write_all(b)
        }
        fn flush(&mut self) -> Result<(), C::Error> {
            self.0.flush()
        }
        fn on_session_start(&mut self) -> Result<(), C::Error> {
            self.0.on_session_start()
        }
    }
    impl<C: ConnectionExt> ConnectionExt for Via<'_, C> {
        fn read(&mut self) -> Result<u8, C::Error> {
            self.0.read()
        }
        fn peek(&mut self) -> Result<Option<u8>, C::Error> {
            self.0.peek()
        }
    }
    let plain = || {
        let l = Rc::new(RefCell::new(Log { fail, ..Default::default() }));
        (Plain(l.clone()), Run { far: Far::Log(l), wr: 0, ok: 0, rd: 0, unread: 0 })
    };
    match via {
        0 => {
            let (mut c, mut r) = socks!(tcp_pair());
            rw!(&mut c, r, io)
        }
        1 => {
            let (mut c, mut r) = socks!(unix_pair());
            rw!(&mut c, r, io)
        }
        2 => {
            let (mut c, mut r) = socks!(unix_pair());
            let mut d: &mut dyn ConnectionExt<Error = std::io::Error> = &mut c;
            rw!(&mut d, r, io)
        }
        3 => {
            let (c, mut r) = socks!(tcp_pair());
            let mut d: Box<dyn ConnectionExt<Error = std::io::Error>> = Box::new(c);
            rw!(&mut d, r, io)
        }
        4 => {
            let (mut c, mut r) = socks!(tcp_pair());
            let mut d: &mut dyn Connection<Error = std::io::Error> = &mut c;
            wo!(&mut d, r, io)
        }
        5 => {
            let (c, mut r) = socks!(unix_pair());
            let mut d: Box<dyn Connection<Error = std::io::Error>> = Box::new(c);
            wo!(&mut d, r, io)
        }
        6 => {
            let (c, mut r) = plain();
            let mut c = Bare(c);
            rw!(&mut c, r, ce)
        }
        7 => {
            let (mut c, mut r) = plain();
            let mut d: &mut dyn ConnectionExt<Error = CErr> = &mut c;
            rw!(&mut d, r, ce)
        }
        8 => {
            let (c, mut r) = plain();
            let mut d: Box<dyn ConnectionExt<Error = CErr>> = Box::new(c);
            rw!(&mut d, r, ce)
        }
        9 => {
            let (mut c, mut r) = plain();
            let mut d: &mut dyn Connection<Error = CErr> = &mut c;
            wo!(&mut d, r, ce)
        }
        _ => {
            let (c, mut r) = plain();
            let mut d: Box<dyn Connection<Error = CErr>> = Box::new(c);
            wo!(&mut d, r, ce)
        }
    }
}

/// one line per script: what each operation did: [0 done, 1 nothing there, 2 error, 3 did not return, 4 panic; values]
pub fn run(j: &J) -> String {
    let via = j.get("via").int() as i32;
    let fail = j.get("fail").int() as usize;
    let ops: Vec<(i32, i32)> = j.get("ops").arr().iter().map(|o| (o.ints()[0], o.ints()[1])).collect();
    let (tx, rx) = mpsc::channel::<Option<Out>>();
    let (n, list) = (ops.len(), ops.clone());
    std::thread::spawn(move || {
        let t2 = tx.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| script(via, fail, &ops, &|o| drop(t2.send(Some(o))))));
        if r.is_err() {
            let _ = tx.send(None);
        }
    });
    let mut res: Vec<Out> = vec![];
    while res.len() < n {
        match rx.recv_timeout(Duration::from_secs(8)) {
            Ok(Some(o)) => res.push(o),
            Ok(None) => {
                res.push((4, vec![]));
                break;
            }
            Err(_) => {
                res.push((3, vec![]));
                break;
            }
        }
    }
    let show = |v: &[i32]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut s = format!("{{\"id\":\"{}\",\"via\":{via},\"fail\":{fail},\"ops\":[", j.get("id").str());
    s.push_str(&list.iter().map(|o| format!("[{},{}]", o.0, o.1)).collect::<Vec<_>>().join(","));
    s.push_str("],\"res\":[");
    s.push_str(&res.iter().map(|o| format!("{{\"r\":{},\"v\":[{}]}}", o.0, show(&o.1))).collect::<Vec<_>>().join(","));
    s.push_str("]}\n");
    s
}
