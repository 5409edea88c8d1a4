//! Dumps the named protocol constants of gdbstub: one JSON observation per line.
use gdbstub::common::Signal;
use gdbstub::target::ext::host_io::*;
use std::io::ErrorKind;

fn line(o: &mut String, k: &str, rows: &[(String, u64, String)]) {
    let q = |f: &dyn Fn(&(String, u64, String)) -> String| rows.iter().map(f).collect::<Vec<_>>().join(",");
    o.push_str(&format!(
        "{{\"id\":\"{k}\",\"k\":\"{k}\",\"names\":[{}],\"nums\":[{}],\"says\":[{}]}}\n",
        q(&|r| format!("\"{}\"", r.0)),
        q(&|r| r.1.to_string()),
        q(&|r| format!("\"{}\"", r.2))
    ));
}
pub fn dump() -> String {
    let mut o = String::new();
    macro_rules! signals {
        ($($n:ident)*) => { vec![$((stringify!($n).to_string(), Signal::$n.0 as u64, format!("{}", Signal::$n).split(" - ").next().unwrap().to_string())),*] };
    }
    macro_rules! errnos {
        ($($n:ident)*) => { vec![$((stringify!($n).to_string(), HostIoErrno::$n as u64, format!("{:?}", HostIoErrno::$n))),*] };
    }
    macro_rules! bits {
        ($t:ident: $($n:ident)*) => { vec![$((stringify!($n).to_string(), $t::$n.bits() as u64, stringify!($n).to_string())),*] };
    }
    macro_rules! kinds {
        ($($n:ident)*) => { vec![$({
            let e: HostIoError<()> = std::io::Error::from(ErrorKind::$n).into();
            match e {
                HostIoError::Errno(e) => (stringify!($n).to_string(), 0, format!("{e:?}")),
                HostIoError::Fatal(()) => (stringify!($n).to_string(), 0, "fatal".to_string()),
            }
        }),*] };
    }
    let signals = signals!(SIGZERO SIGHUP SIGINT SIGQUIT SIGILL SIGTRAP SIGABRT SIGEMT SIGFPE SIGKILL SIGBUS SIGSEGV SIGSYS SIGPIPE SIGALRM SIGTERM SIGURG SIGSTOP SIGTSTP SIGCONT SIGCHLD SIGTTIN SIGTTOU SIGIO SIGXCPU SIGXFSZ SIGVTALRM SIGPROF SIGWINCH SIGLOST SIGUSR1 SIGUSR2 SIGPWR SIGPOLL SIGWIND SIGPHONE SIGWAITING SIGLWP SIGDANGER SIGGRANT SIGRETRACT SIGMSG SIGSOUND SIGSAK SIGPRIO SIG33 SIG34 SIG35 SIG36 SIG37 SIG38 SIG39 SIG40 SIG41 SIG42 SIG43 SIG44 SIG45 SIG46 SIG47 SIG48 SIG49 SIG50 SIG51 SIG52 SIG53 SIG54 SIG55 SIG56 SIG57 SIG58 SIG59 SIG60 SIG61 SIG62 SIG63 SIGCANCEL SIG32 SIG64 SIG65 SIG66 SIG67 SIG68 SIG69 SIG70 SIG71 SIG72 SIG73 SIG74 SIG75 SIG76 SIG77 SIG78 SIG79 SIG80 SIG81 SIG82 SIG83 SIG84 SIG85 SIG86 SIG87 SIG88 SIG89 SIG90 SIG91 SIG92 SIG93 SIG94 SIG95 SIG96 SIG97 SIG98 SIG99 SIG100 SIG101 SIG102 SIG103 SIG104 SIG105 SIG106 SIG107 SIG108 SIG109 SIG110 SIG111 SIG112 SIG113 SIG114 SIG115 SIG116 SIG117 SIG118 SIG119 SIG120 SIG121 SIG122 SIG123 SIG124 SIG125 SIG126 SIG127 SIGINFO UNKNOWN INTERNAL_DEFAULT EXC_BAD_ACCESS EXC_BAD_INSTRUCTION EXC_ARITHMETIC EXC_EMULATION EXC_SOFTWARE EXC_BREAKPOINT SIGLIBRT);
    line(&mut o, "signals", &signals);
    line(&mut o, "errnos", &errnos!(EPERM ENOENT EINTR EBADF EACCES EFAULT EBUSY EEXIST ENODEV ENOTDIR EISDIR EINVAL ENFILE EMFILE EFBIG ENOSPC ESPIPE EROFS ENAMETOOLONG EUNKNOWN));
    line(&mut o, "flags", &bits!(HostIoOpenFlags: O_RDONLY O_WRONLY O_RDWR O_APPEND O_CREAT O_TRUNC O_EXCL));
    line(&mut o, "modes", &bits!(HostIoOpenMode: S_IFREG S_IFDIR S_IRUSR S_IWUSR S_IXUSR S_IRGRP S_IWGRP S_IXGRP S_IROTH S_IWOTH S_IXOTH));
    line(&mut o, "ioerrors", &kinds!(PermissionDenied NotFound Interrupted AlreadyExists InvalidInput ConnectionRefused BrokenPipe TimedOut UnexpectedEof Other WouldBlock WriteZero InvalidData));
    o
}
