------------------------------- MODULE Tables -------------------------------
(* The numbers that the protocol gives to signals (signals.def), host I/O
   errors, open flags and file modes, and how the library's named constants
   have to use them.  Every line of TRACE is one observed table. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.TRACE)

\* ---- signals: include/gdb/signals.def
Low == << "SIGZERO", "SIGHUP", "SIGINT", "SIGQUIT", "SIGILL", "SIGTRAP", "SIGABRT", "SIGEMT", "SIGFPE", "SIGKILL", "SIGBUS",
          "SIGSEGV", "SIGSYS", "SIGPIPE", "SIGALRM", "SIGTERM", "SIGURG", "SIGSTOP", "SIGTSTP", "SIGCONT", "SIGCHLD", "SIGTTIN",
          "SIGTTOU", "SIGIO", "SIGXCPU", "SIGXFSZ", "SIGVTALRM", "SIGPROF", "SIGWINCH", "SIGLOST", "SIGUSR1", "SIGUSR2",
          "SIGPWR", "SIGPOLL", "SIGWIND", "SIGPHONE", "SIGWAITING", "SIGLWP", "SIGDANGER", "SIGGRANT", "SIGRETRACT", "SIGMSG",
          "SIGSOUND", "SIGSAK", "SIGPRIO" >>
High == << "SIGINFO", "UNKNOWN", "INTERNAL_DEFAULT", "EXC_BAD_ACCESS", "EXC_BAD_INSTRUCTION", "EXC_ARITHMETIC",
           "EXC_EMULATION", "EXC_SOFTWARE", "EXC_BREAKPOINT", "SIGLIBRT" >>
RtName(k) == "SIG" \o ToString(k)
RtNum(k) == IF k = 32 THEN 77 ELSE IF k < 64 THEN k + 12 ELSE k + 14
Signals == [n \in {Low[i] : i \in 1..Len(Low)} |-> (CHOOSE i \in 1..Len(Low) : Low[i] = n) - 1]
           @@ [n \in {RtName(k) : k \in 32..127} |-> RtNum(CHOOSE k \in 32..127 : RtName(k) = n)]
           @@ ("SIGCANCEL" :> 76)
           @@ [n \in {High[i] : i \in 1..Len(High)} |-> (CHOOSE i \in 1..Len(High) : High[i] = n) + 141]
\* every number up to the last one is used exactly once
SignalsOk == {Signals[n] : n \in DOMAIN Signals} = 0..151 /\ Cardinality(DOMAIN Signals) = 152

\* ---- host I/O: the protocol's own numbers, not those of any system
Errnos == ("EPERM" :> 1) @@ ("ENOENT" :> 2) @@ ("EINTR" :> 4) @@ ("EBADF" :> 9) @@ ("EACCES" :> 13) @@ ("EFAULT" :> 14)
          @@ ("EBUSY" :> 16) @@ ("EEXIST" :> 17) @@ ("ENODEV" :> 19) @@ ("ENOTDIR" :> 20) @@ ("EISDIR" :> 21) @@ ("EINVAL" :> 22)
          @@ ("ENFILE" :> 23) @@ ("EMFILE" :> 24) @@ ("EFBIG" :> 27) @@ ("ENOSPC" :> 28) @@ ("ESPIPE" :> 29) @@ ("EROFS" :> 30)
          @@ ("ENAMETOOLONG" :> 91) @@ ("EUNKNOWN" :> 9999)
Flags == ("O_RDONLY" :> 0) @@ ("O_WRONLY" :> 1) @@ ("O_RDWR" :> 2) @@ ("O_APPEND" :> 8) @@ ("O_CREAT" :> 512)
         @@ ("O_TRUNC" :> 1024) @@ ("O_EXCL" :> 2048)
Modes == ("S_IFREG" :> 32768) @@ ("S_IFDIR" :> 16384) @@ ("S_IRUSR" :> 256) @@ ("S_IWUSR" :> 128) @@ ("S_IXUSR" :> 64)
         @@ ("S_IRGRP" :> 32) @@ ("S_IWGRP" :> 16) @@ ("S_IXGRP" :> 8) @@ ("S_IROTH" :> 4) @@ ("S_IWOTH" :> 2) @@ ("S_IXOTH" :> 1)
\* permission bits are disjoint, so that any mode is the sum of its parts
ModesOk == \A m, n \in DOMAIN Modes : m # n => Modes[m] # Modes[n]
\* what a std I/O error becomes: the error the protocol has for it, otherwise unknown
IoError(kind) == CASE kind = "PermissionDenied" -> "EPERM" [] kind = "NotFound" -> "ENOENT" [] kind = "Interrupted" -> "EINTR"
                   [] kind = "AlreadyExists" -> "EEXIST" [] kind = "InvalidInput" -> "EINVAL" [] OTHER -> "EUNKNOWN"

Same(t, e) == {e.names[i] : i \in {j \in 1..Len(e.names) : e.names[j] \notin DOMAIN t \/ e.nums[j] # t[e.names[j]] \/ e.says[j] # e.names[j]}}
              \cup (DOMAIN t \ {e.names[i] : i \in 1..Len(e.names)})
Judge(e) == CASE e.k = "signals" -> Same(Signals, e)
              [] e.k = "errnos" -> Same(Errnos, e)
              [] e.k = "flags" -> Same(Flags, e)
              [] e.k = "modes" -> Same(Modes, e)
              [] e.k = "ioerrors" -> {e.names[i] : i \in {j \in 1..Len(e.names) : e.says[j] # IoError(e.names[j])}}

VARIABLES at, bad
Init == at \in 1..Len(Obs) /\ bad = Judge(Obs[at])
Next == FALSE /\ UNCHANGED <<at, bad>>
Conforms == \A t \in bad : PrintT("MISMATCH " \o Obs[at].id \o " 1 " \o Obs[at].k \o " " \o t)
ASSUME SignalsOk /\ ModesOk /\ Len(Obs) = 5
=============================================================================
