------------------------------ MODULE MC_Block ------------------------------
(* The blocking driver: the life cycle with every way its environment (reads,
   waiting for the target, handling an interrupt) can go or fail. *)
EXTENDS MC
Rs(k, tid, n, m) == [k |-> k, st |-> FALSE, tid |-> tid, n |-> n, m |-> m, x |-> IF k \in {"Watch", "Catch"} THEN <<18, 52>> ELSE <<>>]
RsS(k, n) == [NoReason EXCEPT !.k = k, !.st = TRUE, !.n = n]
Blk(on) == [Cfg(on) EXCEPT !.blocking = 1]
MyConfigs == << Blk(Common \cup Resumable \cup {"multi", "catch", "hww"}), [Blk(Common \cup Resumable \cup Extended) EXCEPT !.threads = <<1>>, !.fs = 1],
                Blk(Common \cup Extended \cup {"resume", "multi"}), [Blk(Common \cup {"resume"}) EXCEPT !.threads = <<1>>, !.fs = 1, !.cap = 24], Blk(Common \cup {"multi"}) >>
MyPackets(cc, s) == IF s.rx.m # "R" THEN {} ELSE {B(x) : x \in {"?", "m1,2", "c", "s", "vCont;c", "vCont;s:2;c", "bc", "Hg2", "D", "k", "vKill;1", "QStartNoAckMode", "zz"}}
                    \cup (IF cc.cap < 100 THEN {B("Mxxxxxxxxxxxxxxxxxxxxxxxx")} ELSE {})
MyDepth == IF Thorough THEN 8 ELSE 4
MyRaw(cc, s) == {<<CTRLC>>, <<PLUS>>, <<MINUS>>, <<DOLLAR, 63>>}
MyReasons(cc, s) == IF cc.fs = 1 THEN {RsS("DoneStep", 0), RsS("Signal", 5), RsS("Exited", 7), RsS("Terminated", 9), RsS("SwBreak", 0), RsS("HwBreak", 0)}
                    ELSE {Rs("SwBreak", <<2>>, 0, 0), Rs("Exited", <<>>, 3, 0), Rs("Terminated", <<>>, 9, 0), Rs("Signal", <<>>, 11, 0), Rs("Catch", <<>>, 0, 0), Rs("HwBreak", <<2>>, 0, 0)}
MyData(cc, f, a) == StdData(cc, f, a)
MyErrs(cc, f) == SomeErrs(cc, f)
MyCount == 0
(* P24: the driver ends exactly on a disconnect, for its reason, or on an error *)
Alive0 == {"Idle", "Running", "CtrlC"}
P24Drive ==
  /\ S.t \in {"readerr", "waiterrc"} => X.err = "other" /\ X.pk = <<>> /\ X.calls = <<>>
  /\ S.t \in {"waiterrt", "irqerr"} => X.err = "target" /\ X.ed = ERRID /\ X.pk = <<>> /\ X.calls = <<>>
  /\ st'.mode \notin Alive0 => \/ X.err # "none"
                               \/ S.t \in {"stop", "irq"} /\ Terminal(S.rs)
                               \/ X.fam \in {"detach", "kill"}
                               \/ X.fam = "resume" /\ Terminal(gh.owe)
  /\ (S.t = "stop" /\ Terminal(S.rs)) => st'.mode = "Disc"
MyProps == [][P24Drive]_vars
=============================================================================
