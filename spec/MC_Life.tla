------------------------------ MODULE MC_Life ------------------------------
(* The life cycle: every order of resuming, stopping, interrupting, selecting
   threads, negotiating, killing, detaching and re-using the session. *)
EXTENDS MC

Rs(k, tid, n, m) == [k |-> k, st |-> FALSE, tid |-> tid, n |-> n, m |-> m, x |-> IF k \in {"Watch", "Catch"} THEN <<18, 52>> ELSE <<>>]
MyConfigs == <<
  Cfg(Common \cup Resumable \cup {"multi", "catch", "hww"}),
  Cfg(Common \cup Resumable \cup Extended \cup {"multi"}),
  [Cfg(Common \cup {"resume", "rcont"}) EXCEPT !.threads = <<1>>],
  Cfg(Common \cup {"multi", "sra"}) >>
MyPackets(cc, s) == {B(x) : x \in {"?", "m1,2", "g", "c", "s", "vCont;c", "vCont;s:2;c", "vCont;s", "bc", "bs", "Hg2", "Hc2", "Hc-1", "Hg0", "Hc0",
   "qC", "p1", "D", "k", "vKill;1", "QStartNoAckMode", "vAttach;5", "zz"}}
  \cup {B(":multiprocess+"), B(":multiprocess-")} \cup {B("qSupported:multiprocess+"), B("qSupported:xx")}
MyDepth == IF Thorough THEN 12 ELSE 4
MyRaw(cc, s) == {<<CTRLC>>, <<PLUS>>, <<MINUS>>}
MyReasons(cc, s) == {Rs("SwBreak", <<2>>, 0, 0), Rs("Exited", <<>>, 3, 0), Rs("Signal", <<>>, 11, 0), Rs("Terminated", <<>>, 9, 0),
                     Rs("Catch", <<>>, 0, 0), Rs("HwBreak", <<2>>, 0, 0)}
MyData(cc, f, a) == StdData(cc, f, a)
MyErrs(cc, f) == SomeErrs(cc, f)
MyCount == 0
MyProps == TRUE
=============================================================================
