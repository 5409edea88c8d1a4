----------------------------- MODULE MC_Threads -----------------------------
(* Thread ids in every syntax, thread lists of every kind, and the operations
   that act on the selected thread. *)
EXTENDS Catalog
MaxId == <<255, 255, 255, 255, 255, 255, 255, 255>>
Base == Common \cup {"resume", "step", "multi", "sra", "extra", "rstep", "rcont"}
Ext == Base \cup {"ext", "curpid"}
MyConfigs == << Cfg(Ext), [Cfg(Base) EXCEPT !.threads = <<3, 1>>], [Cfg(Ext \cup {"defalive"}) EXCEPT !.threads = <<4660, 2>>],
                Cfg(Ext \ {"multi"}), [Cfg(Ext \ {"curpid"}) EXCEPT !.threads = <<>>], [Cfg(Base \cup {"defalive"}) EXCEPT !.threads = <<>>],
                Cfg(Common), [Cfg(Ext \ {"extra"}) EXCEPT !.threads = <<16>>] >>
Ids == {"0", "-1", "1", "2", "3", "1234", "7fffffffffffffff", "ffffffffffffffff", "10000000000000000", "p1.2", "p1.0", "p1.-1", "p1", "p0.1",
        "p-1.-1", "p-1", "pA.B", "", "p", "p1.", "p.1", "x", "00", "03", "p1.2.3", "-2", "+1", " 1", "P1.2", "1.2", "p1.p2"}
Sel == {B("Hg") \o B(i) : i \in Ids} \cup {B("Hc") \o B(i) : i \in Ids} \cup {B("H"), B("Hm1"), B("Hx2")}
Ask == {B("T") \o B(i) : i \in Ids} \cup {B("qThreadExtraInfo,") \o B(i) : i \in Ids}
       \cup {B(x) : x \in {"qThreadExtraInfo", "qThreadExtraInfo;1", "qfThreadInfo", "qsThreadInfo", "qfThreadInfo1", "qsThreadInfo1", "qC", "qC1", "?", "??"}}
Use == {B(x) : x \in {"g", "G00", "p1", "P1=0102", "m1,2", "M1,1:aa", "X1,1:a", "bs", "c", "s", "qSupported:multiprocess+", "qSupported:multiprocess-"}}
(* commands which must leave the selection alone, and those which show it *)
Other == {B(x) : x \in {"vAttach;5", "vRun;61", "qAttached:1", "!", "R00", "Z0,1,1", "qRcmd,00", "QStartNoAckMode", "vCont?", "QTinit", "QTFrame:1", "vFile:setfs:1", "QCatchSyscalls:0",
          "qXfer:auxv:read::0,10", "zz", "QEnvironmentReset", "qSupported:multiprocess+", "qC", "?", "T3", "T0", "qThreadExtraInfo,2", "Hg0", "Hgx", "Hm4"}}
Show == {B(x) : x \in {"g", "p1", "m1,2", "M1,1:aa", "X1,1:a", "P1=0102", "G00", "bs", "c", "s", "vCont;s:5", "vCont;c"}}
Pick0 == {B(x) : x \in {"Hg2", "Hg-1", "Hc2", "Hc-1", "Hc0", "Hcp1.5", "Hgp7.5"}}
Fresh(s) == s.mem = <<1>> /\ s.res = [k |-> "id", v |-> <<1>>] /\ ~s.mp /\ ~s.noack
MyPackets(cc, s) == CASE s.mode = "Running" -> {B("Hg2"), B("g"), B("Hc-1")}
                      [] Fresh(s) -> Sel \cup Ask \cup Use
                      [] OTHER -> Pick0 \cup Show \cup Other
MyRaw(cc, s) == IF s.mode = "Running" THEN {<<CTRLC>>} ELSE {}
MyReasons(cc, s) == {[NoReason EXCEPT !.k = "SignalThread", !.tid = <<3>>, !.n = 5], [NoReason EXCEPT !.k = "SwBreak", !.tid = <<3>>],
                     [NoReason EXCEPT !.k = "Signal", !.n = 2], [NoReason EXCEPT !.k = "DoneStep", !.st = TRUE], [NoReason EXCEPT !.k = "Catch", !.x = <<9>>]}
MyData(cc, f, a) ==
  CASE f = "list_active_threads" -> StdData(cc, f, a) \cup (IF Len(cc.threads) = 2 THEN { << MaxId, <<5>>, <<6>> >>, <<>> } ELSE {})
    [] f = "current_active_pid" -> { << <<7>> >> }
    [] f = "thread_extra_info" -> {Buf(<<>>), Buf(<<65, 0, 255>>)}
    [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == IF f \in {"list_active_threads", "current_active_pid", "is_thread_alive", "thread_extra_info"} THEN {EFatal} ELSE {}
MyDepth == IF Thorough THEN 5 ELSE 4
MyCount == 0
(* P22: alive means listed, for targets which leave it to the default *)
P22Alive ==
  (S.t = "pkt" /\ S.v # <<>> /\ S.v[1] = 84 /\ X.err = "none" /\ c.f.multi /\ c.f.defalive) =>
    LET l == {i \in 1..Len(KK) : KK[i].f = "list_active_threads"}
        ts == KK[CHOOSE i \in l : TRUE].v
        id == HexNum(SelText(<<72>> \o S.v)).v
    IN l # {} /\ (X.pk[1] = B("OK") <=> id \in Range(ts))
MyProps == [][P22Alive]_vars
=============================================================================
