------------------------------ MODULE MC_Stops ------------------------------
(* Every kind of stop, in every form, on targets with and without the feature
   it needs; at once, after a Ctrl-C, and deferred. *)
EXTENDS Catalog
Base == Common \cup {"resume", "step", "multi"}
Full == Base \cup {"hw", "hww", "rcont", "rstep", "catch", "ext", "curpid"}
MyConfigs == << Cfg(Full), Cfg(Base), Cfg(Full \ {"multi"}), Cfg(Full \ {"curpid", "rle"}), Cfg((Full \ {"bp"})), Cfg(Full \ {"sw"}),
                Cfg(Full \ {"rcont"}), Cfg(Full \ {"rstep"}), [Cfg(Base \cup {"hw"}) EXCEPT !.uw = 1], [Cfg(Base \cup {"hww", "catch"}) EXCEPT !.uw = 16],
                Cfg((Full \cup {"sra"}) \ {"resume"}), [Cfg(Full) EXCEPT !.uw = 4, !.threads = <<>>] >>
Big == <<127, 255, 255, 255, 255, 255, 255, 255>>
R0(k, one, tid, n, m, x) == [k |-> k, st |-> one, tid |-> tid, n |-> n, m |-> m, x |-> x]
(* the forms of the thread: of the single-thread type, or a thread of the multi-thread type *)
Forms == { <<TRUE, <<1>> >>, <<FALSE, <<2>> >>, <<FALSE, Big>> }
Opt == Forms \cup { <<TRUE, <<>> >>, <<FALSE, <<>> >> }
Xs(cc) == { <<>>, <<7>>, [i \in 1..cc.uw |-> 255] }
AllReasons(cc) ==
  {R0("DoneStep", f, <<1>>, 0, 0, <<>>) : f \in BOOLEAN}
  \cup {R0(k, FALSE, <<2>>, n, 0, <<>>) : k \in {"Exited", "Terminated", "Signal"}, n \in {0, 2, 5, 9, 15, 16, 200, 255}}
  \cup {R0("SignalThread", f[1], f[2], n, 0, <<>>) : f \in Forms, n \in {0, 11, 255}}
  \cup {R0(k, f[1], f[2], 0, 0, <<>>) : k \in {"SwBreak", "HwBreak"}, f \in Forms}
  \cup {R0("Watch", f[1], f[2], 0, m, x) : f \in Forms, m \in 0..2, x \in Xs(cc)}
  \cup {R0("ReplayLog", f[1], f[2], 0, m, <<>>) : f \in Opt, m \in 0..1}
  \cup {R0("Catch", f[1], f[2], 0, m, x) : f \in Opt, m \in 0..1, x \in Xs(cc)}
Some0(cc) == {R0("DoneStep", FALSE, <<2>>, 0, 0, <<>>), R0("Exited", FALSE, <<2>>, 9, 0, <<>>), R0("Terminated", FALSE, <<2>>, 9, 0, <<>>),
              R0("Watch", FALSE, <<2>>, 0, 1, <<7>>), R0("SwBreak", FALSE, Big, 0, 0, <<>>), R0("HwBreak", TRUE, <<1>>, 0, 0, <<>>),
              R0("ReplayLog", FALSE, <<>>, 0, 1, <<>>), R0("Catch", FALSE, <<2>>, 0, 0, <<7>>), R0("Signal", FALSE, <<2>>, 2, 0, <<>>)}
MyPackets(cc, s) == IF s.mode = "Running" THEN {} ELSE {B("c"), B("qSupported:multiprocess+"), B("?"), B("m1,1"), B("bs"), B("Hg5")}
MyRaw(cc, s) == {<<CTRLC>>}
MyReasons(cc, s) == IF s.mode = "Running" \/ s.from = "Running" THEN AllReasons(cc) ELSE Some0(cc)
MyData(cc, f, a) == IF f = "current_active_pid" THEN { << <<7>> >>, << Big >> } ELSE StdData(cc, f, a)
MyErrs(cc, f) == IF f = "current_active_pid" THEN {EFatal} ELSE {}
MyDepth == IF Thorough THEN 5 ELSE 4
MyCount == 0

(* what the report says, written out reason by reason *)
Thr(pid) == LET r == S.rs
                t == IF r.st THEN <<1>> ELSE r.tid
            IN IF r.tid = <<>> \/ (r.st /\ r.k \in {"ReplayLog", "Catch"}) THEN <<>>
               ELSE B("thread:") \o (IF st.mp THEN B("p") \o NumHex(pid) \o B(".") ELSE <<>>) \o NumHex(t) \o B(";")
Two(n) == HexOf(<<n>>)
Says(r, pid) ==
  LET th == Thr(pid)
  IN CASE r.k = "DoneStep" -> B("S05")
       [] r.k = "Exited" -> B("W") \o Two(r.n)
       [] r.k = "Terminated" -> B("X") \o Two(r.n)
       [] r.k = "Signal" -> B("S") \o Two(r.n)
       [] r.k = "SignalThread" -> B("T") \o Two(r.n) \o th
       [] r.k = "SwBreak" -> B("T05") \o th \o B("swbreak:;")
       [] r.k = "HwBreak" -> B("T05") \o th \o B("hwbreak:;")
       [] r.k = "Watch" -> B("T05") \o th \o B(<<"watch:", "rwatch:", "awatch:">>[1 + r.m]) \o NumHex(r.x) \o B(";")
       [] r.k = "ReplayLog" -> B("T05") \o th \o B(<<"replaylog:begin;", "replaylog:end;">>[1 + r.m])
       [] OTHER -> B("T05") \o th \o B(<<"syscall_entry:", "syscall_return:">>[1 + r.m]) \o NumHex(r.x) \o B(";")
P07Says ==
  ((S.t = "stop" \/ (S.t = "irq" /\ st.from = "Running" /\ S.rs.k # "None")) /\ X.err = "none") =>
    LET p == {i \in 1..Len(KK) : KK[i].f = "current_active_pid"}
        pid == IF p = {} THEN <<1>> ELSE KK[CHOOSE i \in p : TRUE].v[1]
    IN X.pk = << Says(S.rs, pid) >>
MyProps == [][P07Says]_vars
=============================================================================
