------------------------------ MODULE Session ------------------------------
(* A debugging session: which command a packet is, and how the session moves
   between its states.

   Context c: [f: feature flags, uw: address width in bytes, owned: growable
   packet buffer?, cap: its size, xml: built-in target description].
   State st:
     mode   "Idle" | "Running" | "CtrlC" | "Disc" | "Dead"
     from   where a Ctrl-C came from ("Idle" or "Running")
     why    reason of a disconnect
     rx     receiver state (module Wire)
     noack  no-ack mode is on
     mp     multiprocess thread-id syntax is on
     mem    thread for memory and register operations
     res    thread for legacy resume commands
     def    stop reason deferred by a Ctrl-C while idle
     cur    tracepoint upload state *)
EXTENDS Tracepoints

NoReason == [k |-> "None", st |-> FALSE, tid |-> <<>>, n |-> 0, m |-> 0, x |-> <<>>]
Init0(cap) == [mode |-> "Idle", from |-> "Idle", why |-> <<>>, rx |-> Rx0(cap), noack |-> FALSE, mp |-> FALSE,
               mem |-> <<1>>, res |-> [k |-> "id", v |-> <<1>>], def |-> NoReason, cur |-> NoCur]

----------------------------------------------------------------------------
(* command table: the first row whose group is enabled and whose name is a
   prefix of the packet determines the command *)
Row(g, rows) == TLCEval([i \in 1..Len(rows) |-> [g |-> g, n |-> rows[i][1], p |-> B(rows[i][1]), fam |-> rows[i][2]]])
Table ==
  Row("base", << <<"?", "halt">>, <<"D", "detach">>, <<"g", "regs">>, <<"G", "regs">>, <<"H", "thread">>,
                 <<"k", "kill">>, <<"m", "memr">>, <<"M", "memw">>, <<"qAttached", "proc">>,
                 <<"qfThreadInfo", "threads">>, <<"qsThreadInfo", "threads">>, <<"qSupported", "supp">>,
                 <<"T", "alive">>, <<"vKill", "kill">> >>)
  \o Row("xml", << <<"qXfer:features:read", "xfer">> >>)
  \o Row("resume", << <<"c", "resume">>, <<"s", "resume">>, <<"vCont", "resume">> >>)
  \o Row("xpkt", << <<"X", "memw">> >>)
  \o Row("noack", << <<"QStartNoAckMode", "noack">> >>)
  \o Row("sra", << <<"p", "reg1">>, <<"P", "reg1">> >>)
  \o Row("ext", << <<"!", "proc">>, <<"qC", "threads">>, <<"QDisableRandomization", "cfg">>,
                   <<"QEnvironmentHexEncoded", "cfg">>, <<"QEnvironmentReset", "cfg">>, <<"QEnvironmentUnset", "cfg">>,
                   <<"QSetWorkingDir", "cfg">>, <<"QStartupWithShell", "cfg">>, <<"R", "proc">>,
                   <<"vAttach", "proc">>, <<"vRun", "proc">> >>)
  \o Row("monitor", << <<"qRcmd", "monitor">> >>)
  \o Row("offsets", << <<"qOffsets", "offsets">> >>)
  \o Row("rcont", << <<"bc", "resume">> >>)
  \o Row("rstep", << <<"bs", "resume">> >>)
  \o Row("mmap", << <<"qXfer:memory-map:read", "xfer">> >>)
  \o Row("auxv", << <<"qXfer:auxv:read", "xfer">> >>)
  \o Row("exec", << <<"qXfer:exec-file:read", "xfer">> >>)
  \o Row("hostio", << <<"vFile:open", "hostio">>, <<"vFile:close", "hostio">>, <<"vFile:pread", "hostio">>,
                      <<"vFile:pwrite", "hostio">>, <<"vFile:fstat", "hostio">>, <<"vFile:unlink", "hostio">>,
                      <<"vFile:readlink", "hostio">>, <<"vFile:setfs", "hostio">> >>)
  \o Row("catch", << <<"QCatchSyscalls", "catch">> >>)
  \o Row("extra", << <<"qThreadExtraInfo", "extra">> >>)
  \o Row("lldb", << <<"qRegisterInfo", "reginfo">> >>)
  \o Row("libs", << <<"qXfer:libraries-svr4:read", "xfer">> >>)
  \o Row("tp", << <<"QTDPsrc", "tpdef">>, <<"QTDP", "tpdef">>, <<"QTinit", "tpctl">>, <<"QTBuffer", "tpctl">>,
                  <<"QTStart", "tpctl">>, <<"QTStop", "tpctl">>, <<"QTFrame", "tpdata">>, <<"qTBuffer", "tpdata">>,
                  <<"qTStatus", "tpdata">>, <<"qTP", "tpdata">>, <<"qTfP", "tpup">>, <<"qTsP", "tpup">>,
                  <<"qTfV", "tpup">>, <<"qTsV", "tpup">> >>)
  \o Row("bp", << <<"z", "bp">>, <<"Z", "bp">> >>)

On(f, g) ==
  CASE g = "base" -> TRUE
    [] g = "xml" -> f.usexml /\ (f.archxml \/ f.tdesc)
    [] g = "rcont" -> f.resume /\ f.rcont
    [] g = "rstep" -> f.resume /\ f.rstep
    [] g = "extra" -> f.multi /\ f.extra
    [] g = "lldb" -> f.uselldb /\ (f.archlldb \/ f.lldbov)
    [] OTHER -> f[g]

H_Halt(c, st, b, K) == IF b # <<>> THEN Malformed(st) ELSE CurrentStop(c, st, <<>>, K)

Handle(n, c, st, b, K) ==
  CASE n = "?" -> H_Halt(c, st, b, K)
    [] n = "D" -> H_D(c, st, b, K)
    [] n = "g" -> H_g(c, st, b, K)
    [] n = "G" -> H_G(c, st, b, K)
    [] n = "H" -> H_H(c, st, b, K)
    [] n = "k" -> H_k(c, st, b, K)
    [] n = "m" -> H_m(c, st, b, K)
    [] n = "M" -> H_M(c, st, b, K)
    [] n = "qAttached" -> H_qAttached(c, st, b, K)
    [] n = "qfThreadInfo" -> H_qfThreadInfo(c, st, b, K)
    [] n = "qsThreadInfo" -> H_qsThreadInfo(c, st, b, K)
    [] n = "qSupported" -> H_qSupported(c, st, b, K)
    [] n = "T" -> H_T(c, st, b, K)
    [] n = "vKill" -> H_vKill(c, st, b, K)
    [] n = "qXfer:features:read" -> H_XferFeatures(c, st, b, K)
    [] n = "c" -> H_c(c, st, b, K)
    [] n = "s" -> H_s(c, st, b, K)
    [] n = "vCont" -> H_vCont(c, st, b, K)
    [] n = "X" -> H_X(c, st, b, K)
    [] n = "QStartNoAckMode" -> H_NoAck(c, st, b, K)
    [] n = "p" -> H_p(c, st, b, K)
    [] n = "P" -> H_P(c, st, b, K)
    [] n = "!" -> H_bang(c, st, b, K)
    [] n = "qC" -> H_qC(c, st, b, K)
    [] n = "QDisableRandomization" -> H_Aslr(c, st, b, K)
    [] n = "QEnvironmentHexEncoded" -> H_EnvSet(c, st, b, K)
    [] n = "QEnvironmentReset" -> H_EnvReset(c, st, b, K)
    [] n = "QEnvironmentUnset" -> H_EnvUnset(c, st, b, K)
    [] n = "QSetWorkingDir" -> H_WorkDir(c, st, b, K)
    [] n = "QStartupWithShell" -> H_Shell(c, st, b, K)
    [] n = "R" -> H_R(c, st, b, K)
    [] n = "vAttach" -> H_vAttach(c, st, b, K)
    [] n = "vRun" -> H_vRun(c, st, b, K)
    [] n = "qRcmd" -> H_qRcmd(c, st, b, K)
    [] n = "qOffsets" -> H_qOffsets(c, st, b, K)
    [] n = "bc" -> H_bc(c, st, b, K)
    [] n = "bs" -> H_bs(c, st, b, K)
    [] n = "qXfer:memory-map:read" -> H_XferMap(c, st, b, K)
    [] n = "qXfer:auxv:read" -> H_XferAuxv(c, st, b, K)
    [] n = "qXfer:exec-file:read" -> H_XferExec(c, st, b, K)
    [] n = "qXfer:libraries-svr4:read" -> H_XferLibs(c, st, b, K)
    [] n = "vFile:open" -> H_Open(c, st, b, K)
    [] n = "vFile:close" -> H_Close(c, st, b, K)
    [] n = "vFile:pread" -> H_Pread(c, st, b, K)
    [] n = "vFile:pwrite" -> H_Pwrite(c, st, b, K)
    [] n = "vFile:fstat" -> H_Fstat(c, st, b, K)
    [] n = "vFile:unlink" -> H_Unlink(c, st, b, K)
    [] n = "vFile:readlink" -> H_Readlink(c, st, b, K)
    [] n = "vFile:setfs" -> H_Setfs(c, st, b, K)
    [] n = "QCatchSyscalls" -> H_Catch(c, st, b, K)
    [] n = "qThreadExtraInfo" -> H_qThreadExtraInfo(c, st, b, K)
    [] n = "qRegisterInfo" -> H_RegInfo(c, st, b, K)
    [] n = "QTDPsrc" -> H_QTDPsrc(c, st, b, K)
    [] n = "QTDP" -> H_QTDP(c, st, b, K)
    [] n = "QTinit" -> H_QTinit(c, st, b, K)
    [] n = "QTBuffer" -> H_QTBufferSet(c, st, b, K)
    [] n = "QTStart" -> H_QTStart(c, st, b, K)
    [] n = "QTStop" -> H_QTStop(c, st, b, K)
    [] n = "QTFrame" -> H_QTFrame(c, st, b, K)
    [] n = "qTBuffer" -> H_qTBuffer(c, st, b, K)
    [] n = "qTStatus" -> H_qTStatus(c, st, b, K)
    [] n = "qTP" -> H_qTP(c, st, b, K)
    [] n = "qTfP" -> H_qTfP(c, st, b, K)
    [] n = "qTsP" -> H_qTsP(c, st, b, K)
    [] n \in {"qTfV", "qTsV"} -> H_TraceVars(c, st, b, K)
    [] n = "z" -> H_z(c, st, b, K)
    [] n = "Z" -> H_Z(c, st, b, K)

StubText == HexOf(B("target has not implemented `support_resume()`") \o <<10>>)
Unknown(c, st, b) ==
  IF ~c.f.resume /\ c.f.stub /\ b # <<>> /\ b[1] \in {99, 67, 115, 83}
  THEN [E0(st) EXCEPT !.pk = << <<79>> \o StubText, B("S05") >>]
  ELSE Unsup(st)

Lookup(c, body) ==
  LET i == SelectInSeq(Table, LAMBDA r : StartsWith(body, r.p) /\ On(c.f, r.g))
  IN IF i = 0 THEN [n |-> "", fam |-> "unknown", p |-> <<>>, g |-> ""] ELSE Table[i]

----------------------------------------------------------------------------
(* stop replies *)
ReasonOk(c, k) ==
  CASE k = "SwBreak" -> c.f.bp /\ c.f.sw
    [] k = "HwBreak" -> c.f.bp /\ c.f.hw
    [] k = "Watch" -> c.f.bp /\ c.f.hww
    [] k = "ReplayLog" -> c.f.resume /\ (c.f.rcont \/ c.f.rstep)
    [] k = "Catch" -> c.f.catch
    [] OTHER -> TRUE

Stopped(st) == [st EXCEPT !.mode = "Idle", !.def = NoReason]
StopReport(c, st, r, K) ==
  LET byte(n) == NumHex(Trim0(<<n>>))
      noTid == (r.st /\ r.k \in {"ReplayLog", "Catch"}) \/ (~r.st /\ r.tid = <<>>)
      tid == IF r.st THEN <<1>> ELSE r.tid
      with(sig, tail) ==
        IF noTid THEN Reply(Stopped(st), <<>>, <<84>> \o byte(sig) \o tail)
        ELSE LET st2 == [Stopped(st) EXCEPT !.mem = tid, !.res = [k |-> "id", v |-> tid]]
             IN WithTidText(c, st2, <<>>, K, tid, LAMBDA t :
                  Reply(st2, <<>>, <<84>> \o byte(sig) \o B("thread:") \o t \o <<SEMI>> \o tail))
  IN IF ~ReasonOk(c, r.k) THEN Fatal(st, <<>>)
     ELSE CASE r.k = "DoneStep" -> Reply(Stopped(st), <<>>, B("S05"))
            [] r.k = "Signal" -> Reply(Stopped(st), <<>>, <<83>> \o byte(r.n))
            [] r.k = "Exited" -> Reply(Disconnected(Stopped(st), <<0, r.n>>), <<>>, <<87>> \o byte(r.n))
            [] r.k = "Terminated" -> Reply(Disconnected(Stopped(st), <<1, r.n>>), <<>>, <<88>> \o byte(r.n))
            [] r.k = "SignalThread" -> with(r.n, <<>>)
            [] r.k = "SwBreak" -> with(5, B("swbreak:;"))
            [] r.k = "HwBreak" -> with(5, B("hwbreak:;"))
            [] r.k = "Watch" -> with(5, (CASE r.m = 0 -> B("watch:") [] r.m = 1 -> B("rwatch:") [] OTHER -> B("awatch:"))
                                        \o NumHex(r.x) \o <<SEMI>>)
            [] r.k = "ReplayLog" -> with(5, IF r.m = 0 THEN B("replaylog:begin;") ELSE B("replaylog:end;"))
            [] r.k = "Catch" -> with(5, (IF r.m = 0 THEN B("syscall_entry:") ELSE B("syscall_return:"))
                                        \o NumHex(r.x) \o <<SEMI>>)

----------------------------------------------------------------------------
(* Everything a step of the session must do: an effect, extended with
     ack   an acknowledgement comes first
     fam   the kind of step *)
Out(e, ack, fam) == [e EXCEPT !.calls = e.calls] @@ [ack |-> ack, fam |-> fam]

Command(c, st, body, K) ==
  LET row == Lookup(c, body)
      b == Drop(body, Len(row.p))
      e == IF row.n = "" THEN Unknown(c, st, b) ELSE Handle(row.n, c, st, b, K)
      \* a resumed target with a deferred stop reason reports it at once
      e2 == IF e.cmp = "resumed" /\ st.mode = "Idle" /\ st.def.k # "None"
            THEN LET s == StopReport(c, e.st, st.def, K)
                 IN [s EXCEPT !.calls = e.calls \o s.calls]
            ELSE e
  IN Out(e2, ~st.noack, row.fam)

(* one byte from the client *)
Byte(c, st, byte, K) ==
  LET r == RxByte(st.rx, byte, c.owned)
      st1 == [st EXCEPT !.rx = r.rx]
  IN CASE r.p \in {"none", "ack"} -> Out(E0(st1), FALSE, "frame")
       [] r.p = "irq" -> Out(E0([st1 EXCEPT !.from = st.mode, !.mode = "CtrlC"]), FALSE, "irq")
       [] r.p = "cmd" -> Command(c, st1, r.body, K)
       [] OTHER -> Out(Fatal(st1, <<>>), FALSE, "frame")

(* several bytes may have been received since the last event; normally only
   the last one does anything *)
Merge(a, x) ==      \* a: what had to happen so far, x: the next effect
  LET idle(y) == y.fam = "frame" /\ y.err = "none"      \* nothing had to happen
  IN IF a.n = 0 \/ idle(a.x) THEN [x |-> x, n |-> a.n + 1]
     ELSE IF idle(x) THEN [x |-> [a.x EXCEPT !.st = x.st], n |-> a.n + 1]
     ELSE [x |-> [x EXCEPT !.calls = a.x.calls \o x.calls, !.pk = a.x.pk \o x.pk, !.ack = a.x.ack \/ x.ack,
                           !.un = x.un \/ a.x.un],
           n |-> a.n + 1]
Bytes(c, s0, in, K) ==
  LET r == FoldLeft(LAMBDA a, byte :
                 IF a.n > 0 /\ a.x.err # "none" THEN a
                 ELSE LET s == IF a.n = 0 THEN s0 ELSE a.x.st
                      IN Merge(a, IF s.mode \in {"Idle", "Running"} THEN Byte(c, s, byte, K)
                                  ELSE Out(E0(s), FALSE, "frame")),
               [n |-> 0, x |-> Out(E0(s0), FALSE, "frame")], in)
  IN r.x

(* the event loop reports a stop (only while running) *)
Stop(c, st, rs, K) == Out(StopReport(c, st, rs, K), FALSE, "stop")

(* the event loop has handled a Ctrl-C *)
IrqHandled(c, st, rs, K) ==
  IF st.from = "Running"
  THEN IF rs.k = "None" THEN Out(E0([st EXCEPT !.mode = "Running"]), FALSE, "irq")
       ELSE Out(StopReport(c, [st EXCEPT !.mode = "Running"], rs, K), FALSE, "irq")
  ELSE Out(E0([st EXCEPT !.mode = "Idle", !.def = IF rs.k = "None" THEN @ ELSE rs]), FALSE, "irq")

(* the session object is used again after a disconnect *)
Return(st) == Out(E0([st EXCEPT !.mode = "Idle", !.why = <<>>, !.def = NoReason]), FALSE, "ret")
=============================================================================
