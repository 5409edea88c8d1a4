------------------------------ MODULE Catalog ------------------------------
(* One well-formed command of every kind, and the shapes of commands with
   fields to be filled in. *)
EXTENDS MC

H(s) == HexOf(B(s))
(* commands which answer and leave the session where it is *)
Plainly == {B(x) : x \in {"?", "g", "G0102", "Hg2", "Hc2", "Hc-1", "Hg0", "m1,3", "M1,2:aabb", "qAttached", "qAttached:1", "qfThreadInfo",
    "qsThreadInfo", "T2", "X1,2:ab", "p1", "P1=0102", "!", "qC", "QDisableRandomization:1", "QEnvironmentReset",
    "QStartupWithShell:0", "QSetWorkingDir:2f", "vAttach;5", "qOffsets", "vCont?",
    "qXfer:features:read:target.xml:0,20", "qXfer:memory-map:read::0,20", "qXfer:auxv:read::0,20", "qXfer:exec-file:read:1:0,20",
    "qXfer:libraries-svr4:read::0,20", "vFile:close:3", "vFile:pread:3,10,0", "vFile:fstat:3", "vFile:setfs:0",
    "QCatchSyscalls:1", "QCatchSyscalls:0", "QCatchSyscalls:1;3;4", "qThreadExtraInfo,2", "qRegisterInfo1",
    "QTinit", "QTDP:1:10:E:0:0", "QTDP:1:10:E:0:0-", "QTDP:-1:10:R03", "QTDPsrc:1:10:cond:0:2:3132", "QTBuffer:circular:1", "QTBuffer:size:-1",
    "QTStart", "QTStop", "QTFrame:1", "QTFrame:pc:10", "qTBuffer:0,10", "qTStatus", "qTP:1:10", "qTfP", "qTsP", "qTfV", "qTsV",
    "Z0,10,1", "z0,10,1", "Z1,10,1", "z1,10,1", "Z2,10,4", "z2,10,4", "Z3,10,4", "Z4,10,4", "R00"}}
  \cup {B("qRcmd,") \o H("help"), B("vRun;") \o H("a.out") \o B(";") \o H("x"), B("QEnvironmentHexEncoded:") \o H("A=1"),
        B("QEnvironmentUnset:") \o H("A"), B("vFile:open:") \o H("/a") \o B(",0,1b6"), B("vFile:unlink:") \o H("/a"),
        B("vFile:readlink:") \o H("/a"), B("vFile:pwrite:3,10,ab"), B("qSupported:multiprocess+;xmlRegisters=i386")}
Moving == {B(x) : x \in {"c", "s", "vCont;c", "vCont;s:2;c", "vCont;r10,20:1;c", "vCont;C05:2", "bc", "bs", "D", "D;1", "k", "vKill;1", "QStartNoAckMode"}}
Strange == {B(x) : x \in {"C05", "S05", "A1", "b", "d", "i", "I", "q", "Q", "v", "vMustReplyEmpty", "vFile", "vFile:foo:1", "qXfer", "qXfer:foo:read::0,1",
    "qTfX", "QT", "t", "r", "z9,1,1", "Z5,1,1", "_", "qCRC:1,1", "qL1", "qP1", "qSymbol::", "jThreadsInfo", "x1,2", "vCtrlC", "vStopped"}}
      \cup { <<>> }
Commands0 == Plainly \cup Moving \cup Strange

(* several values for every call *)
Fills(cc, f, a) == LET room == ToNat(Last(a))
                  IN {Buf(<<>>), Buf(<<35, 36, 42, 125, 0, 255>>)} \cup (IF room <= 300 THEN {Buf(Count(room)), << Count(room), OfNat(room + 1) >>} ELSE {})
=============================================================================
