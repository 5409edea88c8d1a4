------------------------------ MODULE MC_Args ------------------------------
(* Commands of every shape with extreme and broken values in every field. *)
EXTENDS Catalog
MyConfigs == << [Cfg(Everything \ {"multi", "tdesc", "lldbov"}) EXCEPT !.uw = 1, !.cap = 300, !.xml = B("<target></target>")], Cfg(Everything),
                [Cfg(Everything \ {"tpsrc", "lldbov"}) EXCEPT !.uw = 16, !.owned = TRUE, !.cap = 40],
                [Cfg(Everything \ {"ext", "rle", "tdesc"}) EXCEPT !.uw = 2, !.cap = 128, !.xml = B("  <target/>")] >>
(* shapes: * is a field *)
Shapes0 == << "m*,*", "M*,*:*", "X*,*:*", "p*", "P*=*", "G*", "Hg*", "Hc*", "T*", "Z*,*,*", "z*,*,*", "Z0,1,1;*", "vCont;*", "vCont;c:*", "vCont;s:*", "vCont;C*", "vCont;S*:1",
  "vCont;r*,*:1", "vCont;r1,2:*", "vCont*", "c*", "s*", "D;*", "vKill;*", "vAttach;*", "vRun;*;*", "R*", "qAttached:*", "qSupported:*", "qRcmd,*",
  "QDisableRandomization:*", "QStartupWithShell:*", "QEnvironmentHexEncoded:*", "QEnvironmentUnset:*", "QSetWorkingDir:*", "qThreadExtraInfo,*", "qRegisterInfo*",
  "qXfer:features:read:target.xml:*,*", "qXfer:features:read:*:0,10", "qXfer:memory-map:read::*,*", "qXfer:memory-map:read:*:1,1", "qXfer:auxv:read::*,*",
  "qXfer:exec-file:read:*:*,1", "qXfer:libraries-svr4:read::*,*", "vFile:open:*,*,*", "vFile:close:*", "vFile:pread:*,*,*", "vFile:pwrite:*,*,*", "vFile:fstat:*", "vFile:unlink:*",
  "vFile:readlink:*", "vFile:setfs:*", "QCatchSyscalls:*", "QCatchSyscalls:1;*", "QTDP:*:*:E:*:*", "QTDP:1:2:*:0:0", "QTDP:1:2:E:0:0:*", "QTDP:-*:*:*", "QTDP:-1:2:X*,*", "QTDP:-1:2:R*",
  "QTDP:-1:2:R03X*,*-", "QTDPsrc:*:*:at:*:*:*", "QTDPsrc:1:1:*:1:1:41", "QTBuffer:size:*", "QTBuffer:circular:*", "QTBuffer:*:1", "QTFrame:*", "QTFrame:pc:*", "QTFrame:tdp:*",
  "QTFrame:range:*:*", "QTFrame:outside:*:*", "qTBuffer:*,*", "qTP:*:*", "bc*", "bs*", "?*", "g*", "k*", "!*", "qC*", "QTinit*", "qTStatus*", "qTfP*", "qTsP*", "QStartNoAckMode*" >>
Shapes == TLCEval([i \in 1..Len(Shapes0) |-> Split(B(Shapes0[i]), {42})])
Long(n, d) == [i \in 1..n |-> d]
Bad0 == {"", "0", "1", "ff", "100", "7f", "80", "ffff", "10000", "7fffffff", "80000000", "ffffffff", "100000000", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "10000000000000000",
         "-1", "-", "+", ",", ";", ":", "=", "g", "x", "xx", "0x1", "}", "p", "p1", "p1.", "p.1", "p1.1", "p-1.-1", "p0.0", "p1.-1", "p-1", "1.1", "E", "R", "S", "X", "R3S1,2", "00000000000000000000001"}
Bad == TLCEval({B(x) : x \in Bad0} \cup {Long(33, 102), Long(34, 48), Long(90, 102), <<255>>, <<128, 48>>, <<0>>, <<125, 3>>})
Good == B("1")
Fields(sh) == Len(sh) - 1
Built(sh, i, x) == FoldLeftDomain(LAMBDA a, j : a \o sh[j] \o (IF j = Len(sh) THEN <<>> ELSE IF j = i THEN x ELSE Good), <<>>, sh)
All2(sh) == IF Fields(sh) < 2 THEN {} ELSE {FoldLeftDomain(LAMBDA a, j : a \o sh[j] \o (IF j = Len(sh) THEN <<>> ELSE x), <<>>, sh) : x \in Bad}
Cases == TLCEval(UNION {UNION {{Built(Shapes[k], i, x) : x \in Bad} : i \in 1..Fields(Shapes[k])} \cup All2(Shapes[k]) : k \in 1..Len(Shapes)})
(* what is left when a command is cut off *)
Whole == {Built(Shapes[k], 1, Good) : k \in 1..Len(Shapes)}
Cuts == TLCEval(UNION {{Take(b, n) : n \in 1..(Len(b) - 1)} : b \in Whole})
MyPackets(cc, s) == Cases \cup Cuts
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) == IF f = "read_addrs" THEN (IF ToNat(a[3]) > 2 THEN {<< <<1, 2>>, <<2>> >>} ELSE {Buf(<<>>)})
                    ELSE IF f \in {"add_sw_breakpoint", "remove_sw_breakpoint", "add_hw_breakpoint", "remove_hw_breakpoint", "add_hw_watchpoint", "remove_hw_watchpoint", "is_thread_alive", "kill", "query_if_attached"} THEN {<< <<1>> >>}
                    ELSE IF f = "read_register" THEN {RegVal(a[2])}
                    ELSE IF f \in {"thread_extra_info", "target_description_xml", "memory_map_xml", "get_auxv", "get_exec_file", "get_libraries_svr4", "pread", "readlink"} THEN {Buf(<<>>)}
                    ELSE StdData(cc, f, a)
MyErrs(cc, f) == NoErrs(cc, f)
MyDepth == 1
MyCount == 0
MyProps == TRUE
=============================================================================
