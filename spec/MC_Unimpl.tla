------------------------------ MODULE MC_Unimpl ------------------------------
(* Every command on targets that implement nothing, one feature only, or all
   features but one. *)
EXTENDS Catalog
Flags0 == <<"multi", "resume", "step", "range", "rstep", "rcont", "sra", "extra", "bp", "sw", "hw", "hww", "monitor", "ext", "aslr", "env",
  "shell", "wd", "curpid", "offsets", "tp", "tpsrc", "tdesc", "lldbov", "mmap", "catch", "hostio", "hopen", "hclose", "hpread",
  "hpwrite", "hfstat", "hunlink", "hreadlink", "hsetfs", "exec", "auxv", "libs", "noack", "xpkt", "stub", "rle", "usexml", "uselldb", "archxml", "archlldb", "defalive">>
(* features that are reached through others *)
Under(x) == CASE x \in {"step", "range", "rstep", "rcont"} -> {"resume"}
              [] x \in {"extra", "defalive"} -> {"multi"}
              [] x \in {"sw", "hw", "hww"} -> {"bp"}
              [] x \in {"aslr", "env", "shell", "wd", "curpid"} -> {"ext"}
              [] x = "tpsrc" -> {"tp"}
              [] x \in {"hopen", "hclose", "hpread", "hpwrite", "hfstat", "hunlink", "hreadlink", "hsetfs"} -> {"hostio"}
              [] x \in {"tdesc", "archxml"} -> {"usexml"}
              [] x \in {"lldbov", "archlldb"} -> {"uselldb"}
              [] OTHER -> {}
MyConfigs == << Cfg({"guard"}), Cfg(Everything), Cfg(Common) >>
             \o [i \in 1..Len(Flags0) |-> Cfg({"guard", Flags0[i]} \cup Under(Flags0[i]))]
             \o [i \in 1..Len(Flags0) |-> Cfg(Everything \ {Flags0[i]})]
             \o (IF Thorough THEN [i \in 1..Len(Flags0) |-> Cfg({"guard", Flags0[i]})] ELSE <<>>)
MyPackets(cc, s) == Plainly \cup Strange \cup {B("c"), B("s"), B("vCont;c"), B("bc"), B("bs"), B("QStartNoAckMode"), B("vKill;1"), B("vCont?")}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) == StdData(cc, f, a)
MyErrs(cc, f) == NoErrs(cc, f)
MyDepth == IF Thorough THEN 2 ELSE 1
MyCount == 0

(* which feature makes a command known, stated command by command *)
Needs0 == <<
  << "c", {"resume"} >>, << "s", {"resume"} >>, << "vCont", {"resume"} >>, << "bc", {"resume", "rcont"} >>, << "bs", {"resume", "rstep"} >>,
  << "X1", {"xpkt"} >>, << "QStartNoAckMode", {"noack"} >>, << "p1", {"sra"} >>, << "P1", {"sra"} >>,
  << "!", {"ext"} >>, << "qC", {"ext", "curpid"} >>, << "QDis", {"ext", "aslr"} >>, << "QEnv", {"ext", "env"} >>,
  << "QStartup", {"ext", "shell"} >>, << "QSetW", {"ext", "wd"} >>, << "R0", {"ext"} >>, << "vRun", {"ext"} >>,
  << "qRcmd", {"monitor"} >>, << "qOffsets", {"offsets"} >>, << "qXfer:memory-map", {"mmap"} >>, << "qXfer:auxv", {"auxv"} >>,
  << "qXfer:exec-file", {"exec"} >>, << "qXfer:libraries-svr4", {"libs"} >>, << "vFile:open", {"hostio", "hopen"} >>,
  << "vFile:close", {"hostio", "hclose"} >>, << "vFile:pread", {"hostio", "hpread"} >>, << "vFile:pwrite", {"hostio", "hpwrite"} >>,
  << "vFile:fstat", {"hostio", "hfstat"} >>, << "vFile:unlink", {"hostio", "hunlink"} >>, << "vFile:readlink", {"hostio", "hreadlink"} >>,
  << "vFile:setfs", {"hostio", "hsetfs"} >>, << "QCatch", {"catch"} >>, << "qThreadExtra", {"multi", "extra"} >>, << "QTDPsrc", {"tp", "tpsrc"} >>,
  << "QTDP:", {"tp"} >>, << "QTinit", {"tp"} >>, << "qT", {"tp"} >>, << "Z0", {"bp", "sw"} >>, << "z0", {"bp", "sw"} >>, << "Z1", {"bp", "hw"} >>,
  << "z1", {"bp", "hw"} >>, << "Z2", {"bp", "hww"} >>, << "Z3", {"bp", "hww"} >>, << "Z4", {"bp", "hww"} >>, << "z2", {"bp", "hww"} >> >>
Needs == [i \in 1..Len(Needs0) |-> << B(Needs0[i][1]), Needs0[i][2] >>]
Probe(b) == SelectInSeq(Needs, LAMBDA r : StartsWith(b, r[1]))
Stubbed(b) == b # <<>> /\ b[1] \in {99, 115} /\ c.f.stub
P14Features ==
  LET i == Probe(S.v)
  IN (S.t = "pkt" /\ S.v \notin Strange /\ X.fam # "frame" /\ i # 0) =>
       IF \A x \in Needs[i][2] : c.f[x] THEN ~X.un
       ELSE X.calls = <<>> /\ (X.un \/ Stubbed(S.v) \/ X.err = "other")
MyProps == [][P14Features]_vars
=============================================================================
