------------------------------- MODULE MC_Neg -------------------------------
(* Feature negotiation: what is advertised on every target with no feature,
   one, all but one and all; and everything that is advertised is there. *)
EXTENDS Catalog
Flags0 == <<"multi", "resume", "step", "range", "rstep", "rcont", "sra", "extra", "bp", "sw", "hw", "hww", "monitor", "ext", "aslr", "env",
  "shell", "wd", "curpid", "offsets", "tp", "tpsrc", "tdesc", "lldbov", "mmap", "catch", "hostio", "exec", "auxv", "libs", "noack", "xpkt", "stub",
  "rle", "usexml", "uselldb", "archxml", "archlldb">>
Pairs == << {"resume", "rcont"}, {"resume", "rstep"}, {"resume", "rcont", "rstep"}, {"ext", "aslr"}, {"ext", "env"}, {"ext", "shell"}, {"ext", "wd"},
            {"bp", "sw"}, {"bp", "hw"}, {"bp", "hww"}, {"bp", "sw", "hw"}, {"bp", "hw", "hww"}, {"tp", "tpsrc"}, {"usexml", "tdesc"}, {"usexml", "archxml"},
            {"usexml", "tdesc", "archxml"}, {"tdesc", "archxml"}, {"aslr", "env", "shell", "wd", "tpsrc", "sw", "hw", "hww", "rcont", "rstep"} >>
Sized(n) == [Cfg(Common) EXCEPT !.cap = n]
Doc == B("<target/>")
MyConfigs == [i \in 1..Len(Flags0) |-> [Cfg({"guard", Flags0[i]}) EXCEPT !.xml = Doc]]
          \o [i \in 1..Len(Flags0) |-> [Cfg(Everything \ {Flags0[i]}) EXCEPT !.xml = Doc]]
          \o [i \in 1..Len(Pairs) |-> [Cfg({"guard"} \cup Pairs[i]) EXCEPT !.xml = Doc]]
          \o << Cfg({"guard"}), Cfg(Everything), Cfg(Common \cup {"multi", "resume", "ext", "curpid"}) >>
          \o << Sized(64), Sized(100), Sized(255), Sized(256), Sized(257), Sized(4096), [Sized(64) EXCEPT !.owned = TRUE], [Sized(0) EXCEPT !.owned = TRUE] >>
Q(x) == B("qSupported") \o B(x)
Few == {Q(""), Q(":"), Q(":multiprocess+"), Q(":x;multiprocess+"), Q(":multiprocess-"), Q(":multiprocess+;multiprocess-"), Q(":multiprocess"), Q(":multiprocess?"),
        Q(":multiprocess+;"), Q(":;multiprocess+"), Q(":a=b;multiprocess+;c?"), Q(":multiprocess+=1"), Q(";multiprocess+"), Q(":multiprocess+;swbreak+;hwbreak+;qRelocInsn+"),
        Q("multiprocess+"), Q(":xmlRegisters=i386;multiprocess+"), Q(":a=;multiprocess+"), Q(":=;multiprocess+"), Q(":Multiprocess+"), Q(":multiprocess+x")}
Fill(n) == [i \in 1..n |-> IF i = 1 THEN 95 ELSE 120]
MyPackets(cc, s) ==
  (IF s.mp THEN {Q(":multiprocess+"), Q(":x"), Q(":multiprocess-"), B("?"), B("qfThreadInfo"), B("qC"), B("Hg2"), B("Tp1.2")}
   ELSE Few \cup {B("?"), B("qfThreadInfo")})
  \cup (IF cc.cap \notin {512, 4096} THEN {Fill(n) : n \in {cc.cap - 5, cc.cap - 4, cc.cap - 3, cc.cap + 10} \cap (0..600)} ELSE {})
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) == StdData(cc, f, a)
MyErrs(cc, f) == NoErrs(cc, f)
MyDepth == IF Thorough THEN 4 ELSE 2
MyCount == 0
(* P13: a feature is advertised exactly if a command which needs it is not
   answered as unimplemented *)
Probes0 == << << "QStartNoAckMode+", "QStartNoAckMode" >>, << "ReverseContinue+", "bc" >>, << "ReverseStep+", "bs" >>, << "QDisableRandomization+", "QDisableRandomization:1" >>,
  << "QEnvironmentHexEncoded+", "QEnvironmentHexEncoded:413d" >>, << "QEnvironmentUnset+", "QEnvironmentUnset:41" >>, << "QEnvironmentReset+", "QEnvironmentReset" >>,
  << "QStartupWithShell+", "QStartupWithShell:0" >>, << "QSetWorkingDir+", "QSetWorkingDir:2f" >>, << "swbreak+", "Z0,0,1" >>,
  << "QTBuffer:size+", "QTBuffer:size:-1" >>, << "TracepointSource+", "QTDPsrc:1:0:at:0:0:" >>, << "QCatchSyscalls+", "QCatchSyscalls:0" >>,
  << "qXfer:features:read+", "qXfer:features:read:target.xml:0,1" >>, << "qXfer:memory-map:read+", "qXfer:memory-map:read::0,1" >>,
  << "qXfer:exec-file:read+", "qXfer:exec-file:read::0,1" >>, << "qXfer:auxv:read+", "qXfer:auxv:read::0,1" >>,
  << "qXfer:libraries-svr4:read+", "qXfer:libraries-svr4:read::0,1" >> >>
Probes == TLCEval([i \in 1..Len(Probes0) |-> << B(Probes0[i][1]), B(Probes0[i][2]) >>])
There(b) == ~Command(c, [st EXCEPT !.mode = "Idle"], b, <<>>).un
P13Honest ==
  (S.t = "pkt" /\ X.fam = "supp" /\ X.err = "none" /\ ~X.un) =>
     LET q == Split(X.pk[1], {SEMI})
         items == {q[i] : i \in 1..Len(q)}
         rest == items \ ({Probes[i][1] : i \in 1..Len(Probes)} \cup {B("vContSupported+"), B("multiprocess+"), B("hwbreak+")})
         size == B("PacketSize=")
     IN /\ \A i \in 1..Len(Probes) : Probes[i][1] \in items <=> There(Probes[i][2])
        /\ B("hwbreak+") \in items <=> There(B("Z1,0,1")) \/ There(B("Z2,0,1"))
        /\ Cardinality(rest) = 1
        \* a packet of the size advertised is received
        /\ \A x \in rest : StartsWith(x, size) /\
              LET n == ToNat(HexNum(Drop(x, 11)).v)
              IN c.owned \/ (n = c.cap /\ PacketStep(c, st, Fill(n - 4), <<>>).err = "none" /\ PacketStep(c, st, Fill(n - 3), <<>>).err # "none")
        /\ st'.mp = (CASE B("multiprocess+") \in {Split(Drop(S.v, 11), {SEMI})[i] : i \in 1..Len(Split(Drop(S.v, 11), {SEMI}))}
                          /\ B("multiprocess-") \notin {Split(Drop(S.v, 11), {SEMI})[i] : i \in 1..Len(Split(Drop(S.v, 11), {SEMI}))} -> TRUE
                       [] B("multiprocess-") \in {Split(Drop(S.v, 11), {SEMI})[i] : i \in 1..Len(Split(Drop(S.v, 11), {SEMI}))} -> FALSE
                       [] OTHER -> st.mp)
MyProps == [][P13Honest]_vars
=============================================================================
