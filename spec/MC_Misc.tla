------------------------------ MODULE MC_Misc ------------------------------
(* System-call catching, section offsets and register descriptions. *)
EXTENDS Catalog
M0 == Common \cup {"catch", "offsets", "lldbov"}
MyConfigs == << Cfg(M0), [Cfg(M0) EXCEPT !.uw = 1], Cfg((M0 \ {"lldbov"}) \cup {"archlldb"}), [Cfg((M0 \ {"rle"}) \cup {"archlldb"}) EXCEPT !.owned = TRUE, !.cap = 40, !.uw = 16], Cfg(M0 \ {"uselldb", "catch", "offsets"}),
                [Cfg(Common \cup {"catch", "offsets", "archlldb", "multi", "resume"}) EXCEPT !.uw = 4] >>
Qs(x) == B("QCatchSyscalls:") \o B(x)
MyPackets(cc, s) ==
  {Qs(x) : x \in {"0", "1", "", "2", "01", "00", "0;1", "1;", "1;;", "1;1", "1;ff", "1;100", "1;1;2;3", "1;1;;2", "1;0", "1;g", "1;1;g", "1;1,2", "1;ffffffff", "1;100000000", "1;ffffffffffffffff", "1;10000000000000000", "1;1;100;2", "1;00ff", "1:1", "1x",
                  "1;1;2;3;4;5;6;7;8;9;a;b;c;d;e;f"}}
  \cup {B("QCatchSyscalls"), B("QCatchSyscalls;1"), B("qOffsets"), B("qOffsets:"), B("qOffsets1")}
  \cup {B("qRegisterInfo") \o B(x) : x \in {"0", "1", "ff", "100", "ffffffff", "ffffffffffffffff", "10000000000000000", "", "g", "-1", "00", ":1"}}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
Reg(name, alt, bits, off, enc, fmt, set, gcc, dw, gen0, con, inv) == << <<1>>, B(name), alt, bits, off, <<enc>>, <<fmt>>, B(set), gcc, dw, gen0, con, inv >>
No == <<0>>
Infos == {Reg("r0", No, <<32>>, <<>>, 0, 2, "gp", No, No, No, No, No)}
         \cup {Reg("x", <<1, 97>>, <<64>>, <<1, 0>>, e, 2, "s", <<1, 3>>, <<1, 1, 0>>, No, No, No) : e \in 0..3}
         \cup {Reg("x", No, <<8>>, <<9>>, 0, f, "s", No, No, No, No, No) : f \in 0..11}
         \cup {Reg("x", No, <<128>>, <<255>>, 0, 2, "s", <<1>>, No, <<1, k>>, No, No) : k \in 0..12}
         \cup {Reg("x", No, <<16>>, <<12>>, 3, 11, "v", No, <<1>>, No, <<1, 0>>, <<1, 0, 17, 255>>), Reg("", <<1>>, <<>>, <<>>, 1, 1, "", No, No, No, <<1>>, <<1, 5>>)}
Val == {<<>>, <<1>>, <<255, 0>>}
MyData(cc, f, a) ==
  CASE f = "get_section_offsets" -> {<< <<0>>, t, d, b >> : t \in {x \in Val : Len(x) <= cc.uw}, d \in {<<>>, <<16>>}, b \in {No, <<1, 32>>, <<1>>}} \cup {<< <<1>>, t, d >> : t \in {x \in Val : Len(x) <= cc.uw}, d \in {No, <<1, 32>>, <<1>>}}
    [] f \in {"lldb_register_info", "arch_lldb_register_info"} -> {<< <<0>> >>} \cup Infos \cup (IF f = "lldb_register_info" THEN {} ELSE {<< <<2>> >>})
    [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == AllErrs(cc, f)
MyDepth == 1
MyCount == 0
(* P27 *)
P27Misc ==
  (S.t = "pkt" /\ X.err = "none" /\ ~X.un) =>
    IF StartsWith(S.v, B("QCatchSyscalls"))
    THEN (\E i \in 1..Len(Split(S.v, {SEMI})) : i > 1 /\ ~Fits(c, UnHex(Split(S.v, {SEMI})[i])))
         \/ X.calls = << IF S.v[16] = 48 THEN Call("disable_catch_syscalls", <<>>)
                         ELSE LET q == SelectSeq(Split(Drop(S.v, 17), {SEMI}), LAMBDA y : y # <<>>)
                              IN Call("enable_catch_syscalls", IF Len(S.v) = 16 THEN << <<0>> >> ELSE << <<1>> >> \o [i \in 1..Len(q) |-> HexNum(q[i]).v]) >>
    ELSE IF StartsWith(S.v, B("qRegisterInfo"))
    THEN \/ X.calls = <<>>
         \/ /\ Len(X.calls) = 1 /\ X.calls[1].a = << HexNum(Drop(S.v, 13)).v >>
            /\ (KK[1].k = "ok" /\ KK[1].v[1] = <<1>>) =>
                 LET q == Split(X.pk[1], {SEMI})
                     v == KK[1].v
                     has(name, val) == \E i \in 1..Len(q) : q[i] = B(name) \o val
                     none(name) == ~\E i \in 1..Len(q) : StartsWith(q[i], B(name))
                 IN /\ has("name:", v[2]) /\ has("bitsize:", DecOf(v[4])) /\ has("offset:", DecOf(v[5])) /\ has("set:", v[8])
                    /\ (IF v[3][1] = 1 THEN has("alt-name:", Tail(v[3])) ELSE none("alt-name:"))
                    /\ (IF v[9][1] = 1 THEN has("gcc:", DecOf(Tail(v[9]))) ELSE none("gcc:"))
                    /\ (IF v[10][1] = 1 THEN has("dwarf:", DecOf(Tail(v[10]))) ELSE none("dwarf:"))
                    /\ (v[11][1] = 0 => none("generic:")) /\ (v[12][1] = 0 => none("container-regs:")) /\ (v[13][1] = 0 => none("invalidate-regs:"))
                    /\ Last(X.pk[1]) = SEMI
    ELSE TRUE
MyProps == [][P27Misc]_vars
=============================================================================
