-------------------------------- MODULE MC_Bp --------------------------------
(* Breakpoint commands of every type on targets with every subset of them. *)
EXTENDS Catalog
MyConfigs == << Cfg(Common \cup {"hw", "hww"}), Cfg(Common), Cfg(Common \cup {"hw"}), Cfg(Common \cup {"hww"}), Cfg({"bp", "hw", "hww", "guard"}),
                Cfg({"guard"}), [Cfg(Common \cup {"hw", "hww"}) EXCEPT !.uw = 1], [Cfg(Common \cup {"hw", "hww"}) EXCEPT !.uw = 16] >>
Types == {"0", "1", "2", "3", "4", "5", "00", "04", "ff", "100", "", "x", "g"}
Addrs == {"0", "10", "ff", "100", "FFFFFFFFFFFFFFFF", "10000000000000000", "00ff", "", "g"}
Kinds == {"1", "4", "0", "63", "64", "ff", "100", "0001", "", "g", "ffffffffffffffff"}
Tails == {"", ";X1,0", ";X3,220027", ";cmds:0,X1,0", ";X2,00", ";zz", ",1"}
Plain0 == {B(p) \o B(t) \o B(",") \o B(a) \o B(",") \o B(k) : p \in {"z", "Z"}, t \in Types, a \in {"10", "0", "100", "g"}, k \in {"1", "4", "64", "100"}}
          \cup {B(p) \o B(t) \o B(",") \o B(a) \o B(",") \o B(k) : p \in {"z", "Z"}, t \in {"0", "1", "3"}, a \in Addrs, k \in Kinds}
          \cup {B(p) \o B(t) \o B(",10,1") \o B(x) : p \in {"z", "Z"}, t \in {"0", "1", "2"}, x \in Tails}
          \cup {B(x) : x \in {"Z", "z", "Z0", "Z0,", "Z0,1", "Z0,1,", "Z,1,1", "Z0;1;1", "z0,1"}}
MyPackets(cc, s) == Plain0
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) == StdData(cc, f, a)
MyErrs(cc, f) == IF Thorough THEN AllErrs(cc, f) ELSE {EFatal, ENo}
MyDepth == 1
MyCount == 0
Op == (IF S.v[1] = 90 THEN "add_" ELSE "remove_")
P12Bp ==
  (S.t = "pkt" /\ X.err = "none" /\ ~X.un /\ S.v[1] \in {90, 122}) =>
    LET q == SplitN(Tail(S.v), {COMMA, SEMI}, 4)
        t == ToNat(HexNum(q[1]).v)
        k == X.calls[1]
        yes == KK[1].k = "ok" /\ KK[1].v[1] = <<1>>
    IN /\ Len(X.calls) = 1
       /\ k.f = (CASE t = 0 -> IF Op = "add_" THEN "add_sw_breakpoint" ELSE "remove_sw_breakpoint"
                   [] t = 1 -> IF Op = "add_" THEN "add_hw_breakpoint" ELSE "remove_hw_breakpoint"
                   [] OTHER -> IF Op = "add_" THEN "add_hw_watchpoint" ELSE "remove_hw_watchpoint")
       /\ Trim0(k.a[1]) = HexNum(q[2]).v /\ Trim0(k.a[2]) = HexNum(q[3]).v
       /\ t >= 2 => k.a[3] = << t - 2 >>
       /\ (X.pk[1] = B("OK") <=> yes)
MyProps == [][P12Bp]_vars
=============================================================================
