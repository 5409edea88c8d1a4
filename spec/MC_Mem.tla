------------------------------- MODULE MC_Mem -------------------------------
(* Memory reads and writes: addresses up to and beyond the end of the address
   space, every length around the packet buffer's size, and every answer. *)
EXTENDS Catalog
MyConfigs == << [Cfg(Common) EXCEPT !.uw = 1, !.cap = 48], [Cfg(Common \cup {"multi"}) EXCEPT !.uw = 2, !.cap = 30],
                [Cfg(Common) EXCEPT !.uw = 4, !.cap = 64], [Cfg(Common \cup {"multi"}) EXCEPT !.cap = 64, !.owned = TRUE],
                [Cfg(Common \ {"xpkt"}) EXCEPT !.uw = 16, !.cap = 100], [Cfg(Common \cup {"multi"}) EXCEPT !.uw = 2, !.cap = 24, !.owned = TRUE],
                Cfg(Common \cup {"multi"}), [Cfg(Common \ {"rle"}) EXCEPT !.uw = 1, !.cap = 20] >>
Hex(n) == NumHex(OfNat(n))
Ones(w) == HexOf([i \in 1..w |-> 255])
Addrs(cc) == {B("0"), B("1"), B("10"), B("00fe"), B("100"), B("FF"), Ones(cc.uw), Front(Ones(cc.uw)) \o B("e"), Front(Ones(cc.uw)) \o B("0"),
              B("1") \o HexOf([i \in 1..cc.uw |-> 0]), B("0") \o Ones(cc.uw)}
Bad == {B(x) : x \in {"m", "m,", "m1", "m1,", "m,1", "mx,1", "mg,1", "m1,g", "m1,2,3", "m1;2", "M1,1", "M1,1:", "M1,1:a", "M1,1:ag", "M,1:aa", "M1,:aa",
                      "X1,1", "X1,1:", "X1,1:}", "X,1:a", "X1,2:a}", "M1:1,aa", "X1:1,a", "m10000000000000000,1", "m1,10000000000000000", "M1,1:aa:bb", "M1,1:aa,bb"}}
Reads(cc) == {B("m") \o a \o B(",") \o Hex(n) : a \in Addrs(cc), n \in {0, 1, 2, 5, 16, cc.cap - 20} \cup (IF Thorough THEN {255, 256, cc.cap, 2 * cc.cap} ELSE {cc.cap + 3})}
Payload == {<<>>, <<170>>, <<0, 255>>, <<35, 36, 125, 42>>, <<1, 2, 3, 4, 5, 6, 7>>}
Bin(d) == Escape(d)
Writes(cc) == {B("M") \o a \o B(",") \o Hex(n) \o B(":") \o HexOf(d) : a \in Addrs(cc), n \in {0, 1, 2, 4}, d \in Payload}
              \cup {B("X") \o a \o B(",") \o Hex(n) \o B(":") \o Bin(d) : a \in Addrs(cc), n \in {0, 1, 4}, d \in Payload \cup {<<58, 44>>, <<44>>}}
MyPackets(cc, s) == IF s.mem = <<1>> THEN Bad \cup Reads(cc) \cup Writes(cc) \cup {B("Hg7")} ELSE {B("m10,4"), B("M0,1:55"), B("X0,1:5")}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) ==
  IF f # "read_addrs" THEN StdData(cc, f, a)
  ELSE LET n == ToNat(a[3])
           first == ToNat(a[2]) <= 16 \/ ~Thorough
       IN {<< Count(n), a[3], <<1>> >>} \cup (IF n > 0 THEN {<< Count(n - 1), OfNat(n - 1) >>, << <<>>, <<>> >>} ELSE {}) \cup {<< Count(n), OfNat(n + 1000) >>}
MyErrs(cc, f) == IF Thorough THEN AllErrs(cc, f) ELSE {EFatal, ENo, EIo}
MyDepth == 2
MyCount == 0
IsHexErr(p) == Len(p) = 3 /\ p[1] = 69
(* P10: what is sent back is what the target delivered, address after address *)
Delivered == LET ok == SelectSeq(KK, LAMBDA k : k.f = "read_addrs" /\ k.k = "ok") IN FoldLeft(LAMBDA a, k : a \o k.v[1], <<>>, ok)
P10Mem ==
  /\ (S.t = "pkt" /\ S.v # <<>> /\ S.v[1] = 109 /\ X.err = "none") =>
       LET q == Split(Tail(S.v), {COMMA})
           n == ToNat(HexNum(q[2]).v)
           rs == SelectSeq(X.calls, LAMBDA k : k.f = "read_addrs")
       IN /\ IsHexErr(X.pk[1]) \/ (X.pk[1] = HexOf(Delivered) /\ Len(Delivered) <= n)
          /\ IsHexErr(X.pk[1]) => Delivered = <<>> /\ rs # <<>>
          /\ rs # <<>> => Trim0(rs[1].a[2]) = HexNum(q[1]).v
          /\ \A i \in 2..Len(rs) : rs[i].a[2] = Add(rs[i - 1].a[2], ToNat(rs[i - 1].a[3]))
          /\ \A i \in 1..Len(rs) : Len(rs[i].a[2]) <= c.uw
  /\ (S.t = "pkt" /\ S.v # <<>> /\ S.v[1] \in {77, 88} /\ X.err = "none" /\ ~X.un) =>
       LET d == SplitN(Tail(S.v), {COMMA, COLON}, 3)
       IN X.calls = << Call("write_addrs", << IF c.f.multi THEN gh.mem ELSE <<>>, HexNum(d[1]).v,
                          IF S.v[1] = 88 THEN UnBin(d[3]).v ELSE UnHex(Split(d[3], {COLON, COMMA})[1]) >>) >>
MyProps == [][P10Mem]_vars
=============================================================================
