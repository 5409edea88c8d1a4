------------------------------- MODULE MC_Regs -------------------------------
(* Register access: the whole file and single registers, every declared size,
   answers of every length. *)
EXTENDS Catalog
MyConfigs == << Cfg(Common \cup {"sra", "multi"}), Cfg(Common \cup {"sra"}), Cfg(Common \cup {"multi"}), [Cfg(Common \cup {"sra"}) EXCEPT !.cap = 100],
                [Cfg(Common \cup {"sra", "multi"}) EXCEPT !.owned = TRUE, !.cap = 30], [Cfg(Common) EXCEPT !.uw = 4] >>
Nums == {"0", "1", "3", "7", "8", "b", "c", "d", "C", "00", "ff", "100000007", "ffffffffffffffff", "10000000000000000", "", "g", "x"}
Hx(n) == HexOf([i \in 1..n |-> (i * 37) % 256])
MyPackets(cc, s) ==
  IF s.mem # <<1>> THEN {B(x) : x \in {"g", "G0102", "p2", "P2=010203", "Hg1"}}
  ELSE {B("p") \o B(n) : n \in Nums} \cup {B("P") \o B(n) \o B("=") \o Hx(k) : n \in Nums, k \in {0, 1, 2, 8, 200 \div (IF cc.cap < 200 THEN 8 ELSE 1)}}
       \cup {B("G") \o Hx(k) : k \in {0, 1, 2, 31, 32, 33, 40}}
       \cup {B(x) : x \in {"g", "g1", "G1", "Ggg", "Gxx", "G123", "P1", "P1=1", "P1=gg", "P=01", "P1=01=02", "p1=02", "P1:01", "Hg2"}}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) ==
  CASE f = "read_registers" -> {<< [i \in 1..n |-> (i * 91) % 256] >> : n \in {0, 1, 15, 32}} \cup {<< [i \in 1..8 |-> IF i % 3 = 0 THEN 256 ELSE i] >>, << <<256>> >>, << <<255, 256, 0>> >>}
    [] f = "read_register" -> LET z == RegSize(a[2])
                                  n == IF z = 0 THEN 3 ELSE z
                              IN {Buf(Count(n)), Buf(<<>>), Buf(Count(n + 1))} \cup (IF z # 1 THEN {Buf(Count(n - 1))} ELSE {}) \cup (IF z = 0 THEN {Buf(Count(20)), << Count(4), OfNat(2000) >>} ELSE {})
    [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == AllErrs(cc, f)
MyDepth == IF Thorough THEN 3 ELSE 2
MyCount == 0
(* P11: two hex digits or 'x' marks per byte, in the target's order *)
Shown(v, p) == Len(p) = 2 * Len(v) /\ \A i \in 1..Len(v) :
                 LET d == SubSeq(p, 2 * i - 1, 2 * i) IN IF v[i] = 256 THEN d = B("xx") ELSE UnHexOk(d) /\ HexVal(d) = v[i] /\ d[1] # 120
Ok1(f) == {i \in 1..Len(KK) : KK[i].f = f /\ KK[i].k = "ok"}
P11Regs ==
  /\ (S.v = B("g") /\ X.err = "none" /\ Ok1("read_registers") # {}) => Shown(KK[1].v[1], X.pk[1])
  /\ (Ok1("read_register") # {} /\ X.err = "none" /\ ToNat(KK[1].v[2]) > 0) => Shown(KK[1].v[1], X.pk[1])
  /\ (S.t = "pkt" /\ S.v # <<>> /\ S.v[1] = 71 /\ X.err = "none") => Len(X.calls) = 1 /\ X.calls[1].a[2] = UnHex(Tail(S.v))
  /\ (S.t = "pkt" /\ S.v # <<>> /\ S.v[1] = 80 /\ X.err = "none" /\ X.calls # <<>>) =>
        LET q == Split(Tail(S.v), {EQ}) IN X.calls[1].a[2] = HexNum(q[1]).v /\ X.calls[1].a[3] = UnHex(q[2])
MyProps == [][P11Regs]_vars
=============================================================================
