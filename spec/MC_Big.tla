------------------------------- MODULE MC_Big -------------------------------
(* Big things: packets and replies of hundreds and thousands of bytes, in and
   just over packet buffers of such sizes; long thread lists, argument lists
   and action lists. *)
EXTENDS Catalog
On0 == (Everything \ {"lldbov", "multi", "tdesc"}) \cup {"archxml"}
Glyphs == [i \in 1..5000 |-> CASE i <= 8 -> B("<target>")[i] [] OTHER -> 97 + (i - 26 * (i \div 26))]
MyConfigs == << [Cfg(On0) EXCEPT !.cap = 5000, !.xml = Glyphs], [Cfg(On0 \cup {"multi"}) EXCEPT !.cap = 60, !.owned = TRUE, !.threads = [i \in 1..300 |-> i + 200]],
                [Cfg(On0) EXCEPT !.cap = 1100, !.xml = SubSeq(Glyphs, 1, 2000)], [Cfg((On0 \cup {"multi"}) \ {"rle"}) EXCEPT !.cap = 700, !.threads = [i \in 1..60 |-> 65536 + i]],
                [Cfg(On0) EXCEPT !.cap = 258, !.uw = 4], [Cfg(On0 \ {"rle"}) EXCEPT !.cap = 256, !.uw = 16, !.owned = TRUE] >>
(* lengths of whole packets around the buffer's size and around powers of two *)
Rm(i, k) == i - k * (i \div k)
Around(n) == {k \in {n - 1, n, n + 1} : k > 20}
Totals(cc) == (IF cc.cap > 600 THEN {cc.cap - 1, cc.cap, cc.cap + 1} ELSE {}) \cup Around(256) \cup {600, 1024, 2100} \cup (IF Thorough THEN Around(128) \cup Around(512) \cup Around(4096) ELSE {})
Stuff(b, n, f(_)) == b \o [i \in 1..Max2(0, n - 4 - Len(b)) |-> f(i)]
(* an even number of hex digits *)
FillHex(b, n) == LET m == Max2(0, n - 4 - Len(b)) IN b \o [i \in 1..(m - Rm(m, 2)) |-> HexDigit[1 + Rm(i * 7 + i \div 16, 16)]]
Bin(i) == LET x == Rm(i * 5 + i \div 51, 256) IN IF x \in {HASH, DOLLAR, ESC, STAR} THEN 65 ELSE x
Rep(b, x, n) == b \o [i \in 1..(Max2(0, n - 4 - Len(b)) - Rm(Max2(0, n - 4 - Len(b)), Len(x))) |-> x[1 + Rm(i - 1, Len(x))]]
Heads == {"M10,100:", "qRcmd,", "vFile:open:", "QEnvironmentHexEncoded:", "QSetWorkingDir:", "vRun;", "QTDP:1:2:X0,10:", "G", "P1=", "vFile:unlink:"}
Lot(n) ==
  {FillHex(B(h), n) : h \in Heads}
  \cup {Stuff(B("X10,100:"), n, Bin), Stuff(B("vFile:pwrite:3,0,"), n, Bin), Stuff(B("qz"), n, LAMBDA i : 102), Stuff(B("QTDP:1:2:S"), n, LAMBDA i : 82)}
  \cup {Rep(B("vRun;66"), B(";6162"), n), Rep(B("vCont;c"), B(";s:1;C05:2"), Min2(n, 260)), Rep(B("QCatchSyscalls:1"), B(";1f"), n), Rep(B("qSupported:a"), B(";xml+"), n),
        Rep(B("vCont"), B(";r10,20:3"), Min2(n, 300)), Rep(B("QTDP:1:2:"), B("R03M0,10,4"), Min2(n, 600))}
Counts == {255, 256, 257, 1000, 4095, 4096, 4097}
Hx(n) == NumHex(OfNat(n))
Asking == {B("m10,") \o Hx(n) : n \in Counts} \cup {B("vFile:pread:3,") \o Hx(n) \o B(",0") : n \in Counts} \cup {B("qXfer:auxv:read::0,") \o Hx(n) : n \in Counts}
          \cup {B("qXfer:features:read:target.xml:") \o Hx(o) \o B(",") \o Hx(n) : o \in {0, 255, 256, 257, 1000, 4097}, n \in {100, 255, 256, 1000, 4096}}
          \cup {B("qTBuffer:10,") \o Hx(n) : n \in Counts} \cup {B("qfThreadInfo"), B("qRcmd,00"), B("qThreadExtraInfo,1"), B("vFile:readlink:2f"), B("qXfer:exec-file:read::0,1000"), B("g")}
MyPackets(cc, s) == IF s.rx.len = cc.cap THEN UNION {Lot(n) : n \in Totals(cc)} \cup Asking ELSE {B("m10,4"), B("?")}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
Bulk(n) == [i \in 1..n |-> Rm(i * 3 + i \div 100, 256)]
MyData(cc, f, a) ==
  CASE f = "read_addrs" -> {<< Bulk(ToNat(a[3])), a[3], <<1>> >>}
    [] f \in {"pread", "get_auxv"} -> LET n == IF Len(a) > 0 THEN ToNat(a[Len(a) - 1]) ELSE 10 IN {Buf(Bulk(Min2(n, 200)))}
    [] f = "handle_monitor_cmd" -> {<< <<2>> \o [i \in 1..1000 |-> 32 + Rm(i * 3 + i \div 90, 95)] >>}
    [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == NoErrs(cc, f)
MyDepth == 2
MyCount == 0
MyProps == TRUE
=============================================================================
