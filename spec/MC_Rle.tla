------------------------------- MODULE MC_Rle -------------------------------
(* Reply payloads with runs of every length and of every special byte, in
   binary and in hex replies, with and without run-length encoding. *)
EXTENDS Catalog
MyConfigs == << Cfg({"bp", "sw", "auxv", "rle"}), Cfg({"bp", "sw", "auxv"}), Cfg({"bp", "sw", "monitor", "hostio", "hpread", "rle"}),
                Cfg({"bp", "sw", "mmap", "rle", "noack"}) >>
MyPackets(cc, s) ==
  (IF cc.f.auxv THEN {B("qXfer:auxv:read::0,fff")} ELSE {})
  \cup (IF cc.f.mmap THEN {B("qXfer:memory-map:read::0,fff"), B("m0,40"), B("g")} ELSE {})
  \cup (IF cc.f.hpread THEN {B("vFile:pread:3,fff,0"), B("qRcmd,00")} ELSE {})
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
Rep(x, n) == [i \in 1..n |-> x]
Lens == (1..12) \cup (28..38) \cup (95..102) \cup {125, 126, 127, 128, 191, 192, 193, 194, 195, 196, 200, 290} \cup (IF Thorough THEN 1..300 ELSE {})
Special == {0, 65, 109, HASH, DOLLAR, STAR, ESC, 255, 32}
Runs1 == {Rep(x, n) : x \in Special, n \in Lens}
Pairs == {Rep(x, n) \o Rep(y, k) \o <<7>> : x \in {65, HASH, 93}, y \in {66, ESC, 10, 42}, n \in {1, 2, 3, 4, 5, 6, 7, 8, 9, 97, 98, 99}, k \in {1, 3, 4, 7, 8, 97}}
MyData(cc, f, a) ==
  CASE f \in {"get_auxv", "memory_map_xml", "pread"} -> {Buf(<<>>)} \cup {Buf(x) : x \in Runs1 \cup Pairs}
    [] f = "read_addrs" -> {LET n == ToNat(a[3]) IN << [i \in 1..n |-> IF i <= k THEN x ELSE y], a[3] >> : k \in {0, 1, 5, 16, 48}, x \in {0, 17, 255}, y \in {0, 34}}
    [] f = "read_registers" -> {<< [i \in 1..n |-> x] >> : n \in {0, 1, 4, 31, 32}, x \in {0, 17, 256}}
    [] f = "handle_monitor_cmd" -> {<< <<0>> \o Rep(x, n) >> : x \in {0, 51, 255}, n \in (IF Thorough THEN 0..200 ELSE {0, 1, 2, 3, 5, 8, 16, 17, 32, 49, 50, 98, 100})}
    [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == {}
MyDepth == 1
MyCount == 0

(* a reference encoder: runs of at least three extra repetitions, at most 97
   more, and never a count that reads as '#', '$', '+' or '-' *)
CountFor(n) == LET k == Min2(n, 97) IN IF k \in {6, 7} THEN 5 ELSE IF k \in {14, 16} THEN k - 1 ELSE k
RECURSIVE RunLen(_, _)
RunLen(s, i) == IF i < Len(s) /\ s[i + 1] = s[i] THEN 1 + RunLen(s, i + 1) ELSE 1
RECURSIVE Encode(_, _)
Encode(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET r == RunLen(s, i) - 1
           k == CountFor(r)
       IN IF k < 3 THEN <<s[i]>> \o Encode(s, i + 1)
          ELSE <<s[i], STAR, 29 + k>> \o Encode(s, i + 1 + k)
(* every payload can be sent and is read back as it is *)
P03Round ==
  \A i \in 1..Len(X.pk) :
    LET e == Escape(X.pk[i])
        o == ReadOut(Frame(Encode(e, 1)) \o <<PLUS>> \o Frame(e), TRUE)
    IN /\ \A j \in 1..Len(e) : e[j] \notin {HASH, DOLLAR, STAR}
       /\ o.ok /\ ~o.rest /\ Len(o.items) = 3
       /\ o.items[1] = [t |-> "p", ok |-> TRUE, v |-> X.pk[i]]
       /\ o.items[3] = o.items[1]
MyProps == [][P03Round]_vars
=============================================================================
