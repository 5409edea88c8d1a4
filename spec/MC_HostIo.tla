----------------------------- MODULE MC_HostIo -----------------------------
(* Host I/O: every operation, every operation missing, extreme arguments, and
   every result. *)
EXTENDS Catalog
On0 == Common \cup HostOps
MyConfigs == << Cfg(On0), [Cfg(On0 \cup {"multi"}) EXCEPT !.cap = 100], [Cfg(On0 \ {"rle"}) EXCEPT !.owned = TRUE, !.cap = 30, !.uw = 4],
                Cfg(On0 \ {"hopen", "hpread", "hfstat", "hreadlink"}), Cfg(On0 \ {"hclose", "hpwrite", "hunlink", "hsetfs"}), Cfg(Common \cup (HostOps \ {"hostio"})), [Cfg(On0) EXCEPT !.uw = 1] >>
V(x) == B("vFile:") \o B(x)
Names == {<<>>, H("/"), H("/a b"), H("/tmp/x"), B("00ff"), B("2"), B("zz")}
Flags1 == {"0", "1", "2", "3", "8", "200", "400", "601", "800", "e0b", "4", "1000", "f0000000", "80000000", "ffffffff", "100000000", "", "g", "-1"}
Modes == {"0", "1b6", "1ff", "1a4", "2000", "4000", "8000", "c1ff", "8180", "200", "ffff", "3000", "10000", "ffffffff", "100000000", "", "g"}
Fds == {"0", "3", "7fffffff", "80000000", "ffffffff", "100000000", "", "g", "-1", "00000003"}
Sizes == {"0", "1", "10", "1000", "ffffffffffffffff", "10000000000000000", "", "x"}
Data0 == {<<>>, <<97>>, <<44, 58, 59>>, <<0, 255>>, Escape(<<35, 36, 125, 42>>), <<125>>, <<97, 125>>, B("abc,def,ghi")}
MyPackets(cc, s) ==
  {V("open:") \o n \o B(",0,1b6") : n \in Names} \cup {V("open:2f,") \o B(f) \o B(",1b6") : f \in Flags1} \cup {V("open:2f,0,") \o B(m) : m \in Modes}
  \cup {V("close:") \o B(f) : f \in Fds} \cup {V("fstat:") \o B(f) : f \in Fds} \cup {V("setfs:") \o B(f) : f \in Fds \cup Sizes}
  \cup {V("pread:") \o B(f) \o B(",10,0") : f \in Fds} \cup {V("pread:3,") \o B(n) \o B(",0") : n \in Sizes} \cup {V("pread:3,10,") \o B(n) : n \in Sizes}
  \cup {V("pwrite:") \o B(f) \o B(",0,ab") : f \in Fds} \cup {V("pwrite:3,") \o B(n) \o B(",ab") : n \in Sizes \cup {"ff", "100", "ffffffff", "00ff"}} \cup {V("pwrite:3,4,") \o d : d \in Data0}
  \cup {V("unlink:") \o n : n \in Names} \cup {V("readlink:") \o n : n \in Names}
  \cup {V(x) : x \in {"open", "open:", "open:2f", "open:2f,0", "open:2f,0,0,0", "open2f,0,0", "close", "close:3,1", "close3", "pread:3", "pread:3,1", "pread:3,1,1,1", "pread:3;1;1", "pwrite:3,1", "pwrite:3",
                      "fstat", "unlink", "unlink:2f,1", "readlink", "setfs", "setfs:1,1", "lstat:2f", "stat:2f", "", "opendir:2f", "openx:2f,0,0"}}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) ==
  CASE f \in {"pread", "readlink"} -> {Buf(d) : d \in {x \in {<<>>, <<97>>, <<59, 44>>, <<35, 36, 42, 125, 0, 255>>, [i \in 1..16 |-> 48]} : f = "readlink" \/ Len(x) <= ToNat(a[2])}} \cup {<< <<>>, OfNat(60000) >>}
    [] f \in {"open", "pwrite"} -> {<< x >> : x \in {y \in {<<>>, <<3>>, <<255>>, <<1, 0>>, <<127, 255, 255, 255>>, <<255, 255, 255, 255>>} : f = "open" \/ Len(y) <= cc.uw}}
    [] f = "fstat" -> {[i \in 1..13 |-> <<>>], [i \in 1..13 |-> <<i>>], [i \in 1..13 |-> IF i \in 8..10 THEN [j \in 1..8 |-> 16 * i + j - 1] ELSE [j \in 1..4 |-> 16 * i + j - 1]],
                       [i \in 1..13 |-> IF i \in 8..10 THEN [j \in 1..8 |-> 255] ELSE [j \in 1..4 |-> 255]], [i \in 1..13 |-> IF i \in 8..10 THEN <<35, 36, 42, 125, 35, 36, 42, 125>> ELSE <<125, 42, 36, 35>>]}
    [] OTHER -> StdData(cc, f, a)
Hosts == {[k |-> "herr", v |-> << v >>] : v \in {<<1>>, <<2>>, <<9>>, <<22>>, <<91>>, <<39, 15>>}}
Hios == {[k |-> "hio", v |-> << v >>] : v \in {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<5>>}}
MyErrs(cc, f) == {EFatal} \cup (IF f \in {"open", "close"} THEN Hosts \cup Hios ELSE {EHost, EHio})
MyDepth == 1
MyCount == 0
(* P18 *)
Op == Split(Drop(S.v, 6), {COLON})[1]
Attach(p) == LET i == SelectInSeq(p, LAMBDA y : y = SEMI) IN IF i = 0 THEN <<>> ELSE Drop(p, i)
HeadOf(p) == LET i == SelectInSeq(p, LAMBDA y : y = SEMI) IN IF i = 0 THEN p ELSE Take(p, i - 1)
P18Host ==
  (S.t = "pkt" /\ X.calls # <<>> /\ X.err = "none") =>
    /\ Len(X.calls) = 1 /\ B(X.calls[1].f) = Op /\ Len(X.pk) = 1 /\ X.pk[1][1] = 70
    /\ LET k == KK[1]
           p == X.pk[1]
       IN CASE k.k \in {"herr", "hio"} -> StartsWith(p, B("F-1,"))
            [] k.f \in {"open", "pwrite"} -> p = <<70>> \o NumHex(k.v[1])
            [] k.f \in {"pread", "readlink"} -> HexNum(Tail(HeadOf(p))).v = OfNat(Len(k.v[1])) /\ Attach(p) = k.v[1] /\ SEMI \in Range(p)
            [] k.f = "fstat" -> /\ HeadOf(p) = B("F40") /\ Len(Attach(p)) = 64
                                /\ \A i \in 1..13 :
                                     LET at == 4 * (i - 1) + 4 * Cardinality({j \in 8..10 : j < i})
                                         w == IF i \in 8..10 THEN 8 ELSE 4
                                     IN Trim0(SubSeq(Attach(p), at + 1, at + w)) = k.v[i]
            [] OTHER -> p = B("F0")
MyProps == [][P18Host]_vars
=============================================================================
