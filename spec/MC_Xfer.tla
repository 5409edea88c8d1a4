------------------------------ MODULE MC_Xfer ------------------------------
(* Object transfers: every kind, windows around the object's end and the
   packet buffer's size, annexes, and answers of every length. *)
EXTENDS Catalog
Open0 == B("<target>")
Rem(i, k) == i - k * (i \div k)
Glyph(i) == CASE i <= 8 -> Open0[i] [] Rem(i, 17) = 0 -> 42 [] Rem(i, 13) = 0 -> 125 [] Rem(i, 11) = 0 -> 35 [] OTHER -> 97 + Rem(i, 26)
Doc(n) == [i \in 1..n |-> Glyph(i)]
X0 == Common \cup {"archxml"}
Files == {"mmap", "exec", "auxv", "libs"}
MyConfigs == << [Cfg(X0) EXCEPT !.xml = Doc(40)], [Cfg(X0) EXCEPT !.xml = <<32, 10, 9>> \o Doc(90) \o <<13, 10, 32, 32>>, !.cap = 100], [Cfg(X0) EXCEPT !.xml = <<>>],
                [Cfg(X0 \ {"rle"}) EXCEPT !.xml = [i \in 1..60 |-> 97], !.cap = 64, !.owned = TRUE], [Cfg(X0) EXCEPT !.xml = <<10, 32, 10>>], Cfg(X0 \cup {"tdesc"}),
                Cfg(Common \cup {"tdesc"} \cup Files), [Cfg(Common \cup {"tdesc"} \cup Files) EXCEPT !.cap = 80], [Cfg(Common \cup Files) EXCEPT !.cap = 40, !.owned = TRUE],
                Cfg((X0 \cup {"tdesc"}) \ {"usexml"}), [Cfg(X0 \cup {"multi"}) EXCEPT !.xml = Doc(400), !.cap = 80] >>
Hex(n) == NumHex(OfNat(n))
L(cc) == Len(cc.xml)
Offs(cc) == {0, 1, 2, 20} \cup {n \in {L(cc) - 5, L(cc) - 1, L(cc), L(cc) + 1, L(cc) + 100} : n >= 0}
Lens(cc) == {0, 1, 2, 16, L(cc), L(cc) + 1, cc.cap, 4096}
Win(o, n) == Hex(o) \o B(",") \o Hex(n)
R(x) == B("qXfer:") \o B(x)
Kinds == {"features:read:target.xml:", "memory-map:read::", "exec-file:read::", "exec-file:read:1:", "exec-file:read:ffff:", "auxv:read::", "libraries-svr4:read::"}
Odd == {R(x) : x \in {"features:read:", "features:read:target.xml", "features:read:target.xml:", "features:read:target.xml:0", "features:read:target.xml:0,", "features:read:target.xml:,1",
         "features:read:target.xml:0,1,2", "features:read:target.xml:0,1:x", "features:read::0,10", "features:read:x.xml:0,10", "features:read:target.xmlx:0,10", "features:read:target.xm:0,10",
         "features:write:target.xml:0,1", "features:read", "memory-map:read:x:0,1", "memory-map:read:0,1", "memory-map:write::0,1", "exec-file:read:g:0,1", "exec-file:read:0:0,1", "exec-file:read:-1:0,1",
         "exec-file:read:1;0,1", "auxv:read:1:0,1", "auxv:read::0;1", "auxv:read::0,10000000000000000", "auxv:read::ffffffffffffffff,ffffffffffffffff", "libraries-svr4:read:x:0,1", "libraries-svr4:read:start=1,prev=2:0,1",
         "features:read:target.xml:ffffffffffffffff,1", "features:read:target.xml:1,ffffffffffffffff", "features:read:target.xml:10000000000000000,1", "siginfo:read::0,1", "libraries:read::0,1"}}
MyPackets(cc, s) == {R(k) \o Win(o, n) : k \in {"features:read:target.xml:"}, o \in Offs(cc), n \in Lens(cc)}
                    \cup {R(k) \o Win(o, n) : k \in Kinds, o \in {0, 1, 65536}, n \in {0, 1, 3, 30, 4096}} \cup {R("features:read:") \o a \o B(":0,20") : a \in {B("i386-core.xml"), B("target.xml"), <<65, 200>>, <<>>}} \cup Odd
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
Objects == {"target_description_xml", "memory_map_xml", "get_exec_file", "get_auxv", "get_libraries_svr4"}
MyData(cc, f, a) ==
  IF f \notin Objects THEN StdData(cc, f, a)
  ELSE LET n == Min2(ToNat(a[Len(a) - 1]), 16)
       IN {Buf(d) : d \in {x \in {<<>>, <<35>>, <<42, 35, 36, 125>>, Count(n), [i \in 1..12 |-> 32]} : Len(x) <= n}} \cup {<< <<>>, OfNat(60000) >>}
MyErrs(cc, f) == AllErrs(cc, f)
MyDepth == 1
MyCount == 0
(* P17: what is returned is the data of the window asked for; "l" exactly if
   there is nothing there *)
IsXfer(b) == StartsWith(b, B("qXfer:"))
Text == TrimText(c.xml)
P17Window ==
  (S.t = "pkt" /\ IsXfer(S.v) /\ X.err = "none" /\ ~X.un /\ ~(X.pk # <<>> /\ ErrText(X.pk[1]))) =>
     LET q == Split(S.v, {COLON})
         w == Split(q[5], {COMMA})
         o == HexNum(w[1]).v
         n == HexNum(w[2]).v
         done == X.pk[1] = <<108>>
         body == IF X.cmp = "prefix" THEN X.aux ELSE Tail(X.pk[1])
     IN IF X.calls = <<>>
        THEN /\ q[4] = B("target.xml") /\ c.f.archxml /\ q[2] = B("features")
             /\ (X.cmp = "prefix" \/ done \/ X.pk[1][1] = 109)
             /\ done <=> (ToNat(n) = 0 \/ ToNat(o) >= Len(Text))
             /\ ~done => body = SubSeq(Text, ToNat(o) + 1, ToNat(o) + Len(body)) /\ Len(body) = Min2(ToNat(n), Len(Text) - ToNat(o))
        ELSE /\ Len(X.calls) = 1
             /\ LET k == X.calls[1]
                IN /\ k.a[Len(k.a) - 2] = o /\ k.a[Len(k.a) - 1] = n
                   /\ k.f = (CASE q[2] = B("features") -> "target_description_xml" [] q[2] = B("memory-map") -> "memory_map_xml" [] q[2] = B("exec-file") -> "get_exec_file"
                               [] q[2] = B("auxv") -> "get_auxv" [] OTHER -> "get_libraries_svr4")
             /\ X.pk[1] = IF KK[1].v[1] = <<>> THEN <<108>> ELSE <<109>> \o KK[1].v[1]
MyProps == [][P17Window]_vars
=============================================================================
