---------------------------- MODULE MC_Monitor ----------------------------
(* Monitor commands: every short sequence of console operations, before
   success and before a fatal error. *)
EXTENDS Catalog
MyConfigs == << Cfg(Common \cup {"monitor"}), [Cfg((Common \cup {"monitor"}) \ {"rle"}) EXCEPT !.cap = 60], [Cfg(Common \cup {"monitor", "multi", "resume"}) EXCEPT !.owned = TRUE, !.cap = 30], Cfg(Common) >>
Cmds == {<<>>, H("help"), H("a b;c"), B("00ff"), B("4"), B("zz"), HexOf([i \in 1..10 |-> 35])}
MyPackets(cc, s) == {B("qRcmd,") \o x : x \in Cmds} \cup {B("qRcmd"), B("qRcmd:41"), B("qRcmd;41"), B("?"), B("QStartNoAckMode")}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
Letter(i) == 64 + i - 26 * (i \div 26)
Letters == [i \in 1..130 |-> Letter(i)]
Ops == {<<0>>, <<0, 104, 105>>, <<0>> \o [i \in 1..40 |-> 120], <<0, 35, 36, 42, 125, 0, 255>>, <<0>> \o Letters, <<1>>, <<2>>, <<2, 104, 101, 121>>, <<3>>, <<3, 108, 110>>}
Outs == {<<>>} \cup {<<x>> : x \in Ops} \cup {<<x, y>> : x \in Ops, y \in Ops} \cup (IF Thorough THEN {<<x, y, z>> : x \in Ops, y \in Ops, z \in Ops} ELSE {<<x, <<1>>, x, y>> : x \in Ops, y \in Ops})
MyData(cc, f, a) == IF f = "handle_monitor_cmd" THEN (IF a[1] = B("help") THEN Outs ELSE {<<>>, << <<2, 104>> >>}) ELSE StdData(cc, f, a)
MyErrs(cc, f) == IF f = "handle_monitor_cmd" THEN {[k |-> "fatal", v |-> << <<77>> >> \o o] : o \in {<<>>} \cup {<<x, <<1>>, y>> : x \in Ops, y \in Ops}} ELSE SomeErrs(cc, f)
MyDepth == 2
MyCount == 0
(* P26 *)
Written(o) == CASE o[1] = 1 -> <<>> [] o[1] = 3 -> Append(Tail(o), 10) [] OTHER -> Tail(o)
P26Mon ==
  (S.t = "pkt" /\ X.calls # <<>> /\ X.calls[1].f = "handle_monitor_cmd") =>
    /\ Len(X.calls) = 1 /\ X.calls[1].a = << UnHex(Drop(S.v, 6)) >>
    /\ X.cmp = "console"
    /\ LET o == IF KK[1].k = "ok" THEN KK[1].v ELSE Tail(KK[1].v)
       IN X.aux = FoldLeft(LAMBDA a, k : a \o Written(k), <<>>, o)
    /\ (KK[1].k = "ok") => X.err = "none" /\ X.pk = << B("OK") >>
    /\ (KK[1].k # "ok") => X.err = "target" /\ X.pk = <<>>
MyProps == [][P26Mon]_vars
=============================================================================
