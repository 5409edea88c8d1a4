------------------------------ MODULE MC_Vcont ------------------------------
(* Lists of resume actions, on every kind of resumable target. *)
EXTENDS Catalog
Base == Common \cup {"resume"}
MyConfigs == << Cfg(Base \cup {"multi", "step", "range"}), Cfg(Base \cup {"step", "range"}), Cfg(Base \cup {"multi"}), Cfg(Base),
                Cfg(Base \cup {"multi", "step"}), [Cfg(Base \cup {"multi", "range", "step"}) EXCEPT !.uw = 1], [Cfg(Base \cup {"range"}) EXCEPT !.uw = 1],
                Cfg(Base \cup {"step", "rcont", "rstep", "multi"}) >>
Act0 == {"c", "c:1", "c:2", "c:p1.2", "c:-1", "c:p1.-1", "C05", "C05:2", "s", "s:2", "S0b:1", "s:p1.-1", "t:1", "r1,2:1", "r10,8:2", "r100,200:1", "r1:1",
        "", "C", "C5:1", "Cfff:1", "c:0", "c:p0.1", "cx:1", "c:", "S:1", "r,:1", "s:1:2", "q", "r1,2"}
Acts == {B(a) : a \in Act0}
Few == {B(a) : a \in {"c", "c:2", "s:1", "s", "r1,2:2", "C05:1", "", "t:1", "S0b"}}
Lists == {<<a>> : a \in Acts} \cup {<<a, b>> : a \in Acts, b \in Few} \cup {<<a, b>> : a \in Few, b \in Acts}
         \cup (IF Thorough THEN {<<a, b, x>> : a \in Few, b \in Few, x \in Few} \cup {<<a, b>> : a \in Acts, b \in Acts}
               ELSE {<<a, B("c"), B("c")>> : a \in Few} \cup {<<B("s:1"), B("c:2"), b>> : b \in Few})
Texts0 == {B("vCont;") \o Join(l, <<SEMI>>) : l \in Lists}
Other0 == {B(x) : x \in {"vCont", "vCont?", "vCont;", "vContx", "vCont;;", "c", "s", "c10", "s10", "cz", "szz", "bc", "bs", "bs1", "c;", "C05", "S05"}}
MyPackets(cc, s) == IF s.mode = "Running" THEN {} ELSE Other0 \cup (IF s.res = [k |-> "id", v |-> <<1>>] THEN Texts0 ELSE {}) \cup {B("Hc-1"), B("Hc2"), B("Hc0"), B("Hg2")}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) == IF f = "list_active_threads" THEN { << <<4>>, <<2>> >> } ELSE StdData(cc, f, a)
MyErrs(cc, f) == {EFatal}
MyDepth == 2
MyCount == 0

(* P09, read off the text of the command: the calls made when everything is
   understood *)
Pieces == Tail(Split(S.v, {SEMI}))
Th(p) == LET q == Split(p, {COLON}) IN IF Len(q) < 2 THEN 0
         ELSE LET t == SelText(<<72, 99>> \o q[2]) IN IF t \in {B("-1"), B("0")} THEN 0 ELSE ToNat(HexNum(t).v)
Head0(p) == Split(p, {COLON})[1]
OneCall(p) ==
  LET h == Head0(p)
      t == OfNat(Th(p))
  IN CASE h = B("c") -> << Call("set_resume_action_continue", <<t, <<>> >>) >>
       [] h = B("s") -> << Call("set_resume_action_step", <<t, <<>> >>) >>
       [] h[1] = 67 -> << Call("set_resume_action_continue", <<t, UnHex(Tail(h)) >>) >>
       [] h[1] = 83 -> << Call("set_resume_action_step", <<t, UnHex(Tail(h)) >>) >>
       [] OTHER -> LET r == Split(Tail(h), {COMMA}) IN << Call("set_resume_action_range_step", <<t, Trim0(UnHex(r[1])), Trim0(UnHex(r[2])) >>) >>
SameCalls(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i].f = y[i].f /\ Len(x[i].a) = Len(y[i].a)
                      /\ \A j \in 1..Len(x[i].a) : Trim0(x[i].a[j]) = Trim0(y[i].a[j])
P09Calls ==
  (S.t = "pkt" /\ StartsWith(S.v, B("vCont;")) /\ X.cmp = "resumed") =>
    IF c.f.multi
    THEN LET withT == SelectSeq(Pieces, LAMBDA p : Th(p) # 0)
         IN /\ SameCalls(X.calls, << Call("clear_resume_actions", <<>>) >>
                   \o FoldLeft(LAMBDA a, p : a \o OneCall(p), <<>>, withT) \o << Call("resume", <<>>) >>)
            /\ \A i \in 1..Len(Pieces) : Th(Pieces[i]) = 0 => Head0(Pieces[i])[1] \in {67, 99}
    ELSE /\ Len(X.calls) = 1
         /\ LET h == Head0(Pieces[1]) IN X.calls[1].f = (CASE h[1] \in {67, 99} -> "resume" [] h[1] \in {83, 115} -> "step" [] OTHER -> "resume_range_step")
         /\ Len(Pieces) > 1 => Len(Pieces) = 2 /\ Head0(Pieces[2]) = B("c")
MyProps == [][P09Calls]_vars
=============================================================================
