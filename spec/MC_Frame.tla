------------------------------ MODULE MC_Frame ------------------------------
(* Byte streams: every string over a small alphabet, into packet buffers of
   every small size, borrowed and growable, in the idle and the running state. *)
EXTENDS MC

(* packets which leave something behind in the packet buffer *)
MyConfigs ==
  LET k(cap, own) == [Cfg(Common \cup {"resume", "multi", "ext"}) EXCEPT !.cap = cap, !.owned = own]
  IN << k(6, FALSE), k(0, TRUE), k(40, FALSE), k(8, FALSE), k(5, FALSE), k(2, FALSE), k(1, FALSE), k(0, FALSE) >>
     \o (IF Thorough THEN << k(7, FALSE), k(9, FALSE), k(3, TRUE), k(10, FALSE) >> ELSE <<>>)
(* '?' = 3f, '!' = 21 *)
Alphabet == {<<DOLLAR>>, <<HASH>>, <<63>>, <<CTRLC>>}
Few == {<<DOLLAR>>, <<HASH>>, <<PLUS>>, <<MINUS>>, <<CTRLC>>, <<63>>, B("3"), B("F"), B("f"), <<0>>, <<33>>, B("2"), B("1"),
        B("x"), <<255>>}
Digits == {B("3"), B("f"), B("F"), B("7"), <<HASH>>, <<DOLLAR>>}
MyRaw(cc, s) ==
  LET n == s.rx.n
      long == {B("$c#63"), B("$m1,2#5f"), B("$Hgf#f5"), B("$vKill;1#6e"), B("+$?#3f"), B("++"), B("$qC#b4")}
  IN CASE n = 0 -> Few \cup long
       [] n = 1 -> Few
       [] s.rx.m \in {"1", "2"} -> IF n <= 3 THEN Few ELSE Digits
       [] n >= (IF Thorough THEN 6 ELSE 4) -> {<<HASH>>, <<63>>}
       [] OTHER -> Alphabet
MyPackets(cc, s) == {}
MyReasons(cc, s) == NoReasons(cc, s)
MyDepth == IF Thorough THEN 11 ELSE 8
MyData(cc, f, a) == CASE f \in {"is_thread_alive", "kill"} -> {<< <<1>> >>} [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == NoErrs(cc, f)
MyCount == IF Thorough THEN 2 ELSE 1
MyProps == TRUE
=============================================================================
