-------------------------------- MODULE Wire --------------------------------
(* The byte-level protocol: how an incoming byte stream is cut into packets
   (RxByte), how packets are put on the wire (Frame, Rle, Escape) and how a
   client reads them back (ReadOut). *)
EXTENDS Bytes

----------------------------------------------------------------------------
(* Receiving.  rx.m: "R" between packets, "B" in a body, "1"/"2" before the
   first/second checksum digit.  rx.n counts the bytes of the current frame
   including '$'; rx.len is the size of the packet buffer (a heap-allocated
   buffer grows). *)
Rx0(cap) == [m |-> "R", b |-> <<>>, c |-> <<>>, n |-> 0, len |-> cap]

(* result: rx |-> next receiver state,
           p |-> "none" | "ack" | "nack" | "irq" | "junk" | "bad" | "cmd" | "overflow" *)
RxByte(rx, byte, owned) ==
  IF rx.n + 1 > rx.len /\ ~owned THEN [rx |-> rx, p |-> "overflow", body |-> <<>>]
  ELSE
  LET len == Max2(rx.len, rx.n + 1)
      Go(m, b, c, n) == [m |-> m, b |-> b, c |-> c, n |-> n, len |-> len]
      Out(p) == [rx |-> Go("R", <<>>, <<>>, 0), p |-> p, body |-> rx.b]
      Cont(r) == [rx |-> r, p |-> "none", body |-> <<>>]
  IN CASE rx.m = "R" ->
            (CASE byte = DOLLAR -> Cont(Go("B", <<>>, <<>>, 1))
               [] byte = PLUS -> Out("ack")
               [] byte = MINUS -> Out("nack")
               [] byte = CTRLC -> Out("irq")
               [] OTHER -> Out("junk"))
       [] rx.m = "B" ->
            IF byte = HASH THEN Cont(Go("1", rx.b, <<>>, rx.n + 1))
            ELSE Cont(Go("B", Append(rx.b, byte), <<>>, rx.n + 1))
       [] rx.m = "1" -> Cont(Go("2", rx.b, <<byte>>, rx.n + 1))
       [] rx.m = "2" ->
            LET d == <<rx.c[1], byte>>
            IN IF AllHex(d) /\ UnHex(d)[1] = Sum256(rx.b) THEN Out("cmd") ELSE Out("bad")

----------------------------------------------------------------------------
(* Sending *)
Checksum(b) == HexOf(<<Sum256(b)>>)
Frame(b) == <<DOLLAR>> \o b \o <<HASH>> \o Checksum(b)

Escape(s) == FoldLeft(LAMBDA a, b : IF b \in {HASH, DOLLAR, ESC, STAR}
                                    THEN a \o <<ESC, IF (b \div 32) % 2 = 1 THEN b - 32 ELSE b + 32>>
                                    ELSE Append(a, b), <<>>, s)

(* GDB's rules for a run-length count character *)
RleCountOk(c) == c \in 29..126 /\ c >= 32 /\ c # HASH /\ c # DOLLAR

(* expand run-length encoding; st = [v, s], s: 0 normal, 1 count expected, 2 illegal *)
UnRle(body) ==
  IF \A i \in 1..Len(body) : body[i] # STAR THEN Some(body)
  ELSE LET st == FoldLeft(LAMBDA a, b :
                    CASE a.s = 2 -> a
                      [] a.s = 1 -> IF RleCountOk(b) THEN [v |-> a.v \o [i \in 1..(b - 29) |-> Last(a.v)], s |-> 0]
                                    ELSE [a EXCEPT !.s = 2]
                      [] OTHER -> IF b = STAR THEN (IF a.v = <<>> THEN [a EXCEPT !.s = 2] ELSE [a EXCEPT !.s = 1])
                                  ELSE [a EXCEPT !.v = Append(@, b)],
                  [v |-> <<>>, s |-> 0], body)
       IN IF st.s = 0 THEN Some(st.v) ELSE NONE

----------------------------------------------------------------------------
(* How a client reads what was written: a sequence of items
     [t |-> "+"], [t |-> "p", v |-> payload, ok |-> well-formed?]
   and whether an unfinished packet is left at the end. *)
IsHexLower(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
DecodeFrame(body, ck, rle) ==
  LET x == UnRle(body)
      y == IF x.ok THEN UnBin(x.v) ELSE NONE
      ok == /\ IsHexLower(ck[1]) /\ IsHexLower(ck[2])
            /\ UnHex(ck)[1] = Sum256(body)
            /\ \A i \in 1..Len(body) : body[i] # DOLLAR
            /\ (rle \/ \A i \in 1..Len(body) : body[i] # STAR)
            /\ y.ok
  IN [t |-> "p", ok |-> ok, v |-> y.v]

RECURSIVE ReadFrom(_, _, _)
ReadFrom(out, acc, rle) ==
  IF out = <<>> THEN [items |-> acc, rest |-> FALSE, ok |-> TRUE]
  ELSE IF out[1] = PLUS THEN ReadFrom(Tail(out), Append(acc, [t |-> "+", ok |-> TRUE, v |-> <<>>]), rle)
  ELSE IF out[1] # DOLLAR THEN [items |-> acc, rest |-> FALSE, ok |-> FALSE]
  ELSE LET h == SelectInSeq(out, LAMBDA x : x = HASH)
       IN IF h = 0 \/ h + 2 > Len(out) THEN [items |-> acc, rest |-> TRUE, ok |-> TRUE]
          ELSE ReadFrom(Drop(out, h + 2),
                        Append(acc, DecodeFrame(SubSeq(out, 2, h - 1), SubSeq(out, h + 1, h + 2), rle)), rle)
ReadOut(out, rle) == ReadFrom(out, <<>>, rle)
=============================================================================
