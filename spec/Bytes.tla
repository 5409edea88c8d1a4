------------------------------- MODULE Bytes -------------------------------
(* Byte strings and numbers as the GDB remote protocol writes them.

   A byte string is a sequence of integers 0..255.  A number is its canonical
   big-endian byte string (no leading zero; zero is the empty sequence), so
   that values wider than TLC's integers are compared and printed exactly. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Chars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == TLCEval([c \in {SubSeq(Chars, i, i) : i \in 1..Len(Chars)} |->
            31 + (CHOOSE i \in 1..Len(Chars) : SubSeq(Chars, i, i) = c)])

(* the bytes of an ASCII literal *)
B(s) == TLCEval([i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]])

HASH == 35
DOLLAR == 36
STAR == 42
PLUS == 43
COMMA == 44
MINUS == 45
DOT == 46
SLASH == 47
COLON == 58
SEMI == 59
EQ == 61
ESC == 125
CTRLC == 3

(* hex digits; gdbstub additionally reads 'x' and 'X' as 0 *)
HexTab == TLCEval([b \in 0..255 |->
            CASE b \in 48..57 -> b - 48
              [] b \in 97..102 -> b - 87
              [] b \in 65..70 -> b - 55
              [] b \in {120, 88} -> 0
              [] OTHER -> -1])
HexDigit == << 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102 >>

AllHex(s) == \A i \in 1..Len(s) : HexTab[s[i]] >= 0

StartsWith(s, p) == Len(p) <= Len(s) /\ \A i \in 1..Len(p) : s[i] = p[i]
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, k)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Trim0(s) ==
  LET k == SelectInSeq(s, LAMBDA x : x # 0) IN IF k = 0 THEN <<>> ELSE Drop(s, k - 1)

(* pairs of hex digits, an odd leading digit standing alone *)
UnHex(s) ==
  LET n == Len(s)
      o == n % 2
  IN TLCEval([i \in 1..((n + o) \div 2) |->
        IF i = 1 /\ o = 1 THEN HexTab[s[1]]
        ELSE 16 * HexTab[s[2 * i - 1 - o]] + HexTab[s[2 * i - o]]])

NONE == [ok |-> FALSE, v |-> <<>>]
Some(v) == [ok |-> TRUE, v |-> v]

(* a hex number, or nothing *)
HexNum(s) == IF s = <<>> \/ ~AllHex(s) THEN NONE ELSE Some(Trim0(UnHex(s)))
(* a hex number that fits into w bytes *)
HexNumW(s, w) == LET r == HexNum(s) IN IF r.ok /\ Len(r.v) <= w THEN r ELSE NONE
(* a buffer of hex digits (possibly empty, possibly odd) *)
HexBuf(s) == IF AllHex(s) THEN Some(UnHex(s)) ELSE NONE

(* binary data with '}' escapes *)
UnBin(s) ==
  IF \A i \in 1..Len(s) : s[i] # ESC THEN Some(s)
  ELSE LET st == FoldLeft(LAMBDA a, b :
                    IF a.e THEN [v |-> Append(a.v, IF (b \div 32) % 2 = 1 THEN b - 32 ELSE b + 32), e |-> FALSE]
                    ELSE IF b = ESC THEN [a EXCEPT !.e = TRUE]
                    ELSE [a EXCEPT !.v = Append(@, b)],
                  [v |-> <<>>, e |-> FALSE], s)
       IN IF st.e THEN NONE ELSE Some(st.v)

(* split at every byte of the set d *)
Split(s, d) ==
  LET st == FoldLeft(LAMBDA a, b : IF b \in d THEN [p |-> Append(a.p, a.c), c |-> <<>>]
                                   ELSE [a EXCEPT !.c = Append(@, b)],
                     [p |-> <<>>, c |-> <<>>], s)
  IN Append(st.p, st.c)
(* split at the first n-1 bytes of the set d *)
SplitN(s, d, n) ==
  LET st == FoldLeft(LAMBDA a, b : IF b \in d /\ Len(a.p) < n - 1 THEN [p |-> Append(a.p, a.c), c |-> <<>>]
                                   ELSE [a EXCEPT !.c = Append(@, b)],
                     [p |-> <<>>, c |-> <<>>], s)
  IN Append(st.p, st.c)

Join(parts, sep) ==
  FoldLeftDomain(LAMBDA a, i : IF i = 1 THEN parts[1] ELSE a \o sep \o parts[i], <<>>, parts)

HexOf(s) == TLCEval([i \in 1..(2 * Len(s)) |->
              LET b == s[(i + 1) \div 2] IN HexDigit[1 + (IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]])
(* a number as gdbstub prints it: whole bytes, leading zero bytes trimmed, 0 as "00" *)
NumHex(v) == IF v = <<>> THEN <<48, 48>> ELSE HexOf(v)

(* small numbers *)
BIG == 16777216
ToNat(v) == IF Len(v) > 3 THEN BIG ELSE FoldLeft(LAMBDA a, b : 256 * a + b, 0, v)
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE Append(OfNat(n \div 256), n % 256)
RECURSIVE DecNat(_)
DecNat(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DecNat(n \div 10), 48 + (n % 10))
DecOf(v) == DecNat(ToNat(v))

(* number + small number *)
RECURSIVE AddCarry(_, _)
AddCarry(v, c) ==
  IF c = 0 THEN v
  ELSE IF v = <<>> THEN OfNat(c)
  ELSE LET t == Last(v) + c IN Append(AddCarry(Front(v), t \div 256), t % 256)
Add(v, n) == Trim0(AddCarry(v, n))

(* fixed-width big-endian form *)
Be(v, w) == [i \in 1..w |-> IF i <= w - Len(v) THEN 0 ELSE v[i - (w - Len(v))]]

Sum256(s) == FoldLeft(LAMBDA a, b : (a + b) % 256, 0, s)
Range0(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
