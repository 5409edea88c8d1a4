-------------------------------- MODULE Pipe --------------------------------
(* Connections as byte streams: what reading, peeking, writing, flushing and
   starting a session do on the library's sockets, boxed and borrowed trait
   objects, and on connections that rely on the trait's default methods. *)
EXTENDS Integers, Sequences, TLC

(* ways to reach a connection
     0 TCP   1 Unix   2 &mut dyn ConnectionExt (Unix)   3 Box<dyn ConnectionExt> (TCP)
     4 &mut dyn Connection (TCP)   5 Box<dyn Connection> (Unix)
     6 a connection with nothing but the required methods   7, 8 a logging one behind &mut dyn / Box<dyn ConnectionExt>
     9, 10 the same behind &mut dyn / Box<dyn Connection>
   operations <<what, argument>>
     0 the peer sends a byte     1 the peer closes       2 peek      3 read
     4 read, and the peer sends a byte only later        5 write, so many times    6 write_all
     7 flush     8 session start     9 the peer takes everything
     10, 11 like 5, 6, and the peer takes everything, but late
   results: r 0 done, 1 nothing there, 2 failed, 3 never returned, 4 panicked *)
Socket(v) == v <= 5
Tcp(v) == v \in {0, 3, 4}
Reads(v) == v \notin {4, 5, 9, 10}

Pipe0 == [inq |-> <<>>, closed |-> FALSE, wr |-> 0, rd |-> 0, calls |-> 0, fl |-> 0, stt |-> 0]
\* the peer sees the bytes 0, 1, .. 250, 0, .. one after the other
Seen(from, n) == IF n = 0 THEN <<>> ELSE <<from - 251 * (from \div 251), n>>
\* the bytes which arrive when a stretch was given up at the failing one: the writer starts over with the same byte
Did(r, v) == [r |-> r, v |-> v]

(* the operation makes sense now *)
Able(v, s, o, a) ==
  CASE o = 0 -> Reads(v) /\ ~s.closed
    [] o = 1 -> Reads(v) /\ Socket(v) /\ ~s.closed
    [] o = 2 -> Reads(v)
    [] o = 3 -> Reads(v) /\ (s.inq # <<>> \/ s.closed \/ ~Socket(v))
    [] o = 4 -> Reads(v) /\ s.inq = <<>> /\ ~s.closed
    [] o \in {5, 6, 7, 8} -> ~s.closed
    [] o = 9 -> ~s.closed
    [] o \in {10, 11} -> ~s.closed /\ Socket(v)

(* what it does: the results allowed, and what holds afterwards *)
Write(v, fail, s, n, all) ==
  IF ~Socket(v) /\ fail > s.calls /\ fail <= s.calls + n
  THEN [ok |-> {Did(2, <<fail>>)}, s |-> [s EXCEPT !.calls = fail, !.wr = @ + (fail - s.calls - 1)]]
  ELSE [ok |-> {Did(0, <<>>)}, s |-> [s EXCEPT !.calls = @ + n, !.wr = @ + n]]
Op(v, fail, s, o, a) ==
  CASE o = 0 -> [ok |-> {Did(0, <<>>)}, s |-> [s EXCEPT !.inq = Append(@, a)]]
    [] o = 1 -> [ok |-> {Did(0, <<>>)}, s |-> [s EXCEPT !.closed = TRUE]]
    [] o = 2 -> [ok |-> IF s.inq # <<>> THEN {Did(0, <<Head(s.inq)>>)}
                        ELSE IF s.closed THEN {Did(0, <<0>>), Did(1, <<>>), Did(2, <<>>)} ELSE {Did(1, <<>>)}, s |-> s]
    [] o = 3 -> IF s.inq # <<>> THEN [ok |-> {Did(0, <<Head(s.inq)>>)}, s |-> [s EXCEPT !.inq = Tail(@)]]
                ELSE [ok |-> {Did(2, <<>>)}, s |-> s]
    [] o = 4 -> [ok |-> {Did(0, <<a>>)}, s |-> s]
    [] o \in {5, 6} -> Write(v, fail, s, a, o = 6)
    [] o = 7 -> [ok |-> {Did(0, IF Socket(v) THEN <<>> ELSE <<s.fl + 1>>)}, s |-> [s EXCEPT !.fl = @ + 1]]
    [] o = 8 -> [ok |-> {Did(0, IF Tcp(v) THEN <<1>> ELSE IF Socket(v) THEN <<>> ELSE <<IF v = 6 THEN 0 ELSE s.stt + 1>>)},
                 s |-> [s EXCEPT !.stt = @ + 1]]
    [] o = 9 -> [ok |-> {Did(0, Seen(s.rd, s.wr - s.rd))}, s |-> [s EXCEPT !.rd = s.wr]]
    [] o \in {10, 11} -> [ok |-> {Did(0, Seen(s.rd, s.wr - s.rd + a))}, s |-> [s EXCEPT !.wr = @ + a, !.rd = s.wr + a]]
=============================================================================
