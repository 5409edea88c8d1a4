------------------------------ MODULE MC_Pipe ------------------------------
(* Both ends of every kind of connection: sending, closing, peeking, reading
   early and late, writing much to a slow peer, failing writes. *)
EXTENDS Pipe, IOUtils, Json
Thorough == IF "DEEP" \in DOMAIN IOEnv THEN IOEnv.DEEP = "1" ELSE FALSE
Shard == IF "SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARD) ELSE 0
Shards == IF "SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARDS) ELSE 1
Depth == IF Thorough THEN 5 ELSE 4
Vias == {v \in 0..10 : v - Shards * (v \div Shards) = Shard}
Fails(v) == IF Socket(v) THEN {0} ELSE {0, 1, 2, 4}
Big(v) == IF Tcp(v) THEN 150000 ELSE 2500
Ops(v) == {<<0, 0>>, <<0, 3>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 255>>, <<5, 1>>, <<6, 0>>, <<6, 3>>, <<7, 0>>, <<8, 0>>, <<9, 0>>,
           <<10, Big(v)>>, <<11, 500000>>}

VARIABLES via, fail, s, h,     \* what is done
          sent, got, told      \* ghosts: what the peer sent, what was read, what the last peek said
Init == /\ via \in Vias /\ fail \in Fails(via) /\ s = Pipe0 /\ h = <<>>
        /\ sent = <<>> /\ got = <<>> /\ told = <<>>
Step(o, a) ==
  /\ Able(via, s, o, a)
  /\ LET e == Op(via, fail, s, o, a)
         r == CHOOSE x \in e.ok : x.r = (IF \E y \in e.ok : y.r = 0 THEN 0 ELSE (CHOOSE y \in e.ok : TRUE).r)
     IN /\ s' = e.s
        /\ sent' = IF o \in {0, 4} THEN Append(sent, a) ELSE sent
        /\ got' = IF o \in {3, 4} /\ r.r = 0 THEN got \o r.v ELSE got
        /\ told' = IF o = 2 /\ s.inq # <<>> THEN r.v ELSE IF o \in {3, 4} THEN <<>> ELSE told
  /\ h' = Append(h, <<o, a>>)
  /\ Len(h) + 1 = Depth => PrintT("PIPE " \o ToJson([via |-> via, fail |-> fail, ops |-> h']))
  /\ UNCHANGED <<via, fail>>
Next == Len(h) < Depth /\ \E p \in Ops(via) : Step(p[1], p[2])

\* every byte the peer sent is read at most once, in order, and waits until it is
InOrder == /\ sent = got \o s.inq
\* peeking told what the next read gives
Peeked == told # <<>> => s.inq # <<>> /\ Head(s.inq) = told[1]
\* the peer never sees more than was written
NoMore == s.rd <= s.wr
=============================================================================
