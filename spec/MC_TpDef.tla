------------------------------ MODULE MC_TpDef ------------------------------
(* Defining tracepoints and controlling the experiment. *)
EXTENDS Catalog
T0 == Common \cup {"tp", "tpsrc"}
MyConfigs == << Cfg(T0), [Cfg(T0) EXCEPT !.uw = 1], [Cfg(T0 \ {"tpsrc"}) EXCEPT !.uw = 4], [Cfg(T0 \ {"rle"}) EXCEPT !.owned = TRUE, !.cap = 40, !.uw = 16], Cfg(Common) >>
Q(x) == B("QTDP:") \o B(x)
Nums == {"0", "1", "ff", "100", "ffffffff", "ffffffffffffffff", "10000000000000000", "", "g", "-1"}
Acts == {"", "R", "R0", "R03", "R0003ff", "Rg", "RR", "R1R2", "X0,", "X1,22", "X1,220", "X2,2200", "X2,22", "X3,220027", "X1,gg", "X,22", "X1", "X1;22", "M-1,0,4", "M1,10,4", "S", "SR1", "R1SX1,22", "R03X2,2200",
         "X1,22X1,23", "X1,22R03", "X2,2200R1X1,01", "R1X1,22R2X1,23", "X1,22S", "x1,22", "r1", "X1,22zz", "X100,22", "X7fffffffffffffff,22", "X8000000000000000,22", "X8000000000000001,2222", "Xffffffffffffffff,22", "X10000000000000000,22", "L"}
MyPackets(cc, s) ==
  {Q(n) \o B(":10:E:0:0") : n \in Nums} \cup {Q("1:") \o B(a) \o B(":E:0:0") : a \in Nums} \cup {Q("1:10:") \o B(e) \o B(":0:0") : e \in {"E", "D", "", "e", "EE", "X"}}
  \cup {Q("1:10:D:") \o B(n) \o B(":5") : n \in Nums} \cup {Q("1:10:D:5:") \o B(n) \o B(m) : n \in Nums, m \in {"", "-"}}
  \cup {Q("2:ff:E:1:2") \o B(x) : x \in {":F4", ":F4-", ":S", ":S-", ":X2,2200", ":X2,2200-", ":F4:X2,2200", ":Q", ":", ":SF", "--", "-:", ":-"}}
  \cup {Q("-") \o B(n) \o B(":10:R03") : n \in Nums} \cup {Q("-1:") \o B(a) \o B(":R03") : a \in Nums}
  \cup {Q("-3:7f:") \o B(x) \o B(m) : x \in Acts, m \in {"", "-"}}
  \cup {Q("-3:7f:R03") \o B(x) : x \in {":", ":R1", ":R1-", "-:", "-:X1,22", "--"}}
  \cup {B("QTDPsrc:") \o B(n) \o B(":10:at:0:1:41") : n \in Nums} \cup {B("QTDPsrc:1:") \o B(n) \o B(":cond:0:1:41") : n \in Nums}
  \cup {B("QTDPsrc:1:10:") \o B(k) \o B(":0:2:4142") : k \in {"at", "cond", "cmd", "", "AT", "ats", "a"}} \cup {B("QTDPsrc:1:10:cmd:") \o B(n) \o B(":") \o B(m) \o B(":41") : n \in Nums, m \in {"0", "2", "ffffffff", "100000000"}}
  \cup {B("QTDPsrc:1:10:cmd:0:4:") \o x : x \in {<<>>, H("end"), B("4"), B("zz"), H("a:b") \o B(":x")}}
  \cup {B("QTBuffer:") \o B(x) : x \in {"circular:0", "circular:1", "circular:2", "circular:", "circular", "circular:01", "size:-1", "size:0", "size:100", "size:ffffffffffffffff", "size:10000000000000000", "size:", "size:-2", "size:g", "size:1:2", "foo:1", ""}}
  \cup {B("QTFrame:") \o B(n) : n \in Nums} \cup {B("QTFrame:pc:") \o B(n) : n \in Nums} \cup {B("QTFrame:tdp:") \o B(n) : n \in Nums}
  \cup {B("QTFrame:") \o B(k) \o B(a) \o B(":") \o B(b) : k \in {"range:", "outside:"}, a \in {"1", "ff", "100", "g"}, b \in {"0", "2", "10000", ""}}
  \cup {B(x) : x \in {"QTinit", "QTinit:", "QTStart", "QTStart1", "QTStop", "QTStop:1", "QTDP", "QTDP:", "QTDP:-", "QTDP:1", "QTDP:1:10", "QTDP:1:10:E", "QTDP:1:10:E:0", "QTDP:-1", "QTDP:-1:10", "QTDP:-1:10:", "QTDP1:10:E:0:0",
                      "QTDPsrc", "QTDPsrc:1:10:at:0:1", "QTDPsrc:1:10:at:0:1:41:42", "QTFrame", "QTFrame:", "QTFrame:pc", "QTFrame:tdp", "QTFrame:range", "QTFrame:range:1", "QTFrame:range:1:2:3", "QTFrame:foo:1", "QTFrame:1:2",
                      "QTBuffer", "QTDV:1:0:0:41", "QTEnable:1:10", "QTDisable:1:10", "QTNotes:", "QTDisconnected:1", "QTSave:41"}}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) == IF f = "select_frame" THEN {<< <<0>>, <<3>>, <<1>>, <<2>> >>, <<>>, << <<1>>, <<2>> >>, << <<0>>, <<>> >>} ELSE StdData(cc, f, a)
MyErrs(cc, f) == IF f = "select_frame" THEN {EFatal, ENo} ELSE IF f = "tracepoint_create_continue" THEN {ENo} ELSE AllErrs(cc, f)
MyDepth == 1
MyCount == 0
(* P20 *)
Def == {"tracepoint_create_begin", "tracepoint_create_continue", "tracepoint_create_complete"}
N(b) == HexNum(b).v
(* what the actions of an extension say: the calls' arguments put back into
   text must be the text received *)
ActBack(k) == IF k.a[2] = <<0>> THEN <<82>> \o HexOf(k.a[3]) ELSE HexOf(k.a[3])
P20Def ==
  /\ \A i \in 1..Len(X.calls) : X.calls[i].f \in Def => StartsWith(S.v, B("QTDP:"))
  /\ (X.err = "none" /\ StartsWith(S.v, B("QTDP:")) /\ X.calls # <<>>) =>
       LET ext == S.v[6] = MINUS
           all == Split(S.v, {COLON})
           more == IF ext THEN all[4] # <<>> /\ Last(all[4]) = MINUS ELSE Last(S.v) = MINUS
           q == Split(IF more /\ ~ext THEN Front(S.v) ELSE S.v, {COLON})
           id == IF ext THEN Tail(q[2]) ELSE q[2]
           failed == \E i \in 1..Len(KK) : KK[i].k # "ok"
           complete == {i \in 1..Len(X.calls) : X.calls[i].f = "tracepoint_create_complete"}
       IN /\ \A i \in 1..Len(X.calls) : X.calls[i].f \in Def /\ X.calls[i].a[1] = N(id)
          /\ ~failed => (complete = IF more THEN {} ELSE {Len(X.calls)})
          /\ ~failed <=> X.pk[1] = B("OK")
          /\ ~ext => /\ X.calls[1].f = "tracepoint_create_begin"
                     /\ X.calls[1].a = << N(id), << IF q[4] = B("E") THEN 1 ELSE 0 >>, N(q[3]), N(q[5]), N(q[6]) >>
                     /\ Len(q) = 6
          /\ ext => \A i \in 1..Len(X.calls) : X.calls[i].f # "tracepoint_create_begin"
  /\ (X.err = "none" /\ StartsWith(S.v, B("QTDPsrc:")) /\ X.calls # <<>>) =>
       LET q == Split(S.v, {COLON})
       IN Len(X.calls) = 1 /\ LET a == X.calls[1].a IN a[1] = N(q[2]) /\ a[2] = N(q[3]) /\ a[4] = N(q[5]) /\ a[5] = N(q[6]) /\ a[6] = UnHex(q[7])
  /\ (X.err = "none" /\ X.calls # <<>> /\ X.calls[1].f = "trace_buffer_configure") =>
       LET q == Split(S.v, {COLON})
       IN X.calls[1].a = IF q[2] = B("size") THEN << <<1>>, IF q[3] = B("-1") THEN <<0>> ELSE <<1>> \o N(q[3]) >> ELSE << <<0>>, << q[3][1] - 48 >> >>
  /\ (X.calls # <<>> /\ X.calls[1].f = "select_frame") =>
       LET q == Split(S.v, {COLON})
           k == X.calls[1].a[1][1]
       IN /\ q[2] = (CASE k = 1 -> B("pc") [] k = 2 -> B("tdp") [] k = 3 -> B("range") [] k = 4 -> B("outside") [] OTHER -> q[2])
          /\ \A i \in 2..Len(X.calls[1].a) : X.calls[1].a[i] = N(q[IF k = 0 THEN 2 ELSE i + 1])
MyProps == [][P20Def]_vars
=============================================================================
