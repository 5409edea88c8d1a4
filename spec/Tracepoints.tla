---------------------------- MODULE Tracepoints ----------------------------
(* The tracepoint commands: definition, control, upload and trace data.

   st.cur is the state of the upload: [k |-> "none"], or the tracepoint being
   uploaded and what is to be reported next:
     "new"     the tracepoint itself
     "action"  its n-th action
     "source"  the n-th piece of its source *)
EXTENDS Commands

NoCur == [k |-> "none", tp |-> <<>>, addr |-> <<>>, n |-> <<>>]
Cur(k, tp, addr, n) == [k |-> k, tp |-> tp, addr |-> addr, n |-> n]

(* a recoverable failure after part of the reply has been produced: the error
   reply is what the client should get (nothing else can be told apart from
   data).  gdbstub streams its replies, so that the error is appended to what
   has been sent (known finding); aux lists both forms. *)
PartialFailure(st, cs, p, n) ==
  LET e == <<69>> \o NumHex(n)
  IN IF p = <<>> THEN ErrReply(st, cs, n)
     ELSE [Reply(st, cs, e) EXCEPT !.cmp = "known", !.aux = << e, p \o e >>]

Plain(c, st, b, K, f) == IF b # <<>> THEN Malformed(st) ELSE Void(st, f, <<>>, K)
H_QTinit(c, st, b, K) == Plain(c, st, b, K, "tracepoints_init")
H_QTStart(c, st, b, K) == Plain(c, st, b, K, "trace_experiment_start")
H_QTStop(c, st, b, K) == Plain(c, st, b, K, "trace_experiment_stop")

----------------------------------------------------------------------------
(* definition *)
TpNum(s) == HexNumW(s, 8)

CreateTp(c, st, b0, K) ==
  LET more == b0 # <<>> /\ Last(b0) = MINUS
      b == IF more THEN Front(b0) ELSE b0
      q == SplitN(b, {COLON}, 6)
      n == TpNum(q[1])
      a == HexBuf(q[2])
      s == HexNumW(q[4], 8)
      p == HexNumW(q[5], 8)
      en == q[3] \in {<<69>>, <<68>>}
      \* F: fast, S: static, X: conditional tracepoints
      opt == Len(q) = 6
      known == opt /\ ((q[6] # <<>> /\ q[6][1] \in {70, 88}) \/ q[6] = <<83>>)
      begin == Call("tracepoint_create_begin",
                    << n.v, <<IF q[3] = <<69>> THEN 1 ELSE 0>>, Trim0(a.v), s.v, p.v >>)
      done == Call("tracepoint_create_complete", << n.v >>)
  IN IF Len(q) < 5 \/ ~n.ok \/ ~a.ok \/ ~en \/ ~s.ok \/ ~p.ok \/ (opt /\ ~known) THEN Malformed(st)
     ELSE IF opt \/ ~Fits(c, a.v) THEN Fatal(st, <<>>)
     ELSE TR(st, <<begin>>, Ans(K, begin.f, 1), LAMBDA v :
            IF more THEN OkReply(st, <<begin>>)
            ELSE TR(st, <<begin, done>>, Ans(K, done.f, 1), LAMBDA w : OkReply(st, <<begin, done>>)))

(* the actions of an extension: [acts: seq of <<kind, bytes>>, ok] *)
RECURSIVE ParseActions(_, _)
ParseActions(s, acc) ==
  LET bad == [acts |-> acc, ok |-> FALSE]
  IN IF s = <<>> THEN [acts |-> acc, ok |-> TRUE]
     ELSE CASE s[1] = 82 ->       \* R mask
                 LET r == Tail(s)
                     e == SelectInSeq(r, LAMBDA x : x \in {83, 82, 77, 88})
                     m == HexBuf(IF e = 0 THEN r ELSE Take(r, e - 1))
                 IN IF ~m.ok THEN bad
                    ELSE ParseActions(TLCEval(IF e = 0 THEN <<>> ELSE Drop(r, e - 1)), TLCEval(Append(acc, << <<0>>, m.v >>)))
            [] s[1] = 88 ->       \* X len,expr
                 LET q == SplitN(Tail(s), {COMMA}, 2)
                     n == HexNumW(q[1], 8)
                     l == ToNat(n.v)
                 IN IF Len(q) < 2 \/ ~n.ok THEN bad
                    ELSE IF Len(q[2]) \div 2 < l THEN bad
                    ELSE LET e == HexBuf(Take(q[2], 2 * l))
                         IN IF ~e.ok THEN bad
                            ELSE ParseActions(TLCEval(Drop(q[2], 2 * l)), TLCEval(Append(acc, << <<2>>, e.v >>)))
            [] OTHER -> bad

ExtendTp(c, st, b, K) ==
  LET q == SplitN(b, {COLON}, 4)
      n == TpNum(q[1])
      a == HexBuf(q[2])
      more == q[3] # <<>> /\ Last(q[3]) = MINUS
      pa == ParseActions(IF more THEN Front(q[3]) ELSE q[3], <<>>)
      cont == [i \in 1..Len(pa.acts) |-> Call("tracepoint_create_continue", << n.v >> \o pa.acts[i])]
      ans == [i \in 1..Len(cont) |-> Ans(K, "tracepoint_create_continue", i)]
      failed == SelectLastInSeq(ans, LAMBDA r : r.k # "ok")
      done == Call("tracepoint_create_complete", << n.v >>)
  IN IF Len(q) < 3 \/ ~n.ok \/ ~a.ok THEN Malformed(st)
     ELSE IF ~Fits(c, a.v) THEN Fatal(st, <<>>)
     ELSE IF failed # 0 THEN TR(st, cont, ans[failed], LAMBDA v : OkReply(st, cont))
     ELSE IF ~pa.ok THEN Fatal(st, cont)
     ELSE IF more THEN OkReply(st, cont)
     ELSE TR(st, Append(cont, done), Ans(K, done.f, 1), LAMBDA v : OkReply(st, Append(cont, done)))

H_QTDP(c, st, b, K) ==
  IF StartsWith(b, <<COLON, MINUS>>) THEN ExtendTp(c, st, Drop(b, 2), K)
  ELSE IF StartsWith(b, <<COLON>>) THEN CreateTp(c, st, Tail(b), K)
  ELSE Malformed(st)

SrcKinds == << B("at"), B("cond"), B("cmd") >>
SrcKind(s) == SelectInSeq(SrcKinds, LAMBDA x : x = s)
Args(b, n) == IF b # <<>> /\ b[1] = COLON THEN SplitN(Tail(b), {COLON}, n) ELSE <<>>
H_QTDPsrc(c, st, b, K) ==
  LET q == Args(b, 7)
      n == TpNum(q[1])
      a == HexBuf(q[2])
      k == SrcKind(q[3])
      s == HexNumW(q[4], 4)
      l == HexNumW(q[5], 4)
      d == HexBuf(q[6])
  IN IF Len(q) < 6 \/ ~n.ok \/ ~a.ok \/ k = 0 \/ ~s.ok \/ ~l.ok \/ ~d.ok THEN Malformed(st)
     ELSE IF ~c.f.tpsrc THEN Unsup(st)
     ELSE IF ~Fits(c, a.v) THEN Fatal(st, <<>>)
     ELSE Void(st, "tracepoint_attach_source", << n.v, Trim0(a.v), <<k - 1>>, s.v, l.v, d.v >>, K)

H_QTBufferSet(c, st, b, K) ==
  LET q == Args(b, 2)
      flag == q[2] \in {<<48>>, <<49>>}
      n == HexNumW(q[2], 8)
      do(a) == Void(st, "trace_buffer_configure", a, K)
  IN IF Len(q) < 2 THEN Malformed(st)
     ELSE CASE q[1] = B("circular") /\ flag -> do(<< <<0>>, <<q[2][1] - 48>> >>)
            [] q[1] = B("size") /\ q[2] = <<45, 49>> -> do(<< <<1>>, <<0>> >>)
            [] q[1] = B("size") /\ n.ok -> do(<< <<1>>, <<1>> \o n.v >>)
            [] OTHER -> Malformed(st)

----------------------------------------------------------------------------
(* status *)
StatusText(v) ==
  LET text == IF v[2][1] = 1 THEN HexOf(Tail(v[2])) ELSE <<>>
      tp == NumHex(v[3])
  IN CASE v[1] = <<0>> -> B("T1")
       [] v[1] = <<1>> -> B("T0")
       [] v[1] = <<2>> -> B("T0;tnotrun:0")
       [] v[1] = <<3>> -> IF v[2][1] = 1 THEN B("T0;tstop:") \o text \o B(":0") ELSE B("T0;tstop:0")
       [] v[1] = <<4>> -> B("T0;tfull:0")
       [] v[1] = <<5>> -> B("T0;tdisconnected:0")
       [] v[1] = <<6>> -> B("T0;tpasscount:") \o tp
       [] v[1] = <<7>> -> B("T0;terror:") \o text \o B(":") \o tp
       [] OTHER -> B("T0;tunknown:0")
InfoNames == << "tframes:", "tcreated:", "tsize:", "tfree:" >>
InfoText(k, x) ==
  CASE k[1] \in 0..3 -> B(InfoNames[1 + k[1]]) \o NumHex(x)
    [] k[1] = 4 -> IF x = <<1>> THEN B("circular:01") ELSE B("circular:00")
    [] k[1] = 5 -> IF x = <<1>> THEN B("disconn:1") ELSE B("disconn:0")
    [] OTHER -> x
(* v = code, value, code, value, ... *)
InfoTexts(v) == FoldLeft(LAMBDA a, i : a \o <<SEMI>> \o InfoText(v[2 * i - 1], v[2 * i]),
                         <<>>, [i \in 1..(Len(v) \div 2) |-> i])

H_qTStatus(c, st, b, K) ==
  LET c1 == << Call("trace_experiment_status", <<>>) >>
      c2 == c1 \o << Call("trace_experiment_info", <<>>) >>
      r2 == Ans(K, "trace_experiment_info", 1)
  IN IF b # <<>> THEN Malformed(st)
     ELSE TR(st, c1, Ans(K, "trace_experiment_status", 1), LAMBDA v :
            CASE r2.k = "ok" -> Reply(st, c2, StatusText(v) \o InfoTexts(r2.v))
              [] r2.k = "fatal" -> TFatal(st, c2, r2.v[1])
              [] r2.k = "missing" -> Missing(st, c2, Last(c2))
              [] OTHER -> PartialFailure(st, c2, StatusText(v) \o
                             (IF r2.k = "errno" THEN InfoTexts(Tail(r2.v)) ELSE <<>>), ErrNo(r2)))

H_qTP(c, st, b, K) ==
  LET q == IF b # <<>> /\ b[1] = COLON THEN Split(Tail(b), {COLON}) ELSE <<>>
      n == TpNum(q[1])
      a == HexBuf(q[2])
      cs == << Call("tracepoint_status", << n.v, Trim0(a.v) >>) >>
  IN IF Len(q) < 2 \/ ~n.ok \/ ~a.ok THEN Malformed(st)
     ELSE IF ~Fits(c, a.v) THEN Fatal(st, <<>>)
     ELSE TR(st, cs, Ans(K, "tracepoint_status", 1), LAMBDA v :
            Reply(st, cs, <<86>> \o NumHex(v[1]) \o <<COLON>> \o NumHex(v[2])))

----------------------------------------------------------------------------
(* trace data *)
Concat(v) == FoldLeft(LAMBDA a, x : a \o x, <<>>, v)
H_qTBuffer(c, st, b, K) ==
  LET q == IF b # <<>> /\ b[1] = COLON THEN Split(Tail(b), {COMMA}) ELSE <<>>
      o == HexNumW(q[1], 8)
      n == HexNumW(q[2], 8)
      cs == << Call("trace_buffer_request", << o.v, n.v >>) >>
      r == Ans(K, "trace_buffer_request", 1)
  IN IF Len(q) < 2 \/ ~o.ok \/ ~n.ok THEN Malformed(st)
     ELSE IF r.k = "errno" THEN PartialFailure(st, cs, HexOf(Concat(Tail(r.v))), ErrNo(r))
     ELSE TR(st, cs, r, LAMBDA v : Reply(st, cs, IF v = <<>> THEN <<108>> ELSE HexOf(Concat(v))))

(* v = 0|1, value, ... : frame numbers and tracepoints hit *)
FrameText(v) == FoldLeft(LAMBDA a, i : a \o (IF v[2 * i - 1] = <<0>> THEN <<70>> ELSE <<84>>) \o NumHex(v[2 * i]),
                         <<>>, [i \in 1..(Len(v) \div 2) |-> i])
HasFrame(v) == \E i \in 1..(Len(v) \div 2) : v[2 * i - 1] = <<0>>
H_QTFrame(c, st, b, K) ==
  LET q == IF b # <<>> /\ b[1] = COLON THEN Split(Tail(b), {COLON}) ELSE << <<>> >>
      kind == CASE q[1] = B("pc") -> 1 [] q[1] = B("tdp") -> 2 [] q[1] = B("range") -> 3
                [] q[1] = B("outside") -> 4 [] OTHER -> 0
      nargs == CASE kind = 0 -> 0 [] kind \in {1, 2} -> 1 [] OTHER -> 2
      x(i) == IF kind = 0 THEN HexNumW(q[1], 8) ELSE IF kind = 2 THEN TpNum(q[2]) ELSE HexBuf(q[i + 1])
      n == Max2(nargs, 1)
      good == Len(q) >= 1 + nargs /\ \A i \in 1..n : x(i).ok
      args == << <<kind>> >> \o [i \in 1..n |-> Trim0(x(i).v)]
      cs == << Call("select_frame", args) >>
      r == Ans(K, "select_frame", 1)
  IN IF ~good THEN Malformed(st)
     ELSE IF kind \in {1, 3, 4} /\ \E i \in 1..n : ~Fits(c, x(i).v) THEN Fatal(st, <<>>)
     ELSE IF r.k = "errno" THEN PartialFailure(st, cs, FrameText(Tail(r.v)), ErrNo(r))
     ELSE TR(st, cs, r, LAMBDA v : Reply(st, cs, FrameText(v) \o (IF HasFrame(v) THEN <<>> ELSE B("F-1"))))

----------------------------------------------------------------------------
(* upload *)
(* answers: v = <<step, tp, addr>> \o items;  step: 0 action, 1 source, 2 next (tp, addr), 3 done *)
Advance(cur, v) ==
  LET s == v[1][1]
      to(k) == Cur(k, cur.tp, cur.addr, IF cur.k = k THEN Add(cur.n, 1) ELSE <<>>)
  IN CASE cur.k = "none" \/ s \notin 0..2 -> NoCur
       [] s = 0 -> to("action")
       [] s = 1 -> to("source")
       [] OTHER -> Cur("new", v[2], v[3], <<>>)
Items(v, w) == [i \in 1..((Len(v) - 3) \div w) |-> SubSeq(v, 4 + w * (i - 1), 3 + w * i)]

TpText(it) == <<84>> \o NumHex(it[1]) \o <<COLON>> \o NumHex(it[3]) \o <<COLON, IF it[2] = <<1>> THEN 69 ELSE 68, COLON>>
              \o NumHex(it[4]) \o <<COLON>> \o NumHex(it[5])
ActText(cur, it) ==
  <<65>> \o NumHex(cur.tp) \o <<COLON>> \o NumHex(cur.addr) \o <<COLON>>
  \o (CASE it[1] = <<0>> -> <<82>> \o HexOf(it[2])
        [] it[1] = <<1>> -> <<77>> \o (IF it[2][1] = 1 THEN NumHex(Tail(it[2])) ELSE B("-1")) \o <<COMMA>>
                            \o NumHex(it[3]) \o <<COMMA>> \o NumHex(it[4])
        [] OTHER -> <<88>> \o NumHex(OfNat(Len(it[2]))) \o <<COMMA>> \o HexOf(it[2]))
SrcText(it) == <<90>> \o NumHex(it[1]) \o <<COLON>> \o NumHex(it[2]) \o <<COLON>> \o SrcKinds[1 + it[3][1]]
               \o <<COLON>> \o NumHex(it[4]) \o <<COLON>> \o NumHex(it[5]) \o <<COLON>> \o HexOf(it[6])
Texts(its, T(_)) == FoldLeft(LAMBDA a, it : a \o T(it), <<>>, its)

H_qTfP(c, st, b, K) ==
  LET cs == << Call("tracepoint_enumerate_start", << <<0>> >>) >>
      st0 == [st EXCEPT !.cur = NoCur]
  IN IF b # <<>> THEN Malformed(st)
     ELSE TR(st0, cs, Ans(K, "tracepoint_enumerate_start", 1), LAMBDA v :
            LET its == Items(v, 5)
                first == IF its = <<>> THEN NoCur ELSE Cur("new", Last(its)[1], Last(its)[3], <<>>)
            IN Reply([st EXCEPT !.cur = Advance(first, v)], cs, Texts(its, TpText)))

H_qTsP(c, st, b, K) ==
  LET cur == st.cur
      go(f, a, w, T(_)) ==
        LET cs == << Call(f, a) >>
        IN TR(st, cs, Ans(K, f, 1), LAMBDA v : Reply([st EXCEPT !.cur = Advance(cur, v)], cs, Texts(Items(v, w), T)))
  IN IF b # <<>> THEN Malformed(st)
     ELSE CASE cur.k = "none" -> Reply(st, <<>>, <<>>)
            [] cur.k = "new" -> go("tracepoint_enumerate_start", << <<1>> \o cur.tp >>, 5, TpText)
            [] cur.k = "action" -> go("tracepoint_enumerate_action", << cur.tp, cur.n >>, 4, LAMBDA it : ActText(cur, it))
            [] OTHER -> IF ~c.f.tpsrc THEN Fatal(st, <<>>)
                        ELSE go("tracepoint_enumerate_source", << cur.tp, cur.n >>, 6, SrcText)

(* trace state variables are not supported: an empty list *)
H_TraceVars(c, st, b, K) == IF b # <<>> THEN Malformed(st) ELSE Reply(st, <<>>, <<>>)
=============================================================================
