------------------------------ MODULE Commands ------------------------------
(* The meaning of every command of the protocol the stub implements, except the
   tracepoint commands (module Tracepoints). *)
EXTENDS Effects

(* "?", vAttach, vRun: an active thread, or an exited process *)
CurrentStop(c, st, cs, K) ==
  WithThreads(c, st, cs, K, LAMBDA ts :
    IF ts = <<>> THEN Reply(st, cs, B("W00;"))
    ELSE WithTidText(c, st, cs, K, ts[1], LAMBDA t : Reply(st, cs, B("T05thread:") \o t \o <<SEMI>>)))

----------------------------------------------------------------------------
(* feature negotiation *)
Advertised(c, st) ==
  LET f == c.f
      on(b, s) == IF b THEN << B(s) >> ELSE <<>>
      reach == f.resume
  IN << B("PacketSize=") \o NumHex(OfNat(st.rx.len)), B("vContSupported+"), B("multiprocess+") >>
     \o on(f.noack, "QStartNoAckMode+")
     \o on(reach /\ f.rcont, "ReverseContinue+") \o on(reach /\ f.rstep, "ReverseStep+")
     \o on(f.ext /\ f.aslr, "QDisableRandomization+")
     \o on(f.ext /\ f.env, "QEnvironmentHexEncoded+") \o on(f.ext /\ f.env, "QEnvironmentUnset+")
     \o on(f.ext /\ f.env, "QEnvironmentReset+")
     \o on(f.ext /\ f.shell, "QStartupWithShell+") \o on(f.ext /\ f.wd, "QSetWorkingDir+")
     \o on(f.bp /\ f.sw, "swbreak+") \o on(f.bp /\ (f.hw \/ f.hww), "hwbreak+")
     \o on(f.tp, "QTBuffer:size+") \o on(f.tp /\ f.tpsrc, "TracepointSource+")
     \o on(f.catch, "QCatchSyscalls+")
     \o on(f.usexml /\ (f.archxml \/ f.tdesc), "qXfer:features:read+")
     \o on(f.mmap, "qXfer:memory-map:read+") \o on(f.exec, "qXfer:exec-file:read+")
     \o on(f.auxv, "qXfer:auxv:read+") \o on(f.libs, "qXfer:libraries-svr4:read+")

H_qSupported(c, st, b, K) ==
  IF b = <<>> \/ b[1] # COLON THEN Malformed(st)
  ELSE LET fs == Split(Tail(b), {SEMI})
           mpp == B("multiprocess+")
           mpm == B("multiprocess-")
           mp == FoldLeft(LAMBDA a, x : CASE x = mpp -> TRUE [] x = mpm -> FALSE [] OTHER -> a, st.mp, fs)
           st2 == [st EXCEPT !.mp = mp]
       IN IF \E i \in 1..Len(fs) : fs[i] = <<>> THEN Fatal(st, <<>>)
          ELSE [Reply(st2, <<>>, Join(Advertised(c, st), <<SEMI>>)) EXCEPT !.cmp = "set"]

----------------------------------------------------------------------------
(* detach and kill *)
PidSuffix(b, sep) ==    \* [ok, has, v]
  IF b # <<>> /\ b[1] = sep
  THEN LET n == HexNumW(Tail(b), 8) IN [ok |-> n.ok /\ n.v # <<>>, has |-> TRUE, v |-> n.v]
  ELSE [ok |-> TRUE, has |-> FALSE, v |-> <<>>]

Disconnected(st, why) == [st EXCEPT !.mode = "Disc", !.why = why]
DETACHED == <<2>>
KILLED == <<3>>

H_D(c, st, b, K) ==
  IF ~PidSuffix(b, SEMI).ok THEN Malformed(st)
  ELSE OkReply(Disconnected(st, DETACHED), <<>>)

Kill(c, st, a, K) ==
  IF ~c.f.ext THEN [Silent(Disconnected(st, KILLED), <<>>) EXCEPT !.cmp = "noflush"]
  ELSE LET cs == << Call("kill", << a >>) >>
       IN TR(st, cs, Ans(K, "kill", 1), LAMBDA v :
             OkReply(IF v[1] = <<1>> THEN Disconnected(st, KILLED) ELSE st, cs))
H_k(c, st, b, K) == IF b # <<>> THEN Malformed(st) ELSE Kill(c, st, <<0>>, K)
H_vKill(c, st, b, K) ==
  LET p == PidSuffix(b, SEMI)
  IN IF ~p.ok \/ ~p.has THEN Malformed(st) ELSE Kill(c, st, <<1>> \o p.v, K)

H_qAttached(c, st, b, K) ==
  LET p == PidSuffix(b, COLON)
  IN IF ~p.ok THEN Malformed(st)
     ELSE IF ~c.f.ext \/ ~p.has THEN Reply(st, <<>>, <<49>>)
     ELSE LET cs == << Call("query_if_attached", << p.v >>) >>
          IN TR(st, cs, Ans(K, "query_if_attached", 1), LAMBDA v : Reply(st, cs, <<48 + v[1][1]>>))

----------------------------------------------------------------------------
(* registers *)
MAXREGS == 32         \* the register file of the target under test
H_g(c, st, b, K) ==
  IF b # <<>> THEN Malformed(st)
  ELSE LET cs == << Call("read_registers", << TidArg(c, st.mem) >>) >>
       IN TR(st, cs, Ans(K, "read_registers", 1), LAMBDA v :
             Reply(st, cs, [i \in 1..(2 * Len(v[1])) |->
                LET x == v[1][(i + 1) \div 2]
                IN IF x = 256 THEN 120 ELSE HexDigit[1 + (IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]]))
H_G(c, st, b, K) ==
  LET d == HexBuf(b)
      cs == << Call("write_registers", << TidArg(c, st.mem), d.v >>) >>
  IN IF ~d.ok THEN Malformed(st)
     ELSE IF Len(d.v) > MAXREGS THEN Fatal(st, <<>>)
     ELSE TR(st, cs, Ans(K, "write_registers", 1), LAMBDA v : OkReply(st, cs))

(* register numbers of the target under test: 0..7 have size id+1, 8..11 no
   declared size, 12 has size 200, others do not exist *)
RegKnown(id) == ToNat(id) \in 0..12
RegSize(id) == CASE ToNat(id) \in 0..7 -> ToNat(id) + 1 [] ToNat(id) = 12 -> 200 [] OTHER -> 0

H_p(c, st, b, K) ==
  LET id == HexNumW(b, 8)
      sz == RegSize(id.v)
      cs == << Call("read_register", << TidArg(c, st.mem), id.v, ANY >>) >>
  IN IF ~id.ok THEN Malformed(st)
     ELSE IF ~RegKnown(id.v) THEN Reply(st, <<>>, <<>>)
     ELSE IF sz > st.rx.len THEN Fatal(st, <<>>)
     ELSE LET r == Ans(K, "read_register", 1)
          IN TR(st, cs, r, LAMBDA v :
               LET n == ToNat(v[2])
               IN IF n = 0 THEN (IF sz = 0 THEN Fatal(st, cs) ELSE Reply(st, cs, [i \in 1..(2 * sz) |-> 120]))
                  ELSE IF sz # 0 THEN (IF sz # n THEN Fatal(st, cs) ELSE Reply(st, cs, HexOf(v[1])))
                  ELSE IF n > ToNat(r.a[3]) THEN Fatal(st, cs)
                  ELSE Reply(st, cs, HexOf(v[1])))
H_P(c, st, b, K) ==
  LET q == Split(b, {EQ})
      id == HexNumW(q[1], 8)
      d == IF Len(q) < 2 THEN NONE ELSE HexBuf(q[2])
      cs == << Call("write_register", << TidArg(c, st.mem), id.v, d.v >>) >>
  IN IF ~id.ok \/ ~d.ok THEN Malformed(st)
     ELSE IF ~RegKnown(id.v) THEN Reply(st, <<>>, <<>>)
     ELSE TR(st, cs, Ans(K, "write_register", 1), LAMBDA v : OkReply(st, cs))

----------------------------------------------------------------------------
(* memory: a read goes to the target in contiguous chunks of whatever size, up
   to the first short or failing one, or up to the end of the address space *)
RECURSIVE ReadChunks(_, _, _, _, _, _, _, _)
ReadChunks(c, st, K, addr, left, n, cs, acc) ==
  IF left = 0 \/ ~Fits(c, addr) THEN Reply(st, cs, HexOf(acc))
  ELSE LET r == Ans(K, "read_addrs", n)
       IN IF r.k = "missing"
          THEN Missing(st, cs, Call("read_addrs", << TidArg(c, st.mem), addr, OfNat(Min2(left, BIG)) >>))
          ELSE LET asked == r.a[3]
                   k == ToNat(asked)
                   cs2 == Append(cs, Call("read_addrs", << TidArg(c, st.mem), addr,
                                             IF k >= 1 /\ k <= left THEN asked ELSE <<255, 255>> >>))
               IN CASE r.k = "fatal" -> TFatal(st, cs2, r.v[1])
                    [] r.k # "ok" -> IF n = 1 THEN ErrReply(st, cs2, ErrNo(r)) ELSE Reply(st, cs2, HexOf(acc))
                    [] ToNat(r.v[2]) > k -> Fatal(st, cs2)
                    [] ToNat(r.v[2]) < k -> Reply(st, cs2, HexOf(acc \o r.v[1]))
                    [] OTHER -> ReadChunks(c, st, K, TLCEval(Add(addr, k)), TLCEval(left - k), TLCEval(n + 1), TLCEval(cs2), TLCEval(acc \o r.v[1]))
H_m(c, st, b, K) ==
  LET q == Split(b, {COMMA})
      a == HexBuf(q[1])
      n == IF Len(q) < 2 THEN NONE ELSE HexNumW(q[2], 8)
  IN IF ~a.ok \/ ~n.ok THEN Malformed(st)
     ELSE IF ~Fits(c, a.v) THEN Fatal(st, <<>>)
     ELSE ReadChunks(c, st, K, Trim0(a.v), ToNat(n.v), 1, <<>>, <<>>)

WriteMem(c, st, a, n, d, K) ==
  IF ~a.ok \/ ~n.ok \/ ~d.ok THEN Malformed(st)
  ELSE IF ~Fits(c, a.v) THEN Fatal(st, <<>>)
  ELSE LET cs == << Call("write_addrs", << TidArg(c, st.mem), Trim0(a.v), d.v >>) >>
       IN TR(st, cs, Ans(K, "write_addrs", 1), LAMBDA v : OkReply(st, cs))
H_M(c, st, b, K) ==
  LET q == Split(b, {COMMA, COLON})
  IN IF Len(q) < 3 THEN Malformed(st)
     ELSE WriteMem(c, st, HexBuf(q[1]), HexNumW(q[2], 8), HexBuf(q[3]), K)
H_X(c, st, b, K) ==
  LET q == SplitN(b, {COMMA, COLON}, 3)
  IN IF Len(q) < 3 THEN Malformed(st)
     ELSE WriteMem(c, st, HexBuf(q[1]), HexNumW(q[2], 8), UnBin(q[3]), K)

----------------------------------------------------------------------------
(* threads *)
H_H(c, st, b, K) ==
  IF b = <<>> \/ b[1] \notin {99, 103} THEN Malformed(st)
  ELSE LET t == ParseTid(Tail(b))
           g == b[1] = 103
           set(kind, tid) == IF g THEN [st EXCEPT !.mem = tid] ELSE [st EXCEPT !.res = [k |-> kind, v |-> tid]]
       IN IF ~t.ok THEN Malformed(st)
          ELSE CASE t.t.k = "any" -> WithThreads(c, st, <<>>, K, LAMBDA ts :
                        IF ts = <<>> THEN ErrReply(st, <<>>, <<1>>) ELSE OkReply(set("id", ts[1]), <<>>))
                 [] t.t.k = "all" -> IF g THEN Fatal(st, <<>>) ELSE OkReply(set("all", <<>>), <<>>)
                 [] OTHER -> OkReply(set("id", t.t.v), <<>>)

H_T(c, st, b, K) ==
  LET t == ParseTid(b)
      cs == << Call("is_thread_alive", << t.t.v >>) >>
      answer(yes, cs1) == IF yes THEN OkReply(st, cs1) ELSE ErrReply(st, cs1, <<1>>)
  IN IF ~t.ok THEN Malformed(st)
     ELSE IF t.t.k # "id" THEN Fatal(st, <<>>)
     ELSE IF ~c.f.multi THEN answer(t.t.v = <<1>>, <<>>)
     ELSE IF c.f.defalive
          THEN WithThreads(c, st, <<>>, K, LAMBDA ts : answer(\E i \in 1..Len(ts) : ts[i] = t.t.v, <<>>))
     ELSE TR(st, cs, Ans(K, "is_thread_alive", 1), LAMBDA v : answer(v[1] = <<1>>, cs))

H_qfThreadInfo(c, st, b, K) ==
  IF b # <<>> THEN Malformed(st)
  ELSE WithPid(c, st, <<>>, K, LAMBDA p : WithThreads(c, st, <<>>, K, LAMBDA ts :
         Reply(st, <<>>, <<109>> \o Join([i \in 1..Len(ts) |-> TidText(st, p, ts[i])], <<COMMA>>))))
H_qsThreadInfo(c, st, b, K) == IF b # <<>> THEN Malformed(st) ELSE Reply(st, <<>>, <<108>>)

(* a target call that fills a buffer: v = <<data, returned length>> *)
Filled(st, cs, r, Then(_)) ==
  TR(st, cs, r, LAMBDA v : IF ToNat(v[2]) > ToNat(Last(r.a)) THEN Fatal(st, cs) ELSE Then(v[1]))

H_qThreadExtraInfo(c, st, b, K) ==
  IF b = <<>> \/ b[1] # COMMA THEN Malformed(st)
  ELSE LET t == ParseTid(Tail(b))
           cs == << Call("thread_extra_info", << t.t.v, ANY >>) >>
       IN IF ~t.ok \/ t.t.k # "id" \/ t.p.k \in {"all", "any"} THEN Malformed(st)
          ELSE Filled(st, cs, Ans(K, "thread_extra_info", 1), LAMBDA d : Reply(st, cs, HexOf(d)))

H_qC(c, st, b, K) ==
  IF b # <<>> THEN Malformed(st)
  ELSE IF ~c.f.curpid THEN Unsup(st)
  ELSE WithPid(c, st, <<>>, K, LAMBDA p :
         IF c.f.multi /\ st.mem # <<1>> THEN Reply(st, <<>>, B("QC") \o TidText(st, p, st.mem))
         ELSE WithThreads(c, st, <<>>, K, LAMBDA ts :
                Reply(st, <<>>, B("QC") \o TidText(st, p, IF ts = <<>> THEN <<1>> ELSE ts[1]))))

----------------------------------------------------------------------------
(* resuming *)
Resumed(st, cs) ==       \* no reply; a stop deferred by an idle Ctrl-C is due now
  [Silent(IF st.mode = "Idle" THEN [st EXCEPT !.mode = "Running"] ELSE st, cs) EXCEPT !.cmp = "resumed"]

NOTID == [ok |-> TRUE, k |-> "none", v |-> <<>>]
(* one vCont action: [ok, k: c C s S r t, sig, s, e, t: thread] *)
ParseAction(s) ==
  LET q == Split(s, {COLON})
      k == q[1]
      tt == IF Len(q) < 2 THEN [ok |-> TRUE, p |-> NOTID, t |-> NOTID] ELSE ParseTid(q[2])
      t == IF tt.t.k = "any" THEN [tt.t EXCEPT !.k = "all"] ELSE tt.t
      okt == tt.ok /\ tt.p.k # "any"
      sig == HexNumW(Tail(k), 1)
      rr == Split(Tail(k), {COMMA})
      none == [ok |-> FALSE, k |-> "?", sig |-> <<>>, s |-> <<>>, e |-> <<>>, t |-> NOTID]
      act(x) == [none EXCEPT !.ok = okt, !.k = x, !.t = t]
  IN IF k = <<>> THEN none
     ELSE CASE k = <<99>> -> act("c")
            [] k = <<115>> -> act("s")
            [] k = <<116>> -> act("t")
            [] k[1] = 67 /\ sig.ok -> [act("C") EXCEPT !.sig = Be(sig.v, 1)]
            [] k[1] = 83 /\ sig.ok -> [act("S") EXCEPT !.sig = Be(sig.v, 1)]
            [] k[1] = 114 /\ Len(rr) >= 2 -> [act("r") EXCEPT !.s = rr[1], !.e = rr[2]]
            [] OTHER -> none

RangeOk(c, a) == HexNumW(a.s, c.uw).ok /\ HexNumW(a.e, c.uw).ok
RangeArgs(c, a) == << HexNumW(a.s, c.uw).v, HexNumW(a.e, c.uw).v >>

ResumeSingle(c, st, acts, K) ==
  LET a == acts[1]
      one(cs) == TR(st, cs, Ans(K, cs[1].f, 1), LAMBDA v : Resumed(st, cs))
  IN IF acts = <<>> THEN Fatal(st, <<>>)
     ELSE IF ~a.ok THEN Fatal(st, <<>>)
     ELSE IF Len(acts) > 2 \/ (Len(acts) = 2 /\ (~acts[2].ok \/ acts[2].k # "c")) THEN Fatal(st, <<>>)
     ELSE CASE a.k \in {"c", "C"} -> one(<< Call("resume", << a.sig >>) >>)
            [] a.k \in {"s", "S"} /\ c.f.step -> one(<< Call("step", << a.sig >>) >>)
            [] a.k = "r" /\ c.f.range /\ RangeOk(c, a) -> one(<< Call("resume_range_step", RangeArgs(c, a)) >>)
            [] OTHER -> Fatal(st, <<>>)

(* what one action means for a target with threads: a call, nothing, or a refusal *)
MultiAction(c, a) ==
  LET id == a.t.k = "id"
      call(f, args) == [k |-> "call", call |-> Call(f, args)]
      none(k) == [k |-> k, call |-> Call("", <<>>)]
  IN IF ~a.ok THEN none("refuse")
     ELSE CASE a.k \in {"c", "C"} -> IF id THEN call("set_resume_action_continue", << a.t.v, a.sig >>) ELSE none("skip")
            [] a.k \in {"s", "S"} /\ id /\ c.f.step -> call("set_resume_action_step", << a.t.v, a.sig >>)
            [] a.k = "r" /\ id /\ c.f.range /\ RangeOk(c, a) -> call("set_resume_action_range_step", << a.t.v >> \o RangeArgs(c, a))
            [] OTHER -> none("refuse")
(* clear all actions, set those asked for in order, resume; up to the first
   refusal or the first call that fails *)
ResumeMulti(c, st, acts, K) ==
  LET plan == TLCEval([i \in 1..Len(acts) |-> MultiAction(c, acts[i])])
      refused == SelectInSeq(plan, LAMBDA p : p.k = "refuse")
      set == TLCEval(SelectSeq(IF refused = 0 THEN plan ELSE Take(plan, refused - 1), LAMBDA p : p.k = "call"))
      cs == TLCEval(<< Call("clear_resume_actions", <<>>) >> \o [i \in 1..Len(set) |-> set[i].call]
                    \o (IF refused = 0 THEN << Call("resume", <<>>) >> ELSE <<>>))
      ans == TLCEval([i \in 1..Len(cs) |-> Ans(K, cs[i].f, Cardinality({j \in 1..i : cs[j].f = cs[i].f}))])
      stop == SelectInSeq(ans, LAMBDA r : r.k # "ok")
  IN IF stop # 0 THEN TR(st, Take(cs, stop), ans[stop], LAMBDA v : Resumed(st, cs))
     ELSE IF refused # 0 THEN Fatal(st, cs)
     ELSE Resumed(st, cs)

Resume(c, st, acts, K) ==
  IF c.f.multi THEN ResumeMulti(c, st, acts, K)
  ELSE ResumeSingle(c, st, acts, K)

Legacy(c, st, b, K, kind) ==
  IF b # <<>> /\ ~HexBuf(b).ok THEN Malformed(st)
  ELSE Resume(c, st, << [ok |-> TRUE, k |-> kind, sig |-> <<>>, s |-> <<>>, e |-> <<>>, t |-> st.res] >>, K)
H_c(c, st, b, K) == Legacy(c, st, b, K, "c")
H_s(c, st, b, K) == Legacy(c, st, b, K, "s")

H_vCont(c, st, b, K) ==
  IF b = <<63>>
  THEN [Reply(st, <<>>, B("vCont;c;C") \o (IF c.f.step THEN B(";s;S") ELSE <<>>) \o (IF c.f.range THEN B(";r") ELSE <<>>))
          EXCEPT !.cmp = "set"]
  ELSE LET parts == Tail(Split(b, {SEMI}))
       IN Resume(c, st, [i \in 1..Len(parts) |-> ParseAction(parts[i])], K)

H_bc(c, st, b, K) ==
  IF b # <<>> THEN Malformed(st)
  ELSE LET cs == << Call("reverse_cont", <<>>) >>
       IN TR(st, cs, Ans(K, "reverse_cont", 1), LAMBDA v : Resumed(st, cs))
H_bs(c, st, b, K) ==
  IF b # <<>> THEN Malformed(st)
  ELSE IF st.res.k = "all" THEN Fatal(st, <<>>)
  ELSE LET cs == << Call("reverse_step", << TidArg(c, st.res.v) >>) >>
       IN TR(st, cs, Ans(K, "reverse_step", 1), LAMBDA v : Resumed(st, cs))

----------------------------------------------------------------------------
H_NoAck(c, st, b, K) == IF b # <<>> THEN Malformed(st) ELSE OkReply([st EXCEPT !.noack = TRUE], <<>>)

(* breakpoints and watchpoints; add: Z, otherwise z *)
Breakpoint(c, st, b, K, add) ==
  LET q == SplitN(b, {COMMA, SEMI}, 4)
      ty == HexNumW(q[1], 1)
      a == IF Len(q) < 3 THEN NONE ELSE HexBuf(q[2])
      k == IF Len(q) < 3 THEN NONE ELSE HexBuf(q[3])
      t == ToNat(ty.v)
      op == (IF add THEN "add_" ELSE "remove_")
      do(cs) == TR(st, cs, Ans(K, cs[1].f, 1), LAMBDA v : IF v[1] = <<1>> THEN OkReply(st, cs) ELSE ErrReply(st, cs, <<22>>))
      kind == Trim0(k.v)
      brk(f) == IF Len(kind) > 8 \/ ToNat(kind) >= 100 THEN Fatal(st, <<>>)
                ELSE do(<< Call(f, << Trim0(a.v), kind >>) >>)
      wat(w) == IF ~Fits(c, k.v) THEN Fatal(st, <<>>)
                ELSE do(<< Call(IF add THEN "add_hw_watchpoint" ELSE "remove_hw_watchpoint", << Trim0(a.v), kind, <<w>> >>) >>)
  IN IF ~ty.ok \/ ~a.ok \/ ~k.ok THEN Malformed(st)
     ELSE IF ~Fits(c, a.v) THEN Fatal(st, <<>>)
     ELSE CASE t = 0 /\ c.f.sw -> brk(IF add THEN "add_sw_breakpoint" ELSE "remove_sw_breakpoint")
            [] t = 1 /\ c.f.hw -> brk(IF add THEN "add_hw_breakpoint" ELSE "remove_hw_breakpoint")
            [] t = 2 /\ c.f.hww -> wat(0)
            [] t = 3 /\ c.f.hww -> wat(1)
            [] t = 4 /\ c.f.hww -> wat(2)
            [] OTHER -> Unsup(st)
H_Z(c, st, b, K) == Breakpoint(c, st, b, K, TRUE)
H_z(c, st, b, K) == Breakpoint(c, st, b, K, FALSE)

----------------------------------------------------------------------------
(* extended mode *)
Void(st, f, a, K) == LET cs == << Call(f, a) >> IN TR(st, cs, Ans(K, f, 1), LAMBDA v : OkReply(st, cs))

H_bang(c, st, b, K) == IF b # <<>> THEN Malformed(st) ELSE Void(st, "on_start", <<>>, K)
H_R(c, st, b, K) ==
  IF Len(b) # 2 THEN Malformed(st)
  ELSE LET cs == << Call("restart", <<>>) >>
       IN TR(st, cs, Ans(K, "restart", 1), LAMBDA v : Reply(st, cs, <<>>))
H_vAttach(c, st, b, K) ==
  LET p == PidSuffix(b, SEMI)
      cs == << Call("attach", << p.v >>) >>
  IN IF ~p.ok \/ ~p.has THEN Malformed(st)
     ELSE IF ~c.f.curpid THEN Fatal(st, <<>>)
     ELSE TR(st, cs, Ans(K, "attach", 1), LAMBDA v : CurrentStop(c, st, cs, K))
H_vRun(c, st, b, K) ==
  LET q == SplitN(b, {SEMI}, 3)
      file == IF Len(q) < 2 THEN NONE ELSE HexBuf(q[2])
      rest == IF Len(q) < 3 THEN <<>> ELSE Split(q[3], {SEMI})
      args == [i \in 1..Len(rest) |-> HexBuf(rest[i])]
      cs == << Call("run", << IF file.v = <<>> THEN <<0>> ELSE <<1>> \o file.v >>
                          \o [i \in 1..Len(args) |-> args[i].v]) >>
  IN IF ~file.ok \/ \E i \in 1..Len(args) : ~args[i].ok THEN Malformed(st)
     ELSE TR(st, cs, Ans(K, "run", 1), LAMBDA v : CurrentStop(c, st, cs, K))

Flag(b) == CASE b = <<COLON, 48>> -> Some(<<0>>) [] b = <<COLON, 49>> -> Some(<<1>>) [] OTHER -> NONE
Setting(c, st, ok, on, f, a, K) ==
  IF ~ok THEN Malformed(st) ELSE IF ~on THEN Unsup(st) ELSE Void(st, f, a, K)
ColonHex(b) == IF b # <<>> /\ b[1] = COLON THEN HexBuf(Tail(b)) ELSE NONE
OptArg(v) == IF v = <<>> THEN <<0>> ELSE <<1>> \o v

H_Aslr(c, st, b, K) == Setting(c, st, Flag(b).ok, c.f.aslr, "cfg_aslr", << Flag(b).v >>, K)
H_Shell(c, st, b, K) == Setting(c, st, Flag(b).ok, c.f.shell, "cfg_startup_with_shell", << Flag(b).v >>, K)
H_EnvReset(c, st, b, K) == Setting(c, st, b = <<>>, c.f.env, "reset_env", <<>>, K)
H_EnvUnset(c, st, b, K) == LET k == ColonHex(b) IN Setting(c, st, k.ok, c.f.env, "remove_env", << k.v >>, K)
H_EnvSet(c, st, b, K) ==
  LET d == ColonHex(b)
      q == SplitN(d.v, {EQ}, 2)
  IN Setting(c, st, d.ok /\ Len(q) = 2, c.f.env, "set_env", << q[1], OptArg(q[2]) >>, K)
H_WorkDir(c, st, b, K) == LET d == ColonHex(b) IN Setting(c, st, d.ok, c.f.wd, "cfg_working_dir", << OptArg(d.v) >>, K)

----------------------------------------------------------------------------
(* monitor commands: the target's output, then OK *)
ConsoleText(ops) ==
  FoldLeft(LAMBDA a, o : CASE o[1] \in {0, 2} -> a \o Tail(o)
                           [] o[1] = 3 -> a \o Tail(o) \o <<10>>
                           [] OTHER -> a, <<>>, ops)
H_qRcmd(c, st, b, K) ==
  LET d == IF b = <<>> THEN Some(<<>>) ELSE IF b[1] = COMMA THEN HexBuf(Tail(b)) ELSE NONE
      cs == << Call("handle_monitor_cmd", << d.v >>) >>
      r == Ans(K, "handle_monitor_cmd", 1)
      e == TR(st, cs, r, LAMBDA v : OkReply(st, cs))
  IN IF ~d.ok THEN Malformed(st)
     ELSE [e EXCEPT !.cmp = IF r.k = "missing" THEN "missing" ELSE "console",
                    !.aux = ConsoleText(IF r.k = "ok" THEN r.v ELSE IF r.k = "fatal" THEN Tail(r.v) ELSE <<>>)]

H_qOffsets(c, st, b, K) ==
  IF b # <<>> THEN Malformed(st)
  ELSE LET cs == << Call("get_section_offsets", <<>>) >>
       IN TR(st, cs, Ans(K, "get_section_offsets", 1), LAMBDA v :
            Reply(st, cs,
              IF v[1] = <<0>>
              THEN B("Text=") \o NumHex(v[2]) \o B(";Data=") \o NumHex(v[3]) \o B(";Bss=")
                   \o NumHex(IF v[4][1] = 1 THEN Tail(v[4]) ELSE v[3])
              ELSE B("TextSeg=") \o NumHex(v[2])
                   \o (IF v[3][1] = 1 THEN B(";DataSeg=") \o NumHex(Tail(v[3])) ELSE <<>>)))

----------------------------------------------------------------------------
(* object transfer *)
ParseXfer(b) ==     \* [ok, annex, off, len]
  LET q == Split(b, {COLON})
      w == IF Len(q) < 3 THEN << <<>> >> ELSE Split(q[3], {COMMA})
      o == HexNumW(w[1], 8)
      n == IF Len(w) < 2 THEN NONE ELSE HexNumW(w[2], 8)
      good == Len(q) >= 3 /\ o.ok /\ n.ok
  IN [ok |-> good, annex |-> IF Len(q) < 2 THEN <<>> ELSE q[2], off |-> o.v, len |-> n.v]
Part(st, cs, d) == Reply(st, cs, IF d = <<>> THEN <<108>> ELSE <<109>> \o d)

XferFrom(st, x, f, a, K) ==
  LET cs == << Call(f, a \o << x.off, x.len, ANY >>) >>
  IN Filled(st, cs, Ans(K, f, 1), LAMBDA d : Part(st, cs, d))
XferPlain(st, b, f, K) ==
  LET x == ParseXfer(b) IN IF ~x.ok \/ x.annex # <<>> THEN Malformed(st) ELSE XferFrom(st, x, f, <<>>, K)
H_XferMap(c, st, b, K) == XferPlain(st, b, "memory_map_xml", K)
H_XferAuxv(c, st, b, K) == XferPlain(st, b, "get_auxv", K)
H_XferLibs(c, st, b, K) == XferPlain(st, b, "get_libraries_svr4", K)
H_XferExec(c, st, b, K) ==
  LET x == ParseXfer(b)
      p == HexNumW(x.annex, 8)
  IN IF ~x.ok \/ (x.annex # <<>> /\ (~p.ok \/ p.v = <<>>)) THEN Malformed(st)
     ELSE XferFrom(st, x, "get_exec_file", << IF x.annex = <<>> THEN <<0>> ELSE <<1>> \o p.v >>, K)

IsSpace(x) == x \in {9, 10, 11, 12, 13, 32}
TrimText(s) == LET a == SelectInSeq(s, LAMBDA x : ~IsSpace(x))
                   z == SelectLastInSeq(s, LAMBDA x : ~IsSpace(x))
               IN IF a = 0 THEN <<>> ELSE SubSeq(s, a, z)
H_XferFeatures(c, st, b, K) ==
  LET x == ParseXfer(b)
      xml == TrimText(c.xml)
      off == Min2(ToNat(x.off), Len(xml))
      win == SubSeq(xml, off + 1, Min2(Len(xml), off + Min2(ToNat(x.len), Len(xml))))
      room == st.rx.len - Len(b) - 27       \* part of the packet buffer behind the request's body
  IN IF ~x.ok THEN Malformed(st)
     ELSE IF c.f.tdesc THEN XferFrom(st, x, "target_description_xml", << x.annex >>, K)
     ELSE IF x.annex # B("target.xml") THEN Fatal(st, <<>>)
     ELSE IF win = <<>> \/ Len(win) <= room THEN Part(st, <<>>, win)
     ELSE [E0(st) EXCEPT !.pk = << <<>> >>, !.cmp = "prefix", !.aux = win]

----------------------------------------------------------------------------
(* host I/O *)
HostArgs(b, n) == IF b # <<>> /\ b[1] = COLON THEN SplitN(Tail(b), {COMMA}, n) ELSE <<>>
Fd(s) == HexNumW(s, 4)
Host(st, ok, on, cs, K, Then(_)) ==
  IF ~ok THEN Malformed(st) ELSE IF ~on THEN Unsup(st) ELSE HR(st, cs, Ans(K, cs[1].f, 1), Then)
F0 == <<70, 48>>
(* bit masks of the known open flags (0xf0000e0b) and mode bits (0o140777) *)
Hi(v, i) == LET w == Be(v, 4) IN w[i]
SubBits(x, m) == \A k \in 0..7 : (x \div (2 ^ k)) % 2 = 1 => (m \div (2 ^ k)) % 2 = 1
FlagsKnown(v) == SubBits(Hi(v, 1), 240) /\ Hi(v, 2) = 0 /\ SubBits(Hi(v, 3), 14) /\ SubBits(Hi(v, 4), 11)
ModeKnown(v) == Hi(v, 1) = 0 /\ Hi(v, 2) = 0 /\ SubBits(Hi(v, 3), 193) /\ SubBits(Hi(v, 4), 255)

H_Open(c, st, b, K) ==
  LET q == HostArgs(b, 3)
      n == HexBuf(q[1])
      fl == Fd(q[2])
      mo == Fd(q[3])
      cs == << Call("open", << n.v, fl.v, mo.v >>) >>
  IN Host(st, Len(q) = 3 /\ n.ok /\ fl.ok /\ mo.ok /\ FlagsKnown(fl.v) /\ ModeKnown(mo.v), c.f.hopen, cs, K,
          LAMBDA v : Reply(st, cs, <<70>> \o NumHex(v[1])))
OneFd(b) == IF b # <<>> /\ b[1] = COLON THEN Fd(Tail(b)) ELSE NONE
H_Close(c, st, b, K) ==
  LET fd == OneFd(b)
      cs == << Call("close", << fd.v >>) >>
  IN Host(st, fd.ok, c.f.hclose, cs, K, LAMBDA v : Reply(st, cs, F0))
FileData(st, cs, r, v) == IF ToNat(v[2]) > ToNat(Last(r.a)) THEN Fatal(st, cs)
                          ELSE Reply(st, cs, <<70>> \o NumHex(v[2]) \o <<SEMI>> \o v[1])
H_Pread(c, st, b, K) ==
  LET q == HostArgs(b, 3)
      fd == Fd(q[1])
      n == HexNumW(q[2], 8)
      o == HexNumW(q[3], 8)
      cs == << Call("pread", << fd.v, n.v, o.v, ANY >>) >>
  IN Host(st, Len(q) = 3 /\ fd.ok /\ n.ok /\ o.ok, c.f.hpread, cs, K,
          LAMBDA v : FileData(st, cs, Ans(K, "pread", 1), v))
H_Pwrite(c, st, b, K) ==
  LET q == HostArgs(b, 3)
      fd == Fd(q[1])
      o == HexBuf(q[2])
      d == UnBin(q[3])
      cs == << Call("pwrite", << fd.v, Trim0(o.v), d.v >>) >>
  IN IF Len(q) = 3 /\ fd.ok /\ o.ok /\ d.ok /\ c.f.hpwrite /\ ~Fits(c, o.v) THEN Fatal(st, <<>>)
     ELSE Host(st, Len(q) = 3 /\ fd.ok /\ o.ok /\ d.ok, c.f.hpwrite, cs, K,
               LAMBDA v : Reply(st, cs, <<70>> \o NumHex(v[1])))
StatBytes(v) == FoldLeftDomain(LAMBDA a, i : a \o Be(v[i], IF i \in 8..10 THEN 8 ELSE 4), <<>>, v)
H_Fstat(c, st, b, K) ==
  LET fd == OneFd(b)
      cs == << Call("fstat", << fd.v >>) >>
  IN Host(st, fd.ok, c.f.hfstat, cs, K, LAMBDA v : Reply(st, cs, B("F40;") \o StatBytes(v)))
OneName(b) == IF b # <<>> /\ b[1] = COLON THEN HexBuf(Tail(b)) ELSE NONE
H_Unlink(c, st, b, K) ==
  LET n == OneName(b)
      cs == << Call("unlink", << n.v >>) >>
  IN Host(st, n.ok, c.f.hunlink, cs, K, LAMBDA v : Reply(st, cs, F0))
H_Readlink(c, st, b, K) ==
  LET n == OneName(b)
      cs == << Call("readlink", << n.v, ANY >>) >>
  IN Host(st, n.ok, c.f.hreadlink, cs, K, LAMBDA v : FileData(st, cs, Ans(K, "readlink", 1), v))
H_Setfs(c, st, b, K) ==
  LET p == IF b # <<>> /\ b[1] = COLON THEN HexNumW(Tail(b), 8) ELSE NONE
      cs == << Call("setfs", IF p.v = <<>> THEN << <<0>> >> ELSE << <<1>>, p.v >>) >>
  IN Host(st, p.ok, c.f.hsetfs, cs, K, LAMBDA v : Reply(st, cs, F0))

----------------------------------------------------------------------------
(* system-call catching *)
H_Catch(c, st, b, K) ==
  LET on(a) == Void(st, "enable_catch_syscalls", a, K)
      q == SelectSeq(Split(Drop(b, 3), {SEMI}), LAMBDA x : x # <<>>)
      ns == [i \in 1..Len(q) |-> HexBuf(q[i])]
      bad == SelectInSeq(ns, LAMBDA n : ~Fits(c, n.v))
      good == IF bad = 0 THEN ns ELSE Take(ns, bad - 1)
      args == << <<1>> >> \o [i \in 1..Len(good) |-> Trim0(good[i].v)]
  IN CASE b = <<COLON, 48>> -> Void(st, "disable_catch_syscalls", <<>>, K)
       [] b = <<COLON, 49>> -> on(<< <<0>> >>)
       [] StartsWith(b, <<COLON, 49, SEMI>>) /\ \A i \in 1..Len(ns) : ns[i].ok ->
            IF bad = 0 THEN on(args)
            ELSE LET cs == << Call("enable_catch_syscalls", args) >>
                 IN TR(st, cs, Ans(K, "enable_catch_syscalls", 1), LAMBDA v : Fatal(st, cs))
       [] OTHER -> Malformed(st)

(* register descriptions for LLDB *)
Encodings == << "uint", "sint", "ieee754", "vector" >>
Formats == << "binary", "decimal", "hex", "float", "vector-sint8", "vector-uint8", "vector-sint16",
              "vector-uint16", "vector-sint32", "vector-uint32", "vector-float32", "vector-uint128" >>
Generics == << "pc", "sp", "fp", "ra", "flags", "arg1", "arg2", "arg3", "arg4", "arg5", "arg6", "arg7", "arg8" >>
RegInfo(v) ==
  LET opt(o, name, T(_)) == IF o[1] = 1 THEN B(name) \o T(Tail(o)) ELSE <<>>
      regs(l) == Join([i \in 1..Len(l) |-> NumHex(Trim0(<<l[i]>>))], <<COMMA>>)
      raw(x) == x
  IN B("name:") \o v[2] \o opt(v[3], ";alt-name:", raw)
     \o B(";bitsize:") \o DecOf(v[4]) \o B(";offset:") \o DecOf(v[5])
     \o B(";encoding:") \o B(Encodings[1 + v[6][1]]) \o B(";format:") \o B(Formats[1 + v[7][1]])
     \o B(";set:") \o v[8]
     \o opt(v[9], ";gcc:", DecOf) \o opt(v[10], ";dwarf:", DecOf)
     \o opt(v[11], ";generic:", LAMBDA x : B(Generics[1 + x[1]]))
     \o opt(v[12], ";container-regs:", regs) \o opt(v[13], ";invalidate-regs:", regs)
     \o <<SEMI>>
H_RegInfo(c, st, b, K) ==
  LET id == HexNumW(b, 8)
      f == IF c.f.lldbov THEN "lldb_register_info" ELSE "arch_lldb_register_info"
      cs == << Call(f, << id.v >>) >>
  IN IF ~id.ok THEN Malformed(st)
     \* the architecture under test has no register of the highest number
     ELSE IF ~c.f.lldbov /\ id.v = [i \in 1..8 |-> 255] THEN Reply(st, <<>>, B("E45"))
     ELSE TR(st, cs, Ans(K, f, 1), LAMBDA v :
            CASE v[1] = <<0>> -> Reply(st, cs, B("E45"))
              [] v[1] = <<2>> -> Reply(st, cs, <<>>)
              [] OTHER -> Reply(st, cs, RegInfo(v)))
=============================================================================
