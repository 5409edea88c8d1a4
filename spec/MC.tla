--------------------------------- MODULE MC ---------------------------------
(* Bounded exploration of the session specification: every behaviour of the
   client, the target and the event loop over small alphabets.

   A model fixes configurations, packets, stop reasons and target answers.
   The properties are stated here independently of the handlers, as
   conditions on single steps (StepProps) over the states before and after,
   the step, the target's answers and the effect, plus ghost variables. *)
EXTENDS Session, Json, IOUtils

CONSTANTS
  Configs,        \* sequence of configurations (records, see Cfg)
  Packets(_, _),  \* c, st -> set of packet bodies a client may send
  Raw(_, _),      \* c, st -> set of byte strings sent outside packets
  Reasons(_, _),  \* c, st -> set of stop reasons the event loop may report
  Data(_, _, _),  \* c, f, a -> set of values of successful answers
  Errs(_, _),     \* c, f -> set of unsuccessful answers
  MaxDepth,
  CountTo         \* commands in a row to tell apart (states with different numbers are kept apart)

Tours == "TOURS" \in DOMAIN IOEnv /\ IOEnv.TOURS = "1"
Shard == IF "SHARD" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARD) ELSE 0
Shards == IF "SHARDS" \in DOMAIN IOEnv THEN atoi(IOEnv.SHARDS) ELSE 1
Thorough == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"

----------------------------------------------------------------------------
(* configurations *)
FeatureNames == {"multi", "resume", "step", "range", "rstep", "rcont", "sra", "extra", "bp", "sw", "hw", "hww",
  "monitor", "ext", "aslr", "env", "shell", "wd", "curpid", "offsets", "tp", "tpsrc", "tdesc", "lldbov", "mmap",
  "catch", "hostio", "hopen", "hclose", "hpread", "hpwrite", "hfstat", "hunlink", "hreadlink", "hsetfs", "exec",
  "auxv", "libs", "noack", "xpkt", "stub", "rle", "usexml", "uselldb", "guard", "archxml", "archlldb", "defalive"}
F(on) == TLCEval([x \in FeatureNames |-> x \in on])
Common == {"bp", "sw", "rle", "stub", "usexml", "uselldb", "noack", "xpkt", "guard"}
HostOps == {"hostio", "hopen", "hclose", "hpread", "hpwrite", "hfstat", "hunlink", "hreadlink", "hsetfs"}
Resumable == {"resume", "step", "range", "rstep", "rcont"}
Extended == {"ext", "aslr", "env", "shell", "wd", "curpid"}
Everything == FeatureNames \ {"defalive"}

Cfg(on) == TLCEval([f |-> F(on), uw |-> 8, owned |-> FALSE, cap |-> 512, xml |-> <<>>, threads |-> <<1, 2>>,
            tv |-> 0, cv |-> 0, bv |-> 0, blocking |-> 0, fs |-> 0, wf |-> 0, ff |-> 0, sf |-> 0])

----------------------------------------------------------------------------
(* values *)
Unit == {<<>>}
Bools == {<< <<1>> >>, << <<0>> >>}
OkAns(vs) == {[k |-> "ok", v |-> v] : v \in vs}
EFatal == [k |-> "fatal", v |-> << <<77>> >>]
ENo == [k |-> "errno", v |-> << <<5>> >>]
EIo == [k |-> "io", v |-> << <<1, 22>> >>]
EIoNone == [k |-> "io", v |-> << <<0>> >>]
ENon == [k |-> "nonfatal", v |-> <<>>]
EHost == [k |-> "herr", v |-> << <<39, 15>> >>]
EHio == [k |-> "hio", v |-> << <<2>> >>]
HostFs == {"open", "close", "pread", "pwrite", "fstat", "unlink", "readlink", "setfs"}
(* operations whose only errors are fatal *)
FatalOnly == {"resume", "step", "resume_range_step", "clear_resume_actions", "set_resume_action_continue",
  "set_resume_action_step", "set_resume_action_range_step", "reverse_cont", "reverse_step", "list_active_threads",
  "current_active_pid", "is_thread_alive", "thread_extra_info", "handle_monitor_cmd", "get_section_offsets",
  "lldb_register_info", "restart", "on_start"}
NoErrs(c, f) == {}
SomeErrs(c, f) == CASE f = "arch_lldb_register_info" -> {}
                    [] f \in FatalOnly -> {EFatal}
                    [] f \in HostFs -> {EFatal, EHost}
                    [] OTHER -> {EFatal, ENo}
AllErrs(c, f) == CASE f = "arch_lldb_register_info" -> {}
                   [] f \in FatalOnly -> {EFatal}
                   [] f \in HostFs -> {EFatal, EHost, EHio}
                   [] OTHER -> {EFatal, ENo, EIo, EIoNone, ENon}

NoPackets(cc, s) == {}
NoRaw(cc, s) == {}
NoReasons(cc, s) == {}
Buf(d) == << d, OfNat(Len(d)) >>
Regs3 == << <<1, 256, 254>> >>
Count(n) == [i \in 1..n |-> i % 256]
RegVal(id) == LET n == IF RegSize(id) = 0 THEN 3 ELSE RegSize(id) IN Buf(Count(n))
StdData(c, f, a) ==
  CASE f \in {"is_thread_alive", "kill", "query_if_attached", "add_sw_breakpoint", "remove_sw_breakpoint",
              "add_hw_breakpoint", "remove_hw_breakpoint", "add_hw_watchpoint", "remove_hw_watchpoint"} -> Bools
    [] f = "list_active_threads" -> {[i \in 1..Len(c.threads) |-> OfNat(c.threads[i])]}
    [] f = "current_active_pid" -> {<< <<7>> >>}
    [] f = "read_registers" -> {Regs3}
    [] f = "read_register" -> {RegVal(a[2])}
    [] f = "read_addrs" -> {<< Count(ToNat(a[3])), a[3], <<1>> >>}   \* <<1>>: the whole of what is asked for
    [] f \in {"thread_extra_info", "target_description_xml", "memory_map_xml", "get_auxv", "get_exec_file",
              "get_libraries_svr4", "pread", "readlink"} -> {Buf(<<65, 35, 42>>)}
    [] f \in {"run"} -> {<< <<9>> >>}
    [] f \in {"open", "pwrite"} -> {<< <<3>> >>}
    [] f = "fstat" -> {[i \in 1..13 |-> <<i>>]}
    [] f = "handle_monitor_cmd" -> {<< <<2, 104, 105>> >>}
    [] f = "get_section_offsets" -> {<< <<0>>, <<16>>, <<32>>, <<0>> >>}
    [] f \in {"lldb_register_info", "arch_lldb_register_info"} -> {<< <<0>> >>}
    [] f = "tracepoint_status" -> {<< <<1>>, <<2>> >>}
    [] f = "trace_experiment_status" -> {<< <<1>>, <<0>>, <<>> >>}
    [] f = "select_frame" -> {<< <<0>>, <<3>> >>}
    [] f \in {"tracepoint_enumerate_start", "tracepoint_enumerate_action", "tracepoint_enumerate_source"}
         -> {<< <<3>>, <<>>, <<>> >>}
    [] OTHER -> Unit

(* a call as it is recorded: the sizes of internal buffers filled in *)
Filledin(a) == [i \in 1..Len(a) |-> IF a[i] = ANY THEN <<1, 0>> ELSE a[i]]
ChunkRoom(c, need) == c.cap - 2 - 9      \* at least this much of the packet buffer is used for a chunk of memory
Asked(c, need) ==
  IF need.f # "read_addrs" THEN Filledin(need.a)
  ELSE << need.a[1], need.a[2], OfNat(Min2(ToNat(need.a[3]), ChunkRoom(c, need))) >>
Answers(c, need) ==
  LET a == Asked(c, need)
  IN {[f |-> need.f, a |-> a, k |-> r.k, v |-> r.v] : r \in OkAns(Data(c, need.f, a)) \cup Errs(c, need.f)}

----------------------------------------------------------------------------
(* steps of the environment *)
Pkt(b) == [t |-> "pkt", v |-> b, rs |-> NoReason]
Byt(b) == [t |-> "b", v |-> b, rs |-> NoReason]
Evt(t, r) == [t |-> t, v |-> <<>>, rs |-> r]
ERRID == <<77>>      \* the value carried by errors of the driver's environment
Env(c, st) ==
  LET fails(names) == IF c.blocking = 1 THEN {Evt(n, NoReason) : n \in names} ELSE {}
  IN CASE st.mode = "Idle" -> {Pkt(b) : b \in Packets(c, st)} \cup {Byt(b) : b \in Raw(c, st)} \cup fails({"readerr"})
       [] st.mode = "Running" -> {Pkt(b) : b \in Packets(c, st)} \cup {Byt(b) : b \in Raw(c, st)}
                                 \cup {Evt("stop", r) : r \in Reasons(c, st)} \cup fails({"readerr", "waiterrt", "waiterrc"})
       [] st.mode = "CtrlC" -> {Evt("irq", r) : r \in Reasons(c, st) \cup {NoReason}} \cup fails({"irqerr"})
       [] st.mode = "Disc" -> IF c.blocking = 1 THEN {} ELSE {Evt("ret", NoReason)}
       [] OTHER -> {}

PacketStep(c, st, b, K) ==
  LET n == Len(b) + 4
  IN IF n > st.rx.len /\ ~c.owned THEN Out(Fatal(st, <<>>), FALSE, "frame")
     ELSE Command(c, [st EXCEPT !.rx.len = Max2(@, n)], b, K)
StepOf(c, st, s, K) ==
  CASE s.t = "pkt" -> PacketStep(c, st, s.v, K)
    [] s.t = "b" -> Bytes(c, st, s.v, K)
    [] s.t = "stop" -> Stop(c, st, s.rs, K)
    [] s.t = "irq" -> IrqHandled(c, st, s.rs, K)
    [] s.t = "ret" -> Return(st)
    [] s.t \in {"waiterrt", "irqerr"} -> Out(TFatal(st, <<>>, ERRID), FALSE, "driver")
    [] s.t \in {"readerr", "waiterrc"} -> Out(Fatal(st, <<>>), FALSE, "driver")

(* all ways a step can go *)
RECURSIVE Runs(_, _, _, _)
Runs(c, st, s, K) ==
  LET x == TLCEval(StepOf(c, st, s, K))
  IN IF x.cmp # "missing" THEN {[x |-> x, K |-> K]}
     ELSE UNION {Runs(c, st, s, Append(K, r)) : r \in Answers(c, x.need)}

----------------------------------------------------------------------------
VARIABLES g, st, last, hist, res, gh
vars == <<g, st, last, hist, res, gh>>
ConfigTable == TLCEval(Configs)
c == ConfigTable[g]

(* ghost state: what the client is entitled to expect *)
Ghost0 == [owe |-> NoReason,        \* stop reason given for a Ctrl-C while idle, not yet reported
           mem |-> <<1>>, res |-> [k |-> "id", v |-> <<1>>],    \* threads selected
           acks |-> TRUE,           \* acknowledgements expected
           cnt |-> 0,               \* commands received (up to CountTo)
           raw |-> <<>>]            \* bytes received since the end of the last packet
SelKind(b) == IF Len(b) >= 3 /\ b[1] = 72 THEN b[2] ELSE 0
SplitAt(t, d) == Split(t, {d})
(* the thread part of a thread id *)
SelText(b) == LET t == Drop(b, 2)
                  i == SelectInSeq(t, LAMBDA y : y = DOT)
              IN IF t[1] # 112 THEN t ELSE IF i = 0 THEN B("-1") ELSE SplitAt(t, DOT)[2]
SelId(b, threads) == CASE SelText(b) = <<48>> -> [k |-> "id", v |-> threads[1]]
                       [] SelText(b) = <<45, 49>> -> [k |-> "all", v |-> <<>>]
                       [] OTHER -> [k |-> "id", v |-> HexNum(SelText(b)).v]
UnHexOk(d) == \A i \in 1..2 : d[i] \in (48..57) \cup (65..70) \cup (97..102) \cup {88, 120}
HexVal(d) == LET v(y) == CASE y \in 48..57 -> y - 48 [] y \in 65..70 -> y - 55 [] y \in 97..102 -> y - 87 [] OTHER -> 0
             IN 16 * v(d[1]) + v(d[2])
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE (s[1] + SumOf(Tail(s))) % 256
(* what the bytes since the last packet amount to, stated over whole strings *)
FrameKind(s) ==
  LET h == SelectInSeq(s, LAMBDA y : y = HASH)
  IN IF s = <<>> THEN "none"
     ELSE IF s[1] # DOLLAR THEN (CASE s[1] = PLUS -> "ack" [] s[1] = CTRLC -> "irq" [] OTHER -> "error")
     ELSE IF h = 0 \/ Len(s) < h + 2 THEN "none"
     ELSE IF UnHexOk(SubSeq(s, h + 1, h + 2)) /\ HexVal(SubSeq(s, h + 1, h + 2)) = SumOf(SubSeq(s, 2, h - 1)) THEN "command"
     ELSE "error"
NamesThread(r) == r.k \in {"SignalThread", "SwBreak", "HwBreak", "Watch"} \/ (r.k \in {"ReplayLog", "Catch"} /\ ~r.st /\ r.tid # <<>>)
ThreadOf(r) == IF r.st THEN <<1>> ELSE r.tid
Ok(x) == x.err = "none" /\ x.pk # <<>> /\ x.pk[1] = B("OK")
RECURSIVE AfterPackets(_, _)
AfterPackets(r, bs) == IF bs = <<>> THEN r
                       ELSE LET t == Append(r, bs[1]) IN AfterPackets(IF FrameKind(t) = "none" THEN t ELSE <<>>, Tail(bs))
(* the stop reason a step reports *)
Reported(s, x, owe, from) ==
  CASE x.err # "none" -> NoReason
    [] s.t = "stop" -> s.rs
    [] s.t = "irq" /\ from = "Running" -> s.rs
    [] s.t \in {"pkt", "b"} /\ x.cmp # "resumed" /\ x.fam = "resume" /\ x.pk # <<>> /\ owe.k # "None"
         /\ x.pk[1][1] \in {83, 84, 87, 88} -> owe
    [] OTHER -> NoReason
Ghost(cc, s, x, st0, gh0, K) ==
  LET rep == Reported(s, x, gh0.owe, st0.from)
      tid == [k |-> "id", v |-> ThreadOf(rep)]
      lst == {i \in 1..Len(K) : K[i].f = "list_active_threads"}
      thr == IF lst = {} THEN << <<1>> >> ELSE K[CHOOSE i \in lst : TRUE].v
      g1 == IF s.t = "irq" /\ st0.from = "Idle" THEN [gh0 EXCEPT !.owe = IF s.rs.k = "None" THEN @ ELSE s.rs]
            ELSE IF x.st.mode # "CtrlC" /\ (x.st.mode # "Idle" \/ rep.k # "None" \/ s.t = "ret")
                 THEN [gh0 EXCEPT !.owe = NoReason] ELSE gh0
      g2 == IF rep.k # "None" /\ NamesThread(rep) THEN [g1 EXCEPT !.mem = tid.v, !.res = tid] ELSE g1
      g3 == IF s.t = "pkt" /\ SelKind(s.v) = 103 /\ Ok(x) THEN [g2 EXCEPT !.mem = SelId(s.v, thr).v]
            ELSE IF s.t = "pkt" /\ SelKind(s.v) = 99 /\ Ok(x) THEN [g2 EXCEPT !.res = SelId(s.v, thr)] ELSE g2
      cmd == x.fam \notin {"frame", "irq"} /\ s.t \in {"pkt", "b"}
      g4 == [g3 EXCEPT !.raw = IF s.t = "pkt" \/ x.err # "none" THEN <<>> ELSE AfterPackets(@, s.v),
                       !.cnt = IF cmd /\ @ < CountTo THEN @ + 1 ELSE @]
  IN IF s.t = "pkt" /\ s.v = B("QStartNoAckMode") /\ Ok(x) THEN [g4 EXCEPT !.acks = FALSE] ELSE g4

Compact(s) == CASE s.t \in {"pkt", "b"} -> [t |-> s.t, v |-> s.v]
                [] s.t \in {"stop", "irq"} -> [t |-> s.t, rs |-> s.rs]
                [] OTHER -> [t |-> s.t, eid |-> ERRID[1]]
Script(h, r, n, loop) == "TOUR " \o ToJson([g |-> g, s |-> h, r |-> r, n |-> n, l |-> loop])

Init == /\ g \in {i \in 1..Len(Configs) : i % Shards = Shard}
        /\ st = Init0(c.cap)
        /\ last = [s |-> Evt("start", NoReason), x |-> Out(E0(st), FALSE, "frame"), K |-> <<>>, from |-> st]
        /\ hist = <<>>
        /\ res = <<>>
        /\ gh = Ghost0
        /\ (Tours => PrintT("CONFIG " \o ToJson([g |-> g, c |-> [c EXCEPT !.owned = IF @ THEN 1 ELSE 0]])))

Next == Len(hist) < MaxDepth /\ \E s \in Env(c, st) : \E r \in Runs(c, st, s, <<>>) :
          /\ g' = g
          /\ st' = r.x.st
          /\ last' = [s |-> s, x |-> r.x, K |-> r.K, from |-> st]
          /\ gh' = Ghost(c, s, r.x, st, gh, r.K)
          /\ hist' = Append(hist, Compact(s))
          /\ res' = res \o [i \in 1..Len(r.K) |-> [f |-> r.K[i].f, k |-> r.K[i].k, v |-> r.K[i].v]]
          /\ (Tours => PrintT(Script(hist', res', Len(res), [st' EXCEPT !.rx.len = 0] = [st EXCEPT !.rx.len = 0])))
Spec == Init /\ [][Next]_vars
View == <<g, st, gh>>

----------------------------------------------------------------------------
(* what every step must satisfy *)
S == last'.s
X == last'.x
KK == last'.K
ErrText(p) == p # <<>> /\ p[1] = 69
Resumption == X.fam = "resume" /\ X.cmp = "resumed"
DueNow == gh.owe.k # "None" /\ Reported(S, X, gh.owe, st.from).k # "None"

(* P01: a byte completes a packet, is reported or is ignored exactly as the
   bytes received since the last packet say *)
P01Step ==
  (S.t = "b" /\ Len(S.v) = 1) =>
    LET r == Append(gh.raw, S.v[1])
        k == FrameKind(r)
        full == ~c.owned /\ r[1] = DOLLAR /\ Len(r) > c.cap
        none == ~c.owned /\ c.cap = 0
    IN IF full \/ none THEN X.err = "other" /\ X.fam = "frame"
       ELSE CASE k = "error" -> X.err = "other" /\ X.fam = "frame"
              [] k = "irq" -> X.fam = "irq" /\ st'.mode = "CtrlC"
              [] k = "command" -> /\ X.fam \notin {"frame", "irq"}
                                  /\ X = [Command(c, [st EXCEPT !.rx = Rx0(Max2(st.rx.len, Len(r)))],
                                             SubSeq(r, 2, Len(r) - 3), KK) EXCEPT !.st = X.st]
              [] OTHER -> X.fam = "frame" /\ X.err = "none" /\ X.calls = <<>> /\ X.pk = <<>> /\ st'.mode = st.mode

(* P02: acknowledge every accepted packet exactly while acknowledgements are on *)
P02Step == /\ (S.t = "pkt" /\ X.fam # "frame") => (X.ack <=> gh.acks)
           /\ S.t \notin {"pkt", "b"} => ~X.ack
           /\ (~gh.acks => ~gh'.acks)
           /\ (gh.acks /\ ~gh'.acks) => c.f.noack /\ X.pk = << B("OK") >> /\ X.ack
           /\ st'.noack = ~gh'.acks

(* P04: number of replies *)
P04Step ==
  CASE X.err # "none" -> TRUE
    [] S.t \in {"ret"} -> X.pk = <<>>
    [] S.t = "stop" -> Len(X.pk) = 1
    [] S.t = "irq" -> Len(X.pk) = IF st.from = "Running" /\ S.rs.k # "None" THEN 1 ELSE 0
    [] S.t = "b" /\ X.fam \in {"frame", "irq"} -> X.pk = <<>>
    [] Resumption -> X.pk = <<>>
    [] X.fam = "kill" -> Len(X.pk) = (IF c.f.ext THEN 1 ELSE 0)
    [] X.fam = "unknown" -> Len(X.pk) \in {1, 2}
    [] OTHER -> Len(X.pk) = 1

(* P05: the life cycle *)
Terminal(r) == r.k \in {"Exited", "Terminated"}
P05Step ==
  LET m == st.mode
      n == st'.mode
      rep == Reported(S, X, gh.owe, st.from)
      disc == n = "Disc"
  IN /\ (n = "Dead") <=> (X.err # "none")
     /\ n # "Dead" =>
        CASE S.t = "irq" -> IF st.from = "Idle" THEN n = "Idle"
                            ELSE n = (IF S.rs.k = "None" THEN "Running" ELSE IF Terminal(S.rs) THEN "Disc" ELSE "Idle")
          [] S.t = "stop" -> n = IF Terminal(S.rs) THEN "Disc" ELSE "Idle"
          [] S.t = "ret" -> m = "Disc" /\ n = "Idle"
          [] m = "Idle" /\ n = "Running" -> X.fam = "resume" /\ X.cmp = "resumed"
          [] m = "Running" /\ n = "Idle" -> FALSE
          [] n = "CtrlC" -> S.t = "b" /\ CTRLC \in Range(S.v) /\ st'.from = m
          [] disc -> X.fam \in {"detach", "kill"} \/ (X.fam = "resume" /\ Terminal(rep))
          [] OTHER -> n = m
     /\ (disc /\ m # "Disc") => st'.why = (CASE X.fam = "detach" -> <<2>> [] X.fam = "kill" -> <<3>>
                                              [] OTHER -> << IF rep.k = "Exited" THEN 0 ELSE 1, rep.n >>)

(* P06: a stop reason owed since an idle Ctrl-C is reported by the next resume,
   once, and nothing else reports it *)
P06Step ==
  /\ (gh.owe.k # "None" /\ st.mode = "Idle" /\ X.fam = "resume" /\ X.err = "none" /\ gh'.owe.k # "None")
        => ~Resumption
  /\ st.mode \in {"Idle", "CtrlC"} => st.def = gh.owe
  /\ (st.mode = "Idle" /\ gh.owe.k = "None") => st'.mode # "Disc" \/ X.fam \in {"detach", "kill"}
  /\ (S.t = "irq" /\ st.from = "Idle") => X.pk = <<>> /\ X.calls = <<>>
  /\ (S.t = "irq" /\ st.from = "Running" /\ S.rs.k = "None") => X.pk = <<>> /\ st'.mode = "Running"

(* P07: reasons a target cannot report are refused *)
Supported(r) ==
  CASE r.k = "SwBreak" -> {"bp", "sw"} \subseteq {y \in FeatureNames : c.f[y]}
    [] r.k = "HwBreak" -> c.f.bp /\ c.f.hw
    [] r.k = "Watch" -> c.f.bp /\ c.f.hww
    [] r.k = "ReplayLog" -> c.f.resume /\ (c.f.rcont \/ c.f.rstep)
    [] r.k = "Catch" -> c.f.catch
    [] OTHER -> TRUE
P07Step == (S.t = "stop" \/ (S.t = "irq" /\ st.from = "Running" /\ S.rs.k # "None")) =>
             IF Supported(S.rs) THEN X.err # "other" ELSE X.err = "other" /\ X.pk = <<>>

(* P08: memory and registers are accessed through the selected thread, and
   selections change in no other way *)
P08Step ==
  /\ st'.mode # "Dead" => st'.mem = gh'.mem /\ st'.res = gh'.res
  /\ \A i \in 1..Len(X.calls) :
       LET k == X.calls[i]
       IN /\ k.f \in {"read_registers", "write_registers", "read_register", "write_register", "read_addrs", "write_addrs"}
                => k.a[1] = (IF c.f.multi THEN gh.mem ELSE <<>>)
          /\ (k.f = "reverse_step" => k.a[1] = (IF c.f.multi THEN gh.res.v ELSE <<>>))

(* P09: a target is resumed at most once, and only by what succeeds in full *)
Resumers == {"resume", "step", "resume_range_step", "reverse_cont", "reverse_step"}
P09Step ==
  LET n == Cardinality({i \in 1..Len(X.calls) : X.calls[i].f \in Resumers})
  IN /\ n <= 1
     /\ (n = 1 => X.fam = "resume" /\ X.calls[Len(X.calls)].f \in Resumers)
     /\ (n = 1 /\ c.f.multi /\ Last(X.calls).f = "resume") => X.calls[1].f = "clear_resume_actions"
     /\ (X.fam = "resume" /\ X.err = "other") => n = 0 \/ gh.owe.k # "None"

(* P14: what is not implemented *)
P14Step == X.un => X.calls = <<>> /\ X.pk = << <<>> >> /\ X.err = "none" /\ [st' EXCEPT !.rx = 0] = [st EXCEPT !.rx = 0]

(* P15: errors *)
P15Step ==
  LET bad == {i \in 1..Len(KK) : KK[i].k # "ok"}
      f == {i \in bad : KK[i].k = "fatal"}
  IN /\ (X.err = "target") => (\E i \in f : X.ed = KK[i].v[1]) \/ (S.t \in {"waiterrt", "irqerr"} /\ X.ed = ERRID)
     /\ (f # {} /\ X.err # "target") => \E i \in f : KK[i].f = "tracepoint_create_continue"
     /\ (bad # {} /\ f = {} /\ X.err = "none" /\ X.cmp # "known") =>
           \/ X.pk # <<>> /\ (ErrText(X.pk[1]) \/ StartsWith(X.pk[1], B("F-1,")))
           \/ \A i \in bad : KK[i].f = "read_addrs"
     /\ (X.err = "none" /\ X.pk # <<>> /\ ErrText(X.pk[1])) =>
           [st' EXCEPT !.rx = 0, !.cur = 0] = [st EXCEPT !.rx = 0, !.cur = 0]

(* P16: the specification gives every step a meaning and never writes an
   unframed or over-long thing: payloads are byte strings *)
P16Step == /\ X.err \in {"none", "other", "target"}
           /\ \A i \in 1..Len(X.pk) : \A j \in 1..Len(X.pk[i]) : X.pk[i][j] \in 0..255

(* P10: memory is read in one contiguous run from the requested address, no
   further than asked, and the client gets exactly what was read; a write is one
   call *)
CmdLetter == S.v[1]
CmdFields == Split(Tail(S.v), {COMMA, SEMI, COLON})
Answered(i) == KK[i].k = "ok"
AnsOf(f) == SelectSeq(KK, LAMBDA r : r.f = f)
RECURSIVE Joined(_)
Joined(rs) == IF rs = <<>> THEN <<>> ELSE rs[1].v[1] \o Joined(Tail(rs))
RECURSIVE LenSum(_)
LenSum(cs) == IF cs = <<>> THEN 0 ELSE ToNat(cs[1].a[3]) + LenSum(Tail(cs))
AtMostOne(fs) == Len(X.calls) <= 1 /\ \A i \in 1..Len(X.calls) : X.calls[i].f \in fs
Succeeded == X.calls # <<>> /\ \A i \in 1..Len(KK) : Answered(i)
P10Step ==
  /\ (S.t = "pkt" /\ X.fam = "memr") =>
       LET cs == X.calls
           ks == AnsOf("read_addrs")
           got == SelectSeq(ks, LAMBDA r : r.k = "ok")
       IN /\ \A i \in 1..Len(cs) : cs[i].f = "read_addrs"
          /\ cs # <<>> => cs[1].a[2] = Trim0(HexBuf(CmdFields[1]).v)
          /\ \A i \in 1..(Len(cs) - 1) : cs[i + 1].a[2] = Add(cs[i].a[2], ToNat(cs[i].a[3]))
          /\ cs # <<>> => LenSum(cs) <= ToNat(HexNumW(CmdFields[2], 8).v)
          /\ \A i \in 1..(Len(ks) - 1) : ks[i].k = "ok"
          /\ (X.err = "none" /\ got # <<>>) => X.pk = << HexOf(Joined(got)) >>
          /\ (X.err = "none" /\ got = <<>> /\ cs # <<>>) => ErrText(X.pk[1])
  /\ X.fam = "memw" => AtMostOne({"write_addrs"}) /\ (Succeeded => X.pk = << B("OK") >>)

(* P11: register commands reach the register they name, once *)
P11Step ==
  /\ X.fam = "regs" => AtMostOne({"read_registers", "write_registers"})
  /\ X.fam = "reg1" => AtMostOne({"read_register", "write_register"})
  /\ (S.t = "pkt" /\ X.fam = "reg1" /\ X.calls # <<>>) =>
        /\ X.calls[1].f = (IF CmdLetter = 112 THEN "read_register" ELSE "write_register")
        /\ X.calls[1].a[2] = HexNumW(SplitAt(Tail(S.v), EQ)[1], 8).v
        /\ RegKnown(X.calls[1].a[2])
        /\ (CmdLetter = 112 /\ X.err = "none" /\ Succeeded /\ RegSize(X.calls[1].a[2]) # 0)
              => Len(X.pk[1]) = 2 * RegSize(X.calls[1].a[2])

(* P12: one operation, named by the packet's first two characters *)
BpNames == [z |-> << "remove_sw_breakpoint", "remove_hw_breakpoint", "remove_hw_watchpoint", "remove_hw_watchpoint", "remove_hw_watchpoint" >>,
            Z |-> << "add_sw_breakpoint", "add_hw_breakpoint", "add_hw_watchpoint", "add_hw_watchpoint", "add_hw_watchpoint" >>]
P12Step ==
  (S.t = "pkt" /\ X.fam = "bp") =>
    /\ Len(X.calls) <= 1
    /\ X.calls # <<>> =>
         LET d == ToNat(HexNumW(CmdFields[1], 1).v)
             k == X.calls[1]
         IN /\ d \in 0..4
            /\ k.f = (IF CmdLetter = 90 THEN BpNames.Z ELSE BpNames.z)[d + 1]
            /\ d >= 2 => k.a[3] = <<d - 2>>
            /\ k.a[1] = Trim0(HexBuf(CmdFields[2]).v)
            /\ X.err = "none" => IF Answered(1) /\ KK[1].v[1] = <<1>> THEN X.pk = << B("OK") >> ELSE ErrText(X.pk[1])
    /\ (X.err = "none" /\ X.calls = <<>>) => X.un

(* P13: what is advertised is what commands are accepted; the syntax of thread
   ids is what the last negotiation said *)
Adverts == {<< B("QStartNoAckMode+"), "QStartNoAckMode" >>, << B("ReverseContinue+"), "bc" >>, << B("ReverseStep+"), "bs" >>,
            << B("QDisableRandomization+"), "QDisableRandomization" >>, << B("QEnvironmentReset+"), "QEnvironmentReset" >>,
            << B("QCatchSyscalls+"), "QCatchSyscalls" >>, << B("qXfer:features:read+"), "qXfer:features:read" >>,
            << B("qXfer:memory-map:read+"), "qXfer:memory-map:read" >>, << B("qXfer:exec-file:read+"), "qXfer:exec-file:read" >>,
            << B("qXfer:auxv:read+"), "qXfer:auxv:read" >>, << B("qXfer:libraries-svr4:read+"), "qXfer:libraries-svr4:read" >>,
            << B("QTBuffer:size+"), "QTBuffer" >>}
SubFeature == [n \in {"QDisableRandomization", "QEnvironmentReset"} |-> IF n = "QDisableRandomization" THEN c.f.aslr ELSE c.f.env]
P13Step ==
  /\ st'.mp # st.mp => X.fam = "supp"
  /\ (S.t = "pkt" /\ X.fam = "supp" /\ X.err = "none") =>
        LET fs == {SplitAt(X.pk[1], SEMI)[i] : i \in 1..Len(SplitAt(X.pk[1], SEMI))}
            want == SelectSeq(SplitAt(Drop(S.v, 11), SEMI), LAMBDA t : StartsWith(t, B("multiprocess")) /\ Len(t) = 13)
        IN /\ X.calls = <<>>
           /\ \A a \in Adverts :
                a[1] \in fs <=> /\ Lookup(c, B(a[2])).n = a[2]
                                /\ a[2] \in DOMAIN SubFeature => SubFeature[a[2]]
           /\ want # <<>> => st'.mp = (Last(Last(want)) = PLUS)
           /\ want = <<>> => st'.mp = st.mp

(* P17, P18: one request, answered with what the target produced *)
WindowOf(cs) == SubSeq(cs[1].a, Len(cs[1].a) - 2, Len(cs[1].a) - 1)
Asked17 == LET w == SplitAt(SplitAt(S.v, COLON)[5], COMMA) IN << HexNumW(w[1], 8).v, HexNumW(w[2], 8).v >>
P17Step ==
  (S.t = "pkt" /\ X.fam = "xfer") =>
    /\ AtMostOne({"target_description_xml", "memory_map_xml", "get_auxv", "get_exec_file", "get_libraries_svr4"})
    /\ X.calls # <<>> => WindowOf(X.calls) = Asked17
    /\ (X.err = "none" /\ Succeeded) => X.pk[1] = IF KK[1].v[1] = <<>> THEN B("l") ELSE B("m") \o KK[1].v[1]
    /\ (X.err = "none" /\ X.calls = <<>> /\ ~X.un /\ X.cmp = "eq") =>
          /\ X.pk[1][1] \in {108, 109}
          /\ X.pk[1][1] = 108 <=> Len(X.pk[1]) = 1
          /\ Len(X.pk[1]) - 1 <= ToNat(Asked17[2])
P18Step ==
  X.fam = "hostio" =>
    /\ AtMostOne({"open", "close", "pread", "pwrite", "fstat", "unlink", "readlink", "setfs"})
    /\ (S.t = "pkt" /\ X.calls # <<>>) => StartsWith(Drop(S.v, 6), B(X.calls[1].f))
    /\ X.err = "none" => X.un \/ (X.calls # <<>> /\ X.pk[1][1] = 70 /\ (StartsWith(X.pk[1], B("F-1,")) <=> ~Answered(1)))

(* P19: requests on the process and its settings: one call each, and the
   session ends only with a kill the target confirms (or cannot refuse) *)
SettingOps == {"cfg_aslr", "cfg_startup_with_shell", "reset_env", "remove_env", "set_env", "cfg_working_dir"}
P19Step ==
  /\ X.fam = "cfg" => AtMostOne(SettingOps) /\ (X.err = "none" => X.un \/ X.calls # <<>>) /\ (Succeeded => X.pk = << B("OK") >>)
  /\ X.fam = "kill" => AtMostOne({"kill"}) /\ (X.err = "none" => (st'.mode = "Disc" <=> (X.calls = <<>> \/ (Answered(1) /\ KK[1].v[1] = <<1>>))))
  /\ X.fam = "proc" => AtMostOne({"attach", "run", "restart", "on_start", "query_if_attached"})
  /\ (X.fam = "proc" /\ X.err = "none" /\ Succeeded /\ X.calls # <<>> /\ X.calls[1].f \in {"attach", "run"})
        => StartsWith(X.pk[1], B("T05thread:")) \/ X.pk[1] = B("W00;")

(* P20: a definition begins, goes on and is completed in this order; nothing
   follows a failure, and a definition with more to come is not completed *)
TpRank(f) == CASE f = "tracepoint_create_begin" -> 1 [] f = "tracepoint_create_continue" -> 2 [] f = "tracepoint_create_complete" -> 3 [] OTHER -> 0
MoreToCome == LET q == SplitAt(Drop(S.v, 5), COLON)
                  t == IF StartsWith(q[1], <<MINUS>>) THEN q[3] ELSE S.v
              IN t # <<>> /\ Last(t) = MINUS
P20Step ==
  X.fam = "tpdef" =>
    LET cs == X.calls
    IN /\ (cs # <<>> /\ cs[1].f = "tracepoint_attach_source") => Len(cs) = 1
       /\ (cs # <<>> /\ cs[1].f # "tracepoint_attach_source") =>
            /\ \A i \in 1..Len(cs) : TpRank(cs[i].f) # 0 /\ cs[i].a[1] = cs[1].a[1]
            /\ \A i \in 1..(Len(cs) - 1) : TpRank(cs[i].f) < TpRank(cs[i + 1].f) \/ (TpRank(cs[i].f) = 2 /\ TpRank(cs[i + 1].f) = 2)
            /\ TpRank(Last(cs).f) = 3 => X.err # "other" /\ \A i \in 1..(Len(KK) - 1) : Answered(i)
            /\ (S.t = "pkt" /\ TpRank(Last(cs).f) = 3) => ~MoreToCome
            /\ (S.t = "pkt" /\ X.pk = << B("OK") >>) => (TpRank(Last(cs).f) = 3 <=> ~MoreToCome)

(* P21: the upload: nothing is asked once it is over; each request asks for the
   item the answers so far lead to, and moves on by the answer *)
P21Step ==
  /\ st'.cur # st.cur => X.fam = "tpup" \/ st'.mode = "Dead"
  /\ X.fam = "tpup" =>
       /\ AtMostOne({"tracepoint_enumerate_start", "tracepoint_enumerate_action", "tracepoint_enumerate_source"})
       /\ (S.t = "pkt" /\ S.v = B("qTsP") /\ st.cur.k = "none") => X.calls = <<>> /\ X.pk = << <<>> >>
       /\ (S.t = "pkt" /\ S.v = B("qTfP")) => X.calls = << Call("tracepoint_enumerate_start", << <<0>> >>) >>
       /\ (X.err = "none" /\ Succeeded) =>
            LET step == KK[1].v[1][1]
            IN /\ step = 3 => st'.cur.k = "none"
               /\ (step \in {0, 1} /\ st'.cur.k # "none") =>
                     /\ st'.cur.k = (IF step = 0 THEN "action" ELSE "source")
                     /\ st'.cur.n = (IF st.cur.k = st'.cur.k /\ S.v = B("qTsP") THEN Add(st.cur.n, 1) ELSE <<>>)
               /\ (step = 2 /\ st'.cur.k # "none") => st'.cur.tp = KK[1].v[2]

(* P22: thread queries *)
ListedThreads == LET l == SelectSeq(KK, LAMBDA r : r.f = "list_active_threads") IN IF l = <<>> THEN << <<1>> >> ELSE l[1].v
P22Step ==
  /\ (S.t = "pkt" /\ S.v = B("qsThreadInfo")) => X.pk = << B("l") >> /\ X.calls = <<>>
  /\ (S.t = "pkt" /\ S.v = B("qfThreadInfo") /\ X.err = "none" /\ (\A i \in 1..Len(KK) : Answered(i))) =>
        LET ids == SplitAt(Tail(X.pk[1]), COMMA)
            n == Len(ListedThreads)
        IN /\ X.pk[1][1] = 109
           /\ n > 0 => Len(ids) = n /\ \A i \in 1..n : HexNumW(IF st.mp THEN SplitAt(ids[i], DOT)[2] ELSE ids[i], 8).v = ListedThreads[i]
  /\ (S.t = "pkt" /\ S.v = B("?") /\ X.err = "none" /\ (\A i \in 1..Len(KK) : Answered(i))) =>
        IF ListedThreads = <<>> THEN X.pk[1] = B("W00;") ELSE StartsWith(X.pk[1], B("T05thread:"))
  /\ X.fam = "alive" => AtMostOne({"is_thread_alive"}) /\ (X.err = "none" => X.pk[1] = B("OK") \/ ErrText(X.pk[1]))
  /\ (X.fam = "alive" /\ Succeeded) => (X.pk[1] = B("OK") <=> KK[1].v[1] = <<1>>)

(* P26: one delivery; the printed text does not touch the reply *)
P26Step ==
  X.fam = "monitor" =>
    /\ AtMostOne({"handle_monitor_cmd"})
    /\ (X.err = "none") => X.calls # <<>> /\ X.pk = << B("OK") >>
    /\ (S.t = "pkt" /\ S.v = B("qRcmd,6869") /\ X.calls # <<>>) => X.calls[1].a = << B("hi") >>

(* P27 *)
P27Step ==
  /\ X.fam = "catch" => AtMostOne({"enable_catch_syscalls", "disable_catch_syscalls"}) /\ (X.err = "none" /\ Succeeded => X.pk = << B("OK") >>)
  /\ (S.t = "pkt" /\ X.fam = "catch" /\ X.err = "none") =>
        /\ (StartsWith(S.v, B("QCatchSyscalls:0")) <=> X.calls[1].f = "disable_catch_syscalls")
        /\ (X.calls[1].f = "enable_catch_syscalls" /\ X.pk = << B("OK") >>) =>
             Len(X.calls[1].a) = Cardinality({i \in 1..Len(SplitAt(S.v, SEMI)) : SplitAt(S.v, SEMI)[i] # <<>>})
  /\ X.fam = "offsets" => AtMostOne({"get_section_offsets"}) /\ (X.err = "none" => StartsWith(X.pk[1], B("Text")))
  /\ X.fam = "reginfo" => AtMostOne({"lldb_register_info", "arch_lldb_register_info"})

StepProps == [][/\ P01Step /\ P02Step /\ P04Step /\ P05Step /\ P06Step /\ P07Step /\ P08Step /\ P09Step /\ P10Step
                /\ P11Step /\ P12Step /\ P13Step /\ P14Step /\ P15Step /\ P16Step /\ P17Step /\ P18Step /\ P19Step
                /\ P20Step /\ P21Step /\ P22Step /\ P26Step /\ P27Step]_vars
Prop01 == [][P01Step]_vars
Prop02 == [][P02Step]_vars
Prop04 == [][P04Step]_vars
Prop05 == [][P05Step]_vars
Prop06 == [][P06Step]_vars
Prop07 == [][P07Step]_vars
Prop08 == [][P08Step]_vars
Prop09 == [][P09Step]_vars
Prop14 == [][P14Step]_vars
Prop15 == [][P15Step]_vars
Prop16 == [][P16Step]_vars
Prop10 == [][P10Step]_vars
Prop11 == [][P11Step]_vars
Prop12 == [][P12Step]_vars
Prop13 == [][P13Step]_vars
Prop17 == [][P17Step]_vars
Prop18 == [][P18Step]_vars
Prop19 == [][P19Step]_vars
Prop20 == [][P20Step]_vars
Prop21 == [][P21Step]_vars
Prop22 == [][P22Step]_vars
Prop26 == [][P26Step]_vars
Prop27 == [][P27Step]_vars
=============================================================================
