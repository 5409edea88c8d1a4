------------------------------ MODULE MC_TpUp ------------------------------
(* Upload of tracepoints as a whole protocol, and status and trace data. *)
EXTENDS Catalog
T0 == Common \cup {"tp", "tpsrc"}
MyConfigs == << Cfg(T0), Cfg(T0 \ {"tpsrc"}), [Cfg(T0 \ {"rle"}) EXCEPT !.uw = 4, !.cap = 60] >>
MyPackets(cc, s) == {B("qTfP"), B("qTsP")} \cup (IF s.cur.k = "none" THEN {B(x) : x \in {"qTStatus", "qTStatus:", "qTP:1:10", "qTP:1", "qTP:ff:ffffffffffffffff", "qTP:g:1", "qTP:1:10:2",
   "qTBuffer:0,10", "qTBuffer:ffff,ffffffffffffffff", "qTBuffer:0", "qTBuffer:0,g", "qTBuffer", "qTfV", "qTsV", "qTfV1", "qTfP:", "qTsP1", "QTFrame:1", "qTV:1", "QTStop"}} ELSE {B("qTStatus"), B("?")})
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
Step0(k) == {<< <<0>>, <<>>, <<>> >>, << <<1>>, <<>>, <<>> >>, << <<2>>, <<7>>, <<1, 0>> >>, << <<3>>, <<>>, <<>> >>}
NewTp == {<<>>, << <<5>>, <<1>>, <<32>>, <<>>, <<2>> >>, << <<1, 0>>, <<0>>, <<255, 255>>, <<255>>, <<3>> >>}
Act == {<<>>, << <<0>>, <<3, 255>>, <<>>, <<>> >>, << <<1>>, <<0>>, <<16>>, <<4>> >>, << <<1>>, <<1, 2>>, <<16>>, <<1, 0>> >>, << <<2>>, <<34, 0, 39>>, <<>>, <<>> >>}
Source0 == {<<>>, << <<5>>, <<32>>, <<0>>, <<>>, <<3>>, <<97, 58, 98>> >>, << <<5>>, <<32>>, <<2>>, <<1>>, <<9>>, <<>> >>, << <<5>>, <<>>, <<1>>, <<1, 0>>, <<2>>, <<0, 255>> >>}
Text0 == <<115, 59, 58, 116>>
MyData(cc, f, a) ==
  CASE f = "tracepoint_enumerate_start" -> {x \o y : x \in Step0(0), y \in NewTp}
    [] f = "tracepoint_enumerate_action" -> {x \o y : x \in Step0(0), y \in (IF ToNat(a[2]) = 0 THEN Act ELSE {<<>>})}
    [] f = "tracepoint_enumerate_source" -> {x \o y : x \in Step0(0), y \in (IF ToNat(a[2]) = 0 THEN Source0 ELSE {<<>>})}
    [] f = "trace_experiment_status" -> {<< <<k>>, <<0>>, <<>> >> : k \in 0..8} \cup {<< <<k>>, <<1>> \o Text0, <<1, 0>> >> : k \in {3, 7}} \cup {<< <<6>>, <<0>>, <<171>> >>}
    [] f = "trace_experiment_info" -> {<<>>} \cup {<< <<k>>, <<1, 2>> >> : k \in 0..3} \cup {<< <<k>>, <<v>> >> : k \in {4, 5}, v \in {0, 1}} \cup {<< <<6>>, <<120, 58, 121>> >>, << <<0>>, <<>>, <<4>>, <<1>>, <<6>>, <<122>> >>}
    [] f = "trace_buffer_request" -> {<<>>, << <<1, 255>> >>, << <<1>>, <<>>, <<2, 3>> >>, << <<>> >>}
    [] f = "tracepoint_status" -> {<< <<>>, <<>> >>, << <<1, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>> >>}
    [] f = "select_frame" -> {<< <<0>>, <<3>>, <<1>>, <<2>> >>, <<>>}
    [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == IF f \in {"tracepoint_enumerate_start", "tracepoint_enumerate_action", "tracepoint_enumerate_source"} THEN {EFatal, ENo} ELSE AllErrs(cc, f)
MyDepth == IF Thorough THEN 5 ELSE 4
MyCount == 0
(* P21: an upload walks a tracepoint's actions and source pieces in order and ends
   exactly when the target says so *)
Enum == {"tracepoint_enumerate_start", "tracepoint_enumerate_action", "tracepoint_enumerate_source"}
P21Up ==
  /\ (S.v = B("qTfP") /\ X.err = "none") => X.calls = << Call("tracepoint_enumerate_start", << <<0>> >>) >>
  /\ (S.v = B("qTsP") /\ X.err = "none") =>
       IF st.cur.k = "none" THEN X.calls = <<>> /\ X.pk[1] = <<>>
       ELSE Len(X.calls) = 1 /\ X.calls[1].f \in Enum /\
            LET k == X.calls[1]
                was == last.K
            IN \* the previous answer decides what is asked for next
               (Len(was) = 1 /\ was[1].f \in Enum /\ was[1].k = "ok") =>
                  LET w == was[1].v[1][1]
                  IN /\ w \in 0..2
                     /\ k.f = (CASE w = 0 -> "tracepoint_enumerate_action" [] w = 1 -> "tracepoint_enumerate_source" [] OTHER -> "tracepoint_enumerate_start")
                     /\ (w = 2 => k.a = << <<1>> \o was[1].v[2] >>)
                     /\ (w \in {0, 1} /\ was[1].f = k.f) => k.a = << was[1].a[1], Add(was[1].a[2], 1) >>
                     /\ (w \in {0, 1} /\ was[1].f # k.f) => k.a[2] = <<>>
  /\ (S.t = "pkt" /\ Len(KK) = 1 /\ KK[1].f \in Enum /\ KK[1].k = "ok") =>
       (st'.cur.k = "none" <=> KK[1].v[1] = <<3>> \/ (S.v = B("qTfP") /\ Len(KK[1].v) = 3))
  /\ (S.t = "pkt" /\ S.v \notin {B("qTfP"), B("qTsP")} /\ X.err = "none") => st'.cur = st.cur
MyProps == [][P21Up]_vars
=============================================================================
