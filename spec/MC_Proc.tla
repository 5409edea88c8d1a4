------------------------------ MODULE MC_Proc ------------------------------
(* Extended mode: attaching, running, killing, restarting and every setting,
   with every answer of the target. *)
EXTENDS Catalog
X0 == Common \cup Extended
MyConfigs == << Cfg(X0 \cup {"multi"}), Cfg(X0 \ {"multi"}), [Cfg(X0 \ {"curpid"}) EXCEPT !.cap = 200], Cfg(X0 \ {"aslr", "shell"}), Cfg(X0 \ {"env", "wd"}), Cfg(Common \cup {"resume"}), Cfg((X0 \cup {"multi", "resume"}) \ {"curpid"}) >>
Pids == {"1", "0", "ffffffff", "7fffffffffffffff", "ffffffffffffffff", "10000000000000000", "", "g", "-1", "p1", "00000000000000000001"}
EnvTexts == {<<>>, H("A"), H("A=B"), H("="), H("=B"), H("A="), H("A=B=C"), B("4"), B("zz"), B("00ff"), H("a;b"), H("LONG_NAME") \o H("=") \o HexOf([i \in 1..60 |-> 120])}
Files0 == {B("vRun"), B("vRun;"), B("vRun;;"), B("vRun;") \o H("/bin/sh"), B("vRun;") \o H("/bin/sh") \o B(";"), B("vRun;;") \o H("x"), B("vRun;") \o H("a") \o B(";") \o H("b") \o B(";") \o H("c"),
           B("vRun;") \o H("a") \o B(";;") \o H("b"), B("vRun;") \o H("a") \o B(";zz"), B("vRun;zz"), B("vRun;1"), B("vRun;") \o H("a") \o B(";") \o H("b") \o B(";1"), B("vRun,") \o H("a"), B("vRun") \o H("a")}
MyPackets(cc, s) ==
  {B(k) \o B(p) : k \in {"vAttach;", "vKill;", "qAttached:", "D;"}, p \in Pids} \cup Files0
  \cup {B(k) \o t : k \in {"QEnvironmentHexEncoded:", "QEnvironmentUnset:", "QSetWorkingDir:"}, t \in EnvTexts}
  \cup {B(k) \o B(t) : k \in {"QDisableRandomization", "QStartupWithShell"}, t \in {":0", ":1", ":2", "", ":", ":00", ":01", "0", ":-1", ":x"}}
  \cup {B(x) : x \in {"vAttach", "vKill", "qAttached", "D", "k", "kx", "!", "!x", "R", "R0", "R00", "R000", "Rzz", "QEnvironmentReset", "QEnvironmentReset:", "QEnvironmentReset:1", "QEnvironmentHexEncoded", "QSetWorkingDir",
                      "vAttach:1", "vKill:1", "?", "qC", "Hg2", "qSupported:multiprocess+"}}
MyRaw(cc, s) == {}
MyReasons(cc, s) == {}
MyData(cc, f, a) == CASE f = "list_active_threads" -> {<<>>, << <<1>>, <<2>> >>, << <<7>> >>}
                      [] f = "current_active_pid" -> {<< <<7>> >>, << <<255, 255>> >>}
                      [] f = "run" -> {<< <<9>> >>}
                      [] OTHER -> StdData(cc, f, a)
MyErrs(cc, f) == AllErrs(cc, f)
MyDepth == 2
MyCount == 0
P19Proc ==
  (S.t = "pkt" /\ X.err = "none" /\ ~X.un) =>
    LET is(x) == StartsWith(S.v, B(x))
        after(x) == Drop(S.v, Len(x))
        main == SelectSeq(X.calls, LAMBDA k : k.f \in {"attach", "kill", "query_if_attached", "run", "restart", "on_start", "cfg_aslr", "cfg_startup_with_shell", "set_env", "remove_env", "reset_env", "cfg_working_dir"})
        one(f, a) == Len(main) = 1 /\ main[1].f = f /\ main[1].a = a
        num(n) == HexNum(Drop(S.v, n)).v
    IN CASE is("vAttach;") -> one("attach", << num(8) >>)
         [] is("vKill;") -> IF c.f.ext THEN one("kill", << <<1>> \o num(6) >>) /\ (st'.mode = "Disc" <=> (KK[1].k = "ok" /\ KK[1].v[1] = <<1>>)) ELSE main = <<>> /\ st'.mode = "Disc"
         [] S.v = B("k") -> IF c.f.ext THEN one("kill", << <<0>> >>) /\ (st'.mode = "Disc" <=> (KK[1].k = "ok" /\ KK[1].v[1] = <<1>>)) ELSE main = <<>> /\ st'.mode = "Disc"
         [] is("D") -> main = <<>> /\ st'.mode = "Disc" /\ X.pk[1] = B("OK")
         [] is("qAttached") -> IF c.f.ext /\ Len(S.v) > 9 THEN one("query_if_attached", << num(10) >>) /\ (KK[1].k = "ok" => X.pk[1] = <<48 + KK[1].v[1][1]>>)
                               ELSE main = <<>> /\ X.pk[1] = B("1")
         [] is("QEnvironmentHexEncoded:") ->
              LET d == UnHex(Drop(S.v, 23))
                  i == SelectInSeq(d, LAMBDA y : y = EQ)
              IN one("set_env", << Take(d, i - 1), IF i = Len(d) THEN <<0>> ELSE <<1>> \o Drop(d, i) >>)
         [] is("QEnvironmentUnset:") -> one("remove_env", << UnHex(Drop(S.v, 18)) >>)
         [] is("QSetWorkingDir:") -> one("cfg_working_dir", << IF Len(S.v) = 15 THEN <<0>> ELSE <<1>> \o UnHex(Drop(S.v, 15)) >>)
         [] is("QDisableRandomization:") -> one("cfg_aslr", << << S.v[23] - 48 >> >>)
         [] is("QStartupWithShell:") -> one("cfg_startup_with_shell", << << S.v[19] - 48 >> >>)
         [] is("vRun;") -> Len(main) = 1 /\ main[1].f = "run" /\
              LET q == Split(Drop(S.v, 5), {SEMI})
                  rest == Tail(q)
              IN main[1].a = << IF q[1] = <<>> THEN <<0>> ELSE <<1>> \o UnHex(q[1]) >> \o [i \in 1..Len(rest) |-> UnHex(rest[i])]
         [] is("R") -> one("restart", <<>>)
         [] is("!") -> one("on_start", <<>>)
         [] OTHER -> TRUE
MyProps == [][P19Proc]_vars
=============================================================================
