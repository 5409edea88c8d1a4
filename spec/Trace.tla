------------------------------- MODULE Trace -------------------------------
(* Checks sessions recorded from the real code against the specification.

   Every line of TRACE is one session: a sequence of events.  A behaviour of
   this module picks a session and steps through its events; at each event the
   specification computes what had to happen from its own state and compares
   it with what was recorded.  bad holds the mismatches found. *)
EXTENDS Session, Json, IOUtils

TraceFile == IOEnv.TRACE
Sessions == ndJsonDeserialize(TraceFile)

VARIABLES sess, pos, st, bad
vars == <<sess, pos, st, bad>>

Ctx(s) == [f |-> s.cfg, uw |-> s.uw, owned |-> s.owned, cap |-> s.cap, xml |-> s.xml]

----------------------------------------------------------------------------
(* comparing *)
SameArg(x, y) == x = ANY \/ x = y
SameCall(x, y) == x.f = y.f /\ Len(x.a) = Len(y.a) /\ \A i \in 1..Len(x.a) : SameArg(x.a[i], y.a[i])
Effective(cs) == SelectSeq(cs, LAMBDA k : k.f \notin Queries)
CallsPrefix(exp, act) == Len(act) <= Len(exp) /\ \A i \in 1..Len(act) : SameCall(exp[i], act[i])
CallsEq(exp, act) == Len(act) = Len(exp) /\ CallsPrefix(exp, act)

FieldSet(p) == LET q == Split(p, {SEMI}) IN [n |-> Len(q), s |-> {q[i] : i \in 1..Len(q)}]
IsConsole(p) == p # <<>> /\ p[1] = 79 /\ Len(p) % 2 = 1 /\ HexBuf(Tail(p)).ok
ConsoleOf(ps) == FoldLeft(LAMBDA a, p : a \o UnHex(Tail(p)), <<>>, ps)
IsPrefix0(s, t) == Len(s) <= Len(t) /\ s = Take(t, Len(s))

Payloads(e, act) ==
  CASE e.cmp = "set" -> Len(act) = 1 /\ FieldSet(act[1]) = FieldSet(e.pk[1])
    [] e.cmp = "prefix" -> Len(act) = 1 /\ Len(act[1]) >= 2 /\ act[1][1] = 109 /\ IsPrefix0(Tail(act[1]), e.aux)
    [] e.cmp = "known" -> Len(act) = 1 /\ \E i \in 1..Len(e.aux) : act[1] = e.aux[i]
    [] e.cmp = "console" ->
         LET n == Len(act) - Len(e.pk)
         IN /\ n >= 0
            /\ \A i \in 1..n : IsConsole(act[i])
            /\ (IF e.err = "none" THEN ConsoleOf(Take(act, n)) = e.aux
                ELSE IsPrefix0(ConsoleOf(Take(act, n)), e.aux))
            /\ Drop(act, n) = e.pk
    [] OTHER -> act = e.pk
(* the packets that may have been sent when the connection or the session failed half way *)
PayloadsPrefix(e, act) ==
  CASE e.cmp \in {"set", "prefix", "known"} -> act = <<>> \/ Payloads(e, act)
    [] e.cmp = "console" -> \/ Payloads(e, act)
                            \/ (\A i \in 1..Len(act) : IsConsole(act[i])) /\ IsPrefix0(ConsoleOf(act), e.aux)
    [] OTHER -> IsPrefix0(act, e.pk)

Tags(list) == {list[i][1] : i \in {j \in 1..Len(list) : list[j][2]}}

(* x: what had to happen; ev: what was recorded.  The set of mismatches. *)
Judge(c, x, ev, quietIn) ==
  LET o == ReadOut(ev.out, c.f.rle)
      acks == SelectSeq(o.items, LAMBDA t : t.t = "+")
      pks == SelectSeq(o.items, LAMBDA t : t.t = "p")
      pv == [i \in 1..Len(pks) |-> pks[i].v]
      calls == Effective(ev.calls)
      wellformed == o.ok /\ \A i \in 1..Len(pks) : pks[i].ok
      first == IF o.items = <<>> THEN TRUE ELSE o.items[1].t = "+"
      ackOk == IF x.ack THEN Len(acks) = 1 /\ first ELSE acks = <<>>
      ackOpt == acks = <<>> \/ (x.ack /\ Len(acks) = 1 /\ first)
      dead == x.err # "none"
      nothing == ev.out = <<>> /\ ev.calls = <<>>
  IN IF ev.err \in {"panic", "hang", "bogus"} THEN {ev.err}
     ELSE IF ev.bad THEN {"bad"}
     ELSE IF ev.cf # <<>>
     THEN \* the connection failed
          Tags(<< << "err", ~(\/ ev.err = "conn" /\ ev.ed = ev.cf
                              \/ x.err = "target" /\ ev.err = "target" /\ ev.ed = x.ed) >>,
                  << "state", ev.st # "Dead" >>,
                  << "calls", ~CallsPrefix(x.calls, calls) >>,
                  << "enc", ~wellformed >>,
                  << "ack", ~ackOpt >>,
                  << "reply", ~PayloadsPrefix(x, pv) >> >>)
     ELSE IF dead
     THEN IF ev.err = "none" /\ nothing /\ quietIn THEN {"rx"}
          ELSE
          Tags(<< << "err", ev.err # x.err \/ (x.err = "target" /\ ev.ed # x.ed) >>,
                  << "state", ev.st # "Dead" >>,
                  << "calls", ~CallsEq(x.calls, calls) \/ x.cmp = "missing" >>,
                  << "enc", ~wellformed >>,
                  << "ack", IF x.cmp = "opt" THEN ~ackOpt ELSE ~ackOk >>,
                  << "reply", ~PayloadsPrefix(x, pv) >> >>)
     ELSE IF ev.err = "other" /\ nothing /\ x.fam # "stop" THEN {"rx", "err"}
     ELSE IF ev.err = "none" /\ nothing /\ ev.st = c.mode /\ (x.ack \/ x.fam = "irq") THEN {"rx", "state"}
     ELSE Tags(<< << "err", ev.err # "none" >>,
                  << "state", ev.st # x.st.mode >>,
                  << "why", ev.why # x.st.why >>,
                  << "calls", ~CallsEq(x.calls, calls) \/ x.cmp = "missing" >>,
                  << "enc", ~wellformed >>,
                  << "ack", ~ackOk >>,
                  << "nrep", o.rest \/ (IF x.cmp = "console" THEN Len(pv) < Len(x.pk) ELSE Len(pv) # Len(x.pk)) >>,
                  << "reply", ~o.rest /\ ~Payloads(x, pv) >>,
                  << "flush", ~ev.fl /\ x.pk # <<>> /\ x.cmp # "noflush" >> >>)

----------------------------------------------------------------------------
Expected(c, s, ev) ==
  LET K == ev.calls
  IN CASE ev.ev \in {"b", "end"} -> Bytes(c, s, ev.in, K)
       [] ev.ev = "stop" -> Stop(c, s, ev.rs, K)
       [] ev.ev = "irq" -> IrqHandled(c, s, ev.rs, K)
       [] ev.ev = "ret" -> Return(s)
       [] ev.ev \in {"waiterrt", "irqerr"} -> Out(TFatal(s, <<>>, ev.eid), FALSE, "driver")
       [] ev.ev \in {"readerr", "waiterrc"} -> Out(Fatal(s, <<>>), FALSE, "driver")

(* the session starts: a target without software breakpoints is refused
   unless it opts out of the check *)
StartTags(s) ==
  LET ev == s
      \* bv = 3: asks for a larger packet buffer than the one it provides
      nobuf == s.bv = 3 /\ ~s.owned
      refused == nobuf \/ (~(s.cfg.bp /\ s.cfg.sw) /\ ~s.cfg.guard)
  IN IF ev.err \in {"panic", "hang", "bogus"} THEN {ev.err}
     ELSE Tags(<< << "start", refused /\ (ev.err # "other" \/ ev.st # "Dead" \/ ev.ss # 0) >>,
                  << "start", ~refused /\ ev.ss # 1 >>,
                  << "err", ~refused /\ ev.cf = <<>> /\ (ev.err # "none" \/ ev.st # "Idle") >>,
                  << "err", ~refused /\ ev.cf # <<>> /\ ~(ev.err = "conn" /\ ev.ed = ev.cf /\ ev.cf[1] = 0) >>,
                  << "calls", Effective(ev.calls) # <<>> >>,
                  << "nrep", ev.out # <<>> >> >>)

----------------------------------------------------------------------------
Report(id, p, b) ==
  \A t \in b : PrintT("MISMATCH " \o id \o " " \o ToString(p) \o " " \o t[1] \o " " \o t[3]
                           \o (IF t[2].un THEN " un" ELSE "") \o (IF t[2].er THEN " er" ELSE ""))
(* the expected outcome is that of an unimplemented command / an error *)
IsErrText(p) == p # <<>> /\ ((p[1] = 69 /\ Len(p) <= 3) \/ StartsWith(p, B("F-1,")))
Flags(x) == [un |-> x.un, er |-> x.err # "none" \/ x.cmp = "known" \/ \E i \in 1..Len(x.pk) : IsErrText(x.pk[i])]
NoFlags == [un |-> FALSE, er |-> FALSE]

Init == /\ sess \in 1..Len(Sessions)
        /\ pos = 1
        /\ LET s == Sessions[sess][1]
               t == StartTags(s)
           IN /\ bad = (IF t = {} THEN {} ELSE {<<"driver", NoFlags, x>> : x \in t})
              /\ st = [Init0(s.cap) EXCEPT !.mode = s.st]

Conform ==
  LET s == Sessions[sess]
      ev == s[pos + 1]
      c == Ctx(s[1]) @@ [mode |-> st.mode]
      x == Expected(c, st, ev)
      \* an announced read error: must come back as a read error
      t == IF ev.ev \in {"readerr", "waiterrc"} /\ ev.err \notin {"panic", "hang", "bogus"}
           THEN Tags(<< << "err", ev.err # "conn" \/ ev.ed # <<1>> \o ev.eid >>,
                        << "state", ev.st # "Dead" >>, << "nrep", ev.out # <<>> >>,
                        << "calls", Effective(ev.calls) # <<>> >> >>)
           ELSE Judge(c, x, ev, TRUE)
  IN /\ pos < Len(s)
     /\ bad = {}
     /\ pos' = pos + 1
     /\ sess' = sess
     /\ st' = x.st
     /\ bad' = {<<x.fam, Flags(x), y>> : y \in t}
     /\ (bad' # {} => Report(s[1].id, pos + 1, bad'))

Next == Conform
Spec == Init /\ [][Next]_vars

(* every session conforms *)
Conforms == bad = {}
StartOk == (pos = 1 /\ bad # {}) => Report(Sessions[sess][1].id, 1, bad)
=============================================================================
