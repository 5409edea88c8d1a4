------------------------------ MODULE Effects ------------------------------
(* What handling one client command does: which calls it makes on the target,
   which packets it sends, how the session state changes, and whether the
   session ends with an error.

   A handler is a function of the context c, the session state st, the command
   body b and the target's answers K.  K is the list of calls made while the
   command was handled, each with the answer the target gave; a handler uses
   the ANSWERS only (looked up by operation), never the fact that a call was
   made, and states itself which calls had to be made. *)
EXTENDS Wire

ANY == <<-7>>          \* an argument not compared (sizes of internal buffers)
Call(f, a) == [f |-> f, a |-> a]

(* queries without side effects: may be asked at any time, any number of times *)
Queries == {"current_active_pid", "list_active_threads"}

(* Effect record:
     calls  calls that must be made, in this order (queries excluded)
     pk     payloads that must be sent
     err    "none" | "other" | "target", ed: id of the target's error
     st     session state afterwards
     cmp    how the payload is compared: "eq", "set" (fields in any order),
            "console" (aux = console text, then pk), "prefix" (non-empty prefix
            of aux behind an 'm'), "missing" (a required query was not made),
            "opt" (as "eq", but the acknowledgement is optional), "known"
     un     the command is not implemented by this target
     need   the call whose answer K lacks (cmp = "missing") *)
E0(st) == [calls |-> <<>>, pk |-> <<>>, err |-> "none", ed |-> <<>>, st |-> st,
           cmp |-> "eq", aux |-> <<>>, un |-> FALSE, need |-> [f |-> "", a |-> <<>>]]
Reply(st, cs, p) == [E0(st) EXCEPT !.calls = cs, !.pk = <<p>>]
OkReply(st, cs) == Reply(st, cs, B("OK"))
Silent(st, cs) == [E0(st) EXCEPT !.calls = cs]
Unsup(st) == [E0(st) EXCEPT !.pk = << <<>> >>, !.un = TRUE]
Dead(st) == [st EXCEPT !.mode = "Dead"]
(* the session ends with an error which is neither the target's nor the connection's *)
Fatal(st, cs) == [E0(Dead(st)) EXCEPT !.calls = cs, !.err = "other"]
(* ... because the command cannot be parsed *)
Malformed(st) == [Fatal(st, <<>>) EXCEPT !.cmp = "opt"]
(* ... with the target's own error *)
TFatal(st, cs, id) == [E0(Dead(st)) EXCEPT !.calls = cs, !.err = "target", !.ed = id]
Missing(st, cs, need) == [E0(st) EXCEPT !.calls = cs, !.cmp = "missing", !.need = need]

----------------------------------------------------------------------------
(* the target's answer to the n-th call of f *)
RECURSIVE NthCall(_, _, _, _)
NthCall(K, f, n, i) ==
  IF i > Len(K) THEN 0
  ELSE IF K[i].f = f THEN (IF n = 1 THEN i ELSE NthCall(K, f, n - 1, i + 1))
  ELSE NthCall(K, f, n, i + 1)
Ans(K, f, n) == LET i == NthCall(K, f, n, 1)
                IN IF i = 0 THEN [f |-> f, k |-> "missing", v |-> <<>>, a |-> <<>>]
                   ELSE [f |-> f, k |-> K[i].k, v |-> K[i].v, a |-> K[i].a]

(* the call an answer is missing for (queries are not listed in cs) *)
Unanswered(cs, r) == IF cs # <<>> /\ Last(cs).f = r.f THEN Last(cs) ELSE [f |-> r.f, a |-> <<>>]

(* error number of a recoverable failure *)
ErrNo(r) == CASE r.k = "errno" -> Trim0(r.v[1])
              [] r.k = "io" -> IF r.v[1][1] = 1 THEN Trim0(Tail(r.v[1])) ELSE <<121>>
              [] OTHER -> <<121>>
ErrReply(st, cs, n) == Reply(st, cs, <<69>> \o NumHex(n))

(* after a call cs with answer r: go on with K(value), or fail as the answer says *)
TR(st, cs, r, Then(_)) ==
  CASE r.k = "ok" -> Then(r.v)
    [] r.k = "fatal" -> TFatal(st, cs, r.v[1])
    [] r.k = "missing" -> Missing(st, cs, Unanswered(cs, r))
    [] OTHER -> ErrReply(st, cs, ErrNo(r))

(* host I/O failures *)
HostErr(r) == IF r.k = "herr" THEN r.v[1]
              ELSE CASE r.v[1][1] = 0 -> <<1>>
                     [] r.v[1][1] = 1 -> <<2>>
                     [] r.v[1][1] = 2 -> <<4>>
                     [] r.v[1][1] = 3 -> <<17>>
                     [] r.v[1][1] = 4 -> <<22>>
                     [] OTHER -> <<39, 15>>
HR(st, cs, r, Then(_)) ==
  CASE r.k = "ok" -> Then(r.v)
    [] r.k = "fatal" -> TFatal(st, cs, r.v[1])
    [] r.k = "missing" -> Missing(st, cs, Unanswered(cs, r))
    [] OTHER -> Reply(st, cs, B("F-1,") \o NumHex(HostErr(r)))

----------------------------------------------------------------------------
(* threads and processes *)
FAKEPID == <<1>>
TidArg(c, tid) == IF c.f.multi THEN tid ELSE <<>>

WithPid(c, st, cs, K, Then(_)) ==
  IF c.f.ext /\ c.f.curpid /\ ~(~st.mp /\ Ans(K, "current_active_pid", 1).k = "missing")
  THEN TR(st, cs, Ans(K, "current_active_pid", 1), LAMBDA v : Then(v[1]))
  ELSE Then(FAKEPID)

TidText(st, pid, tid) == IF st.mp THEN <<112>> \o NumHex(pid) \o <<DOT>> \o NumHex(tid) ELSE NumHex(tid)
(* the thread id as sent to the client *)
WithTidText(c, st, cs, K, tid, Then(_)) ==
  \* without multiprocess syntax the process need not be asked for; if it is, a
  \* failure counts
  IF st.mp \/ Ans(K, "current_active_pid", 1).k = "fatal"
  THEN WithPid(c, st, cs, K, LAMBDA p : Then(TidText(st, p, tid)))
  ELSE Then(NumHex(tid))

WithThreads(c, st, cs, K, Then(_)) ==
  IF c.f.multi THEN TR(st, cs, Ans(K, "list_active_threads", 1), Then)
  ELSE Then(<< <<1>> >>)

(* thread-id syntax *)
NOID == [ok |-> FALSE, k |-> "none", v |-> <<>>]
ParseId(s) == CASE s = <<45, 49>> -> [ok |-> TRUE, k |-> "all", v |-> <<>>]
                [] s = <<48>> -> [ok |-> TRUE, k |-> "any", v |-> <<>>]
                [] OTHER -> LET n == HexNumW(s, 8)
                            IN IF n.ok /\ n.v # <<>> THEN [ok |-> TRUE, k |-> "id", v |-> n.v] ELSE NOID
(* [ok, p: pid part ("none" if absent), t: thread part] *)
ParseTid(s) ==
  IF s # <<>> /\ s[1] = 112
  THEN LET q == Split(Tail(s), {DOT})
           p == ParseId(q[1])
           t == IF Len(q) > 1 THEN ParseId(q[2]) ELSE [ok |-> TRUE, k |-> "all", v |-> <<>>]
       IN [ok |-> p.ok /\ t.ok, p |-> p, t |-> t]
  ELSE LET t == ParseId(s) IN [ok |-> t.ok, p |-> [NOID EXCEPT !.ok = TRUE], t |-> t]

(* a number that must fit the target's address type *)
Fits(c, v) == Len(Trim0(v)) <= c.uw
=============================================================================
