----------------------------- MODULE PipeTrace -----------------------------
(* Checks what connections did against Pipe.  Every line of TRACE is one script
   with the result of each operation. *)
EXTENDS Pipe, Json, IOUtils
Obs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES at, pos, s
Init == at \in 1..Len(Obs) /\ pos = 0 /\ s = Pipe0
Cur == Obs[at]
Next == /\ pos < Len(Cur.ops) /\ pos < Len(Cur.res)
        /\ LET p == Cur.ops[pos + 1]
               e == Op(Cur.via, Cur.fail, s, p[1], p[2])
           IN /\ Cur.res[pos + 1] \in e.ok
              /\ s' = e.s
        /\ pos' = pos + 1 /\ UNCHANGED at
Stuck == pos < Len(Cur.ops) /\ ~ENABLED Next
Conforms == Stuck => PrintT("MISMATCH " \o Cur.id \o " " \o ToString(pos + 1) \o " op" \o ToString(Cur.ops[pos + 1][1])
                            \o " " \o (IF pos < Len(Cur.res) THEN "result" \o ToString(Cur.res[pos + 1].r) ELSE "nothing"))
=============================================================================
