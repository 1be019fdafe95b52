---------------------------- MODULE NumericTrace ----------------------------
(* Trace validation of single instructions: every line of the trace is one    *)
(* execution of an instruction by the implementation; the state machine       *)
(* consumes lines (LANES independent cursors, so TLC's workers share the      *)
(* work) and records the index of every line the specification rejects.       *)
EXTENDS Numeric, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
LANES == 64
BATCH == 8

VARIABLES pos, bad
vars == <<pos, bad>>

Init == pos \in 1..(IF N < LANES THEN N ELSE LANES) /\ bad = << >>

\* Consume up to BATCH lines of this cursor in one step.
RECURSIVE Judge(_, _)
Judge(p, k) == IF p > N \/ k = 0 THEN << >>
               ELSE (IF Conforms(Trace[p]) THEN << >> ELSE <<p>>) \o Judge(p + LANES, k - 1)

Next == /\ pos <= N
        /\ pos' = pos + LANES * BATCH
        /\ bad' = Judge(pos, BATCH)

Spec == Init /\ [][Next]_vars

\* Every rejected line is reported by the invariant's Print, then counted.
Report == \A i \in 1..Len(bad) :
            PrintT("REJECT " \o ToString(bad[i]) \o " " \o
                   ToString(Eval(Trace[bad[i]].t, Trace[bad[i]].op, Trace[bad[i]].a, Trace[bad[i]].m)))
=============================================================================
