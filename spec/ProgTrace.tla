----------------------------- MODULE ProgTrace -----------------------------
(* Trace validation of runs of whole programs: each line one session, the     *)
(* programs of which ran one after another.                                   *)
EXTENDS Prog, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
LANES == 64
VARIABLES pos, bad
vars == <<pos, bad>>
\* The files a program leaves are those the next one finds.
RECURSIVE Session(_, _, _)
Session(t, k, files) ==
  IF k > Len(t.runs) THEN <<0, "">>
  ELSE LET c == [t.runs[k].conf EXCEPT !.files = files]
           v == Judge(c, t.runs[k].is, t.runs[k].obs)
       IN IF v # "" THEN <<k, v>> ELSE Session(t, k + 1, Run(c, t.runs[k].is).files)
Verdict(t) == Session(t, 1, t.runs[1].conf.files)
RECURSIVE Check(_, _)
Check(p, k) == IF p > N \/ k = 0 THEN << >> ELSE <<<<p>> \o Verdict(Trace[p])>> \o Check(p + LANES, k - 1)
Init == pos \in 1..(IF N < LANES THEN N ELSE LANES) /\ bad = << >>
Next == pos <= N /\ pos' = pos + LANES * 2 /\ bad' = Check(pos, 2)
Spec == Init /\ [][Next]_vars
Report == \A i \in 1..Len(bad) : bad[i][3] # "" => PrintT("REJECT " \o ToString(bad[i][1]) \o " " \o ToString(bad[i][2]) \o " " \o bad[i][3])
=============================================================================
