------------------------------ MODULE BinTrace ------------------------------
(* Trace validation of the decoder.  Lines:                                   *)
(*   parse: b (the bytes offered), r ("ok" | "err") what the decoder did      *)
(*   desc:  b, d what the decoded description says is declared, by section    *)
(*   same:  a, b two binaries the encoder says state the same module          *)
EXTENDS Binary, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
LANES == 64

VARIABLES pos, bad
vars == <<pos, bad>>

\* "" conforms; "odd" and "fine" are only counted.
Verdict(t) ==
  IF t.op = "same"
  THEN LET x == Decode(t.a)
           y == Decode(t.b)
       IN IF x.ok /\ y.ok /\ x.canon = y.canon THEN "" ELSE "BADPAIR"
  ELSE IF t.op = "desc"
  THEN IF ~Decode(t.b).ok THEN "BADPAIR"
       ELSE LET d == Declares(t.b)
                w == {k \in 1..11 : d[k] # t.d[k]}
            IN IF w = {} THEN "" ELSE "TELLS" \o ToString(CHOOSE k \in w : TRUE)
  ELSE LET d == Decode(t.b)
       IN IF d.odd THEN (IF t.r = "ok" THEN "LONG" ELSE "ODD") ELSE IF d.ok THEN (IF t.r = "ok" THEN "WELL" ELSE "REFUSED")
          ELSE IF t.r = "err" THEN "" ELSE "REJECT"

RECURSIVE Judge(_, _)
Judge(p, k) == IF p > N \/ k = 0 THEN << >> ELSE <<<<p, Verdict(Trace[p])>>>> \o Judge(p + LANES, k - 1)
Init == pos \in 1..(IF N < LANES THEN N ELSE LANES) /\ bad = << >>
Next == pos <= N /\ pos' = pos + LANES * 8 /\ bad' = Judge(pos, 8)
Spec == Init /\ [][Next]_vars
Report == \A i \in 1..Len(bad) : bad[i][2] # "" => PrintT(bad[i][2] \o " " \o ToString(bad[i][1]))
=============================================================================
