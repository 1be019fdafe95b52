------------------------------ MODULE LebTrace ------------------------------
(* Trace validation of the LEB128 codec: every line is one call.              *)
(*   enc: v (integer), r (bytes returned)                                     *)
(*   buf: b (buffer), r (integer returned)                                    *)
(*   str: b (stream), r (integer), n (bytes reported), at (stream position)   *)
EXTENDS Leb128, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
LANES == 64

VARIABLES pos, bad
vars == <<pos, bad>>

Conforms(t) ==
  CASE t.op = "enc" -> t.k = "val" /\ t.r = Encode(t.v, t.sg)
    [] t.op = "buf" -> IF Extent(t.b) = 0 THEN t.k = "err" ELSE t.k = "val" /\ Same(t.r, Decode(t.b, t.sg), t.sg) /\ (~t.sg => t.pos)
    [] t.op = "str" -> IF Extent(t.b) = 0 THEN t.k = "err"
                       ELSE t.k = "val" /\ Same(t.r, Decode(t.b, t.sg), t.sg) /\ t.n = Extent(t.b) /\ t.at = t.n /\ (~t.sg => t.pos)

RECURSIVE Judge(_, _)
Judge(p, k) == IF p > N \/ k = 0 THEN << >>
               ELSE (IF Conforms(Trace[p]) THEN << >> ELSE <<p>>) \o Judge(p + LANES, k - 1)
Init == pos \in 1..(IF N < LANES THEN N ELSE LANES) /\ bad = << >>
Next == pos <= N /\ pos' = pos + LANES * 8 /\ bad' = Judge(pos, 8)
Spec == Init /\ [][Next]_vars
Report == \A i \in 1..Len(bad) : PrintT("REJECT " \o ToString(bad[i]))
=============================================================================
