------------------------------- MODULE MC_Leb -------------------------------
(* The codec is a bijection: exhaustive over every integer of up to HI bits   *)
(* around each length boundary and every short byte string.                   *)
EXTENDS Leb128

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
\* two's complement, 4 bytes, of a TLC integer
W(n) == LET m == IF n < 0 THEN n + Pow(24) ELSE n
            t == IF n < 0 THEN 255 ELSE 0
        IN <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, t>>

VARIABLES kind, n, b
vars == <<kind, n, b>>

Ints == (-300..300) \cup UNION {(Pow(k) - 3)..(Pow(k) + 3) : k \in 6..22} \cup UNION {(0 - Pow(k) - 3)..(3 - Pow(k)) : k \in 6..22}
Edge == {0, 1, 63, 64, 127, 128, 129, 191, 192, 254, 255}
Strings == UNION {[1..k -> Edge] : k \in 1..4}

Init == \/ kind = "int" /\ n \in Ints /\ b = << >>
        \/ kind = "str" /\ n = 0 /\ b \in Strings
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

IntOK(sg) ==
  LET v == W(n)
      e == Encode(v, sg)
  IN /\ Extent(e) = Len(e)                                          \* self-delimiting
     /\ Same(Decode(e, sg), v, sg)                                  \* inverse
     /\ \A t \in {<<0>>, <<255>>, <<128, 1>>} :                      \* whatever follows
          Extent(e \o t) = Len(e) /\ Same(Decode(e \o t, sg), v, sg)
     /\ \A m \in 1..(Len(e) - 1) : ~Same(Decode(EncodeN(v, sg, m), sg), v, sg)   \* nothing shorter would do
     /\ \A m \in Len(e)..(Len(e) + 4) : Same(Decode(EncodeN(v, sg, m), sg), v, sg)   \* padding is harmless

\* Every string that is an encoding decodes to an integer whose padded
\* encoding of that length is the string itself.
StrOK(sg) == LET m == Extent(b)
             IN m # 0 => EncodeN(Decode(b, sg), sg, m) = SubSeq(b, 1, m) /\ Len(Encode(Decode(b, sg), sg)) <= m

Inverse == /\ kind = "int" => IntOK(TRUE) /\ (n >= 0 => IntOK(FALSE))
           /\ kind = "str" => StrOK(TRUE) /\ StrOK(FALSE)
=============================================================================
