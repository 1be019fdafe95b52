------------------------------- MODULE Leb128 -------------------------------
(* LEB128 over integers of any size.  An integer is a sequence of bytes,      *)
(* little-endian: a natural for the unsigned form, two's complement for the   *)
(* signed one; leading (high) bytes that add nothing are irrelevant.          *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE Bitwise
LOCAL INSTANCE SequencesExt

LP2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>

\* Bit k (from 0) of the integer v; sg tells the sign is extended.
Ext(v, sg) == IF sg /\ v # << >> /\ v[Len(v)] >= 128 THEN 1 ELSE 0
Bit(v, sg, k) == LET q == (k \div 8) + 1
                 IN IF q > Len(v) THEN Ext(v, sg) ELSE (v[q] \div LP2[(k % 8) + 1]) % 2

\* The k-th group of seven bits (from 0).
Group(v, sg, k) == LET g[j \in 0..7] == IF j = 7 THEN 0 ELSE LP2[j + 1] * Bit(v, sg, 7 * k + j) + g[j + 1] IN g[0]

\* n groups suffice when every bit above them only repeats the sign (or is zero).
Enough(v, sg, n) == \A k \in (IF sg THEN 7 * n - 1 ELSE 7 * n)..(8 * Len(v)) : Bit(v, sg, k) = Ext(v, sg)
Fewest(v, sg) == CHOOSE n \in 1..(2 * Len(v) + 1) : Enough(v, sg, n) /\ \A m \in 1..(n - 1) : ~Enough(v, sg, m)

\* The encoding of v in n groups; the shortest one.
EncodeN(v, sg, n) == [k \in 1..n |-> Group(v, sg, k - 1) + (IF k < n THEN 128 ELSE 0)]
Encode(v, sg) == EncodeN(v, sg, Fewest(v, sg))

\* The number of bytes of the encoding at the front of b; 0 if it is cut short.
Extent(b) == LET s == SelectInSeq(b, LAMBDA x : x < 128) IN s

\* The integer encoded by the n bytes of b, as (7n + 7) / 8 + 1 bytes.
DecodeN(b, sg, n) ==
  LET sign == IF sg /\ (b[n] \div 64) % 2 = 1 THEN 1 ELSE 0
      bit(k) == IF k \div 7 < n THEN (b[(k \div 7) + 1] \div LP2[(k % 7) + 1]) % 2 ELSE sign
      byte(q) == LET f[j \in 0..8] == IF j = 8 THEN 0 ELSE LP2[j + 1] * bit(8 * q + j) + f[j + 1] IN f[0]
  IN [q \in 1..(((7 * n + 7) \div 8) + 1) |-> byte(q - 1)]

Decode(b, sg) == DecodeN(b, sg, Extent(b))

\* Two byte sequences denote the same integer.
Same(u, v, sg) ==
  LET at(w, q) == IF q <= Len(w) THEN w[q] ELSE IF Ext(w, sg) = 1 THEN 255 ELSE 0
  IN \A q \in 1..((IF Len(u) > Len(v) THEN Len(u) ELSE Len(v)) + 1) : at(u, q) = at(v, q)
=============================================================================
