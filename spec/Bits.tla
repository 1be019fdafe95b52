-------------------------------- MODULE Bits --------------------------------
(* Machine words and naturals of any size, represented as little-endian      *)
(* sequences of bytes (Seq(0..255)).  TLC integers are 32-bit, so every       *)
(* quantity that can exceed 2^31 lives in this representation throughout the  *)
(* specification.  A *word* of n bytes has fixed length n (arithmetic is      *)
(* modulo 256^n); a *natural* is a word whose length is irrelevant.           *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Byte == 0..255

Zero(n) == CASE n = 4 -> <<0,0,0,0>>
             [] n = 8 -> <<0,0,0,0,0,0,0,0>>
             [] n = 1 -> <<0>>
             [] n = 2 -> <<0,0>>
             [] n = 16 -> <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>
             [] OTHER -> [i \in 1..n |-> 0]

Mk(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])

At(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

Pow2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
P2(k) == Pow2[k + 1]                            \* 0 <= k <= 16

\* Zero-extend or truncate to n bytes.
Resize(a, n) == IF Len(a) = n THEN a ELSE Mk(n, LAMBDA i : At(a, i))

\* The low n bytes of a small non-negative TLC integer.
RECURSIVE FromInt(_, _)
FromInt(k, n) == IF n = 0 THEN << >> ELSE <<k % 256>> \o FromInt(k \div 256, n - 1)

\* The TLC integer of a natural that is known to be < 2^31.
RECURSIVE ToIntFrom(_, _)
ToIntFrom(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + 256 * ToIntFrom(a, i + 1)
ToInt(a) == LET m == IF Len(a) > 4 THEN 4 ELSE Len(a) IN ToIntFrom(SubSeq(a, 1, m), 1)

IsZero(a) == \A i \in 1..Len(a) : a[i] = 0

\* Fits in a non-negative TLC integer?
Small(a) == /\ \A i \in 5..Len(a) : a[i] = 0
            /\ At(a, 4) < 128

Add(a, b) ==                                    \* modulo 256^Len(a)
  LET n == Len(a)
      RECURSIVE go(_, _, _)
      go(i, c, acc) == IF i > n THEN acc
                       ELSE LET t == a[i] + At(b, i) + c
                            IN go(i + 1, t \div 256, Append(acc, t % 256))
  IN go(1, 0, << >>)

AddX(a, b) ==                                   \* exact sum of naturals
  LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
  IN Add(Resize(a, n), b)

NotW(a) == Mk(Len(a), LAMBDA i : 255 - a[i])

Sub(a, b) ==                                    \* modulo 256^Len(a)
  LET n == Len(a)
      RECURSIVE go(_, _, _)
      go(i, c, acc) == IF i > n THEN acc
                       ELSE LET t == a[i] - At(b, i) - c
                            IN IF t < 0 THEN go(i + 1, 1, Append(acc, t + 256))
                                        ELSE go(i + 1, 0, Append(acc, t))
  IN go(1, 0, << >>)

Neg(a) == Sub(Zero(Len(a)), a)

\* Unsigned comparison of naturals: -1, 0 or 1.
CmpU(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      RECURSIVE go(_)
      go(i) == IF i = 0 THEN 0
               ELSE LET x == At(a, i) y == At(b, i)
                    IN IF x = y THEN go(i - 1) ELSE IF x < y THEN -1 ELSE 1
  IN go(n)

SignBit(a) == a[Len(a)] \div 128                \* 0 or 1

CmpS(a, b) == IF SignBit(a) # SignBit(b)
              THEN IF SignBit(a) = 1 THEN -1 ELSE 1
              ELSE CmpU(a, b)

\* Exact product of naturals, Len(a)+Len(b) bytes (column sums stay < 2^31).
MulX(a, b) ==
  LET la == Len(a)
      lb == Len(b)
      RECURSIVE col(_, _)
      col(k, i) == IF i > la \/ i > k THEN 0
                   ELSE (IF k + 1 - i <= lb THEN a[i] * b[k + 1 - i] ELSE 0) + col(k, i + 1)
      RECURSIVE go(_, _, _)
      go(k, c, acc) == IF k > la + lb THEN acc
                       ELSE LET lo == IF k + 1 - lb > 1 THEN k + 1 - lb ELSE 1
                                t == col(k, lo) + c
                            IN go(k + 1, t \div 256, Append(acc, t % 256))
  IN go(1, 0, << >>)

Mul(a, b) == SubSeq(MulX(a, b), 1, Len(a))      \* modulo 256^Len(a)

\* Number of significant bits of a natural.
BitLen8(x) == IF x >= 16 THEN (IF x >= 64 THEN (IF x >= 128 THEN 8 ELSE 7) ELSE (IF x >= 32 THEN 6 ELSE 5))
              ELSE IF x >= 4 THEN (IF x >= 8 THEN 4 ELSE 3) ELSE x - (IF x = 3 THEN 1 ELSE 0)
BitLen(a) ==
  LET RECURSIVE go(_)
      go(i) == IF i = 0 THEN 0 ELSE IF a[i] # 0 THEN 8 * (i - 1) + BitLen8(a[i]) ELSE go(i - 1)
  IN go(Len(a))

\* Bit k (from 0) of a natural.
Bit(a, k) == (At(a, k \div 8 + 1) \div P2(k % 8)) % 2

\* Shift left keeping the length (bits fall off) / shift right logically.
ShlW(a, k) ==
  LET q == k \div 8
      r == k % 8
  IN Mk(Len(a), LAMBDA i : ((At(a, i - q) * P2(r)) % 256) + (At(a, i - q - 1) \div P2(8 - r)))
ShrW(a, k) ==
  LET q == k \div 8
      r == k % 8
  IN Mk(Len(a), LAMBDA i : (At(a, i + q) \div P2(r)) + ((At(a, i + q + 1) * P2(8 - r)) % 256))
\* Exact left shift of a natural.
ShlX(a, k) == ShlW(Resize(a, Len(a) + k \div 8 + 1), k)

\* Arithmetic shift right of a word.
SarW(a, k) ==
  LET q == k \div 8
      r == k % 8
      f == IF SignBit(a) = 1 THEN 255 ELSE 0
      at(i) == IF i <= Len(a) THEN a[i] ELSE f
  IN Mk(Len(a), LAMBDA i : (at(i + q) \div P2(r)) + ((at(i + q + 1) * P2(8 - r)) % 256))

OrW(a, b) == Mk(Len(a), LAMBDA i : a[i] | b[i])
AndW(a, b) == Mk(Len(a), LAMBDA i : a[i] & b[i])
XorW(a, b) == Mk(Len(a), LAMBDA i : a[i] ^^ b[i])

\* Are any of the low k bits of a natural set?
LowBits(a, k) == \/ \E i \in 1..(k \div 8) : At(a, i) # 0
                 \/ k % 8 # 0 /\ At(a, k \div 8 + 1) % P2(k % 8) # 0

\* Product of a natural and a digit 0..255.
MulD(a, d) ==
  LET RECURSIVE go(_, _, _)
      go(i, c, acc) == IF i > Len(a) THEN Append(acc, c)
                       ELSE LET t == a[i] * d + c IN go(i + 1, t \div 256, Append(acc, t % 256))
  IN go(1, 0, << >>)

ByteLen(a) == (BitLen(a) + 7) \div 8

\* Quotient and remainder of naturals (b # 0): long division in base 256 on
\* operands normalised so that the divisor's top byte is >= 128.
DivMod(a, b) ==
  LET m == ByteLen(b)
      sh == 8 - BitLen8(b[m])
      nb == TLCEval(ShlW(SubSeq(b, 1, m), sh))
      na == TLCEval(ShlX(a, sh))
      n == Len(na)
      top == nb[m] * 256 + (IF m > 1 THEN nb[m - 1] ELSE 0)
      RECURSIVE fix(_, _)                       \* largest digit d with d*nb <= r
      fix(d, r) == IF CmpU(MulD(nb, d), r) <= 0 THEN d ELSE fix(d - 1, r)
      RECURSIVE go(_, _, _)                     \* r < nb, Len(r) = m
      go(i, q, r) ==
        IF i = 0 THEN [q |-> q, r |-> r]
        ELSE LET r1 == TLCEval(<<na[i]>> \o r)   \* m + 1 bytes
                 e0 == (r1[m + 1] * 65536 + r1[m] * 256 + (IF m > 1 THEN r1[m - 1] ELSE 0)) \div top
                 d == fix(IF e0 > 255 THEN 255 ELSE e0, r1)
             IN go(i - 1, TLCEval(<<d>> \o q), TLCEval(SubSeq(Sub(r1, MulD(nb, d)), 1, m)))
      dm == go(n, << >>, Zero(m))
  IN [q |-> Resize(dm.q, Len(a)), r |-> Resize(ShrW(dm.r, sh), Len(b))]

\* Integer square root of a natural: [q |-> floor(sqrt(a)), exact |-> BOOLEAN],
\* by Newton's iteration from above.
ISqrt(a) ==
  LET RECURSIVE go(_)
      go(x) == LET y == TLCEval(ShrW(AddX(x, DivMod(a, x).q), 1))
               IN IF CmpU(y, x) >= 0 THEN x ELSE go(y)
      root == go(ShlX(<<1>>, (BitLen(a) + 1) \div 2))
  IN IF IsZero(a) THEN [q |-> <<0>>, exact |-> TRUE]
     ELSE [q |-> root, exact |-> CmpU(MulX(root, root), a) = 0]

\* Sign-extend a word to n bytes.
SExt(a, n) == LET f == IF SignBit(a) = 1 THEN 255 ELSE 0
              IN Mk(n, LAMBDA i : IF i <= Len(a) THEN a[i] ELSE f)

PopCount8(x) == (x % 2) + ((x \div 2) % 2) + ((x \div 4) % 2) + ((x \div 8) % 2)
                + ((x \div 16) % 2) + ((x \div 32) % 2) + ((x \div 64) % 2) + (x \div 128)
PopCount(a) == FoldLeft(LAMBDA s, x : s + PopCount8(x), 0, a)
Clz(a) == 8 * Len(a) - BitLen(a)
Ctz(a) ==
  LET RECURSIVE go(_)
      go(k) == IF k >= 8 * Len(a) THEN k ELSE IF Bit(a, k) = 1 THEN k ELSE go(k + 1)
  IN go(0)

Ones(n) == [i \in 1..n |-> 255]
SMin(n) == [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
SMax(n) == [i \in 1..n |-> IF i = n THEN 127 ELSE 255]
IsOnes(a) == \A i \in 1..Len(a) : a[i] = 255

\* Concatenation of a sequence of words; split of a word into lanes of w bytes.
Cat(ws) == FoldLeft(LAMBDA s, x : s \o x, << >>, ws)
Lanes(v, w) == TLCEval([i \in 1..(Len(v) \div w) |-> SubSeq(v, (i - 1) * w + 1, i * w)])
=============================================================================
