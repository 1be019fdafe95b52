------------------------------- MODULE MC_Bits ------------------------------
(* The word operations agree with mathematical integers: exhaustively for     *)
(* one-byte words, and for two-byte words on the grid G x G.                  *)
EXTENDS SimdOps
CONSTANTS A, G
VARIABLES a, b, wide
vars == <<a, b, wide>>
Init == \/ a \in 0..255 /\ b = -1 /\ wide = FALSE
        \/ a \in G /\ b = -1 /\ wide = TRUE
Next == /\ b = -1
        /\ b' \in (IF wide THEN G ELSE A)
        /\ UNCHANGED <<a, wide>>
Spec == Init /\ [][Next]_vars

M == IF wide THEN 65536 ELSE 256
n == IF wide THEN 2 ELSE 1
w(x) == FromInt(x % M, n)                       \* the word of an integer
S(x) == IF x >= M \div 2 THEN x - M ELSE x      \* signed reading
Sat(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
x8 == w(a)
y8 == w(b)
k8 == b % (8 * n)
P(k) == IF k = 0 THEN 1 ELSE 2 ^ k
AbsI(x) == IF x < 0 THEN -x ELSE x
TDiv(p, q) == LET d == AbsI(p) \div AbsI(q) IN IF (p < 0) = (q < 0) THEN d ELSE -d
B(o) == o.v
T(p) == IF p THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, 0>>

Arith == b = -1 \/
  /\ B(IntBin("add", x8, y8)) = w(a + b)
  /\ B(IntBin("sub", x8, y8)) = w(a - b + M)
  /\ (wide \/ B(IntBin("mul", x8, y8)) = w(a * b))
  /\ (a < 32768 /\ b < 32768 => ToInt(MulX(x8, y8)) = a * b)
  /\ (b # 0 => /\ B(IntBin("div_u", x8, y8)) = w(a \div b)
               /\ B(IntBin("rem_u", x8, y8)) = w(a % b)
               /\ B(IntBin("rem_s", x8, y8)) = w(S(a) - S(b) * TDiv(S(a), S(b)) + M)
               /\ IF S(a) = -(M \div 2) /\ S(b) = -1 THEN IntBin("div_s", x8, y8).k = "trap"
                  ELSE B(IntBin("div_s", x8, y8)) = w(TDiv(S(a), S(b)) + M))
  /\ (b = 0 => \A o \in {"div_u", "div_s", "rem_u", "rem_s"} : IntBin(o, x8, y8).k = "trap")
Shifts == b = -1 \/
  /\ B(IntBin("shl", x8, y8)) = w((a * P(k8)) % M)
  /\ B(IntBin("shr_u", x8, y8)) = w(a \div P(k8))
  /\ B(IntBin("shr_s", x8, y8)) = w((S(a) \div P(k8)) + M)
  /\ B(IntBin("rotl", x8, y8)) = w(((a * P(k8)) % M) + (a \div P(8 * n - k8)))
  /\ B(IntBin("rotr", B(IntBin("rotl", x8, y8)), y8)) = x8
Rel == b = -1 \/
  /\ B(IntBin("lt_u", x8, y8)) = T(a < b) /\ B(IntBin("lt_s", x8, y8)) = T(S(a) < S(b))
  /\ B(IntBin("gt_u", x8, y8)) = T(a > b) /\ B(IntBin("gt_s", x8, y8)) = T(S(a) > S(b))
  /\ B(IntBin("le_u", x8, y8)) = T(a <= b) /\ B(IntBin("le_s", x8, y8)) = T(S(a) <= S(b))
  /\ B(IntBin("ge_u", x8, y8)) = T(a >= b) /\ B(IntBin("ge_s", x8, y8)) = T(S(a) >= S(b))
  /\ B(IntBin("eq", x8, y8)) = T(a = b) /\ B(IntBin("ne", x8, y8)) = T(a # b)
Lane == b = -1 \/
  LET L(o) == B(VIntLane(o, x8, y8))
      h == M \div 2
  IN /\ L("add_sat_s") = w(Sat(S(a) + S(b), -h, h - 1) + M)
     /\ L("sub_sat_s") = w(Sat(S(a) - S(b), -h, h - 1) + M)
     /\ L("add_sat_u") = w(Sat(a + b, 0, M - 1))
     /\ L("sub_sat_u") = w(Sat(a - b, 0, M - 1))
     /\ L("avgr_u") = w((a + b + 1) \div 2)
     /\ L("min_s") = (IF S(a) < S(b) THEN x8 ELSE y8) /\ L("max_u") = (IF a > b THEN x8 ELSE y8)
     /\ (wide => L("q15mulr_sat_s") = w(Sat((S(a) * S(b) + 16384) \div 32768, -h, h - 1) + M))
Bitwise_ == b = -1 \/
  /\ \A k \in 0..(8 * n - 1) :
       /\ Bit(AndW(x8, y8), k) = Bit(x8, k) * Bit(y8, k)
       /\ Bit(XorW(x8, y8), k) = (Bit(x8, k) + Bit(y8, k)) % 2
       /\ Bit(OrW(x8, y8), k) = 1 - (1 - Bit(x8, k)) * (1 - Bit(y8, k))
       /\ Bit(x8, k) = (a \div P(k)) % 2
Unary == b # -1 \/
  /\ Clz(x8) = 8 * n - Len(SelectSeq([i \in 1..(8 * n) |-> i - 1], LAMBDA k : a >= P(k)))
  /\ (a # 0 => a % P(Ctz(x8)) = 0 /\ (a \div P(Ctz(x8))) % 2 = 1)
  /\ PopCount(x8) = Len(SelectSeq([i \in 1..(8 * n) |-> i - 1], LAMBDA k : (a \div P(k)) % 2 = 1))
  /\ LET r == ToInt(ISqrt(x8).q) IN r * r <= a /\ (r + 1) * (r + 1) > a /\ (ISqrt(x8).exact <=> r * r = a)
  /\ Neg(x8) = w(M - a)
  /\ SExt(x8, 4) = (IF S(a) >= 0 THEN FromInt(a, 4) ELSE Neg(FromInt(-S(a), 4)))
  /\ (~wide => /\ SatS(x8 \o x8, 1) = (IF SignBit(x8) = 1 THEN (IF a = 255 THEN <<255>> ELSE <<128>>) ELSE IF a = 0 THEN <<0>> ELSE <<127>>))
Inv == Arith /\ Shifts /\ Rel /\ Lane /\ Bitwise_ /\ Unary
=============================================================================
