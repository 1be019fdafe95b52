------------------------------- MODULE MC_Float -----------------------------
(* The executable float arithmetic agrees with the declarative definition of  *)
(* correct rounding (the representable value whose rounding interval contains *)
(* the exact result, ties to even), exhaustively over an 8-bit IEEE format    *)
(* (4 exponent bits, 3 mantissa bits).                                        *)
EXTENDS FloatOps
CONSTANTS STEP
M8 == [eb |-> 4, mb |-> 3, n |-> 1]
VARIABLES x, y
vars == <<x, y>>
Init == x \in 0..255 /\ y = -1
Next == y = -1 /\ y' \in {v \in 0..255 : v % STEP = x % STEP \/ v \in {0, 1, 8, 119, 120, 121, 124, 128, 129, 247, 248, 252}}
        /\ UNCHANGED x
Spec == Init /\ [][Next]_vars

Mag(v) == v % 128
Sgn(v) == v \div 128
Fin(v) == Mag(v) < 120
NaN(v) == Mag(v) > 120
\* |value| * 2^9 of the k-th magnitude (k = 120 stands for 2^8, the overflow point)
V(k) == IF k < 8 THEN k ELSE (8 + (k % 8)) * P2((k \div 8) - 1)
\* Does X (X(l, h) compares 2*exact with l+h: -1, 0, 1) round to magnitude k?
Nearest(k, Cmp(_)) ==
  /\ k = 0 \/ LET c == Cmp(V(k - 1) + V(k)) IN c > 0 \/ (c = 0 /\ k % 2 = 0)
  /\ k = 120 \/ LET c == Cmp(V(k) + V(k + 1)) IN c < 0 \/ (c = 0 /\ k % 2 = 0)
N(i) == FromInt(i, 4)
SVal(v) == IF Sgn(v) = 1 THEN -V(Mag(v)) ELSE V(Mag(v))
AbsI(i) == IF i < 0 THEN -i ELSE i
CmpI(i, j) == IF i < j THEN -1 ELSE IF i = j THEN 0 ELSE 1
R(o) == o.v[1]

AddOK == LET e == SVal(x) + SVal(y)
             r == R(FAdd(M8, <<x>>, <<y>>))
         IN /\ Nearest(Mag(r), LAMBDA s : CmpI(2 * AbsI(e), s))
            /\ IF e # 0 THEN Sgn(r) = (IF e < 0 THEN 1 ELSE 0)
               ELSE Sgn(r) = (IF x = 128 /\ y = 128 THEN 1 ELSE 0)
MulOK == LET r == R(FMul(M8, <<x>>, <<y>>))
         IN /\ Nearest(Mag(r), LAMBDA s : CmpU(MulX(N(2), MulX(N(V(Mag(x))), N(V(Mag(y))))), MulX(N(s), N(512))))
            /\ Sgn(r) = (IF Sgn(x) = Sgn(y) THEN 0 ELSE 1)
DivOK == Mag(y) = 0 \/
         LET r == R(FDiv(M8, <<x>>, <<y>>))
         IN /\ Nearest(Mag(r), LAMBDA s : CmpU(MulX(N(1024), N(V(Mag(x)))), MulX(N(s), N(V(Mag(y))))))
            /\ Sgn(r) = (IF Sgn(x) = Sgn(y) THEN 0 ELSE 1)
SqrtOK == Sgn(x) = 1 \/
          LET r == R(FSqrt(M8, <<x>>))
          IN Sgn(r) = 0 /\ Nearest(Mag(r), LAMBDA s : CmpU(MulX(N(2048), N(V(Mag(x)))), MulX(N(s), N(s))))
\* rounding to integral: |r| is an integer (multiple of 2^9 when scaled)
IntegralOK ==
  \A mode \in {"ceil", "floor", "trunc", "nearest"} :
    LET r == R(ToIntegral(M8, <<x>>, mode))
        v == SVal(x)
        fl == v \div 512
        rv == SVal(r)
        tr == IF v >= 0 THEN fl ELSE -((-v) \div 512)
        d == v - 512 * fl
        ne == IF 2 * d < 512 \/ (2 * d = 512 /\ fl % 2 = 0) THEN fl ELSE fl + 1
    IN /\ Sgn(r) = Sgn(x)
       /\ rv = 512 * (CASE mode = "ceil" -> -((-v) \div 512) [] mode = "floor" -> fl
                        [] mode = "trunc" -> tr [] mode = "nearest" -> ne)
TruncOK ==
  \A sg \in BOOLEAN : \A sat \in BOOLEAN :
    LET o == Truncate(M8, <<x>>, 1, sg, sat)
        v == SVal(x)
        tr == IF v >= 0 THEN v \div 512 ELSE -((-v) \div 512)
        lo == IF sg THEN -128 ELSE 0
        hi == IF sg THEN 127 ELSE 255
    IN IF NaN(x) THEN IF sat THEN o = Bits_(<<0>>) ELSE o = Trap
       ELSE IF Fin(x) /\ lo <= tr /\ tr <= hi THEN o = Bits_(<<(tr + 256) % 256>>)
       ELSE IF ~sat THEN o = Trap
       ELSE o = Bits_(<<((IF Sgn(x) = 1 THEN lo ELSE hi) + 256) % 256>>)
\* conversion of the one-byte integer x
ConvOK == \A sg \in BOOLEAN :
            LET v == IF sg /\ x > 127 THEN x - 256 ELSE x
                r == R(Convert(M8, <<x>>, sg))
            IN Nearest(Mag(r), LAMBDA s : CmpU(MulX(N(1024), N(AbsI(v))), N(s))) /\ Sgn(r) = (IF v < 0 THEN 1 ELSE 0)
OrderOK == IF NaN(x) \/ NaN(y)
           THEN ~FLt(M8, <<x>>, <<y>>) /\ ~FEq(M8, <<x>>, <<y>>) /\ ~FGe(M8, <<x>>, <<y>>) /\ ~FLe(M8, <<x>>, <<y>>)
           ELSE /\ FLt(M8, <<x>>, <<y>>) <=> SVal(x) < SVal(y)
                /\ FEq(M8, <<x>>, <<y>>) <=> SVal(x) = SVal(y)
                /\ FGe(M8, <<x>>, <<y>>) <=> SVal(x) >= SVal(y)
                /\ SVal(R(FMin(M8, <<x>>, <<y>>))) = (IF SVal(x) < SVal(y) THEN SVal(x) ELSE SVal(y))
                /\ SVal(R(FMax(M8, <<x>>, <<y>>))) = (IF SVal(x) > SVal(y) THEN SVal(x) ELSE SVal(y))
\* widening to single precision and back is the identity on non-NaN values
WidenOK == NaN(x) \/ R(Reformat(F32, M8, Reformat(M8, F32, <<x>>).v)) = x

Inv == IF y = -1 THEN /\ (Fin(x) => SqrtOK /\ IntegralOK)
                      /\ TruncOK /\ ConvOK /\ WidenOK
       ELSE /\ (Fin(x) /\ Fin(y) => AddOK /\ MulOK /\ DivOK)
            /\ OrderOK
            /\ (NaN(x) \/ NaN(y) => \A op \in {"add", "sub", "mul", "div", "min", "max"} :
                                      FBin(op, M8, <<x>>, <<y>>).k \in {"cnan", "anan"})
=============================================================================
