------------------------------ MODULE FloatOps ------------------------------
(* IEEE-754 binary floating point, defined exactly: a finite number is        *)
(* (-1)^s * sig * 2^exp with sig a natural, every operation is computed       *)
(* exactly on such triples (division and square root keep a sticky bit) and   *)
(* rounded once, to nearest, ties to even.  The format is a parameter         *)
(*   F == [eb |-> exponent bits, mb |-> mantissa bits, n |-> bytes].           *)
(* NaN results are classes: "cnan" any canonical NaN, "anan" any arithmetic    *)
(* (quiet) NaN, as WebAssembly allows.                                         *)
EXTENDS IntOps

F32 == [eb |-> 8, mb |-> 23, n |-> 4]
F64 == [eb |-> 11, mb |-> 52, n |-> 8]

Bias(F) == P2(F.eb - 1) - 1
EMax(F) == P2(F.eb) - 1                         \* the all-ones exponent field
EMin(F) == 1 - Bias(F) - F.mb                   \* exponent of the least subnormal

SgnOf(F, x) == SignBit(x)
ExpOf(F, x) == ToInt(SubSeq(ShrW(x, F.mb), 1, IF F.n > 1 THEN 2 ELSE 1)) % P2(F.eb)
ManOf(F, x) == Mk(F.mb \div 8 + 1, LAMBDA i : IF i <= F.mb \div 8 THEN x[i] ELSE x[i] % P2(F.mb % 8))

Two(k) == ShlX(<<1>>, k)

Dec(F, x) ==
  LET E == ExpOf(F, x)
      M == ManOf(F, x)
      s == SgnOf(F, x)
  IN IF E = EMax(F)
     THEN IF IsZero(M) THEN [c |-> "inf", s |-> s]
          ELSE [c |-> "nan", s |-> s,
                canon |-> M = Resize(Two(F.mb - 1), Len(M)),
                quiet |-> Bit(M, F.mb - 1) = 1]
     ELSE [c |-> "num", s |-> s,
           sig |-> IF E = 0 THEN M ELSE Resize(AddX(M, Two(F.mb)), Len(M)),
           exp |-> (IF E = 0 THEN 1 ELSE E) - Bias(F) - F.mb]

Pack(F, s, E, M) ==
  LET base == Resize(M, F.n)
      e == Resize(ShlX(FromInt(E, 2), F.mb), F.n)
  IN OrW(OrW(base, e), Resize(ShlX(<<s>>, 8 * F.n - 1), F.n))

Inf(F, s) == Pack(F, s, EMax(F), <<0>>)
Zer(F, s) == Pack(F, s, 0, <<0>>)

\* Round (-1)^s * (sig + [0 or a value in (0,1) if sticky]) * 2^exp.
Round(F, s, sig, exp, sticky) ==
  LET L == BitLen(sig)
      e0 == exp + L - (F.mb + 1)
      e == IF e0 < EMin(F) THEN EMin(F) ELSE e0
      d == e - exp
      q0 == IF d <= 0 THEN ShlX(sig, -d) ELSE ShrW(sig, d)
      up == /\ d > 0
            /\ Bit(sig, d - 1) = 1
            /\ (LowBits(sig, d - 1) \/ sticky \/ Bit(q0, 0) = 1)
      q1 == IF up THEN AddX(q0, <<1>>) ELSE q0
      ovf == BitLen(q1) > F.mb + 1
      q == IF ovf THEN ShrW(q1, 1) ELSE q1
      ee == IF ovf THEN e + 1 ELSE e
      norm == BitLen(q) = F.mb + 1
      E == IF norm THEN ee - EMin(F) + 1 ELSE 0
      M == IF norm THEN Sub(q, Two(F.mb)) ELSE q
  IN IF L = 0 /\ ~sticky THEN Zer(F, s)
     ELSE IF e0 > EMax(F) THEN Inf(F, s)
     ELSE IF E >= EMax(F) THEN Inf(F, s)
     ELSE Pack(F, s, E, M)

\* NaN outcome class for the given decoded operands.
NaNClass(F, ops) == IF \A i \in 1..Len(ops) : ops[i].c = "nan" => ops[i].canon
                    THEN [k |-> "cnan", w |-> F.n]
                    ELSE [k |-> "anan", w |-> F.n]

Neg1(F, x) == [x EXCEPT ![F.n] = (@ + 128) % 256]

\* Exact signed sum of two finite numbers, rounded.
AddFin(F, a, b) ==
  LET lim == 2 * F.mb + 8
      hi == IF a.exp >= b.exp THEN a ELSE b
      lo == IF a.exp >= b.exp THEN b ELSE a
      gap0 == hi.exp - lo.exp
      za == IsZero(a.sig)
      zb == IsZero(b.sig)
      far == gap0 > lim
      \* when far apart, the smaller operand is only a sticky perturbation
      gap == IF far THEN lim ELSE gap0
      hs == ShlX(hi.sig, gap)
      ls == IF far THEN <<1>> ELSE lo.sig
      ex == IF far THEN hi.exp - lim ELSE lo.exp
      sum == AddX(hs, ls)
      cmp == CmpU(hs, ls)
  IN IF za /\ zb THEN (IF a.s = b.s THEN Zer(F, a.s) ELSE Zer(F, 0))
     ELSE IF zb THEN Round(F, a.s, a.sig, a.exp, FALSE)
     ELSE IF za THEN Round(F, b.s, b.sig, b.exp, FALSE)
     ELSE IF hi.s = lo.s THEN Round(F, hi.s, sum, ex, FALSE)
     ELSE IF cmp = 0 THEN Zer(F, 0)
     ELSE IF cmp > 0 THEN Round(F, hi.s, Sub(hs, ls), ex, FALSE)
     ELSE Round(F, lo.s, Sub(Resize(ls, Len(ls) + Len(hs)), hs), ex, FALSE)

FAdd(F, x, y) ==
  LET a == Dec(F, x) b == Dec(F, y)
  IN IF a.c = "nan" \/ b.c = "nan" THEN NaNClass(F, <<a, b>>)
     ELSE IF a.c = "inf" THEN IF b.c = "inf" /\ a.s # b.s THEN NaNClass(F, <<>>) ELSE Bits_(x)
     ELSE IF b.c = "inf" THEN Bits_(y)
     ELSE Bits_(AddFin(F, a, b))

FSub(F, x, y) ==
  LET a == Dec(F, x) b == Dec(F, y)
  IN IF a.c = "nan" \/ b.c = "nan" THEN NaNClass(F, <<a, b>>) ELSE FAdd(F, x, Neg1(F, y))

SXor(a, b) == IF a.s = b.s THEN 0 ELSE 1

FMul(F, x, y) ==
  LET a == Dec(F, x) b == Dec(F, y) s == SXor(a, b)
  IN IF a.c = "nan" \/ b.c = "nan" THEN NaNClass(F, <<a, b>>)
     ELSE IF a.c = "inf" \/ b.c = "inf"
          THEN IF (a.c = "num" /\ IsZero(a.sig)) \/ (b.c = "num" /\ IsZero(b.sig))
               THEN NaNClass(F, <<>>) ELSE Bits_(Inf(F, s))
     ELSE Bits_(Round(F, s, MulX(a.sig, b.sig), a.exp + b.exp, FALSE))

FDiv(F, x, y) ==
  LET a == Dec(F, x) b == Dec(F, y) s == SXor(a, b)
  IN IF a.c = "nan" \/ b.c = "nan" THEN NaNClass(F, <<a, b>>)
     ELSE IF a.c = "inf" THEN IF b.c = "inf" THEN NaNClass(F, <<>>) ELSE Bits_(Inf(F, s))
     ELSE IF b.c = "inf" THEN Bits_(Zer(F, s))
     ELSE IF IsZero(b.sig) THEN IF IsZero(a.sig) THEN NaNClass(F, <<>>) ELSE Bits_(Inf(F, s))
     ELSE IF IsZero(a.sig) THEN Bits_(Zer(F, s))
     ELSE LET k == F.mb + 3 + (IF BitLen(b.sig) > BitLen(a.sig) THEN BitLen(b.sig) - BitLen(a.sig) ELSE 0)
              d == DivMod(ShlX(a.sig, k), b.sig)
          IN Bits_(Round(F, s, d.q, a.exp - b.exp - k, ~IsZero(d.r)))

FSqrt(F, x) ==
  LET a == Dec(F, x)
  IN IF a.c = "nan" THEN NaNClass(F, <<a>>)
     ELSE IF a.c = "num" /\ IsZero(a.sig) THEN Bits_(x)
     ELSE IF a.s = 1 THEN NaNClass(F, <<>>)
     ELSE IF a.c = "inf" THEN Bits_(x)
     ELSE LET want == 2 * (F.mb + 3) - BitLen(a.sig)
              k0 == IF want < 0 THEN 0 ELSE want
              k == IF (a.exp - k0) % 2 = 0 THEN k0 ELSE k0 + 1
              r == ISqrt(ShlX(a.sig, k))
          IN Bits_(Round(F, 0, r.q, (a.exp - k) \div 2, ~r.exact))

\* Integer part and fraction of a finite number: rounding to integral.
ToIntegral(F, x, mode) ==
  LET a == Dec(F, x)
      d == -a.exp
      L == BitLen(a.sig)
      \* d > 0: there may be fraction bits
      ip == ShrW(a.sig, d)
      frac == LowBits(a.sig, d)
      half == Bit(a.sig, d - 1) = 1
      over == LowBits(a.sig, d - 1)
      up == CASE mode = "trunc" -> FALSE
              [] mode = "ceil" -> frac /\ a.s = 0
              [] mode = "floor" -> frac /\ a.s = 1
              [] mode = "nearest" -> half /\ (over \/ Bit(ip, 0) = 1)
  IN IF a.c = "nan" THEN NaNClass(F, <<a>>)
     ELSE IF a.c = "inf" THEN Bits_(x)
     ELSE IF a.exp >= 0 THEN Bits_(x)
     ELSE Bits_(Round(F, a.s, IF up THEN AddX(ip, <<1>>) ELSE ip, 0, FALSE))

\* Total order key comparison of non-NaN values: -1, 0, 1 (zeros equal).
FCmp(F, x, y) ==
  LET a == Dec(F, x) b == Dec(F, y)
      za == a.c = "num" /\ IsZero(a.sig)
      zb == b.c = "num" /\ IsZero(b.sig)
      mag == CmpU([x EXCEPT ![F.n] = @ % 128], [y EXCEPT ![F.n] = @ % 128])
  IN IF za /\ zb THEN 0
     ELSE IF a.s # b.s THEN IF a.s = 1 THEN -1 ELSE 1
     ELSE IF a.s = 0 THEN mag ELSE -mag

IsNaN(F, x) == Dec(F, x).c = "nan"

FMin(F, x, y) ==
  IF IsNaN(F, x) \/ IsNaN(F, y) THEN NaNClass(F, <<Dec(F, x), Dec(F, y)>>)
  ELSE LET c == FCmp(F, x, y)
       IN IF c < 0 THEN Bits_(x) ELSE IF c > 0 THEN Bits_(y)
          ELSE Bits_(IF SignBit(x) = 1 THEN x ELSE y)
FMax(F, x, y) ==
  IF IsNaN(F, x) \/ IsNaN(F, y) THEN NaNClass(F, <<Dec(F, x), Dec(F, y)>>)
  ELSE LET c == FCmp(F, x, y)
       IN IF c > 0 THEN Bits_(x) ELSE IF c < 0 THEN Bits_(y)
          ELSE Bits_(IF SignBit(x) = 0 THEN x ELSE y)

Ordered(F, x, y) == ~IsNaN(F, x) /\ ~IsNaN(F, y)
FLt(F, x, y) == Ordered(F, x, y) /\ FCmp(F, x, y) < 0
FGt(F, x, y) == Ordered(F, x, y) /\ FCmp(F, x, y) > 0
FLe(F, x, y) == Ordered(F, x, y) /\ FCmp(F, x, y) <= 0
FGe(F, x, y) == Ordered(F, x, y) /\ FCmp(F, x, y) >= 0
FEq(F, x, y) == Ordered(F, x, y) /\ FCmp(F, x, y) = 0

FRel(op, F, x, y) ==
  CASE op = "eq" -> FEq(F, x, y)
    [] op = "ne" -> ~FEq(F, x, y)
    [] op = "lt" -> FLt(F, x, y)
    [] op = "gt" -> FGt(F, x, y)
    [] op = "le" -> FLe(F, x, y)
    [] op = "ge" -> FGe(F, x, y)

FUn(op, F, x) ==
  CASE op = "abs" -> Bits_([x EXCEPT ![F.n] = @ % 128])
    [] op = "neg" -> Bits_(Neg1(F, x))
    [] op = "sqrt" -> FSqrt(F, x)
    [] op \in {"ceil", "floor", "trunc", "nearest"} -> ToIntegral(F, x, op)

FBin(op, F, x, y) ==
  CASE op = "add" -> FAdd(F, x, y)
    [] op = "sub" -> FSub(F, x, y)
    [] op = "mul" -> FMul(F, x, y)
    [] op = "div" -> FDiv(F, x, y)
    [] op = "min" -> FMin(F, x, y)
    [] op = "max" -> FMax(F, x, y)
    [] op = "pmin" -> Bits_(IF FLt(F, y, x) THEN y ELSE x)
    [] op = "pmax" -> Bits_(IF FLt(F, x, y) THEN y ELSE x)
    [] op = "copysign" -> Bits_([x EXCEPT ![F.n] = (@ % 128) + 128 * SignBit(y)])

FUnOps == {"abs", "neg", "sqrt", "ceil", "floor", "trunc", "nearest"}
FBinOps == {"add", "sub", "mul", "div", "min", "max", "pmin", "pmax", "copysign"}
FRelOps == {"eq", "ne", "lt", "gt", "le", "ge"}

(***************************** conversions *********************************)
\* Float -> integer: n-byte result, signed or unsigned, trapping or saturating.
Truncate(F, x, n, signed, sat) ==
  LET a == Dec(F, x)
      lo == IF signed THEN SMin(n) ELSE Zero(n)
      hi == IF signed THEN SMax(n) ELSE Ones(n)
      bad(v) == IF sat THEN Bits_(v) ELSE Trap
      huge == a.exp + BitLen(a.sig) > 8 * n + 1
      mag == IF a.exp >= 0 THEN ShlX(a.sig, a.exp) ELSE ShrW(a.sig, -a.exp)
      limit == IF a.s = 1 THEN (IF signed THEN SMin(n) ELSE Zero(n)) ELSE hi
  IN IF a.c = "nan" THEN bad(Zero(n))
     ELSE IF a.c = "inf" \/ huge THEN bad(IF a.s = 1 THEN lo ELSE hi)
     ELSE IF CmpU(mag, limit) > 0 THEN bad(IF a.s = 1 THEN lo ELSE hi)
     ELSE Bits_(IF a.s = 1 THEN Neg(Resize(mag, n)) ELSE Resize(mag, n))

\* Integer -> float.
Convert(F, a, signed) ==
  IF signed /\ SignBit(a) = 1 THEN Bits_(Round(F, 1, Neg(a), 0, FALSE))
  ELSE Bits_(Round(F, 0, a, 0, FALSE))

\* Float -> float of another format.
Reformat(F, G, x) ==
  LET a == Dec(F, x)
  IN IF a.c = "nan" THEN [NaNClass(F, <<a>>) EXCEPT !.w = G.n]
     ELSE IF a.c = "inf" THEN Bits_(Inf(G, a.s))
     ELSE Bits_(Round(G, a.s, a.sig, a.exp, FALSE))

\* Does observed word r agree with outcome o?
IsCNaN(F, r) == Dec(F, r).c = "nan" /\ Dec(F, r).canon
IsANaN(F, r) == Dec(F, r).c = "nan" /\ Dec(F, r).quiet
OfSize(n) == IF n = 4 THEN F32 ELSE F64
Agrees(o, r) ==
  CASE o.k = "bits" -> r = o.v
    [] o.k = "cnan" -> Len(r) = o.w /\ IsCNaN(OfSize(o.w), r)
    [] o.k = "anan" -> Len(r) = o.w /\ IsANaN(OfSize(o.w), r)
    [] OTHER -> FALSE
=============================================================================
