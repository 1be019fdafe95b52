------------------------------- MODULE SimdOps ------------------------------
(* The 128-bit vector instructions.  A vector is a 16-byte word; an           *)
(* instruction is described lane by lane in terms of IntOps and FloatOps.     *)
(* Outcomes of vector results are sequences of per-lane outcomes ("lanes").   *)
EXTENDS FloatOps

W(t) == CASE t = "i8x16" -> 1 [] t = "i16x8" -> 2 [] t = "i32x4" -> 4 [] t = "i64x2" -> 8
          [] t = "f32x4" -> 4 [] t = "f64x2" -> 8
FF(t) == IF t = "f32x4" THEN F32 ELSE F64
IsF(t) == t \in {"f32x4", "f64x2"}

LanesOut(ls) == [k |-> "lanes", l |-> ls]
Seq_(n, f(_)) == TLCEval([i \in 1..n |-> f(i)])

Map1(t, f(_), a) == LET x == Lanes(a, W(t)) IN LanesOut(Seq_(Len(x), LAMBDA i : f(x[i])))
Map2(t, f(_, _), a, b) ==
  LET x == Lanes(a, W(t)) y == Lanes(b, W(t)) IN LanesOut(Seq_(Len(x), LAMBDA i : f(x[i], y[i])))

Mask(n, b) == Bits_(IF b THEN Ones(n) ELSE Zero(n))
Splat(x) == Bits_(Cat([i \in 1..(16 \div Len(x)) |-> x]))

\* Zero-extend / sign-extend to twice the width.
Wide(x, s) == IF s THEN SExt(x, 2 * Len(x)) ELSE Resize(x, 2 * Len(x))
\* Clamp a signed word x into n bytes.
SatS(x, n) == IF CmpS(x, SExt(SMax(n), Len(x))) > 0 THEN SMax(n)
              ELSE IF CmpS(x, SExt(SMin(n), Len(x))) < 0 THEN SMin(n) ELSE SubSeq(x, 1, n)
SatU(x, n) == IF SignBit(x) = 1 THEN Zero(n)
              ELSE IF CmpU(x, Ones(n)) > 0 THEN Ones(n) ELSE SubSeq(x, 1, n)

VIntLane(op, x, y) ==                           \* one lane of a binary integer op
  LET n == Len(x)
  IN CASE op = "add" -> Bits_(Add(x, y))
       [] op = "sub" -> Bits_(Sub(x, y))
       [] op = "mul" -> Bits_(Mul(x, y))
       [] op = "add_sat_s" -> Bits_(SatS(Add(Wide(x, TRUE), Wide(y, TRUE)), n))
       [] op = "add_sat_u" -> Bits_(SatU(Add(Wide(x, FALSE), Wide(y, FALSE)), n))
       [] op = "sub_sat_s" -> Bits_(SatS(Sub(Wide(x, TRUE), Wide(y, TRUE)), n))
       [] op = "sub_sat_u" -> Bits_(SatU(Sub(Wide(x, FALSE), Wide(y, FALSE)), n))
       [] op = "min_s" -> Bits_(IF CmpS(x, y) < 0 THEN x ELSE y)
       [] op = "min_u" -> Bits_(IF CmpU(x, y) < 0 THEN x ELSE y)
       [] op = "max_s" -> Bits_(IF CmpS(x, y) > 0 THEN x ELSE y)
       [] op = "max_u" -> Bits_(IF CmpU(x, y) > 0 THEN x ELSE y)
       [] op = "avgr_u" -> Bits_(Resize(ShrW(Add(AddX(x, y), <<1>>), 1), n))
       [] op = "q15mulr_sat_s" ->
            Bits_(SatS(SarW(Add(Mul(SExt(x, 8), SExt(y, 8)), <<0, 64>>), 15), n))
       [] op = "eq" -> Mask(n, x = y)
       [] op = "ne" -> Mask(n, x # y)
       [] op = "lt_s" -> Mask(n, CmpS(x, y) < 0)
       [] op = "lt_u" -> Mask(n, CmpU(x, y) < 0)
       [] op = "gt_s" -> Mask(n, CmpS(x, y) > 0)
       [] op = "gt_u" -> Mask(n, CmpU(x, y) > 0)
       [] op = "le_s" -> Mask(n, CmpS(x, y) <= 0)
       [] op = "le_u" -> Mask(n, CmpU(x, y) <= 0)
       [] op = "ge_s" -> Mask(n, CmpS(x, y) >= 0)
       [] op = "ge_u" -> Mask(n, CmpU(x, y) >= 0)

VIntBinOps == {"add", "sub", "mul", "add_sat_s", "add_sat_u", "sub_sat_s", "sub_sat_u", "min_s",
               "min_u", "max_s", "max_u", "avgr_u", "q15mulr_sat_s", "eq", "ne", "lt_s", "lt_u",
               "gt_s", "gt_u", "le_s", "le_u", "ge_s", "ge_u"}

VIntUnLane(op, x) ==
  CASE op = "abs" -> Bits_(Abs(x))
    [] op = "neg" -> Bits_(Neg(x))
    [] op = "popcnt" -> Bits_(FromInt(PopCount(x), Len(x)))

\* Source shape with lanes half as wide (of the result shape t).
Half(a, w, high) ==                             \* lanes of width w from the low/high half
  LET x == Lanes(a, w) h == Len(x) \div 2
  IN SubSeq(x, IF high THEN h + 1 ELSE 1, IF high THEN 2 * h ELSE h)

Extend(t, a, high, s) ==
  LET x == Half(a, W(t) \div 2, high)
  IN LanesOut(Seq_(Len(x), LAMBDA i : Bits_(Wide(x[i], s))))
ExtMul(t, a, b, high, s) ==
  LET x == Half(a, W(t) \div 2, high) y == Half(b, W(t) \div 2, high)
  IN LanesOut(Seq_(Len(x), LAMBDA i : Bits_(Mul(Wide(x[i], s), Wide(y[i], s)))))
ExtAdd(t, a, s) ==
  LET x == Lanes(a, W(t) \div 2)
  IN LanesOut(Seq_(Len(x) \div 2, LAMBDA i : Bits_(Add(Wide(x[2 * i - 1], s), Wide(x[2 * i], s)))))
Narrow(t, a, b, s) ==                           \* t is the narrow result shape
  LET x == Lanes(a, 2 * W(t)) \o Lanes(b, 2 * W(t))
  IN LanesOut(Seq_(Len(x), LAMBDA i : Bits_(IF s THEN SatS(x[i], W(t)) ELSE SatU(x[i], W(t)))))
Dot(a, b) ==
  LET x == Lanes(a, 2) y == Lanes(b, 2)
      p(i) == Mul(SExt(x[i], 4), SExt(y[i], 4))
  IN LanesOut(Seq_(4, LAMBDA i : Bits_(Add(p(2 * i - 1), p(2 * i)))))
Bitmask(t, a) ==
  LET x == Lanes(a, W(t))
      RECURSIVE go(_)
      go(i) == IF i > Len(x) THEN 0 ELSE SignBit(x[i]) + 2 * go(i + 1)
  IN Bits_(FromInt(go(1), 4))
Shuffle(a, b, imm) == LET c == a \o b IN Bits_(Seq_(16, LAMBDA i : c[imm[i] + 1]))
Swizzle(a, s) == Bits_(Seq_(16, LAMBDA i : IF s[i] < 16 THEN a[s[i] + 1] ELSE 0))
ExtractW(t, a, l) == Lanes(a, W(t))[l + 1]
Replace(t, a, l, x) == LET w == W(t)
                       IN Bits_(Seq_(16, LAMBDA i : IF (i - 1) \div w = l THEN x[((i - 1) % w) + 1] ELSE a[i]))

\* Vector shift count: i32 modulo the lane width.
VCount(t, k) == k[1] % (8 * W(t))

VConv(op, a) ==
  LET lo(i, w) == SubSeq(a, (i - 1) * w + 1, i * w)
      z == Bits_(Zero(4))
  IN CASE op = "i32x4.trunc_sat_f32x4_s" -> LanesOut(Seq_(4, LAMBDA i : Truncate(F32, lo(i, 4), 4, TRUE, TRUE)))
       [] op = "i32x4.trunc_sat_f32x4_u" -> LanesOut(Seq_(4, LAMBDA i : Truncate(F32, lo(i, 4), 4, FALSE, TRUE)))
       [] op = "i32x4.trunc_sat_f64x2_s_zero" ->
            LanesOut(Seq_(4, LAMBDA i : IF i > 2 THEN z ELSE Truncate(F64, lo(i, 8), 4, TRUE, TRUE)))
       [] op = "i32x4.trunc_sat_f64x2_u_zero" ->
            LanesOut(Seq_(4, LAMBDA i : IF i > 2 THEN z ELSE Truncate(F64, lo(i, 8), 4, FALSE, TRUE)))
       [] op = "f32x4.convert_i32x4_s" -> LanesOut(Seq_(4, LAMBDA i : Convert(F32, lo(i, 4), TRUE)))
       [] op = "f32x4.convert_i32x4_u" -> LanesOut(Seq_(4, LAMBDA i : Convert(F32, lo(i, 4), FALSE)))
       [] op = "f64x2.convert_low_i32x4_s" -> LanesOut(Seq_(2, LAMBDA i : Convert(F64, lo(i, 4), TRUE)))
       [] op = "f64x2.convert_low_i32x4_u" -> LanesOut(Seq_(2, LAMBDA i : Convert(F64, lo(i, 4), FALSE)))
       [] op = "f32x4.demote_f64x2_zero" ->
            LanesOut(Seq_(4, LAMBDA i : IF i > 2 THEN z ELSE Reformat(F64, F32, lo(i, 8))))
       [] op = "f64x2.promote_low_f32x4" -> LanesOut(Seq_(2, LAMBDA i : Reformat(F32, F64, lo(i, 4))))

VConvOps == {"trunc_sat_f32x4_s", "trunc_sat_f32x4_u", "trunc_sat_f64x2_s_zero", "trunc_sat_f64x2_u_zero",
             "convert_i32x4_s", "convert_i32x4_u", "convert_low_i32x4_s", "convert_low_i32x4_u",
             "demote_f64x2_zero", "promote_low_f32x4"}

V128(op, a) ==
  CASE op = "not" -> Bits_(NotW(a[1]))
    [] op = "and" -> Bits_(AndW(a[1], a[2]))
    [] op = "andnot" -> Bits_(AndW(a[1], NotW(a[2])))
    [] op = "or" -> Bits_(OrW(a[1], a[2]))
    [] op = "xor" -> Bits_(XorW(a[1], a[2]))
    [] op = "bitselect" -> Bits_(OrW(AndW(a[1], a[3]), AndW(a[2], NotW(a[3]))))
    [] op = "any_true" -> Bool(~IsZero(a[1]))

\* t: shape; op: operation; a: operand words; m: immediate bytes (lane indices).
VEval(t, op, a, m) ==
  IF t = "v128" THEN V128(op, a)
  ELSE IF op \in VConvOps THEN VConv(t \o "." \o op, a[1])
  ELSE IF op = "splat" THEN Splat(SubSeq(a[1], 1, W(t)))
  ELSE IF op = "extract_lane" THEN Bits_(ExtractW(t, a[1], m[1]))
  ELSE IF op = "extract_lane_s" THEN Bits_(SExt(ExtractW(t, a[1], m[1]), 4))
  ELSE IF op = "extract_lane_u" THEN Bits_(Resize(ExtractW(t, a[1], m[1]), 4))
  ELSE IF op = "replace_lane" THEN Replace(t, a[1], m[1], a[2])
  ELSE IF IsF(t) THEN
       IF op \in FUnOps THEN Map1(t, LAMBDA x : FUn(op, FF(t), x), a[1])
       ELSE IF op \in FRelOps THEN Map2(t, LAMBDA x, y : Mask(W(t), FRel(op, FF(t), x, y)), a[1], a[2])
       ELSE Map2(t, LAMBDA x, y : FBin(op, FF(t), x, y), a[1], a[2])
  ELSE IF op \in VIntBinOps THEN Map2(t, LAMBDA x, y : VIntLane(op, x, y), a[1], a[2])
  ELSE CASE op \in {"abs", "neg", "popcnt"} -> Map1(t, LAMBDA x : VIntUnLane(op, x), a[1])
         [] op = "all_true" -> Bool(\A i \in 1..(16 \div W(t)) : ~IsZero(Lanes(a[1], W(t))[i]))
         [] op = "bitmask" -> Bitmask(t, a[1])
         [] op = "shl" -> Map1(t, LAMBDA x : Bits_(ShlW(x, VCount(t, a[2]))), a[1])
         [] op = "shr_s" -> Map1(t, LAMBDA x : Bits_(SarW(x, VCount(t, a[2]))), a[1])
         [] op = "shr_u" -> Map1(t, LAMBDA x : Bits_(ShrW(x, VCount(t, a[2]))), a[1])
         [] op = "shuffle" -> Shuffle(a[1], a[2], m)
         [] op = "swizzle" -> Swizzle(a[1], a[2])
         [] op \in {"narrow_i16x8_s", "narrow_i32x4_s"} -> Narrow(t, a[1], a[2], TRUE)
         [] op \in {"narrow_i16x8_u", "narrow_i32x4_u"} -> Narrow(t, a[1], a[2], FALSE)
         [] op \in {"extend_low_i8x16_s", "extend_low_i16x8_s", "extend_low_i32x4_s"} -> Extend(t, a[1], FALSE, TRUE)
         [] op \in {"extend_high_i8x16_s", "extend_high_i16x8_s", "extend_high_i32x4_s"} -> Extend(t, a[1], TRUE, TRUE)
         [] op \in {"extend_low_i8x16_u", "extend_low_i16x8_u", "extend_low_i32x4_u"} -> Extend(t, a[1], FALSE, FALSE)
         [] op \in {"extend_high_i8x16_u", "extend_high_i16x8_u", "extend_high_i32x4_u"} -> Extend(t, a[1], TRUE, FALSE)
         [] op \in {"extmul_low_i8x16_s", "extmul_low_i16x8_s", "extmul_low_i32x4_s"} -> ExtMul(t, a[1], a[2], FALSE, TRUE)
         [] op \in {"extmul_high_i8x16_s", "extmul_high_i16x8_s", "extmul_high_i32x4_s"} -> ExtMul(t, a[1], a[2], TRUE, TRUE)
         [] op \in {"extmul_low_i8x16_u", "extmul_low_i16x8_u", "extmul_low_i32x4_u"} -> ExtMul(t, a[1], a[2], FALSE, FALSE)
         [] op \in {"extmul_high_i8x16_u", "extmul_high_i16x8_u", "extmul_high_i32x4_u"} -> ExtMul(t, a[1], a[2], TRUE, FALSE)
         [] op \in {"extadd_pairwise_i8x16_s", "extadd_pairwise_i16x8_s"} -> ExtAdd(t, a[1], TRUE)
         [] op \in {"extadd_pairwise_i8x16_u", "extadd_pairwise_i16x8_u"} -> ExtAdd(t, a[1], FALSE)
         [] op = "dot_i16x8_s" -> Dot(a[1], a[2])

\* Does an observed word r agree with an outcome (scalar or lanes)?
AgreesV(o, r) ==
  IF o.k # "lanes" THEN Agrees(o, r)
  ELSE LET n == 16 \div Len(o.l)
       IN Len(r) = 16 /\ \A i \in 1..Len(o.l) : Agrees(o.l[i], SubSeq(r, (i - 1) * n + 1, i * n))
=============================================================================
