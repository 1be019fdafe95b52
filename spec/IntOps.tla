------------------------------- MODULE IntOps -------------------------------
(* The integer instructions of WebAssembly on words of any byte length.       *)
(* Results are outcomes: [k |-> "bits", v |-> word] or [k |-> "trap"].         *)
EXTENDS Bits

Bits_(v) == [k |-> "bits", v |-> v]
Trap == [k |-> "trap"]
Bool(b) == Bits_(IF b THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, 0>>)

Abs(a) == IF SignBit(a) = 1 THEN Neg(a) ELSE a

DivS(a, b) == LET q == DivMod(Abs(a), Abs(b)).q
              IN IF SignBit(a) = SignBit(b) THEN q ELSE Neg(q)
RemS(a, b) == LET r == DivMod(Abs(a), Abs(b)).r
              IN IF SignBit(a) = 1 THEN Neg(r) ELSE r

\* Shift counts are taken modulo the word size.
Count(a, b) == (b[1] + 256 * At(b, 2)) % (8 * Len(a))

Rotl(a, k) == OrW(ShlW(a, k), ShrW(a, 8 * Len(a) - k))

IntUn(op, a) ==
  CASE op = "clz" -> Bits_(FromInt(Clz(a), Len(a)))
    [] op = "ctz" -> Bits_(FromInt(Ctz(a), Len(a)))
    [] op = "popcnt" -> Bits_(FromInt(PopCount(a), Len(a)))
    [] op = "eqz" -> Bool(IsZero(a))
    [] op = "extend8_s" -> Bits_(SExt(SubSeq(a, 1, 1), Len(a)))
    [] op = "extend16_s" -> Bits_(SExt(SubSeq(a, 1, 2), Len(a)))
    [] op = "extend32_s" -> Bits_(SExt(SubSeq(a, 1, 4), Len(a)))

IntBin(op, a, b) ==
  CASE op = "add" -> Bits_(Add(a, b))
    [] op = "sub" -> Bits_(Sub(a, b))
    [] op = "mul" -> Bits_(Mul(a, b))
    [] op = "div_s" -> IF IsZero(b) THEN Trap
                       ELSE IF a = SMin(Len(a)) /\ IsOnes(b) THEN Trap
                       ELSE Bits_(DivS(a, b))
    [] op = "div_u" -> IF IsZero(b) THEN Trap ELSE Bits_(DivMod(a, b).q)
    [] op = "rem_s" -> IF IsZero(b) THEN Trap ELSE Bits_(RemS(a, b))
    [] op = "rem_u" -> IF IsZero(b) THEN Trap ELSE Bits_(DivMod(a, b).r)
    [] op = "and" -> Bits_(AndW(a, b))
    [] op = "or" -> Bits_(OrW(a, b))
    [] op = "xor" -> Bits_(XorW(a, b))
    [] op = "shl" -> Bits_(ShlW(a, Count(a, b)))
    [] op = "shr_s" -> Bits_(SarW(a, Count(a, b)))
    [] op = "shr_u" -> Bits_(ShrW(a, Count(a, b)))
    [] op = "rotl" -> Bits_(Rotl(a, Count(a, b)))
    [] op = "rotr" -> Bits_(Rotl(a, 8 * Len(a) - Count(a, b)))
    [] op = "eq" -> Bool(a = b)
    [] op = "ne" -> Bool(a # b)
    [] op = "lt_s" -> Bool(CmpS(a, b) < 0)
    [] op = "lt_u" -> Bool(CmpU(a, b) < 0)
    [] op = "gt_s" -> Bool(CmpS(a, b) > 0)
    [] op = "gt_u" -> Bool(CmpU(a, b) > 0)
    [] op = "le_s" -> Bool(CmpS(a, b) <= 0)
    [] op = "le_u" -> Bool(CmpU(a, b) <= 0)
    [] op = "ge_s" -> Bool(CmpS(a, b) >= 0)
    [] op = "ge_u" -> Bool(CmpU(a, b) >= 0)

IntUnOps == {"clz", "ctz", "popcnt", "eqz", "extend8_s", "extend16_s", "extend32_s"}
IntBinOps == {"add", "sub", "mul", "div_s", "div_u", "rem_s", "rem_u", "and", "or", "xor",
              "shl", "shr_s", "shr_u", "rotl", "rotr", "eq", "ne", "lt_s", "lt_u", "gt_s",
              "gt_u", "le_s", "le_u", "ge_s", "ge_u"}
=============================================================================
