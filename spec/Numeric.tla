------------------------------- MODULE Numeric ------------------------------
(* Dispatcher: the outcome of any numeric instruction.                        *)
(*   t  value type or vector shape the mnemonic starts with                   *)
(*   op rest of the mnemonic;  a operand words;  m immediate bytes            *)
EXTENDS SimdOps

IsI(t) == t \in {"i32", "i64"}
IsFl(t) == t \in {"f32", "f64"}
TW(t) == CASE t = "i32" -> 4 [] t = "i64" -> 8 [] t = "f32" -> 4 [] t = "f64" -> 8 [] t = "v128" -> 16
Fmt(t) == IF t = "f32" THEN F32 ELSE F64

Conv(t, op, x) ==
  LET n == TW(t)
  IN CASE op = "wrap_i64" -> Bits_(SubSeq(x, 1, 4))
       [] op = "extend_i32_s" -> Bits_(SExt(x, 8))
       [] op = "extend_i32_u" -> Bits_(Resize(x, 8))
       [] op = "trunc_f32_s" -> Truncate(F32, x, n, TRUE, FALSE)
       [] op = "trunc_f32_u" -> Truncate(F32, x, n, FALSE, FALSE)
       [] op = "trunc_f64_s" -> Truncate(F64, x, n, TRUE, FALSE)
       [] op = "trunc_f64_u" -> Truncate(F64, x, n, FALSE, FALSE)
       [] op = "trunc_sat_f32_s" -> Truncate(F32, x, n, TRUE, TRUE)
       [] op = "trunc_sat_f32_u" -> Truncate(F32, x, n, FALSE, TRUE)
       [] op = "trunc_sat_f64_s" -> Truncate(F64, x, n, TRUE, TRUE)
       [] op = "trunc_sat_f64_u" -> Truncate(F64, x, n, FALSE, TRUE)
       [] op \in {"convert_i32_s", "convert_i64_s"} -> Convert(Fmt(t), x, TRUE)
       [] op \in {"convert_i32_u", "convert_i64_u"} -> Convert(Fmt(t), x, FALSE)
       [] op = "demote_f64" -> Reformat(F64, F32, x)
       [] op = "promote_f32" -> Reformat(F32, F64, x)
       [] op \in {"reinterpret_f32", "reinterpret_f64", "reinterpret_i32", "reinterpret_i64"} -> Bits_(x)

ConvOps == {"wrap_i64", "extend_i32_s", "extend_i32_u", "trunc_f32_s", "trunc_f32_u", "trunc_f64_s",
            "trunc_f64_u", "trunc_sat_f32_s", "trunc_sat_f32_u", "trunc_sat_f64_s", "trunc_sat_f64_u",
            "convert_i32_s", "convert_i32_u", "convert_i64_s", "convert_i64_u", "demote_f64",
            "promote_f32", "reinterpret_f32", "reinterpret_f64", "reinterpret_i32", "reinterpret_i64"}

Eval(t, op, a, m) ==
  IF IsI(t) THEN
    IF op \in IntBinOps THEN IntBin(op, a[1], a[2])
    ELSE IF op \in IntUnOps THEN IntUn(op, a[1])
    ELSE Conv(t, op, a[1])
  ELSE IF IsFl(t) THEN
    IF op \in FUnOps THEN FUn(op, Fmt(t), a[1])
    ELSE IF op \in FRelOps THEN Bool(FRel(op, Fmt(t), a[1], a[2]))
    ELSE IF op \in FBinOps THEN FBin(op, Fmt(t), a[1], a[2])
    ELSE Conv(t, op, a[1])
  ELSE VEval(t, op, a, m)

\* Verdict of one observation: e.r = [k |-> "val", v |-> word] or [k |-> "trap"].
Conforms(e) ==
  LET o == Eval(e.t, e.op, e.a, e.m)
  IN IF e.r.k = "trap" THEN o.k = "trap"
     ELSE o.k # "trap" /\ AgreesV(o, e.r.v)
=============================================================================
