------------------------------- MODULE Binary -------------------------------
(* The WebAssembly 2.0 binary format as a recursive-descent recogniser that   *)
(* rewrites what it reads into a canonical encoding (shortest integers, no    *)
(* custom or empty sections and, with Forms, the plainest segment, locals and *)
(* else forms).  Two binaries state the same module iff their canonical       *)
(* encodings are equal; a binary without one is ill-formed.                   *)
(*                                                                            *)
(* A parser yields [p, v]: the position after the item and its canonical      *)
(* bytes.  p = 0: ill-formed.  p = -1: outside what the properties claim      *)
(* (an integer encoded with more bits than its field has).                    *)
EXTENDS Integers, Sequences, TLC

CONSTANT Forms
Bad == [p |-> 0, v |-> << >>]
Odd == [p |-> 0 - 1, v |-> << >>]
R(p, v) == [p |-> p, v |-> v]

\* Continue with an already parsed prefix.
Pre(pre, r) == IF r.p <= 0 THEN r ELSE [p |-> r.p, v |-> pre \o r.v]

-----------------------------------------------------------------------------
(* Integers.                                                                  *)
RECURSIVE LebLen(_, _, _)
LebLen(b, i, e) == IF i > e THEN 0 ELSE IF b[i] < 128 THEN i ELSE LebLen(b, i + 1, e)   \* position of the last byte

\* Shortest unsigned form: drop zero groups at the top.
RECURSIVE TrimU(_)
TrimU(s) == LET n == Len(s)
            IN IF n > 1 /\ s[n] % 128 = 0 THEN TrimU([SubSeq(s, 1, n - 1) EXCEPT ![n - 1] = @ % 128]) ELSE s
\* Shortest signed form: drop groups that only repeat the sign below them.
RECURSIVE TrimS(_)
TrimS(s) == LET n == Len(s)
            IN IF n > 1 /\ ((s[n] = 0 /\ s[n - 1] % 128 < 64) \/ (s[n] = 127 /\ s[n - 1] % 128 >= 64))
               THEN TrimS([SubSeq(s, 1, n - 1) EXCEPT ![n - 1] = @ % 128]) ELSE s

U32(b, i, e) ==
  IF i > e THEN Bad
  ELSE IF b[i] < 128 THEN R(i + 1, <<b[i]>>)
  ELSE LET l == LebLen(b, i, e)
       IN IF l = 0 THEN Bad
          ELSE IF l - i > 4 \/ (l - i = 4 /\ b[l] > 15) THEN Odd
          ELSE R(l + 1, TrimU(SubSeq(b, i, l)))

\* Signed, of 32, 33 or 64 bits: hi is the range of the last byte of a full-length encoding.
SLeb(b, i, e, full, lo, hi) ==
  IF i > e THEN Bad
  ELSE IF b[i] < 128 THEN R(i + 1, <<b[i]>>)
  ELSE LET l == LebLen(b, i, e)
       IN IF l = 0 THEN Bad
          ELSE IF l - i + 1 > full \/ (l - i + 1 = full /\ ~(b[l] <= hi \/ (b[l] >= lo /\ b[l] <= 127))) THEN Odd
          ELSE R(l + 1, TrimS(SubSeq(b, i, l)))
S32(b, i, e) == SLeb(b, i, e, 5, 120, 7)
S33(b, i, e) == SLeb(b, i, e, 5, 112, 15)
S64(b, i, e) == SLeb(b, i, e, 10, 127, 0)

\* A canonical unsigned encoding as a TLC integer, saturated.
Big == 10000000
Num(s) == IF Len(s) > 4 THEN Big
          ELSE LET v == (s[1] % 128) + (IF Len(s) > 1 THEN 128 * (s[2] % 128) ELSE 0)
                        + (IF Len(s) > 2 THEN 16384 * (s[3] % 128) ELSE 0) + (IF Len(s) > 3 THEN 2097152 * s[4] ELSE 0)
               IN IF v > Big THEN Big ELSE v

-----------------------------------------------------------------------------
(* UTF-8.                                                                     *)
RECURSIVE Utf8(_, _, _)
Utf8(b, i, e) ==
  LET cont(k) == i + k <= e /\ b[i + k] >= 128 /\ b[i + k] < 192
  IN IF i > e THEN TRUE
     ELSE IF b[i] < 128 THEN Utf8(b, i + 1, e)
     ELSE IF b[i] >= 194 /\ b[i] <= 223 THEN cont(1) /\ Utf8(b, i + 2, e)
     ELSE IF b[i] >= 224 /\ b[i] <= 239
          THEN /\ cont(1) /\ cont(2)
               /\ (b[i] = 224 => b[i + 1] >= 160) /\ (b[i] = 237 => b[i + 1] < 160)
               /\ Utf8(b, i + 3, e)
     ELSE IF b[i] >= 240 /\ b[i] <= 244
          THEN /\ cont(1) /\ cont(2) /\ cont(3)
               /\ (b[i] = 240 => b[i + 1] >= 144) /\ (b[i] = 244 => b[i + 1] < 144)
               /\ Utf8(b, i + 4, e)
     ELSE FALSE

-----------------------------------------------------------------------------
(* Immediates of instructions, by opcode.                                     *)
Kind1 == TLCEval([o \in 0..255 |->
  CASE o \in {0, 1, 15, 26, 27, 209} -> "none"
    [] o \in {2, 3} -> "block"
    [] o = 4 -> "if"
    [] o = 5 -> "else"
    [] o = 11 -> "end"
    [] o \in {12, 13, 16, 210} \cup (32..38) -> "u"
    [] o = 14 -> "brt"
    [] o = 17 -> "uu"
    [] o = 28 -> "types"
    [] o \in 40..62 -> "mem"
    [] o \in {63, 64} -> "z"
    [] o = 65 -> "s32"
    [] o = 66 -> "s64"
    [] o = 67 -> "b4"
    [] o = 68 -> "b8"
    [] o \in 69..196 -> "none"
    [] o = 208 -> "ref"
    [] o = 252 -> "fc"
    [] o = 253 -> "fd"
    [] OTHER -> "bad"])
KindFC == TLCEval([o \in 0..17 |->
  CASE o \in 0..7 -> "none"
    [] o = 8 -> "uz"
    [] o \in {9, 13, 15, 16, 17} -> "u"
    [] o = 10 -> "zz"
    [] o = 11 -> "z"
    [] o \in {12, 14} -> "uu"])
NotFD == {154, 162, 165, 166, 175, 176, 178, 179, 180, 187, 194, 197, 198, 207, 208, 210, 211, 212, 226, 238}
KindFD == TLCEval([o \in 0..255 |->
  CASE o \in (0..11) \cup {92, 93} -> "mem"
    [] o = 12 -> "b16"
    [] o = 13 -> "shuf"
    [] o \in 21..34 -> "lane"
    [] o \in 84..91 -> "mlane"
    [] o \in NotFD -> "bad"
    [] OTHER -> "none"])

\* The largest alignment exponent an access may state, and the number of lanes
\* a lane index ranges over.
Align1 == TLCEval([o \in 40..62 |->
  CASE o \in {44, 45, 48, 49, 58, 60} -> 0
    [] o \in {46, 47, 50, 51, 59, 61} -> 1
    [] o \in {40, 42, 52, 53, 54, 56, 62} -> 2
    [] OTHER -> 3])
AlignFD == TLCEval([o \in 0..93 |->
  CASE o \in {0, 11} -> 4
    [] o \in (1..6) \cup {10, 87, 91, 93} -> 3
    [] o \in {9, 86, 90, 92} -> 2
    [] o \in {8, 85, 89} -> 1
    [] OTHER -> 0])
LanesFD == TLCEval([o \in 21..91 |->
  CASE o \in {21, 22, 23, 84, 88} -> 16
    [] o \in {24, 25, 26, 85, 89} -> 8
    [] o \in {27, 28, 31, 32, 86, 90} -> 4
    [] OTHER -> 2])

ValTypes == {127, 126, 125, 124, 123, 112, 111}
RefTypes == {112, 111}

OneOf(b, i, e, s) == IF i <= e /\ b[i] \in s THEN R(i + 1, <<b[i]>>) ELSE Bad
Raw(b, i, e, n) == IF i + n - 1 <= e THEN R(i + n, SubSeq(b, i, i + n - 1)) ELSE Bad

Then(r, P(_)) == IF r.p <= 0 THEN r ELSE LET t == P(r.p) IN IF t.p <= 0 THEN t ELSE [p |-> t.p, v |-> r.v \o t.v]

BlockType(b, i, e) ==
  IF i > e THEN Bad
  ELSE IF b[i] = 64 \/ b[i] \in ValTypes THEN R(i + 1, <<b[i]>>)
  ELSE LET r == S33(b, i, e)
       IN IF r.p <= 0 THEN r ELSE IF r.v[Len(r.v)] >= 64 THEN Bad ELSE r      \* an index is not negative

RECURSIVE Us(_, _, _, _, _)
Us(b, i, e, n, acc) ==
  IF n = 0 THEN R(i, acc)
  ELSE LET r == U32(b, i, e) IN IF r.p <= 0 THEN r ELSE Us(b, r.p, e, n - 1, acc \o r.v)
RECURSIVE Types(_, _, _, _, _)
Types(b, i, e, n, acc) ==
  IF n = 0 THEN R(i, acc)
  ELSE IF i > e \/ b[i] \notin ValTypes THEN Bad ELSE Types(b, i + 1, e, n - 1, Append(acc, b[i]))
VecTypes(b, i, e) == LET r == U32(b, i, e) IN IF r.p <= 0 THEN r ELSE Types(b, r.p, e, Num(r.v), r.v)

\* A memory access: alignment (an exponent, at most a) and offset.
MemArg(b, i, e, a) ==
  LET r == U32(b, i, e)
  IN IF r.p <= 0 THEN r ELSE IF Num(r.v) > a THEN Bad ELSE Pre(r.v, U32(b, r.p, e))
Lane(b, i, e, n) == OneOf(b, i, e, 0..(n - 1))
Imm(k, n, b, i, e) ==
  CASE k = "none" -> R(i, << >>)
    [] k \in {"block", "if"} -> BlockType(b, i, e)
    [] k = "u" -> U32(b, i, e)
    [] k = "uu" -> Us(b, i, e, 2, << >>)
    [] k = "brt" -> LET r == U32(b, i, e) IN IF r.p <= 0 THEN r ELSE Us(b, r.p, e, Num(r.v) + 1, r.v)
    [] k = "types" -> VecTypes(b, i, e)
    [] k = "z" -> OneOf(b, i, e, {0})
    [] k = "zz" -> IF i + 1 <= e /\ b[i] = 0 /\ b[i + 1] = 0 THEN R(i + 2, <<0, 0>>) ELSE Bad
    [] k = "uz" -> LET r == U32(b, i, e)
                   IN IF r.p <= 0 THEN r ELSE IF r.p <= e /\ b[r.p] = 0 THEN R(r.p + 1, r.v \o <<0>>) ELSE Bad
    [] k = "s32" -> S32(b, i, e)
    [] k = "s64" -> S64(b, i, e)
    [] k = "mem" -> MemArg(b, i, e, IF n < 0 THEN Align1[0 - n] ELSE AlignFD[n])
    [] k = "lane" -> Lane(b, i, e, LanesFD[n])
    [] k = "mlane" -> LET r == MemArg(b, i, e, AlignFD[n])
                      IN IF r.p <= 0 THEN r ELSE Pre(r.v, Lane(b, r.p, e, LanesFD[n]))
    [] k = "shuf" -> LET r == Raw(b, i, e, 16) IN IF r.p > 0 /\ (\A j \in 1..16 : r.v[j] < 32) THEN r ELSE Bad
    [] k = "b4" -> Raw(b, i, e, 4)
    [] k = "b8" -> Raw(b, i, e, 8)
    [] k = "b16" -> Raw(b, i, e, 16)
    [] k = "ref" -> OneOf(b, i, e, RefTypes)
    [] OTHER -> Bad

\* Instructions up to the end that closes the outermost level; st holds the
\* openers ("b", "i" an if, "e" an if past its else), le whether the last
\* instruction was an else.
RECURSIVE Instrs(_, _, _, _, _, _)
Instrs(b, i, e, st, acc, le) ==
  IF i > e THEN Bad
  ELSE
  LET o == b[i]
      k == Kind1[o]
  IN CASE k = "end" ->
            LET a == IF le /\ Forms THEN Append(SubSeq(acc, 1, Len(acc) - 1), 11) ELSE Append(acc, 11)
            IN IF st = << >> THEN R(i + 1, a) ELSE Instrs(b, i + 1, e, SubSeq(st, 1, Len(st) - 1), a, FALSE)
       [] k = "else" ->
            IF st # << >> /\ st[Len(st)] = "i" THEN Instrs(b, i + 1, e, [st EXCEPT ![Len(st)] = "e"], Append(acc, 5), TRUE) ELSE Bad
       [] k \in {"fc", "fd"} ->
            LET s == U32(b, i + 1, e)
                n == Num(s.v)
                kk == IF k = "fc" THEN (IF n <= 17 THEN KindFC[n] ELSE "bad") ELSE IF n <= 255 THEN KindFD[n] ELSE "bad"
                m == Imm(kk, n, b, s.p, e)
            IN IF s.p <= 0 THEN s ELSE IF m.p <= 0 THEN m ELSE Instrs(b, m.p, e, st, acc \o <<o>> \o s.v \o m.v, FALSE)
       [] k = "none" -> Instrs(b, i + 1, e, st, Append(acc, o), FALSE)
       [] OTHER ->
            LET m == Imm(k, 0 - o, b, i + 1, e)
                st1 == IF k = "block" THEN Append(st, "b") ELSE IF k = "if" THEN Append(st, "i") ELSE st
            IN IF m.p <= 0 THEN m ELSE Instrs(b, m.p, e, st1, acc \o <<o>> \o m.v, FALSE)
Expr(b, i, e) == Instrs(b, i, e, << >>, << >>, FALSE)

-----------------------------------------------------------------------------
(* Items of sections.                                                         *)
Name(b, i, e) ==
  LET r == U32(b, i, e)
      n == Num(r.v)
  IN IF r.p <= 0 THEN r
     ELSE IF r.p + n - 1 > e \/ ~Utf8(b, r.p, r.p + n - 1) THEN Bad
     ELSE R(r.p + n, r.v \o SubSeq(b, r.p, r.p + n - 1))
Bytes(b, i, e) ==
  LET r == U32(b, i, e)
      n == Num(r.v)
  IN IF r.p <= 0 THEN r ELSE IF r.p + n - 1 > e THEN Bad ELSE R(r.p + n, r.v \o SubSeq(b, r.p, r.p + n - 1))
Limits(b, i, e) == IF i > e \/ b[i] > 1 THEN Bad ELSE Pre(<<b[i]>>, Us(b, i + 1, e, 1 + b[i], << >>))
TableType(b, i, e) == IF i > e \/ b[i] \notin RefTypes THEN Bad ELSE Pre(<<b[i]>>, Limits(b, i + 1, e))
GlobalType(b, i, e) == IF i + 1 > e \/ b[i] \notin ValTypes \/ b[i + 1] > 1 THEN Bad ELSE R(i + 2, <<b[i], b[i + 1]>>)
FuncType(b, i, e) ==
  IF i > e \/ b[i] # 96 THEN Bad
  ELSE LET p == VecTypes(b, i + 1, e)
       IN IF p.p <= 0 THEN p ELSE Pre(<<96>> \o p.v, VecTypes(b, p.p, e))
Import(b, i, e) ==
  LET m == Name(b, i, e)
      n == Name(b, m.p, e)
  IN IF m.p <= 0 THEN m ELSE IF n.p <= 0 THEN n ELSE IF n.p > e THEN Bad
     ELSE Pre(m.v \o n.v \o <<b[n.p]>>,
              CASE b[n.p] = 0 -> U32(b, n.p + 1, e)
                [] b[n.p] = 1 -> TableType(b, n.p + 1, e)
                [] b[n.p] = 2 -> Limits(b, n.p + 1, e)
                [] b[n.p] = 3 -> GlobalType(b, n.p + 1, e)
                [] OTHER -> Bad)
Export(b, i, e) ==
  LET n == Name(b, i, e)
  IN IF n.p <= 0 THEN n ELSE IF n.p > e \/ b[n.p] > 3 THEN Bad
     ELSE Pre(Append(n.v, b[n.p]), U32(b, n.p + 1, e))
Global(b, i, e) == LET g == GlobalType(b, i, e) IN IF g.p <= 0 THEN g ELSE Pre(g.v, Expr(b, g.p, e))
Data(b, i, e) ==
  LET k == U32(b, i, e)
      f == IF k.p <= 0 THEN 0 ELSE Num(k.v)
      m == IF f = 2 THEN U32(b, k.p, e) ELSE R(k.p, << >>)
      o == Expr(b, m.p, e)
      pl == IF Forms /\ f = 2 /\ m.v = <<0>> THEN <<0>> ELSE k.v \o m.v
  IN IF k.p <= 0 THEN k ELSE IF f > 2 THEN Bad
     ELSE IF f = 1 THEN Pre(k.v, Bytes(b, k.p, e))
     ELSE IF m.p <= 0 THEN m ELSE IF o.p <= 0 THEN o ELSE Pre(pl \o o.v, Bytes(b, o.p, e))

\* Element items: function indices or expressions; as a pair of canonical
\* forms << as indices (if all are ref.func), as expressions >>.
RECURSIVE Exprs(_, _, _, _, _)
Exprs(b, i, e, n, acc) == IF n = 0 THEN R(i, acc) ELSE LET r == Expr(b, i, e) IN IF r.p <= 0 THEN r ELSE Exprs(b, r.p, e, n - 1, acc \o r.v)
RECURSIVE IdxExprs(_, _, _, _, _)
IdxExprs(b, i, e, n, acc) == IF n = 0 THEN R(i, acc) ELSE LET r == U32(b, i, e) IN IF r.p <= 0 THEN r ELSE IdxExprs(b, r.p, e, n - 1, acc \o <<210>> \o r.v \o <<11>>)
Elem(b, i, e) ==
  LET k == U32(b, i, e)
      f == IF k.p <= 0 THEN 0 ELSE Num(k.v)
      exprs == f >= 4
      active == f % 2 = 0
      t == IF f \in {2, 6} THEN U32(b, k.p, e) ELSE R(k.p, << >>)
      o == IF active /\ t.p > 0 THEN Expr(b, t.p, e) ELSE t
      off == IF active /\ t.p > 0 THEN o.v ELSE << >>
      y == IF f \in {0, 4} \/ o.p <= 0 THEN [p |-> o.p, v |-> << >>]
           ELSE IF exprs THEN OneOf(b, o.p, e, RefTypes) ELSE OneOf(b, o.p, e, {0})
      c == IF y.p <= 0 THEN y ELSE U32(b, y.p, e)
      xs == IF c.p <= 0 THEN c ELSE IF exprs THEN Exprs(b, c.p, e, Num(c.v), << >>)
            ELSE IF Forms THEN IdxExprs(b, c.p, e, Num(c.v), << >>) ELSE Us(b, c.p, e, Num(c.v), << >>)
      \* the plainest form: always expressions, explicit table and type
      ty == IF exprs /\ y.v # << >> THEN y.v ELSE <<112>>
      tab == IF t.v = << >> THEN <<0>> ELSE t.v
      whole == IF ~Forms THEN k.v \o t.v \o off \o y.v \o c.v \o xs.v
               ELSE (IF active THEN <<6>> \o tab \o off ELSE IF f \in {1, 5} THEN <<5>> ELSE <<7>>) \o ty \o c.v \o xs.v
  IN IF k.p <= 0 THEN k ELSE IF f > 7 THEN Bad ELSE IF xs.p <= 0 THEN xs ELSE R(xs.p, whole)

\* The type of a segment and its canonical number of items.
ElemHead(b, i, e) ==
  LET k == U32(b, i, e)
      f == Num(k.v)
      t == IF f \in {2, 6} THEN U32(b, k.p, e).p ELSE k.p
      o == IF f % 2 = 0 THEN Expr(b, t, e).p ELSE t
      y == IF f \in {0, 4} THEN o ELSE o + 1
  IN <<IF f \in {5, 6, 7} THEN b[o] ELSE 112>> \o U32(b, y, e).v

\* Runs of locals: << count, type >>, merged when Forms; counts saturate.
RECURSIVE Locals(_, _, _, _, _, _)
Locals(b, i, e, n, runs, raw) ==
  IF n = 0 THEN [p |-> i, v |-> IF Forms THEN runs ELSE << >>, raw |-> raw]
  ELSE LET c == U32(b, i, e)
           k == Num(c.v)
           t == IF c.p > 0 /\ c.p <= e THEN b[c.p] ELSE 0
           z == Len(runs)
           r1 == IF k = 0 THEN runs
                 ELSE IF z > 0 /\ runs[z][2] = t THEN [runs EXCEPT ![z] = <<IF @[1] + k > Big THEN Big ELSE @[1] + k, t>>]
                 ELSE Append(runs, <<k, t>>)
       IN IF c.p <= 0 THEN [p |-> c.p, v |-> << >>, raw |-> << >>]
          ELSE IF c.p > e \/ t \notin ValTypes THEN [p |-> 0, v |-> << >>, raw |-> << >>]
          ELSE Locals(b, c.p + 1, e, n - 1, r1, raw \o c.v \o <<t>>)
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE <<s[1][1], s[1][2]>> \o Flat(Tail(s))
Code(b, i, e) ==
  LET z == U32(b, i, e)
      f == z.p + Num(z.v) - 1                     \* last byte of the body
      n == IF z.p <= 0 \/ f > e THEN Bad ELSE U32(b, z.p, f)
      l == IF n.p <= 0 THEN [p |-> n.p, v |-> << >>, raw |-> << >>] ELSE Locals(b, n.p, f, Num(n.v), << >>, << >>)
      x == IF l.p <= 0 THEN Bad ELSE Expr(b, l.p, f)
  IN IF z.p <= 0 THEN z ELSE IF f > e THEN Bad ELSE IF n.p <= 0 THEN n
     ELSE IF l.p <= 0 THEN [p |-> l.p, v |-> << >>]
     ELSE IF x.p <= 0 THEN x
     ELSE IF x.p # f + 1 THEN Bad
     ELSE R(x.p, (IF Forms THEN Flat(l.v) ELSE n.v \o l.raw) \o x.v)

Item(sec, b, i, e) ==
  CASE sec = 1 -> FuncType(b, i, e)
    [] sec = 2 -> Import(b, i, e)
    [] sec = 3 -> U32(b, i, e)
    [] sec = 4 -> TableType(b, i, e)
    [] sec = 5 -> Limits(b, i, e)
    [] sec = 6 -> Global(b, i, e)
    [] sec = 7 -> Export(b, i, e)
    [] sec = 9 -> Elem(b, i, e)
    [] sec = 10 -> Code(b, i, e)
    [] sec = 11 -> Data(b, i, e)
RECURSIVE Items(_, _, _, _, _, _)
Items(sec, b, i, e, n, acc) ==
  IF n = 0 THEN R(i, acc)
  ELSE LET r == Item(sec, b, i, e) IN IF r.p <= 0 THEN r ELSE Items(sec, b, r.p, e, n - 1, acc \o r.v)

-----------------------------------------------------------------------------
(* The module: sections in order, each at most once, custom ones anywhere.    *)
Rank == [s \in 0..12 |-> CASE s = 12 -> 10 [] s = 10 -> 11 [] s = 11 -> 12 [] OTHER -> s]

\* s: [rank, fn, cn, dc, dn, p, v] with counts of functions, bodies, the data
\* count (-1 if absent) and data segments.
RECURSIVE Sections(_, _, _)
Sections(b, i, s) ==
  LET e == Len(b)
      id == b[i]
      z == U32(b, i + 1, e)
      f == z.p + Num(z.v) - 1
      c == U32(b, z.p, f)
      xs == IF id \in {8, 12} THEN c ELSE IF c.p <= 0 THEN c ELSE Items(id, b, c.p, f, Num(c.v), << >>)
      num == Num(c.v)
      fail(q) == [s EXCEPT !.p = q]
      keep == id \in {8, 12} \/ num > 0
  IN IF i > e THEN [s EXCEPT !.p = i]
     ELSE IF z.p = 0 - 1 THEN fail(0 - 1)
     ELSE IF z.p = 0 \/ f > e \/ id > 12 THEN fail(0)
     ELSE IF id = 0 THEN LET n == Name(b, z.p, f) IN IF n.p <= 0 THEN fail(n.p) ELSE Sections(b, f + 1, s)
     ELSE IF Rank[id] <= s.rank THEN fail(0)
     ELSE IF xs.p <= 0 THEN fail(xs.p)
     ELSE IF xs.p # f + 1 THEN fail(0)
     ELSE Sections(b, f + 1,
            [s EXCEPT !.rank = Rank[id],
                      !.fn = IF id = 3 THEN num ELSE @, !.cn = IF id = 10 THEN num ELSE @,
                      !.dc = IF id = 12 THEN num ELSE @, !.dn = IF id = 11 THEN num ELSE @,
                      !.v = IF keep /\ ~(Forms /\ id = 12) THEN @ \o <<id>> \o c.v \o (IF id \in {8, 12} THEN << >> ELSE xs.v) ELSE @])

Magic == <<0, 97, 115, 109, 1, 0, 0, 0>>
\* [ok, odd, canon]
Decode(b) ==
  IF Len(b) < 8 \/ SubSeq(b, 1, 8) # Magic THEN [ok |-> FALSE, odd |-> FALSE, canon |-> << >>]
  ELSE LET s == Sections(b, 9, [rank |-> 0, fn |-> 0, cn |-> 0, dc |-> 0 - 1, dn |-> 0, p |-> 9, v |-> << >>])
       IN IF s.p = 0 - 1 THEN [ok |-> FALSE, odd |-> TRUE, canon |-> << >>]
          ELSE [ok |-> s.p > 0 /\ s.fn = s.cn /\ (s.dc = 0 - 1 \/ s.dc = s.dn), odd |-> FALSE, canon |-> s.v]

-----------------------------------------------------------------------------
(* What a well-formed binary declares: for every section the canonical bytes  *)
(* of its items, of which a description must not differ.  Of a global its     *)
(* type counts, of a data segment its payload, of an element segment its type *)
(* and length, of a body nothing.                                             *)
Told(id, b, i, e) ==                              \* [p, v] of the item at i
  LET r == Item(id, b, i, e)
      n == Num(U32(b, i, e).v)
      k1 == U32(b, i, e).p
      m == IF n = 1 THEN k1 ELSE Expr(b, IF n = 2 THEN U32(b, k1, e).p ELSE k1, e).p   \* where the payload's length is
  IN CASE id = 6  -> R(r.p, SubSeq(r.v, 1, 2))
       [] id = 11 -> R(r.p, SubSeq(b, r.p - Num(U32(b, m, e).v), r.p - 1))
       [] id = 9  -> R(r.p, ElemHead(b, i, e))
       [] OTHER   -> r
RECURSIVE ToldAll(_, _, _, _, _, _)
ToldAll(id, b, i, e, n, acc) ==
  IF n = 0 THEN acc ELSE LET r == Told(id, b, i, e) IN ToldAll(id, b, r.p, e, n - 1, Append(acc, r.v))
RECURSIVE ToldFrom(_, _, _)
ToldFrom(b, i, d) ==
  IF i > Len(b) THEN d
  ELSE LET z == U32(b, i + 1, Len(b))
           f == z.p + Num(z.v) - 1
           c == U32(b, z.p, f)
       IN ToldFrom(b, f + 1,
            CASE b[i] \in {0, 10, 12} -> d
              [] b[i] = 8 -> [d EXCEPT ![8] = <<c.v>>]
              [] OTHER -> [d EXCEPT ![b[i]] = ToldAll(b[i], b, c.p, f, Num(c.v), << >>)])
Declares(b) == ToldFrom(b, 9, [s \in 1..11 |-> << >>])
=============================================================================
