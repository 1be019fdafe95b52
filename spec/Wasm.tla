-------------------------------- MODULE Wasm --------------------------------
(* The WebAssembly abstract machine with its embedder.                        *)
(*                                                                            *)
(* State is one record s; Step(s) is the (deterministic) transition.  The     *)
(* bottom frame of the stack is the embedder's script: it instantiates        *)
(* modules, invokes exports and looks at exported objects.  Host functions    *)
(* are programs of the same kind, so re-entry is ordinary stack growth.       *)
(* Every observable event is checked against the scenario's log (trace mode), *)
(* or is left free (mode "free": the scenario only drives the state machine). *)
(*                                                                            *)
(* A value is a sequence of bytes; references are <<0>> (null), <<1>>\o addr  *)
(* (function) and <<2>>\o addr (host object).                                 *)
EXTENDS Numeric, Json, IOUtils

\* The scenarios: modules, host programs, script and (in trace mode) the log.
Scen == ndJsonDeserialize(IOEnv.TRACE)

PAGE == 65536
MaxPages == 1024                \* the implementation's own limit on growth
MaxTable == 1024
MaxDepth == 420                 \* activations the specification follows

Chop(q, k) == SubSeq(q, 1, Len(q) - k)
TopN(q, k) == SubSeq(q, Len(q) - k + 1, Len(q))

Null == <<0>>
FRef(a) == <<1>> \o FromInt(a, 4)
FAddr(r) == ToInt(Tail(r))
DefVal(t) == CASE t \in {"i32", "f32"} -> Zero(4) [] t \in {"i64", "f64"} -> Zero(8)
               [] t = "v128" -> Zero(16) [] OTHER -> Null

Sc(s) == Scen[s.sc]
Mod(s, m) == Scen[s.sc].mods[m + 1]
InstMod(s, i) == Mod(s, s.inst[i].mod)

NImp(mod, k) == Len(SelectSeq(mod.imports, LAMBDA x : x.k = k))

\* ------------------------------------------------------------------ memory
ZChunk == TLCEval([i \in 1..64 |-> 0])
ZPage == TLCEval([i \in 1..1024 |-> << >>])
NewMem(n, mx) == [pg |-> [i \in 1..n |-> << >>], max |-> mx]
MemSize(m) == Len(m.pg) * PAGE

Chunk(m, c) ==                  \* c from 0; << >> stands for zeros
  LET p == m.pg[c \div 1024 + 1]
  IN IF p = << >> THEN << >> ELSE p[(c % 1024) + 1]

MemByte(m, a) == LET c == Chunk(m, a \div 64) IN IF c = << >> THEN 0 ELSE c[(a % 64) + 1]
MemRead(m, a, n) == Mk(n, LAMBDA i : MemByte(m, a + i - 1))

PutChunk(m, c, v) ==
  LET k == c \div 1024 + 1
      w == IF v = ZChunk THEN << >> ELSE v
  IN IF m.pg[k] = << >>
     THEN IF w = << >> THEN m ELSE [m EXCEPT !.pg[k] = [ZPage EXCEPT ![(c % 1024) + 1] = w]]
     ELSE [m EXCEPT !.pg[k] = [@ EXCEPT ![(c % 1024) + 1] = w]]

\* Write byte f(j) at address a + j for 0 <= j < n.
MemMap(m, a, n, f(_)) ==
  IF n = 0 THEN m
  ELSE LET c0 == a \div 64
           c1 == (a + n - 1) \div 64
           one(mm, c) ==
             LET old == Chunk(mm, c)
                 lo == c * 64
             IN PutChunk(mm, c, Mk(64, LAMBDA i :
                  LET p == lo + i - 1
                  IN IF p >= a /\ p < a + n THEN f(p - a)
                     ELSE IF old = << >> THEN 0 ELSE old[i]))
       IN FoldLeft(one, m, [i \in 1..(c1 - c0 + 1) |-> c0 + i - 1])
MemWrite(m, a, bs) == MemMap(m, a, Len(bs), LAMBDA j : bs[j + 1])

\* Range [x, x+n) against a size; x and n are naturals (words).
Fits(x, n, size) == LET e == AddX(x, n) IN Small(e) /\ ToInt(e) <= size

GrowLimit(cur, mx, n, impl) ==          \* may cur grow by the word n?
  /\ Small(n) /\ ToInt(n) <= impl - cur
  /\ mx = -1 \/ ToInt(n) <= mx - cur

\* --------------------------------------------------------- loads and stores
\* k: how the w bytes read become a value of r bytes
LoadInfo(op) ==
  CASE op \in {"i32.load", "f32.load"} -> [w |-> 4, k |-> "u", r |-> 4, x |-> 0]
    [] op \in {"i64.load", "f64.load"} -> [w |-> 8, k |-> "u", r |-> 8, x |-> 0]
    [] op = "i32.load8_s" -> [w |-> 1, k |-> "s", r |-> 4, x |-> 0]
    [] op = "i32.load8_u" -> [w |-> 1, k |-> "u", r |-> 4, x |-> 0]
    [] op = "i32.load16_s" -> [w |-> 2, k |-> "s", r |-> 4, x |-> 0]
    [] op = "i32.load16_u" -> [w |-> 2, k |-> "u", r |-> 4, x |-> 0]
    [] op = "i64.load8_s" -> [w |-> 1, k |-> "s", r |-> 8, x |-> 0]
    [] op = "i64.load8_u" -> [w |-> 1, k |-> "u", r |-> 8, x |-> 0]
    [] op = "i64.load16_s" -> [w |-> 2, k |-> "s", r |-> 8, x |-> 0]
    [] op = "i64.load16_u" -> [w |-> 2, k |-> "u", r |-> 8, x |-> 0]
    [] op = "i64.load32_s" -> [w |-> 4, k |-> "s", r |-> 8, x |-> 0]
    [] op = "i64.load32_u" -> [w |-> 4, k |-> "u", r |-> 8, x |-> 0]
    [] op = "v128.load" -> [w |-> 16, k |-> "u", r |-> 16, x |-> 0]
    [] op = "v128.load8x8_s" -> [w |-> 8, k |-> "xs", r |-> 16, x |-> 1]
    [] op = "v128.load8x8_u" -> [w |-> 8, k |-> "xu", r |-> 16, x |-> 1]
    [] op = "v128.load16x4_s" -> [w |-> 8, k |-> "xs", r |-> 16, x |-> 2]
    [] op = "v128.load16x4_u" -> [w |-> 8, k |-> "xu", r |-> 16, x |-> 2]
    [] op = "v128.load32x2_s" -> [w |-> 8, k |-> "xs", r |-> 16, x |-> 4]
    [] op = "v128.load32x2_u" -> [w |-> 8, k |-> "xu", r |-> 16, x |-> 4]
    [] op = "v128.load8_splat" -> [w |-> 1, k |-> "splat", r |-> 16, x |-> 0]
    [] op = "v128.load16_splat" -> [w |-> 2, k |-> "splat", r |-> 16, x |-> 0]
    [] op = "v128.load32_splat" -> [w |-> 4, k |-> "splat", r |-> 16, x |-> 0]
    [] op = "v128.load64_splat" -> [w |-> 8, k |-> "splat", r |-> 16, x |-> 0]
    [] op = "v128.load32_zero" -> [w |-> 4, k |-> "u", r |-> 16, x |-> 0]
    [] op = "v128.load64_zero" -> [w |-> 8, k |-> "u", r |-> 16, x |-> 0]
    [] op = "v128.load8_lane" -> [w |-> 1, k |-> "lane", r |-> 16, x |-> 0]
    [] op = "v128.load16_lane" -> [w |-> 2, k |-> "lane", r |-> 16, x |-> 0]
    [] op = "v128.load32_lane" -> [w |-> 4, k |-> "lane", r |-> 16, x |-> 0]
    [] op = "v128.load64_lane" -> [w |-> 8, k |-> "lane", r |-> 16, x |-> 0]

StoreWidth(op) ==
  CASE op \in {"i32.store8", "i64.store8", "v128.store8_lane"} -> 1
    [] op \in {"i32.store16", "i64.store16", "v128.store16_lane"} -> 2
    [] op \in {"i32.store", "f32.store", "i64.store32", "v128.store32_lane"} -> 4
    [] op \in {"i64.store", "f64.store", "v128.store64_lane"} -> 8
    [] op = "v128.store" -> 16
IsLane(op) == op \in {"v128.store8_lane", "v128.store16_lane", "v128.store32_lane", "v128.store64_lane",
                      "v128.load8_lane", "v128.load16_lane", "v128.load32_lane", "v128.load64_lane"}

\* -------------------------------------------------------------- verdicts
Done(s) == s.fin
Reject(s, why) == [s EXCEPT !.fin = TRUE, !.rej = why]
Finish(s) == [s EXCEPT !.fin = TRUE]
Free(s) == Sc(s).mode = "free"

Event(s) == Sc(s).log[s.lp]
HasEvent(s) == s.lp <= Len(Sc(s).log)

\* Consume an event of this kind satisfying Ok; want describes the expectation.
Expect(s, kind, Ok(_), want) ==
  IF Free(s) THEN s
  ELSE IF ~HasEvent(s) THEN Reject(s, "log ends; expected " \o kind \o " " \o ToString(want))
  ELSE IF Event(s).e # kind THEN Reject(s, "expected " \o kind \o " " \o ToString(want))
  ELSE IF ~Ok(Event(s)) THEN Reject(s, "expected " \o kind \o " " \o ToString(want))
  ELSE [s EXCEPT !.lp = @ + 1]

\* Observed value o agrees with the specification's v at type t.  Function
\* references are opaque numbers; s.fm relates them one to one to addresses.
FloatAgree(t, v, o) == v = o \/ (Len(v) = Len(o) /\ IsNaN(Fmt(t), v) /\ IsNaN(Fmt(t), o))
Linked(s, raw, a) == \A p \in s.fm : (p[1] = raw) <=> (p[2] = a)
Agree(s, t, v, o) ==
  CASE t \in {"f32", "f64"} -> FloatAgree(t, v, o)
    [] t = "funcref" -> IF v = Null \/ o = Null THEN v = o ELSE Linked(s, o, v)
    [] OTHER -> v = o
AgreeAll(s, ts, vs, os) == /\ Len(os) = Len(vs)
                           /\ \A i \in 1..Len(vs) : Agree(s, ts[i], vs[i], os[i])
\* Remember the function references of an accepted event.
Learn(s, ts, vs, os) ==
  [s EXCEPT !.fm = @ \cup {<<os[i], vs[i]>> : i \in {j \in 1..Len(vs) : ts[j] = "funcref" /\ vs[j] # Null}}]

ExpectVals(s, kind, ts, vs, Extra(_)) ==
  LET t == Expect(s, kind, LAMBDA e : Extra(e) /\ AgreeAll(s, ts, vs, e.v), vs)
  IN IF Free(s) \/ t.fin THEN t ELSE Learn(t, ts, vs, Event(s).v)

Refs(ts, vs) == SelectSeq([i \in 1..Len(vs) |-> <<ts[i], vs[i]>>], LAMBDA p : p[1] = "funcref")

\* ---------------------------------------------------------------- frames
Top(s) == Last(s.stk)
Put(s, f) == [s EXCEPT !.stk[Len(s.stk)] = f]
PushF(s, f) == [s EXCEPT !.stk = Append(@, f)]
PopF(s) == [s EXCEPT !.stk = Chop(@, 1)]

FType(s, fa) == s.func[fa].t
HostFrame(h, args, ts) == [k |-> "h", h |-> h, pc |-> 1, args |-> args, at |-> ts, last |-> << >>, lt |-> << >>]

\* Unwind to the nearest host frame; what it does with the trap is its business.
Trap_(s) == LET RECURSIVE down(_)
                down(n) == IF s.stk[n].k = "h" THEN n ELSE down(n - 1)
                n == down(Len(s.stk))
            IN [s EXCEPT !.stk = SubSeq(@, 1, n), !.sig = TRUE]

DoCall(s, fa, args) ==
  LET fn == s.func[fa]
  IN IF fn.k = "host"
     THEN LET t == ExpectVals(s, "host", fn.t.p, args, LAMBDA e : e.h = fn.h)
          IN IF t.fin THEN t
             ELSE PushF([t EXCEPT !.caps = @ \o Refs(fn.t.p, args)], HostFrame(fn.h, args, fn.t.p))
     ELSE IF Len(s.stk) >= MaxDepth THEN Trap_(s)
     ELSE LET code == Mod(s, fn.mod).funcs[fn.f + 1]
          IN PushF(s, [k |-> "w", i |-> fn.i, mod |-> fn.mod, f |-> fn.f + 1,
                       loc |-> args \o [j \in 1..Len(code.locals) |-> DefVal(code.locals[j])],
                       st |-> << >>, lab |-> << >>, bl |-> 1, pc |-> 1, ar |-> Len(fn.t.r)])

\* Results reach the frame below.  A host frame is waiting at a "call" step.
Deliver(s, vs) ==
  LET f == Top(s)
  IN CASE f.k = "w" -> Put(s, [f EXCEPT !.st = @ \o vs])
       [] f.k = "i" -> s
       [] f.k = "h" ->
            LET t == ExpectVals(s, "ret", f.lt, vs, LAMBDA e : e.am = 0)
            IN IF t.fin THEN t
               ELSE Put([t EXCEPT !.caps = @ \o Refs(f.lt, vs)], [f EXCEPT !.pc = @ + 1, !.last = vs])

Return(s, f, vs) == Deliver(PopF(s), vs)

\* ---------------------------------------------------------- wasm execution
Branch(s, f, l) ==
  IF l = Len(f.lab) THEN Return(s, f, TopN(f.st, f.ar))
  ELSE LET n == Len(f.lab) - l
           b == f.lab[n]
           st == SubSeq(f.st, 1, b.ht) \o TopN(f.st, b.ar)
       IN IF b.loop THEN Put(s, [f EXCEPT !.st = st, !.lab = SubSeq(@, 1, n), !.bl = b.bl, !.pc = 1])
          ELSE Put(s, [f EXCEPT !.st = st, !.lab = SubSeq(@, 1, n - 1), !.bl = b.cb, !.pc = b.cp])

\* Enter block b; it has np parameters on the stack and na branch operands.
Enter(s, f, b, np, na, loop) ==
  Put(s, [f EXCEPT !.lab = Append(@, [ar |-> na, ht |-> Len(f.st) - np, bl |-> b, cb |-> f.bl, cp |-> f.pc,
                                      loop |-> loop]),
                   !.bl = b, !.pc = 1])

MemOf(s, f) == s.inst[f.i].mem[1]
TabOf(s, f, x) == s.inst[f.i].tab[x + 1]
GlobOf(s, f, x) == s.inst[f.i].glob[x + 1]

Exec(s, f, i) ==                        \* f.pc already advanced
  LET st == f.st
      n == Len(st)
      a == st[n]                        \* (lazy: only where the operand exists)
      b == st[n - 1]
      c == st[n - 2]
      pop(k) == Chop(st, k)
      res(k, v) == Put(s, [f EXCEPT !.st = Append(pop(k), v)])
      eff(k, t) == Put(t, [f EXCEPT !.st = pop(k)])
      o == i.o
  IN
  CASE o = "const" -> res(0, i.v)
    [] o = "local.get" -> res(0, f.loc[i.x + 1])
    [] o = "local.set" -> Put(s, [f EXCEPT !.loc[i.x + 1] = a, !.st = pop(1)])
    [] o = "local.tee" -> Put(s, [f EXCEPT !.loc[i.x + 1] = a])
    [] o = "num" ->
         LET r == Eval(i.t, i.op, TopN(st, i.n), i.m)
         IN IF r.k = "bits" THEN res(i.n, r.v)
            ELSE IF r.k = "lanes" /\ \A j \in 1..Len(r.l) : r.l[j].k = "bits"
                 THEN res(i.n, Cat([j \in 1..Len(r.l) |-> r.l[j].v]))
            ELSE IF r.k = "trap" THEN Trap_(s)
            ELSE [Finish(s) EXCEPT !.nd = TRUE]          \* result not determined: follow no further
    [] o = "drop" -> eff(1, s)
    [] o = "nop" -> Put(s, f)
    [] o = "unreachable" -> Trap_(s)
    [] o \in {"select", "select_t"} -> res(3, IF IsZero(a) THEN b ELSE c)
    [] o = "block" -> Enter(s, f, i.b, Len(i.p), Len(i.r), FALSE)
    [] o = "loop" -> Enter(s, f, i.b, Len(i.p), Len(i.p), TRUE)
    [] o = "if" ->
         LET g == [f EXCEPT !.st = pop(1)]
             tgt == IF IsZero(a) THEN i.e ELSE i.b
         IN IF tgt = 0 THEN Put(s, g) ELSE Enter(s, g, tgt, Len(i.p), Len(i.r), FALSE)
    [] o = "br" -> Branch(s, f, i.l)
    [] o = "br_if" -> LET g == [f EXCEPT !.st = pop(1)]
                      IN IF IsZero(a) THEN Put(s, g) ELSE Branch(s, g, i.l)
    [] o = "br_table" ->
         LET g == [f EXCEPT !.st = pop(1)]
             l == IF Small(a) /\ ToInt(a) < Len(i.ls) THEN i.ls[ToInt(a) + 1] ELSE i.d
         IN Branch(s, g, l)
    [] o = "return" -> Return(s, f, TopN(st, f.ar))
    [] o = "call" ->
         LET fa == s.inst[f.i].func[i.f + 1]
             k == Len(FType(s, fa).p)
         IN DoCall(eff(k, s), fa, TopN(st, k))
    [] o = "call_indirect" ->
         LET t == s.tabl[TabOf(s, f, i.x)]
             ty == Mod(s, f.mod).types[i.ty + 1]
             k == Len(ty.p)
             r == t.el[ToInt(a) + 1]
         IN IF ~Fits(a, <<1>>, Len(t.el)) THEN Trap_(s)
            ELSE IF r = Null THEN Trap_(s)
            ELSE IF FType(s, FAddr(r)) # [p |-> ty.p, r |-> ty.r] THEN Trap_(s)
            ELSE DoCall(eff(k + 1, s), FAddr(r), TopN(pop(1), k))
    [] o = "global.get" -> res(0, s.glob[GlobOf(s, f, i.x)].v)
    [] o = "global.set" -> eff(1, [s EXCEPT !.glob[GlobOf(s, f, i.x)].v = a])
    [] o = "load" ->
         LET m == s.mems[MemOf(s, f)]
             q == LoadInfo(i.op)
             lane == IsLane(i.op)
             ea == AddX(IF lane THEN b ELSE a, i.off)
         IN IF ~Fits(ea, <<q.w>>, MemSize(m)) THEN Trap_(s)
            ELSE LET d == MemRead(m, ToInt(ea), q.w)
                     v == CASE q.k = "u" -> Resize(d, q.r)
                            [] q.k = "s" -> SExt(d, q.r)
                            [] q.k = "xs" -> Cat([j \in 1..(8 \div q.x) |-> SExt(SubSeq(d, (j-1)*q.x + 1, j*q.x), 2*q.x)])
                            [] q.k = "xu" -> Cat([j \in 1..(8 \div q.x) |-> Resize(SubSeq(d, (j-1)*q.x + 1, j*q.x), 2*q.x)])
                            [] q.k = "splat" -> Mk(16, LAMBDA j : d[((j - 1) % q.w) + 1])
                            [] q.k = "lane" -> Mk(16, LAMBDA j : IF (j - 1) \div q.w = i.m[1] THEN d[((j - 1) % q.w) + 1] ELSE a[j])
                 IN res(IF lane THEN 2 ELSE 1, v)
    [] o = "store" ->
         LET m == s.mems[MemOf(s, f)]
             w == StoreWidth(i.op)
             ea == AddX(b, i.off)
             d == IF IsLane(i.op) THEN SubSeq(a, i.m[1] * w + 1, (i.m[1] + 1) * w) ELSE SubSeq(a, 1, w)
         IN IF ~Fits(ea, <<w>>, MemSize(m)) THEN Trap_(s)
            ELSE eff(2, [s EXCEPT !.mems[MemOf(s, f)] = MemWrite(@, ToInt(ea), d)])
    [] o = "memory.size" -> res(0, FromInt(Len(s.mems[MemOf(s, f)].pg), 4))
    [] o = "memory.grow" ->
         LET m == s.mems[MemOf(s, f)]
             cur == Len(m.pg)
             g == [f EXCEPT !.st = Append(pop(1), IF GrowLimit(cur, m.max, a, MaxPages) THEN FromInt(cur, 4) ELSE Ones(4))]
         IN IF GrowLimit(cur, m.max, a, MaxPages)
            THEN Put([s EXCEPT !.mems[MemOf(s, f)].pg = @ \o [j \in 1..ToInt(a) |-> << >>]], g)
            ELSE Put(s, g)
    [] o = "memory.fill" ->             \* dst value len
         LET m == s.mems[MemOf(s, f)]
         IN IF ~Fits(c, a, MemSize(m)) THEN Trap_(s)
            ELSE eff(3, [s EXCEPT !.mems[MemOf(s, f)] = MemMap(@, ToInt(c), ToInt(a), LAMBDA j : b[1])])
    [] o = "memory.copy" ->             \* dst src len
         LET m == s.mems[MemOf(s, f)]
         IN IF ~Fits(c, a, MemSize(m)) \/ ~Fits(b, a, MemSize(m)) THEN Trap_(s)
            ELSE LET src == ToInt(b)
                 IN eff(3, [s EXCEPT !.mems[MemOf(s, f)] = MemMap(@, ToInt(c), ToInt(a), LAMBDA j : MemByte(m, src + j))])
    [] o = "memory.init" ->
         LET m == s.mems[MemOf(s, f)]
             d == s.data[s.inst[f.i].data[i.x + 1]]
         IN IF ~Fits(c, a, MemSize(m)) \/ ~Fits(b, a, Len(d)) THEN Trap_(s)
            ELSE LET src == ToInt(b)
                 IN eff(3, [s EXCEPT !.mems[MemOf(s, f)] = MemMap(@, ToInt(c), ToInt(a), LAMBDA j : d[src + j + 1])])
    [] o = "data.drop" -> Put([s EXCEPT !.data[s.inst[f.i].data[i.x + 1]] = << >>], f)
    [] o = "elem.drop" -> Put([s EXCEPT !.elem[s.inst[f.i].elem[i.x + 1]] = << >>], f)
    [] o = "ref.null" -> res(0, Null)
    [] o = "ref.func" -> res(0, FRef(s.inst[f.i].func[i.x + 1]))
    [] o = "ref.is_null" -> res(1, IF a = Null THEN FromInt(1, 4) ELSE Zero(4))
    [] o = "table.get" ->
         LET t == s.tabl[TabOf(s, f, i.x)]
         IN IF ~Fits(a, <<1>>, Len(t.el)) THEN Trap_(s) ELSE res(1, t.el[ToInt(a) + 1])
    [] o = "table.set" ->
         LET x == TabOf(s, f, i.x)
         IN IF ~Fits(b, <<1>>, Len(s.tabl[x].el)) THEN Trap_(s)
            ELSE eff(2, [s EXCEPT !.tabl[x].el[ToInt(b) + 1] = a])
    [] o = "table.size" -> res(0, FromInt(Len(s.tabl[TabOf(s, f, i.x)].el), 4))
    [] o = "table.grow" ->              \* init n
         LET x == TabOf(s, f, i.x)
             cur == Len(s.tabl[x].el)
             ok == GrowLimit(cur, s.tabl[x].max, a, MaxTable)
             g == [f EXCEPT !.st = Append(pop(2), IF ok THEN FromInt(cur, 4) ELSE Ones(4))]
         IN IF ok THEN Put([s EXCEPT !.tabl[x].el = @ \o [j \in 1..ToInt(a) |-> b]], g) ELSE Put(s, g)
    [] o = "table.fill" ->              \* dst ref n
         LET x == TabOf(s, f, i.x)
             d == ToInt(c)
         IN IF ~Fits(c, a, Len(s.tabl[x].el)) THEN Trap_(s)
            ELSE eff(3, [s EXCEPT !.tabl[x].el = Mk(Len(@), LAMBDA j : IF j > d /\ j <= d + ToInt(a) THEN b ELSE s.tabl[x].el[j])])
    [] o = "table.copy" ->              \* dst src n; x destination table, y source table
         LET x == TabOf(s, f, i.x)
             y == TabOf(s, f, i.y)
             d == ToInt(c)
             e == ToInt(b)
         IN IF ~Fits(c, a, Len(s.tabl[x].el)) \/ ~Fits(b, a, Len(s.tabl[y].el)) THEN Trap_(s)
            ELSE eff(3, [s EXCEPT !.tabl[x].el = Mk(Len(@), LAMBDA j :
                           IF j > d /\ j <= d + ToInt(a) THEN s.tabl[y].el[j - d + e] ELSE s.tabl[x].el[j])])
    [] o = "table.init" ->              \* x table, y segment
         LET x == TabOf(s, f, i.x)
             q == s.elem[s.inst[f.i].elem[i.y + 1]]
             d == ToInt(c)
             e == ToInt(b)
         IN IF ~Fits(c, a, Len(s.tabl[x].el)) \/ ~Fits(b, a, Len(q)) THEN Trap_(s)
            ELSE eff(3, [s EXCEPT !.tabl[x].el = Mk(Len(@), LAMBDA j :
                           IF j > d /\ j <= d + ToInt(a) THEN q[j - d + e] ELSE s.tabl[x].el[j])])

WStep(s) ==
  LET f == Top(s)
      blk == Mod(s, f.mod).funcs[f.f].blocks[f.bl]
  IN IF f.pc > Len(blk)
     THEN IF f.lab = << >> THEN Return(s, f, TopN(f.st, f.ar))
          ELSE LET b == Last(f.lab) IN Put(s, [f EXCEPT !.lab = Chop(@, 1), !.bl = b.cb, !.pc = b.cp])
     ELSE Exec(s, [f EXCEPT !.pc = @ + 1], blk[f.pc])

\* ----------------------------------------------------------- instantiation
\* An external object is [k |-> kind, a |-> address].
Resolve(s, r) ==
  CASE r.k = "obj" -> IF r.i + 1 <= Len(s.ext) THEN s.ext[r.i + 1] ELSE [k |-> "none", a |-> 0]
    [] r.k = "exp" ->
         LET h == IF r.i + 1 <= Len(s.hnd) THEN s.hnd[r.i + 1] ELSE 0
             xs == IF h = 0 THEN << >> ELSE SelectSeq(InstMod(s, h).exports, LAMBDA e : e.n = r.n)
         IN IF xs = << >> THEN [k |-> "none", a |-> 0]
            ELSE LET e == xs[1]
                     tbl == CASE e.k = "func" -> s.inst[h].func [] e.k = "table" -> s.inst[h].tab
                              [] e.k = "mem" -> s.inst[h].mem [] e.k = "global" -> s.inst[h].glob
                 IN [k |-> e.k, a |-> tbl[e.i + 1]]
    [] r.k = "caller" ->        \* the memory of the instance whose code called this host function
         LET n == Len(s.stk) - 1
         IN IF n >= 1 /\ s.stk[n].k \in {"w", "i"} /\ s.inst[s.stk[n].i].mem # << >>
            THEN [k |-> "mem", a |-> s.inst[s.stk[n].i].mem[1]]
            ELSE [k |-> "none", a |-> 0]
    [] OTHER -> [k |-> "none", a |-> 0]

LimOK(size, mx, d) == size >= d.min /\ (d.max = -1 \/ (mx # -1 /\ mx <= d.max))

Matches(s, m, d, x) ==
  /\ x.k = d.k
  /\ CASE d.k = "func" -> FType(s, x.a) = [p |-> m.types[d.t + 1].p, r |-> m.types[d.t + 1].r]
       [] d.k = "table" -> s.tabl[x.a].et = d.et /\ LimOK(Len(s.tabl[x.a].el), s.tabl[x.a].max, d)
       [] d.k = "mem" -> LimOK(Len(s.mems[x.a].pg), s.mems[x.a].max, d)
       [] d.k = "global" -> s.glob[x.a].vt = d.vt /\ s.glob[x.a].mut = d.mut

KindAddrs(m, xs, k) == LET q == SelectSeq([j \in 1..Len(xs) |-> <<m.imports[j].k, xs[j].a>>], LAMBDA p : p[1] = k)
                       IN [j \in 1..Len(q) |-> q[j][2]]

\* Value of a constant expression given the new instance's function addresses
\* and the addresses of its imported globals.
ConstVal(s, e, funcs, globs) ==
  CASE e.o = "const" -> e.v
    [] e.o = "global.get" -> s.glob[globs[e.x + 1]].v
    [] e.o = "ref.null" -> Null
    [] e.o = "ref.func" -> FRef(funcs[e.x + 1])

Allocate(s, mi, m, xs) ==
  LET ii == Len(s.inst) + 1
      nf == Len(s.func) nt == Len(s.tabl) nm == Len(s.mems) ng == Len(s.glob) ne == Len(s.elem) nd == Len(s.data)
      funcs == KindAddrs(m, xs, "func") \o [j \in 1..Len(m.funcs) |-> nf + j]
      gimp == KindAddrs(m, xs, "global")
  IN [s EXCEPT
        !.func = @ \o [j \in 1..Len(m.funcs) |->
                         [k |-> "wasm", i |-> ii, mod |-> mi, f |-> j - 1, h |-> 0,
                          t |-> [p |-> m.types[m.funcs[j].t + 1].p, r |-> m.types[m.funcs[j].t + 1].r]]],
        !.tabl = @ \o [j \in 1..Len(m.tables) |->
                         [et |-> m.tables[j].et, max |-> m.tables[j].max, el |-> [q \in 1..m.tables[j].min |-> Null]]],
        !.mems = @ \o [j \in 1..Len(m.mems) |-> NewMem(m.mems[j].min, m.mems[j].max)],
        !.glob = @ \o [j \in 1..Len(m.globals) |->
                         [vt |-> m.globals[j].vt, mut |-> m.globals[j].mut,
                          v |-> ConstVal(s, m.globals[j].init, funcs, gimp)]],
        !.elem = @ \o [j \in 1..Len(m.elems) |->
                         [q \in 1..Len(m.elems[j].init) |-> ConstVal(s, m.elems[j].init[q], funcs, gimp)]],
        !.data = @ \o [j \in 1..Len(m.datas) |-> m.datas[j].bytes],
        !.inst = Append(@, [mod |-> mi,
                            func |-> funcs,
                            tab |-> KindAddrs(m, xs, "table") \o [j \in 1..Len(m.tables) |-> nt + j],
                            mem |-> KindAddrs(m, xs, "mem") \o [j \in 1..Len(m.mems) |-> nm + j],
                            glob |-> gimp \o [j \in 1..Len(m.globals) |-> ng + j],
                            elem |-> [j \in 1..Len(m.elems) |-> ne + j],
                            data |-> [j \in 1..Len(m.datas) |-> nd + j]])]

\* One step of an instantiation frame: phases 1 element segments, 2 data
\* segments, 3 start, 4 finished.
IStep(s) ==
  LET f == Top(s)
      m == InstMod(s, f.i)
      ins == s.inst[f.i]
      gimp == ins.glob
      next(t, p, j) == Put(t, [f EXCEPT !.ph = p, !.j = j])
  IN CASE f.ph = 1 ->
            IF f.j > Len(m.elems) THEN next(s, 2, 1)
            ELSE LET e == m.elems[f.j]
                     q == s.elem[ins.elem[f.j]]
                     off == ConstVal(s, e.off, ins.func, gimp)
                     x == ins.tab[e.tab + 1]
                     d == ToInt(off)
                     dropped == [s EXCEPT !.elem[ins.elem[f.j]] = << >>]
                 IN IF e.mode = "passive" THEN next(s, 1, f.j + 1)
                    ELSE IF e.mode = "declarative" THEN next(dropped, 1, f.j + 1)
                    ELSE IF ~Fits(off, FromInt(Len(q), 4), Len(s.tabl[x].el)) THEN Trap_(s)
                    ELSE next([dropped EXCEPT !.tabl[x].el = Mk(Len(@), LAMBDA j :
                                 IF j > d /\ j <= d + Len(q) THEN q[j - d] ELSE s.tabl[x].el[j])], 1, f.j + 1)
       [] f.ph = 2 ->
            IF f.j > Len(m.datas) THEN next(s, 3, 1)
            ELSE LET e == m.datas[f.j]
                     off == ConstVal(s, e.off, ins.func, gimp)
                     x == ins.mem[1]
                 IN IF e.mode = "passive" THEN next(s, 2, f.j + 1)
                    ELSE IF ~Fits(off, FromInt(Len(e.bytes), 4), MemSize(s.mems[x])) THEN Trap_(s)
                    ELSE next([s EXCEPT !.mems[x] = MemWrite(@, ToInt(off), e.bytes),
                                        !.data[ins.data[f.j]] = << >>], 2, f.j + 1)
       [] f.ph = 3 ->
            IF m.start = -1 THEN next(s, 4, 1)
            ELSE DoCall(next(s, 4, 1), ins.func[m.start + 1], << >>)
       [] f.ph = 4 ->
            LET t == PopF(s)
                h == Top(t)
                u == Expect(t, "inst", LAMBDA e : e.ok = 1, "success")
            IN IF u.fin THEN u ELSE Put([u EXCEPT !.hnd = Append(@, f.i)], [h EXCEPT !.pc = @ + 1])

\* ------------------------------------------------------- embedder programs
\* Values in programs: [k |-> "c", t, v] a constant, "a" the x-th argument,
\* "r" the x-th result of the last call, "cap" the x-th captured function
\* reference (the last one if there are fewer; null if there is none).
PVal(s, f, p) ==
  CASE p.k = "c" -> p.v
    [] p.k = "a" -> f.args[p.x + 1]
    [] p.k = "r" -> f.last[p.x + 1]
    [] p.k = "cap" -> IF s.caps = << >> THEN Null
                      ELSE IF p.x + 1 <= Len(s.caps) THEN s.caps[p.x + 1][2] ELSE Last(s.caps)[2]

Prog(s, f) == IF f.h = 0 THEN s.script ELSE Sc(s).hosts[f.h].prog

FailInst(s, f) ==
  LET u == Expect(s, "inst", LAMBDA e : e.ok = 0, "failure")
  IN IF u.fin THEN u ELSE Put([u EXCEPT !.hnd = Append(@, 0)], [f EXCEPT !.pc = @ + 1])

HostTrap(s, f) ==               \* an exception leaves the host program
  IF f.h = 0 THEN Reject(s, "script raised") ELSE Trap_(PopF(s))

HStep(s0) ==
  LET sig == s0.sig
      s == [s0 EXCEPT !.sig = FALSE]
      f == Top(s)
      prog == Prog(s, f)
      next(t) == Put(t, [f EXCEPT !.pc = @ + 1])
      err(t) == LET u == Expect(t, "err", LAMBDA e : TRUE, "an exception") IN IF u.fin THEN u ELSE next(u)
      ok(t, kind, Q(_), want) == LET u == Expect(t, kind, Q, want) IN IF u.fin THEN u ELSE next(u)
  IN IF f.pc > Len(prog)
     THEN IF f.h = 0
          THEN IF ~Free(s) /\ HasEvent(s) THEN Reject(s, "unexpected further event") ELSE Finish(s)
          ELSE Return(s, f, << >>)
     ELSE
     LET o == prog[f.pc]
         x == Resolve(s, o.on)
     IN
     IF sig THEN                        \* the pending step was cut off by a trap
        IF o.o = "inst" THEN FailInst(s, f)
        ELSE LET u == Expect(s, "trap", LAMBDA e : TRUE, "trap")
             IN IF u.fin THEN u ELSE IF o.catch = 1 THEN next(u) ELSE HostTrap(u, f)
     ELSE
     CASE o.o = "inst" ->
            LET m == Mod(s, o.mod)
                \* by position, or by both names from everything the embedder offers
                named(i) == {k \in 1..Len(o.env) : o.env[k].m = i.m /\ o.env[k].n = i.n}
                xs == [j \in 1..Len(m.imports) |->
                         IF "env" \notin DOMAIN o THEN Resolve(s, o.imps[j])
                         ELSE IF named(m.imports[j]) = {} THEN [k |-> "none", a |-> 0]
                         ELSE Resolve(s, o.env[CHOOSE k \in named(m.imports[j]) : TRUE].r)]
            IN IF \E j \in 1..Len(xs) : ~Matches(s, m, m.imports[j], xs[j]) THEN FailInst(s, f)
               ELSE LET t == Allocate(s, o.mod, m, xs)
                    IN PushF(t, [k |-> "i", i |-> Len(t.inst), ph |-> 1, j |-> 1])
       [] o.o = "call" ->
            LET tf == IF x.k = "func" THEN FType(s, x.a) ELSE [p |-> << >>, r |-> << >>]
            IN IF x.k # "func" \/ Len(o.a) # Len(tf.p)
               THEN LET u == Expect(s, "trap", LAMBDA e : TRUE, "refusal")
                    IN IF u.fin THEN u ELSE IF o.catch = 1 THEN next(u) ELSE HostTrap(u, f)
               ELSE DoCall(Put(s, [f EXCEPT !.lt = tf.r]), x.a,
                           [j \in 1..Len(o.a) |-> PVal(s, f, o.a[j])])
       [] o.o = "mem" ->                \* the whole contents of a memory
            IF x.k # "mem" THEN err(s)
            ELSE LET m == s.mems[x.a]
                 IN ok(s, "mem",
                       LAMBDA e : /\ e.pg = Len(m.pg)
                                  /\ \A j \in 1..Len(e.ch) : Chunk(m, e.ch[j][1]) = e.ch[j][2]
                                  /\ \A p \in 1..Len(m.pg) : m.pg[p] # << >> =>
                                       \A c \in 1..1024 : m.pg[p][c] # << >> =>
                                          \E j \in 1..Len(e.ch) : e.ch[j][1] = (p - 1) * 1024 + c - 1,
                       [pages |-> Len(m.pg),
                        chunks |-> {<<p, c, m.pg[p][c]>> : <<p, c>> \in
                                      {q \in (1..Len(m.pg)) \X (1..1024) : m.pg[q[1]] # << >> /\ m.pg[q[1]][q[2]] # << >>}}])
       [] o.o = "glob" ->
            IF x.k # "global" THEN err(s)
            ELSE LET u == ExpectVals(s, "glob", <<s.glob[x.a].vt>>, <<s.glob[x.a].v>>, LAMBDA e : e.mut = s.glob[x.a].mut)
                 IN IF u.fin THEN u ELSE next(u)
       [] o.o = "gset" ->               \* the embedder writes a global
            IF x.k # "global" THEN err(s)
            ELSE ok([s EXCEPT !.glob[x.a].v = PVal(s, f, o.v)], "ok", LAMBDA e : TRUE, "ok")
       [] o.o = "mput" ->
            IF x.k # "mem" THEN err(s)
            ELSE IF o.at + Len(o.b) > MemSize(s.mems[x.a]) THEN err(s)
            ELSE ok([s EXCEPT !.mems[x.a] = MemWrite(@, o.at, o.b)], "ok", LAMBDA e : TRUE, "ok")
       [] o.o = "mget" ->
            IF x.k # "mem" THEN err(s)
            ELSE IF o.at + o.len > MemSize(s.mems[x.a]) THEN err(s)
            ELSE LET v == MemRead(s.mems[x.a], o.at, o.len) IN ok(s, "bytes", LAMBDA e : e.b = v, v)
       [] o.o = "mgrow" ->              \* the embedder grows a memory
            IF x.k # "mem" THEN err(s)
            ELSE LET m == s.mems[x.a]
                     okk == Len(m.pg) + o.len <= 65536 /\ (m.max = -1 \/ Len(m.pg) + o.len <= m.max)
                 IN IF okk THEN ok([s EXCEPT !.mems[x.a].pg = @ \o [j \in 1..o.len |-> << >>]], "ok", LAMBDA e : TRUE, "ok")
                    ELSE err(s)
       [] o.o = "hfunc" -> next([s EXCEPT !.func = Append(@, [k |-> "host", i |-> 0, mod |-> 0, f |-> 0, h |-> o.h,
                                                              t |-> [p |-> o.p, r |-> o.r]]),
                                          !.ext = Append(@, [k |-> "func", a |-> Len(s.func) + 1])])
       [] o.o = "hmem" -> next([s EXCEPT !.mems = Append(@, NewMem(o.min, o.max)),
                                         !.ext = Append(@, [k |-> "mem", a |-> Len(s.mems) + 1])])
       [] o.o = "htab" -> next([s EXCEPT !.tabl = Append(@, [et |-> o.et, max |-> o.max, el |-> [j \in 1..o.min |-> Null]]),
                                         !.ext = Append(@, [k |-> "table", a |-> Len(s.tabl) + 1])])
       [] o.o = "hglob" -> next([s EXCEPT !.glob = Append(@, [vt |-> o.vt, mut |-> o.mut, v |-> PVal(s, f, o.v)]),
                                          !.ext = Append(@, [k |-> "global", a |-> Len(s.glob) + 1])])
       [] o.o = "skipz" -> Put(s, [f EXCEPT !.pc = @ + 1 + (IF IsZero(PVal(s, f, o.v)) THEN o.len ELSE 0)])
       [] o.o = "hret" -> Return(s, f, [j \in 1..Len(o.a) |-> PVal(s, f, o.a[j])])
       [] o.o = "raise" -> HostTrap(s, f)

Step(s) == IF s.fin THEN s
           ELSE CASE Top(s).k = "w" -> WStep(s)
                  [] Top(s).k = "h" -> HStep(s)
                  [] Top(s).k = "i" -> IStep(s)

Start(k, script) ==
  [sc |-> k, fin |-> FALSE, rej |-> "", nd |-> FALSE, sig |-> FALSE, lp |-> 1, script |-> script,
   func |-> << >>, tabl |-> << >>, mems |-> << >>, glob |-> << >>, elem |-> << >>, data |-> << >>,
   inst |-> << >>, hnd |-> << >>, ext |-> << >>, fm |-> {}, caps |-> << >>,
   stk |-> <<HostFrame(0, << >>, << >>)>>]

Idx(n) == [i \in 1..n |-> i]
Run(s, n) == FoldLeft(LAMBDA t, i : Step(t), s, Idx(n))

\* ---------------------------------------------------------------- invariants
FrameOK(s, f) ==
  f.k = "w" =>
    /\ \A j \in 1..Len(f.lab) : f.lab[j].ht >= 0 /\ f.lab[j].ht <= Len(f.st)
    /\ \A j \in 1..(Len(f.lab) - 1) : f.lab[j].ht <= f.lab[j + 1].ht
    /\ f.i \in 1..Len(s.inst)
StackOK(s) == s.stk[1].k = "h" /\ \A j \in 1..Len(s.stk) : FrameOK(s, s.stk[j])
MemOK(s) == \A j \in 1..Len(s.mems) : /\ Len(s.mems[j].pg) <= 65536
                                      /\ s.mems[j].max = -1 \/ Len(s.mems[j].pg) <= s.mems[j].max
                                      /\ \A p \in 1..Len(s.mems[j].pg) : Len(s.mems[j].pg[p]) \in {0, 1024}
RefOK(s, et, r) == r = Null \/ (et = "funcref" /\ r[1] = 1 /\ FAddr(r) \in 1..Len(s.func))
                            \/ (et = "externref" /\ r[1] = 2)
TabOK(s) == \A j \in 1..Len(s.tabl) : /\ s.tabl[j].max = -1 \/ Len(s.tabl[j].el) <= s.tabl[j].max
                                      /\ \A q \in 1..Len(s.tabl[j].el) : RefOK(s, s.tabl[j].et, s.tabl[j].el[q])
GlobOK(s) == \A j \in 1..Len(s.glob) :
               IF s.glob[j].vt \in {"funcref", "externref"} THEN RefOK(s, s.glob[j].vt, s.glob[j].v)
               ELSE Len(s.glob[j].v) = TW(s.glob[j].vt)
InstOK(s) == \A j \in 1..Len(s.inst) :
               /\ \A q \in 1..Len(s.inst[j].func) : s.inst[j].func[q] \in 1..Len(s.func)
               /\ \A q \in 1..Len(s.inst[j].mem) : s.inst[j].mem[q] \in 1..Len(s.mems)
               /\ \A q \in 1..Len(s.inst[j].tab) : s.inst[j].tab[q] \in 1..Len(s.tabl)
               /\ \A q \in 1..Len(s.inst[j].glob) : s.inst[j].glob[q] \in 1..Len(s.glob)
StateOK(s) == StackOK(s) /\ MemOK(s) /\ TabOK(s) /\ GlobOK(s) /\ InstOK(s)

\* What one transition may do to the store.
GrowsOnly(s, t) ==
  /\ Len(t.func) >= Len(s.func) /\ SubSeq(t.func, 1, Len(s.func)) = s.func
  /\ Len(t.inst) >= Len(s.inst) /\ SubSeq(t.inst, 1, Len(s.inst)) = s.inst
  /\ \A j \in 1..Len(s.mems) : Len(t.mems[j].pg) >= Len(s.mems[j].pg) /\ t.mems[j].max = s.mems[j].max
  /\ \A j \in 1..Len(s.tabl) : Len(t.tabl[j].el) >= Len(s.tabl[j].el) /\ t.tabl[j].max = s.tabl[j].max
  /\ \A j \in 1..Len(s.glob) : t.glob[j].vt = s.glob[j].vt /\ (s.glob[j].mut = 0 /\ Top(s).k = "w" => t.glob[j].v = s.glob[j].v)
  /\ \A j \in 1..Len(s.data) : t.data[j] \in {s.data[j], << >>}
  /\ \A j \in 1..Len(s.elem) : t.elem[j] \in {s.elem[j], << >>}
\* A step that raises a trap changes nothing in the store.
TrapIsClean(s, t) ==
  t.sig /\ Top(s).k # "h" => /\ t.mems = s.mems /\ t.tabl = s.tabl /\ t.glob = s.glob
                            /\ t.elem = s.elem /\ t.data = s.data /\ t.func = s.func
\* A step of a wasm activation leaves every suspended activation below alone.
FramesIsolated(s, t) ==
  LET n == (IF Len(s.stk) < Len(t.stk) THEN Len(s.stk) ELSE Len(t.stk)) - 1
  IN \A j \in 1..n : s.stk[j] = t.stk[j] \/ (Len(t.stk) < Len(s.stk) /\ j = Len(t.stk))
=============================================================================
