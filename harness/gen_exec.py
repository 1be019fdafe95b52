"""Random scenarios for the machine specification (Wasm.tla): well-typed,
terminating modules, host programs and embedder scripts.  The generator never
predicts results; the specification does."""
import random, re
from numops import NUMERIC, signature, lanes_of, rand_int, rand_float, edge_ints

PROBE = re.compile('t[sg][0-9]+')
NT = ['i32', 'i64', 'f32', 'f64', 'v128']
TW = {'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'v128': 16}
RT = ['funcref', 'externref']


def le(n, w):
    return list((n & ((1 << (8 * w)) - 1)).to_bytes(w, 'little'))


def i32(n):
    return {'o': 'const', 't': 'i32', 'v': le(n, 4)}


def const(t, n):
    return {'o': 'const', 't': t, 'v': le(n, TW[t])}


def num(mn, m=()):
    t, op = mn.split('.', 1)
    return {'o': 'num', 't': t, 'op': op, 'n': len(signature(mn)[0]), 'm': list(m)}


LOADS = {'i32.load': 4, 'i64.load': 8, 'f32.load': 4, 'f64.load': 8, 'i32.load8_s': 1, 'i32.load8_u': 1,
         'i32.load16_s': 2, 'i32.load16_u': 2, 'i64.load8_s': 1, 'i64.load8_u': 1, 'i64.load16_s': 2,
         'i64.load16_u': 2, 'i64.load32_s': 4, 'i64.load32_u': 4, 'v128.load': 16, 'v128.load8x8_s': 8,
         'v128.load8x8_u': 8, 'v128.load16x4_s': 8, 'v128.load16x4_u': 8, 'v128.load32x2_s': 8,
         'v128.load32x2_u': 8, 'v128.load8_splat': 1, 'v128.load16_splat': 2, 'v128.load32_splat': 4,
         'v128.load64_splat': 8, 'v128.load32_zero': 4, 'v128.load64_zero': 8, 'v128.load8_lane': 1,
         'v128.load16_lane': 2, 'v128.load32_lane': 4, 'v128.load64_lane': 8}
STORES = {'i32.store': 4, 'i64.store': 8, 'f32.store': 4, 'f64.store': 8, 'i32.store8': 1, 'i32.store16': 2,
          'i64.store8': 1, 'i64.store16': 2, 'i64.store32': 4, 'v128.store': 16, 'v128.store8_lane': 1,
          'v128.store16_lane': 2, 'v128.store32_lane': 4, 'v128.store64_lane': 8}


def load(op, off=0, al=0, m=None):
    return {'o': 'load', 'op': op, 'off': le(off, 4), 'al': al, 'm': [] if m is None else [m]}


def store(op, off=0, al=0, m=None):
    return {'o': 'store', 'op': op, 'off': le(off, 4), 'al': al, 'm': [] if m is None else [m]}


def X(o, x):
    return {'o': o, 'x': x}


def O(o):
    return {'o': o}


# Numeric instructions whose result is one definite bit pattern.
def definite(mn):
    t, op = mn.split('.', 1)
    if t in ('i32', 'i64'):
        return True
    if t in ('f32', 'f64'):
        return op in ('abs', 'neg', 'copysign', 'eq', 'ne', 'lt', 'gt', 'le', 'ge') or op.startswith(
            ('convert', 'reinterpret'))
    if t in ('f32x4', 'f64x2'):
        return op in ('splat', 'replace_lane', 'extract_lane')
    return 'f32x4' not in op and 'f64x2' not in op
DEF = [m for m in NUMERIC if definite(m)]
BYRES = {}
for _m in DEF:
    BYRES.setdefault(signature(_m)[1], []).append(_m)


def rconst(r, t):
    if t == 'v128':
        return {'o': 'const', 't': t, 'v': [r.randrange(256) for _ in range(16)]}
    if t in ('f32', 'f64'):
        return const(t, rand_float(r, TW[t]))
    if t in ('i32', 'i64'):
        return const(t, r.choice([0, 1, 2, 3, r.randrange(20), rand_int(r, TW[t])]))
    raise ValueError(t)


class FnGen:
    """One function body over a module under construction."""

    def __init__(self, g, fidx, params, results):
        self.g, self.r = g, g.r
        self.fidx = fidx
        self.params, self.results = params, results
        self.locals = [self.r.choice(g.vts) for _ in range(self.r.randint(0, 5))]
        self.blocks = [None]
        self.nlocal = len(params) + len(self.locals)
        self.reserved = []

    def ltypes(self):
        return self.params + self.locals

    def new_local(self, t):
        self.locals.append(t)
        return len(self.params) + len(self.locals) - 1

    def block(self, ins):
        self.blocks.append(ins)
        return len(self.blocks)

    def body(self):
        out = []
        z = [self.zero(t) for t in self.results]
        b = self.block(z + [O('return')])
        F = self.g.fuel
        out += [X('global.get', F), i32(0), num('i32.le_s'), {'o': 'if', 'b': b, 'e': 0, 'p': [], 'r': []},
                X('global.get', F), i32(1), num('i32.sub'), X('global.set', F)]
        self.blocks[0] = out + self.seq([], self.results, [('fn', self.results)], self.g.p['size'], 0)
        return {'t': None, 'locals': self.locals, 'blocks': self.blocks}

    def zero(self, t):
        return {'o': 'ref.null', 't': t} if t in RT else const(t, 0)

    def fuel(self):
        F = self.g.fuel
        b = self.block([O('unreachable')])
        return [X('global.get', F), i32(1), num('i32.sub'), X('global.set', F), X('global.get', F), i32(0),
                num('i32.lt_s'), {'o': 'if', 'b': b, 'e': 0, 'p': [], 'r': []}]

    # -- producing values
    def addr(self, w):
        r = self.r
        k = r.random()
        risk = self.g.p.get('risk', 0.05)
        if k < risk:
            tot = 65536 * r.choice([0, 1, 1, 1, 2, 3])
            off = r.choice([0, 1, w, 8, 65535, 0xfffffff0, 0xffffffff, 0x80000000])
            base = r.choice([tot - w - off + r.choice([-1, 0, 1]), 0xffffffff, 0x80000000, 0x7fffffff, -w, -off])
            return [i32(base)], off
        if k < 0.12 + risk:
            off = r.choice([0, 1, 5, 100])
            return [i32(65536 * self.g.minpages - w - off - r.choice([0, 0, 0, 1, 60]))], off
        if k < 0.35:
            return self.val('i32', 1) + [i32(r.choice([0x3f, 0xff])), num('i32.and')], r.choice([0, 0, 3, 17])
        return [i32(r.randrange(0, 200))], r.choice([0, 0, 1, 4, 15])

    def val(self, t, d=2):
        r, g = self.r, self.g
        c = []
        ls = [i for i, x in enumerate(self.ltypes()) if x == t]
        if ls:
            c += ['local'] * 4
        gs = [i for i, x in enumerate(g.gtypes) if x[0] == t and i != g.fuel]
        if gs:
            c += ['global'] * 2
        if t in NT:
            c += ['const'] * 2
            if d > 0:
                c += ['num'] * 3 + ['select']
                if g.hasmem:
                    c += ['load'] * g.p.get('mem', 2)
        if t == 'i32':
            if g.hasmem:
                c += ['msize']
            if g.tabs:
                c += ['tsize']
            c += ['isnull']
        if t in RT:
            c += ['null', 'null']
            if t == 'funcref' and g.nfuncs():
                c += ['func'] * 3
            if any(x == t for x in g.tabs):
                c += ['tget'] * 2
            if d > 0:
                c += ['select_t']
        k = r.choice(c)
        if k == 'local':
            return [X('local.get', r.choice(ls))]
        if k == 'global':
            return [X('global.get', r.choice(gs))]
        if k == 'const':
            return [rconst(r, t)]
        if k == 'num':
            return self.numv(t, d)
        if k == 'select':
            return self.val(t, d - 1) + self.val(t, d - 1) + self.val('i32', d - 1) + [O('select')]
        if k == 'select_t':
            return self.val(t, d - 1) + self.val(t, d - 1) + self.val('i32', d - 1) + [{'o': 'select_t', 't': t}]
        if k == 'load':
            ops = [o for o in LOADS if o.startswith(t + '.')]
            op = r.choice(ops)
            a, off = self.addr(LOADS[op])
            if op.endswith('_lane'):
                return a + self.val('v128', d - 1) + [load(op, off, 0, r.randrange(16 // LOADS[op]))]
            return a + [load(op, off)]
        if k == 'msize':
            return [O('memory.size')]
        if k == 'tsize':
            return [X('table.size', r.randrange(len(g.tabs)))]
        if k == 'isnull':
            return self.val(r.choice(RT) if g.p.get('refs', 1) else 'externref', 0) + [O('ref.is_null')]
        if k == 'null':
            return [{'o': 'ref.null', 't': t}]
        if k == 'func':
            return [X('ref.func', r.randrange(g.nfuncs()))]
        if k == 'tget':
            x = r.choice([i for i, y in enumerate(g.tabs) if y == t])
            return [i32(self.tidx(x)), X('table.get', x)]
        raise AssertionError(k)

    def tidx(self, x):
        n = self.g.tmin[x]
        if self.r.random() < self.g.p.get('risk', 0.05) or n == 0:
            return self.r.choice([n, n + 1, 0xffffffff, 0x80000000])
        return self.r.randrange(n)

    def numv(self, t, d):
        r = self.r
        while True:
            mn = r.choice(BYRES[t])
            p, _ = signature(mn)
            t0, op = mn.split('.', 1)
            if 'v128' in p + [t] and t != 'v128' and r.random() < 0.6:
                continue
            if t0 in ('i32', 'i64') and op.startswith('trunc_f') and r.random() < 0.9:
                continue
            break
        args = [self.val(x, d - 1) for x in p]
        if op.startswith(('div_', 'rem_')) and r.random() < 0.9:
            args[1] = [const(t0, r.choice([1, 2, 3, 7, 10, -3]))]
        m = []
        if mn == 'i8x16.shuffle':
            m = [r.randrange(32) for _ in range(16)]
        elif lanes_of(mn):
            m = [r.randrange(lanes_of(mn))]
        return sum(args, []) + [num(mn, m)]

    # -- sequences
    def push(self, out, st, ts, d=1):
        """Make the stack end with ts, sometimes from what is already there."""
        n = len(ts)
        if n and st[-n:] == ts and self.r.random() < 0.5:
            return
        for t in ts:
            out += self.val(t, d)
            st.append(t)

    def finish(self, out, st, results, labels):
        r = self.r
        if st == results:
            return
        k = r.random()
        if k < 0.3 and labels[-1][0] != 'loop':
            self.push(out, st, results)
            out.append({'o': 'br', 'l': 0})
            return
        if k < 0.4 and st[:len(results)] == results:
            out += [O('drop')] * (len(st) - len(results))
            return
        while st and st != results[:len(st)]:
            out.append(O('drop'))
            st.pop()
        for t in results[len(st):]:
            out += self.val(t, 1)

    def operands(self, out, st, ts, d=1):
        for t in ts:
            out += self.val(t, d)
            st.append(t)

    def seq(self, st, results, labels, budget, depth):
        r, g = self.r, self.g
        out = []
        st = list(st)
        n = r.randint(1, budget)
        for _ in range(n):
            k = r.choices(g.kinds, g.weights)[0]
            if k == 'push':
                t = r.choice(g.vts)
                out += self.val(t, 2)
                st.append(t)
            elif k == 'drop' and st:
                out.append(O('drop'))
                st.pop()
            elif k == 'setl':
                ls = [i for i in range(len(self.ltypes())) if i not in self.reserved]
                if not ls:
                    continue
                i = r.choice(ls)
                t = self.ltypes()[i]
                self.push(out, st, [t])
                if r.random() < 0.3:
                    out.append(X('local.tee', i))
                else:
                    out.append(X('local.set', i))
                    st.pop()
            elif k == 'setg':
                gs = [i for i, x in enumerate(g.gtypes) if x[1] and i != g.fuel]
                if not gs:
                    continue
                i = r.choice(gs)
                self.push(out, st, [g.gtypes[i][0]])
                out.append(X('global.set', i))
                st.pop()
            elif k == 'store' and g.hasmem:
                op = r.choice(list(STORES))
                a, off = self.addr(STORES[op])
                out += a + self.val(op.split('.')[0], 1)
                out.append(store(op, off, 0, r.randrange(16 // STORES[op]) if op.endswith('_lane') else None))
            elif k == 'bulk' and g.hasmem:
                self.bulk(out)
            elif k == 'grow' and g.hasmem:
                out += [i32(r.choice([0, 1, 1, 2, 3, 5, 1024, 65536, 0xffffffff]))] + [O('memory.grow')]
                st.append('i32')
            elif k == 'table' and g.tabs:
                self.table(out, st)
            elif k == 'call' and g.nfuncs():
                f = self.callee()
                if f is None:
                    continue
                p, q = g.ftype(f)
                self.push(out, st, p)
                out.append({'o': 'call', 'f': f})
                del st[len(st) - len(p):]
                st += q
            elif k == 'calli' and any(t == 'funcref' for t in g.tabs):
                x = r.choice([i for i, t in enumerate(g.tabs) if t == 'funcref'])
                known = g.known.get(x, [])
                if known and r.random() < 0.9:
                    slot, f = r.choice(known)
                    p, q = g.ftype(f)
                    if r.random() < 0.03:
                        p, q = r.choice(g.types)
                else:
                    slot = self.tidx(x)
                    p, q = r.choice(g.types)
                self.push(out, st, p)
                out += [i32(slot), {'o': 'call_indirect', 'ty': g.types.index((p, q)), 'x': x}]
                del st[len(st) - len(p):]
                st += q
            elif k in ('block', 'if', 'loop') and depth < g.p.get('nest', 3):
                self.nest(k, out, st, labels, budget, depth)
            elif k == 'brif':
                self.br_if(out, st, labels)
            elif k in ('br', 'brt', 'ret', 'trap') and r.random() < 0.5:
                if k == 'trap':
                    if r.random() > g.p.get('risk', 0.05) * 3:
                        continue
                    out.append(O('unreachable'))
                elif k == 'ret':
                    self.push(out, st, self.results)
                    out.append(O('return'))
                elif k == 'br':
                    l = r.randrange(len(labels))
                    kind, ts = labels[-1 - l]
                    if kind == 'loop':
                        out += self.fuel()
                    self.push(out, st, ts)
                    out.append({'o': 'br', 'l': l})
                else:
                    self.br_table(out, st, labels)
                if r.random() < 0.4:            # dead code
                    out += [i32(7), O('drop'), O('unreachable')]
                return out
            elif k == 'nop':
                out.append(O('nop'))
        self.finish(out, st, results, labels)
        return out

    def callee(self):
        g, r = self.g, self.r
        n = g.nfuncs()
        if r.random() < g.p.get('rec', 0.15):
            return r.randrange(n)
        c = [f for f in range(n) if f < g.nimpf or f > self.fidx]
        return r.choice(c) if c else None

    def br_if(self, out, st, labels):
        r = self.r
        l = r.randrange(len(labels))
        kind, ts = labels[-1 - l]
        if kind == 'loop':
            out += self.fuel()
        self.push(out, st, ts)
        out += self.val('i32', 1)
        if r.random() < 0.4:
            out += [num('i32.eqz')]
        out.append({'o': 'br_if', 'l': l})

    def br_table(self, out, st, labels):
        r = self.r
        n = len(labels)
        d = r.randrange(n)
        ts = labels[-1 - d][1]
        same = [l for l in range(n) if labels[-1 - l][1] == ts]
        ls = [r.choice(same) for _ in range(r.randint(0, 4))]
        out += self.fuel()
        self.push(out, st, ts)
        if r.random() < 0.6:
            out += [i32(r.choice([0, 1, 2, len(ls) - 1, len(ls), len(ls) + 1, 0xffffffff, 0x80000000]))]
        else:
            out += self.val('i32', 1) + [i32(7), num('i32.and')]
        out.append({'o': 'br_table', 'ls': ls, 'd': d})

    def nest(self, k, out, st, labels, budget, depth):
        r, g = self.r, self.g
        p, q = r.choice(g.btypes)
        self.push(out, st, p)
        inner = max(1, budget // 2)
        if k == 'block':
            b = self.block(self.seq(p, q, labels + [('block', q)], inner, depth + 1))
            out.append({'o': 'block', 'b': b, 'p': p, 'r': q})
        elif k == 'if':
            out += self.val('i32', 1)
            b = self.block(self.seq(p, q, labels + [('block', q)], inner, depth + 1))
            e = 0
            if p != q or r.random() < 0.6:
                e = self.block(self.seq(p, q, labels + [('block', q)], inner, depth + 1))
            out.append({'o': 'if', 'b': b, 'e': e, 'p': p, 'r': q})
        else:
            c = self.new_local('i32')
            self.reserved.append(c)
            n = len(p)
            pre = [i32(r.randint(1, 4)), X('local.set', c)]
            # parameters were pushed before; the counter is set beneath by locals
            out += pre
            ins = []
            s2 = list(p)
            lab = labels + [('loop', p)]
            ins += self.seq_open(s2, lab, inner, depth + 1)
            self.push(ins, s2, p)
            ins += [X('local.get', c), i32(1), num('i32.sub'), X('local.tee', c), i32(0), num('i32.gt_s'),
                    {'o': 'br_if', 'l': 0}]
            self.finish(ins, s2, q, lab)
            b = self.block(ins)
            out.append({'o': 'loop', 'b': b, 'p': p, 'r': q})
        del st[len(st) - len(p):]
        st += q

    def seq_open(self, st, labels, budget, depth):
        """A sequence that ends with whatever is on the stack (st is updated)."""
        r, g = self.r, self.g
        out = []
        for _ in range(r.randint(1, max(1, budget // 2))):
            t = r.choice(g.vts)
            sub = self.seq([], [t], labels + [('block', [t])], max(1, budget // 2), depth + 1)
            b = self.block(sub)
            out.append({'o': 'block', 'b': b, 'p': [], 'r': [t]})
            st.append(t)
        return out

    def rng3(self, dl, sl):
        """dst, src, n for bulk operations over sizes dl and sl."""
        r = self.r
        if r.random() < self.g.p.get('risk', 0.05) * 1.5:
            n = r.choice([0, 0, 1, 2, dl, sl, 0xffffffff])
            return (r.choice([dl - n, dl - n + 1, dl, dl + 1, 0xffffffff]),
                    r.choice([0, sl - n, sl - n + 1, sl, sl + 1, 0xffffffff]), n)
        n = min(r.choice([0, 1, 2, 3, 5, 8, 17, 40, 64, 70]), dl, sl)
        hi = 150
        return r.randint(0, max(0, min(hi, dl - n))), r.randint(0, max(0, min(hi, sl - n))), n

    def bulk(self, out):
        r, g = self.r, self.g
        size = 65536 * g.minpages
        k = r.choice(['fill', 'copy', 'copy', 'init', 'init', 'drop'])
        if k in ('init', 'drop') and not g.datas:
            k = 'fill'
        if k == 'fill':
            d, _, n = self.rng3(size, size)
            out += [i32(d)] + self.val('i32', 1) + [i32(n), O('memory.fill')]
        elif k == 'copy':
            d, s, n = self.rng3(size, size)
            if r.random() < 0.5:
                s = d + r.choice([-3, -1, 0, 1, 2, 5])
                s = max(0, s)
            out += [i32(d), i32(s), i32(n), O('memory.copy')]
        elif k == 'init':
            x = r.randrange(len(g.datas))
            d, s, n = self.rng3(size, len(g.datas[x]['bytes']))
            out += [i32(d), i32(s), i32(n), X('memory.init', x)]
        elif r.random() < 0.4:
            out += [X('data.drop', r.randrange(len(g.datas)))]

    def table(self, out, st):
        r, g = self.r, self.g
        x = r.randrange(len(g.tabs))
        t = g.tabs[x]
        k = r.choice(['set', 'set', 'grow', 'fill', 'copy', 'init', 'edrop', 'size'])
        if k == 'set':
            out += [i32(self.tidx(x))] + self.val(t, 1) + [X('table.set', x)]
        elif k == 'grow':
            out += self.val(t, 1) + [i32(r.choice([0, 1, 1, 2, 3, 1024, 0xffffffff])), X('table.grow', x)]
            st.append('i32')
        elif k == 'size':
            out += [X('table.size', x)]
            st.append('i32')
        elif k == 'fill':
            d, _, n = self.rng3(g.tmin[x], g.tmin[x])
            out += [i32(d)] + self.val(t, 1) + [i32(n), X('table.fill', x)]
        elif k == 'copy':
            y = r.choice([i for i, u in enumerate(g.tabs) if u == t])
            d, s, n = self.rng3(g.tmin[x], g.tmin[y])
            out += [i32(d), i32(s), i32(n), {'o': 'table.copy', 'x': x, 'y': y}]
        else:
            es = [i for i, e in enumerate(g.elems) if e['et'] == t]
            if not es:
                return
            y = r.choice(es)
            if k == 'init':
                d, s, n = self.rng3(g.tmin[x], len(g.elems[y]['init']))
                out += [i32(d), i32(s), i32(n), {'o': 'table.init', 'x': x, 'y': y}]
            elif r.random() < 0.4:
                out += [X('elem.drop', y)]


BASE = {'push': 6, 'drop': 2, 'setl': 5, 'setg': 2, 'store': 2, 'bulk': 1, 'grow': 0.3, 'table': 1, 'call': 2,
        'calli': 1, 'block': 2, 'if': 2, 'loop': 1, 'brif': 2, 'br': 1.2, 'brt': 1.2, 'ret': 0.8, 'trap': 0.5, 'nop': 0.3}


class ModGen:
    """One module.  avail: importable objects [(ref, kind, type-info)]."""

    def __init__(self, r, p, avail=()):
        self.r, self.p = r, p
        self.vts = p.get('vts', ['i32', 'i32', 'i64', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref'])
        w = dict(BASE)
        w.update(p.get('w', {}))
        self.kinds, self.weights = list(w), list(w.values())
        self.avail = avail
        self.types = []
        self.imports, self.imps = [], []
        self.ftypes = []
        self.build()

    def ty(self, p, q):
        k = (list(p), list(q))
        if k not in self.types:
            self.types.append(k)
        return self.types.index(k)

    def nfuncs(self):
        return len(self.ftypes)

    def ftype(self, f):
        return self.types[self.ftypes[f]]

    def rt(self, n):
        return [self.r.choice(self.vts) for _ in range(n)]

    def limits(self, d, size, mx):
        """Requested limits for an import of an object of this size and max."""
        r = self.r
        bad = r.random() < self.p.get('mislink', 0.02)
        d['min'] = r.choice([0, size, size, max(0, size - 1)])
        d['max'] = -1 if mx == -1 or r.random() < 0.4 else r.choice([mx, mx, mx + 1, mx + 5])
        if bad:
            k = r.randrange(3)
            if k == 0:
                d['min'] = size + 1
                d['max'] = max(d['max'], d['min']) if d['max'] != -1 else -1
            elif mx > max(size, 1) and k == 1:
                d['max'] = mx - 1
            elif mx == -1:
                d['max'] = size + 3

    def imp(self, kind, pred=lambda i: True):
        """Import some available object of this kind."""
        r = self.r
        c = [a for a in self.avail if a[1] == kind and pred(a[2])]
        if not c:
            return None
        ref, _, info = r.choice(c)
        mis = r.random() < self.p.get('mislink', 0.02)
        d = {'m': 'e%d' % len(self.imports), 'n': r.choice(['x', '', 'memory', '\u00fc'] ), 'k': kind}
        if kind == 'func':
            p, q = info['p'], info['r']
            if mis:
                p, q = r.choice([(p + ['i32'], q), (p, q + ['i32']), (q, p), (p[1:], q)])
            d['t'] = self.ty(p, q)
        elif kind == 'table':
            d['et'] = info['et'] if not mis or r.random() < 0.7 else ('externref' if info['et'] == 'funcref' else 'funcref')
            self.limits(d, info['min'], info['max'])
        elif kind == 'mem':
            self.limits(d, info['min'], info['max'])
        else:
            d['vt'], d['mut'] = info['vt'], info['mut']
            if mis:
                if r.random() < 0.5:
                    d['mut'] = 1 - d['mut']
                else:
                    d['vt'] = r.choice([t for t in NT if t != d['vt']])
        if r.random() < self.p.get('mislink', 0.02) / 2:
            o = [a for a in self.avail if a[1] != kind]
            ref = r.choice(o)[0] if o and r.random() < 0.6 else {'k': 'none', 'i': 0, 'n': ''}
        self.imports.append(d)
        self.imps.append(ref)
        return info, d

    def build(self):
        r, p = self.r, self.p
        # types
        for _ in range(p.get('ntypes', 4)):
            self.ty(self.rt(r.randint(0, 3)), self.rt(r.randint(0, 2)))
        self.btypes = [([], []), ([], [])]
        for _ in range(4):
            bp, bq = self.rt(r.choice([0, 0, 0, 1, 2])), self.rt(r.choice([0, 1, 1, 2]))
            self.btypes.append((bp, bq))
        for bp, bq in self.btypes:
            self.ty(bp, bq)
        # imports
        for _ in range(r.choice(p.get('nimpf', [0, 1, 2]))):
            x = self.imp('func')
            if x:
                self.ftypes.append(x[1]['t'])
        self.nimpf = len(self.ftypes)
        self.mems, self.hasmem, self.minpages = [], False, 1
        memsrc = r.choices(['own', 'imp', 'none'], p.get('memsrc', [6, 3, 1]))[0]
        if memsrc == 'imp':
            x = self.imp('mem')
            if x:
                self.hasmem, self.minpages = True, max(1, x[1]['min'])
            else:
                memsrc = 'own'
        if memsrc == 'own':
            mn = r.choice(p.get('mempages', [1, 1, 1, 1, 2, 0]))
            self.mems = [{'min': mn, 'max': r.choice([-1, -1, mn, mn + 1, mn + 2, 4])}]
            if self.mems[0]['max'] != -1:
                self.mems[0]['max'] = max(self.mems[0]['max'], mn)
            self.hasmem, self.minpages = True, max(1, mn)
        self.tabs, self.tmin, self.tables = [], [], []
        for _ in range(r.choice(p.get('nimpt', [0, 0, 1]))):
            x = self.imp('table')
            if x:
                self.tabs.append(x[1]['et'])
                self.tmin.append(x[1]['min'])
        for _ in range(r.choice(p.get('ntabs', [0, 1, 1, 2]))):
            t = r.choice(['funcref', 'funcref', 'externref'])
            mn = r.choice([0, 1, 3, 5, 8, 10])
            mx = r.choice([-1, -1, mn, mn + 1, mn + 4])
            self.tables.append({'et': t, 'min': mn, 'max': mx})
            self.tabs.append(t)
            self.tmin.append(mn)
        self.gtypes = []
        for _ in range(r.choice(p.get('nimpg', [0, 0, 1, 2]))):
            x = self.imp('global')
            if x:
                self.gtypes.append((x[1]['vt'], x[1]['mut']))
        nig = len(self.gtypes)
        # functions are generated after everything they may mention is known
        nf = r.randint(*p.get('nfuncs', (2, 5)))
        for _ in range(nf):
            self.ftypes.append(self.ty(*r.choice(self.types)))
        probes = []
        for x, t in enumerate(self.tabs):
            self.ftypes.append(self.ty(['i32'], [t]))
            probes.append(('tg%d' % x, [X('local.get', 0), X('table.get', x)]))
            self.ftypes.append(self.ty([], ['i32']))
            probes.append(('ts%d' % x, [X('table.size', x)]))
        nprobe = len(probes)

        def cinit(t):
            imm = [i for i in range(nig) if self.gtypes[i] == (t, 0)]
            if imm and r.random() < 0.4:
                return X('global.get', r.choice(imm))
            if t == 'funcref':
                return X('ref.func', r.randrange(self.nfuncs())) if r.random() < 0.6 else {'o': 'ref.null', 't': t}
            if t == 'externref':
                return {'o': 'ref.null', 't': t}
            return rconst(r, t)
        self.globals = [{'vt': 'i32', 'mut': 1, 'init': i32(p.get('fuel', 20))}]
        self.fuel = nig
        self.gtypes.append(('i32', 1))
        for _ in range(r.randint(0, 4)):
            t = r.choice(self.vts)
            mut = r.choice([0, 1, 1])
            self.globals.append({'vt': t, 'mut': mut, 'init': cinit(t)})
            self.gtypes.append((t, mut))
        # segments
        self.elems, self.known = [], {}
        bad = p.get('badseg', 0.03)

        def offset(limit, n):
            imm = [i for i in range(nig) if self.gtypes[i] == ('i32', 0)]
            if imm and r.random() < 0.1:
                return X('global.get', r.choice(imm)), None
            if r.random() < bad:
                o = r.choice([limit - n + 1, limit + 1, 0xffffffff, 0x80000000])
                return i32(o), None
            if limit < n:
                return i32(0), 0
            o = r.choice([0, r.randint(0, min(limit - n, 100)), limit - n])
            return i32(o), o
        for _ in range(r.choice(p.get('nelem', [0, 1, 2, 3]))):
            et = r.choice(self.tabs) if self.tabs else 'funcref'
            mode = r.choice(['active', 'active', 'passive', 'declarative']) if self.tabs else r.choice(['passive', 'declarative'])
            x = r.choice([i for i, t in enumerate(self.tabs) if t == et]) if self.tabs else 0
            n = r.randint(0, 4)
            if mode == 'active' and r.random() > bad:
                n = min(n, self.tmin[x])
            init = [cinit(et) if r.random() < 0.3 or et == 'externref' else X('ref.func', r.randrange(self.nfuncs())) for _ in range(n)]
            off, o = offset(self.tmin[x], n) if mode == 'active' else (i32(0), None)
            self.elems.append({'mode': mode, 'tab': x, 'et': et, 'off': off, 'init': init})
            if mode == 'active' and o is not None:
                self.known.setdefault(x, [])
                for q, e in enumerate(init):
                    if e['o'] == 'ref.func':
                        self.known[x] = [k for k in self.known[x] if k[0] != o + q] + [(o + q, e['x'])]
        self.datas = []
        for _ in range(r.choice(p.get('ndata', [0, 1, 2, 3]))):
            mode = r.choice(['active', 'passive']) if self.hasmem else 'passive'
            b = [r.randrange(1, 256) for _ in range(r.choice([0, 1, 3, 8, 20, 70]))]
            off, _ = offset(65536 * (self.minpages if memsrc == 'imp' else self.mems[0]['min'] if self.mems else 0), len(b)) \
                if mode == 'active' else (i32(0), None)
            self.datas.append({'mode': mode, 'off': off, 'bytes': b})
        # bodies
        self.funcs = []
        for k in range(nf):
            f = self.nimpf + k
            pt, qt = self.ftype(f)
            fn = FnGen(self, f, list(pt), list(qt)).body()
            fn['t'] = self.ftypes[f]
            self.funcs.append(fn)
        for nm, ins in probes:
            f = self.nimpf + len(self.funcs)
            self.funcs.append({'t': self.ftypes[f], 'locals': [], 'blocks': [ins]})
        self.exports = []
        for f in range(self.nimpf + nf):
            if f >= self.nimpf or r.random() < 0.5:
                self.exports.append({'n': 'f%d' % f, 'k': 'func', 'i': f})
        for q, (nm, _) in enumerate(probes):
            self.exports.append({'n': nm, 'k': 'func', 'i': self.nimpf + nf + q})
        if self.hasmem:
            self.exports.append({'n': 'm', 'k': 'mem', 'i': 0})
        for x in range(len(self.tabs)):
            self.exports.append({'n': 't%d' % x, 'k': 'table', 'i': x})
        for x in range(len(self.gtypes)):
            self.exports.append({'n': 'fuel' if x == self.fuel else 'g%d' % x, 'k': 'global', 'i': x})
        r.shuffle(self.exports)
        start = -1
        if r.random() < p.get('start', 0.15):
            c = [f for f in range(self.nimpf + nf) if self.ftype(f) == ([], [])]
            if c:
                start = r.choice(c)
        self.mod = {'types': [{'p': a, 'r': b} for a, b in self.types], 'imports': self.imports, 'funcs': self.funcs,
                    'tables': self.tables, 'mems': self.mems, 'globals': self.globals, 'exports': self.exports,
                    'start': start, 'elems': self.elems, 'datas': self.datas}

    def objects(self, h):
        """What an instance (script handle h) offers to later imports."""
        out = []
        mi = [x for x in self.mod['imports'] if x['k'] == 'mem']
        for e in self.exports:
            ref = {'k': 'exp', 'i': h, 'n': e['n']}
            if e['k'] == 'func':
                pt, qt = self.ftype(e['i'])
                if e['n'].startswith('f'):
                    out.append((ref, 'func', {'p': pt, 'r': qt}))
            elif e['k'] == 'mem':
                d = self.mems[0] if self.mems else mi[0]
                out.append((ref, 'mem', {'min': d['min'], 'max': d['max']}))
            elif e['k'] == 'table':
                ts = [x for x in self.imports if x['k'] == 'table'] + self.tables
                d = ts[e['i']]
                out.append((ref, 'table', {'et': d['et'], 'min': d['min'], 'max': d['max']}))
            elif e['n'] != 'fuel':
                vt, mut = self.gtypes[e['i']]
                out.append((ref, 'global', {'vt': vt, 'mut': mut}))
        return out


def cval(r, t):
    if t in RT:
        if t == 'funcref':
            return {'k': 'cap', 'x': r.randrange(6)} if r.random() < 0.6 else {'k': 'c', 't': t, 'v': [0]}
        return {'k': 'c', 't': t, 'v': [0] if r.random() < 0.2 else [2] + le(r.choice([0, 1, 7, 0x7fffffff, r.getrandbits(20)]), 4)}
    return {'k': 'c', 't': t, 'v': rconst(r, t)['v']}


class ScenGen:
    def __init__(self, seed, p):
        self.r = random.Random(seed)
        self.p = p
        self.mods, self.hosts, self.script = [], [], []
        self.gens = {}              # handle -> ModGen
        self.avail = []
        self.nh = 0
        self.next = 0

    def add_host(self):
        """A host function; what it does besides returning is decided later."""
        r = self.r
        vts = self.p.get('vts', NT + RT)
        hp = [r.choice(vts) for _ in range(r.randint(0, 3))]
        hr = [r.choice(vts) for _ in range(r.randint(0, 2))]
        self.hosts.append({'p': hp, 'r': hr, 'prog': []})
        h = len(self.hosts)
        self.script.append({'o': 'hfunc', 'h': h, 'p': hp, 'r': hr})
        self.avail.append(({'k': 'obj', 'i': self.nh, 'n': ''}, 'func', {'p': hp, 'r': hr}))
        self.nh += 1

    def add_obj(self):
        r = self.r
        k = r.choice(['mem', 'table', 'global', 'global'])
        ref = {'k': 'obj', 'i': self.nh, 'n': ''}
        if k == 'mem':
            mn = r.choice([0, 1, 1, 2])
            mx = r.choice([-1, mn + 1, mn + 2, mn or 1])
            self.script.append({'o': 'hmem', 'min': mn, 'max': mx})
            info = {'min': mn, 'max': mx}
        elif k == 'table':
            mn = r.choice([0, 2, 6])
            mx = r.choice([-1, mn or 1, mn + 2])
            et = r.choice(RT)
            self.script.append({'o': 'htab', 'et': et, 'min': mn, 'max': mx})
            info = {'et': et, 'min': mn, 'max': mx}
        else:
            vt = r.choice(NT + ['externref'])
            info = {'vt': vt, 'mut': r.choice([0, 1])}
            self.script.append({'o': 'hglob', 'vt': vt, 'mut': info['mut'], 'v': cval(r, vt)})
        self.avail.append((ref, k, info))
        self.nh += 1

    def inst(self, again=None):
        r = self.r
        if again is None:
            g = ModGen(r, self.p, self.avail)
            self.mods.append(g.mod)
            mi = len(self.mods) - 1
            g.mi = mi
        else:
            g = again
        imps = g.imps
        self.script.append({'o': 'inst', 'mod': g.mi, 'imps': imps, 'src': r.choice(['same', 'same', 'fresh', 'file'])})
        h = self.next
        self.next += 1
        self.gens[h] = g
        self.avail = self.avail + g.objects(h)

    def fuelset(self, h, n=None):
        return {'o': 'gset', 'on': {'k': 'exp', 'i': h, 'n': 'fuel'}, 't': 'i32',
                'v': {'k': 'c', 't': 'i32', 'v': le(self.p.get('fuel', 20) if n is None else n, 4)}}

    def call(self, h, name=None, catch=1, own=False):
        r = self.r
        g = self.gens[h]
        fs = [e for e in g.exports if e['k'] == 'func' and (name is None or e['n'] == name)]
        if own:                     # a guest function proper: fuel bounds re-entry
            fs = [e for e in fs if e['i'] >= g.nimpf]
        fs2 = [e for e in fs if e['n'].startswith('f')]
        e = r.choice(fs2 or fs)
        p, q = g.ftype(e['i'])
        a = [cval(r, t) for t in p]
        if r.random() < 0.01:
            a = a[:-1] if r.random() < 0.5 else a + [cval(r, 'i32')]
        n = e['n'] if r.random() > 0.01 else r.choice(['nope', 'm', 'fuel', 't0'])
        return {'o': 'call', 'on': {'k': 'exp', 'i': h, 'n': n}, 'a': a, 'rt': q, 'catch': catch}

    def observe(self, h):
        r = self.r
        g = self.gens[h]
        out = []
        for e in g.exports:
            on = {'k': 'exp', 'i': h, 'n': e['n']}
            if e['k'] == 'mem':
                out.append({'o': 'mem', 'on': on})
            elif e['k'] == 'global':
                out.append({'o': 'glob', 'on': on, 't': g.gtypes[e['i']][0]})
            elif e['k'] == 'func' and PROBE.fullmatch(e['n']) and e['n'][1] == 's':
                out.append({'o': 'call', 'on': on, 'a': [], 'rt': ['i32'], 'catch': 1})
            elif e['k'] == 'func' and PROBE.fullmatch(e['n']):
                x = int(e['n'][2:])
                idx = range(min(g.tmin[x] + 2, 12))
                for i in (idx if r.random() < 0.5 else r.sample(list(idx), min(3, len(idx)))):
                    out.append({'o': 'call', 'on': on, 'a': [{'k': 'c', 't': 'i32', 'v': le(i, 4)}],
                                'rt': [g.tabs[x]], 'catch': 1})
        return out

    def poke(self, h):
        """Embedder access to exported memory and globals."""
        r = self.r
        g = self.gens[h]
        out = []
        es = [e for e in g.exports if e['k'] in ('mem', 'global') and e['n'] != 'fuel']
        if not es:
            return out
        e = r.choice(es)
        on = {'k': 'exp', 'i': h, 'n': e['n']}
        if e['k'] == 'global':
            t, mut = g.gtypes[e['i']]
            if mut:
                out.append({'o': 'gset', 'on': on, 't': t, 'v': cval(r, t)})
            else:
                out.append({'o': 'glob', 'on': on, 't': t})
        else:
            k = r.choice(['mput', 'mget', 'mget', 'mgrow'])
            edge = r.random() < 0.25
            if k == 'mgrow':
                out.append({'o': 'mgrow', 'on': on, 'len': r.choice([0, 1, 1, 2, 5])})
            else:
                w, n = r.choice([('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('i32', 4), ('i64', 8), ('', 1), ('', 5), ('', 0), ('', 70)])
                at = 65536 * r.choice([0, 1, 2]) + r.choice([-n - 1, -n, -n + 1, 0, 1]) if edge else r.randrange(200)
                at = max(0, at)
                if k == 'mput':
                    out.append({'o': 'mput', 'on': on, 'at': at, 'b': [r.randrange(256) for _ in range(n)], 'w': w})
                else:
                    out.append({'o': 'mget', 'on': on, 'at': at, 'len': n, 'w': w})
        return out

    def caller(self):
        """The host function serves the memory of whichever instance called it."""
        r = self.r
        on = {'k': 'caller', 'i': 0, 'n': ''}
        at = r.choice([0, 5, 100, 150, 65530])
        k = r.randrange(3)
        if k == 0:
            return [{'o': 'mput', 'on': on, 'at': at, 'b': [r.randrange(256) for _ in range(4)], 'w': ''}]
        if k == 1:
            return [{'o': 'mget', 'on': on, 'at': at, 'len': 4, 'w': ''}]
        return [{'o': 'mem', 'on': on}]

    def host_progs(self):
        r = self.r
        for h in self.hosts:
            prog = []
            n = r.choices([0, 1, 2, 3], self.p.get('hostops', [5, 2, 2, 1]))[0]
            live = list(self.gens)
            for _ in range(n):
                if not live:
                    break
                i = r.choice(live)
                k = r.random()
                if k < 0.45:
                    # bounded re-entry: fuel shared with the caller bounds depth
                    prog.append(self.call(i, catch=r.choice([0, 1, 1]), own=True))
                elif k < 0.7:
                    prog += self.poke(i)
                elif k < 0.8:
                    prog += self.caller()
                elif k < 0.86:
                    prog.append({'o': 'raise'}) if r.random() < 0.3 else None
                else:
                    prog += [o for o in self.observe(i) if o['o'] == 'glob'][:2]
            ret = []
            for t in h['r']:
                c = [{'k': 'a', 'x': j} for j, x in enumerate(h['p']) if x == t]
                ret.append(r.choice(c) if c and r.random() < 0.7 else cval(r, t))
            h['prog'] = prog + [{'o': 'hret', 'a': ret}]

    def build(self):
        r, p = self.r, self.p
        for _ in range(r.choice(p.get('nhost', [0, 1, 2]))):
            self.add_host()
        for _ in range(r.choice(p.get('nobj', [0, 1, 2]))):
            self.add_obj()
        nm = r.choice(p.get('nmods', [1, 1, 2, 2, 3]))
        for _ in range(nm):
            if self.gens and r.random() < p.get('again', 0.25):
                self.inst(again=r.choice(list(self.gens.values())))
            else:
                self.inst()
            for _ in range(r.randint(0, p.get('calls', 3))):
                self.act()
        for _ in range(r.randint(1, p.get('calls', 3) * 2)):
            self.act()
        for h in self.gens:
            self.script += self.observe(h)
        self.host_progs()
        # nested calls must terminate: a host program never refills fuel
        return {'mode': 'trace', 'mods': self.mods, 'hosts': self.hosts, 'script': self.script}

    def act(self):
        r, p = self.r, self.p
        h = r.choice(list(self.gens))
        if r.random() < p.get('poke', 0.25):
            self.script += self.poke(h)
        for i in self.gens:
            self.script.append(self.fuelset(i)) if r.random() < 0.9 else None
        self.script.append(self.call(h))
        if r.random() < p.get('look', 0.3):
            self.script += self.observe(r.choice(list(self.gens)))


def scenario(seed, p):
    return ScenGen(seed, p).build()
