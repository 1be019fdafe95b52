"""Directed scenarios: small modules written out by hand, enumerated
systematically.  As everywhere, expected results come from the specification."""
import itertools, random
from gen_exec import (i32, const, num, load, store, X, O, le, LOADS, STORES, NT, RT, TW, rconst, PROBE)

VALS = {'i32': [0, 1, -1, 0x7fffffff, -0x80000000, 0x01020304],
        'i64': [0, 1, -1, 1 << 63, 0x0102030405060708, 1 << 32],
        'f32': [0, 0x80000000, 0x3f800000, 0x7f800000, 1, 0x40490fdb, 0x7f7fffff],
        'f64': [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 1, 0x400921fb54442d18],
        'v128': [0, (1 << 128) - 1, 0x0f0e0d0c0b0a09080706050403020100]}


def LG(x): return X('local.get', x)
def LS(x): return X('local.set', x)
def LT(x): return X('local.tee', x)
def GG(x): return X('global.get', x)
def GS(x): return X('global.set', x)
def CALL(f): return {'o': 'call', 'f': f}
def BR(l): return {'o': 'br', 'l': l}
def BRIF(l): return {'o': 'br_if', 'l': l}
def BRT(ls, d): return {'o': 'br_table', 'ls': list(ls), 'd': d}
def BLOCK(body, p=(), r=()): return {'o': 'block', 'p': list(p), 'r': list(r), 'body': body}
def LOOP(body, p=(), r=()): return {'o': 'loop', 'p': list(p), 'r': list(r), 'body': body}
def IF(body, els=None, p=(), r=()): return {'o': 'if', 'p': list(p), 'r': list(r), 'body': body, 'els': els}
DROP, RET, UNR = O('drop'), O('return'), O('unreachable')
ADD, SUB, MUL, EQZ = num('i32.add'), num('i32.sub'), num('i32.mul'), num('i32.eqz')


class B:
    """Module builder."""

    def __init__(self):
        self.types = []
        self.m = {'imports': [], 'funcs': [], 'tables': [], 'mems': [], 'globals': [], 'exports': [], 'start': -1,
                  'elems': [], 'datas': []}
        self.nf = 0
        self.cnt = {'table': 0, 'mem': 0, 'global': 0}
        self.pend = []

    def ty(self, p, r):
        k = (tuple(p), tuple(r))
        if k not in self.types:
            self.types.append(k)
        return self.types.index(k)

    def _exp(self, name, kind, i):
        if name is not None:
            self.m['exports'].append({'n': name, 'k': kind, 'i': i})

    def imp_func(self, p, r, name=None, m='env', n=None):
        n = 'i%d' % len(self.m['imports']) if n is None else n
        self.m['imports'].append({'m': m, 'n': n, 'k': 'func', 't': self.ty(p, r)})
        self._exp(name, 'func', self.nf)
        self.nf += 1
        return self.nf - 1

    def imp(self, kind, name=None, **d):
        self.m['imports'].append(dict({'m': 'env', 'n': 'i%d' % len(self.m['imports']), 'k': kind}, **d))
        return self._idx(kind, name)

    def _idx(self, kind, name):
        i = self.cnt[kind]
        self.cnt[kind] += 1
        self._exp(name, kind, i)
        return i

    def func(self, p, r, ins, name=None, locals=()):
        self.pend.append((self.ty(p, r), list(locals), ins))
        self._exp(name, 'func', self.nf)
        self.nf += 1
        return self.nf - 1

    def mem(self, mn, mx=-1, name='m'):
        self.m['mems'].append({'min': mn, 'max': mx})
        return self._idx('mem', name)

    def table(self, et, mn, mx=-1, name=None):
        self.m['tables'].append({'et': et, 'min': mn, 'max': mx})
        return self._idx('table', name)

    def glob(self, vt, mut, init, name=None):
        self.m['globals'].append({'vt': vt, 'mut': mut, 'init': init})
        return self._idx('global', name)

    def elem(self, init, mode='active', tab=0, off=0, et='funcref'):
        init = [X('ref.func', x) if isinstance(x, int) else ({'o': 'ref.null', 't': et} if x is None else x) for x in init]
        self.m['elems'].append({'mode': mode, 'tab': tab, 'et': et, 'off': i32(off) if isinstance(off, int) else off, 'init': init})
        return len(self.m['elems']) - 1

    def data(self, b, mode='active', off=0):
        self.m['datas'].append({'mode': mode, 'off': i32(off) if isinstance(off, int) else off, 'bytes': list(b)})
        return len(self.m['datas']) - 1

    def probes(self):
        """Exports that read every table."""
        ets = [x['et'] for x in self.m['imports'] if x['k'] == 'table'] + [t['et'] for t in self.m['tables']]
        for x, t in enumerate(ets):
            self.func(['i32'], [t], [LG(0), X('table.get', x)], 'tg%d' % x)
            self.func([], ['i32'], [X('table.size', x)], 'ts%d' % x)
        return self

    def flat(self, ins, blocks):
        out = []
        for i in ins:
            if 'body' in i:
                j = {'o': i['o'], 'p': i['p'], 'r': i['r']}
                self.ty(i['p'], i['r'])
                j['b'] = self.blk(i['body'], blocks)
                if i['o'] == 'if':
                    j['e'] = self.blk(i['els'], blocks) if i['els'] is not None else 0
                out.append(j)
            else:
                out.append(i)
        return out

    def blk(self, ins, blocks):
        blocks.append(None)
        k = len(blocks)
        blocks[k - 1] = self.flat(ins, blocks)
        return k

    def done(self):
        m = dict(self.m)
        m['funcs'] = []
        for t, ls, ins in self.pend:
            blocks = []
            self.blk(ins, blocks)
            m['funcs'].append({'t': t, 'locals': ls, 'blocks': blocks})
        m['types'] = [{'p': list(p), 'r': list(r)} for p, r in self.types]
        return m


def C(t, n):
    return {'k': 'c', 't': t, 'v': le(n, TW[t])}


def CX(n): return {'k': 'c', 't': 'externref', 'v': [2] + le(n, 4)}
def CNULL(t): return {'k': 'c', 't': t, 'v': [0]}
def A(x): return {'k': 'a', 'x': x}
def R(x): return {'k': 'r', 'x': x}
def CAP(x): return {'k': 'cap', 'x': x}
def E(i, n): return {'k': 'exp', 'i': i, 'n': n}
def OBJ(i): return {'k': 'obj', 'i': i, 'n': ''}
NOIMP = {'k': 'none', 'i': 0, 'n': ''}
def INST(mod, imps=(), src='same'): return {'o': 'inst', 'mod': mod, 'imps': list(imps), 'src': src}
def INV(i, n, a=(), rt=(), catch=1): return {'o': 'call', 'on': E(i, n), 'a': list(a), 'rt': list(rt), 'catch': catch}
def MEM(i, n='m'): return {'o': 'mem', 'on': E(i, n)}
def GLOB(i, n, t): return {'o': 'glob', 'on': E(i, n), 't': t}
def GSET(i, n, t, v): return {'o': 'gset', 'on': E(i, n), 't': t, 'v': v}
def HFUNC(h, p, r): return {'o': 'hfunc', 'h': h, 'p': list(p), 'r': list(r)}
def HRET(*a): return {'o': 'hret', 'a': list(a)}
def MPUT(i, at, b, n='m', w=''): return {'o': 'mput', 'on': E(i, n), 'at': at, 'b': list(b), 'w': w}
def MGET(i, at, ln, n='m', w=''): return {'o': 'mget', 'on': E(i, n), 'at': at, 'len': ln, 'w': w}
def MGROW(i, k, n='m'): return {'o': 'mgrow', 'on': E(i, n), 'len': k}
def SKIPZ(v, n): return {'o': 'skipz', 'v': v, 'len': n}


def scen(mods, script, hosts=()):
    return {'mode': 'trace', 'mods': list(mods), 'hosts': [h for h in hosts], 'script': list(script)}


def host(p, r, prog): return {'p': list(p), 'r': list(r), 'prog': list(prog)}


def observe(mod, h):
    """Everything an instance shows."""
    out = []
    ets = [x['et'] for x in mod['imports'] if x['k'] == 'table'] + mod['tables']
    ts = [x for x in mod['imports'] if x['k'] == 'table'] + mod['tables']
    gs = [x for x in mod['imports'] if x['k'] == 'global'] + mod['globals']
    for e in mod['exports']:
        if e['k'] == 'mem':
            out.append(MEM(h, e['n']))
        elif e['k'] == 'global':
            out.append(GLOB(h, e['n'], gs[e['i']]['vt']))
        elif PROBE.fullmatch(e['n']) and e['n'][1] == 's':
            out.append(INV(h, e['n'], [], ['i32']))
        elif PROBE.fullmatch(e['n']):
            t = ts[int(e['n'][2:])]
            out += [INV(h, e['n'], [C('i32', k)], [t['et']]) for k in range(min(t['min'] + 2, 10))]
    return out


# ------------------------------------------------------------------- C06
def f_mem(r, n=None):
    """Every load and store at every boundary."""
    out = []
    for pages in ([1] if n else [1, 2, 0]):
        size = 65536 * pages
        for op in list(LOADS) + list(STORES):
            ld = op in LOADS
            w = LOADS.get(op) or STORES[op]
            t = op.split('.')[0]
            lane = op.endswith('_lane')
            offs = [0, 1, w, 8, 65535 & ~(w - 1), 65536, 0x80000000, 0xffffffff, 0x100000000 - w, 0xffffffff - 7]
            if n:
                offs = [0] + r.sample(offs[1:], min(4, n))
            b = B()
            b.mem(pages)
            b.data([r.choice([0x7f, 0x80, 0xff, 0, 0, r.randrange(256)]) if k % 16 >= 8 else (7 * k + 131) % 256 for k in range(64)], 'passive')
            b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), X('memory.init', 0)], 'init')
            script = [INST(0)]
            if pages:
                script += [INV(0, 'init', [C('i32', size - 64), C('i32', 0), C('i32', 64)]),
                           INV(0, 'init', [C('i32', 0), C('i32', 0), C('i32', 64)])]
            top = (w - 1).bit_length() if w > 1 else 0
            for k, off in enumerate(offs):
                al = (k + pages) % (top + 1)
                m = r.randrange(16 // w) if lane else None
                rt = [t]
                if ld:
                    ins = [LG(0)] + ([{'o': 'const', 't': 'v128', 'v': list(range(100, 116))}] if lane else []) + [load(op, off, al, m)]
                    if t in ('f32', 'f64'):
                        ins.append(num('i%s.reinterpret_%s' % (t[1:], t)))
                        rt = ['i' + t[1:]]
                    b.func(['i32'], rt, ins, 'f%d' % k)
                else:
                    v = {'o': 'const', 't': 'v128', 'v': list(range(200, 216))} if t == 'v128' else const(t, 0xfedcba9876543210)
                    b.func(['i32'], [], [LG(0), v, store(op, off, al, m)], 'f%d' % k)
                    rt = []
                bases = {0, 1, size - w - off, size - w - off + 1, size - w - off - 1, size, 0xffffffff, 0x80000000,
                         (-off) & 0xffffffff, size - w + 1, 0x7fffffff, (1 << 32) - w}
                bases = sorted(x for x in bases if 0 <= x < 1 << 32)
                if n:
                    bases = [x for x in bases if abs(x - (size - w - off)) <= 1] + r.sample(bases, min(len(bases), 4))
                for x in bases:
                    script.append(INV(0, 'f%d' % k, [C('i32', x)], rt))
            script.append(MEM(0))
            out.append(scen([b.done()], script))
    return out


# ------------------------------------------------------------------- C07
def f_grow(r, n=None):
    out = []
    combos = [(mn, mx) for mn in (0, 1, 2, 3) for mx in (-1, 0, 1, 2, 3, 5) if mx == -1 or mx >= mn]
    for mn, mx in combos:
        a = B()
        a.mem(mn, mx)
        a.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        a.func([], ['i32'], [O('memory.size')], 'size')
        a.func(['i32', 'i32'], [], [LG(0), LG(1), store('i32.store')], 'st')
        a.func(['i32'], ['i32'], [LG(0), load('i32.load')], 'ld')
        a.func(['i32'], ['i32', 'i32', 'i32'], [O('memory.size'), LG(0), O('memory.grow'), O('memory.size')], 'sgs')
        am = a.done()
        b = B()
        b.imp('mem', 'm', min=mn, max=mx)
        b.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        b.func([], ['i32'], [O('memory.size')], 'size')
        b.func(['i32', 'i32'], [], [LG(0), LG(1), store('i32.store')], 'st')
        b.func(['i32'], ['i32'], [LG(0), load('i32.load')], 'ld')
        bm = b.done()
        for rep in range(1 if n else 4):
            s = [INST(0), INST(1, [E(0, 'm')])]
            for _ in range(14):
                h = r.randrange(2)
                k = r.choice(['grow', 'grow', 'grow', 'st', 'ld', 'size', 'host', 'put', 'get', 'sgs', 'mem'])
                g = r.choice([0, 0, 1, 1, 1, 2, 3, 4, 1023, 1024, 1025, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffff0000, 0xffffffff])
                ad = r.choice([0, 65532, 65533, 65536, 131068, 131069, 4 * 65536 - 4, 196608])
                if k == 'grow':
                    s.append(INV(h, 'grow', [C('i32', g if g not in (1023,) else 2)], ['i32']))
                elif k == 'sgs':
                    s.append(INV(0, 'sgs', [C('i32', g if g != 1023 else 1)], ['i32', 'i32', 'i32']))
                elif k == 'st':
                    s.append(INV(h, 'st', [C('i32', ad), C('i32', 0x11223344)]))
                elif k == 'ld':
                    s.append(INV(h, 'ld', [C('i32', ad)], ['i32']))
                elif k == 'size':
                    s.append(INV(h, 'size', [], ['i32']))
                elif k == 'host':
                    s.append(MGROW(h, r.choice([0, 1, 1, 2, 3, 65536 if mn else 65537])))
                elif k == 'put':
                    s.append(MPUT(h, ad, [1, 2, 3, 4][:r.randint(0, 4)]))
                elif k == 'get':
                    s.append(MGET(h, ad, r.choice([0, 1, 4, 5])))
                else:
                    s.append(MEM(h))
            s += [INV(0, 'size', [], ['i32']), INV(1, 'size', [], ['i32']), MEM(0), MEM(1)]
            out.append(scen([am, bm], s))
    if True:        # the implementation's own limit
        a = B()
        a.mem(1020, -1)
        a.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        s = [INST(0)] + [INV(0, 'grow', [C('i32', k)], ['i32']) for k in (5, 0xffffffff, 3, 2, 1, 1, 0)]
        out.append(scen([a.done()], s))
    return out


# ------------------------------------------------------------------- C08
def f_bulk(r, n=None):
    out = []
    size = 65536
    segs = [bytes(range(1, 11)), b'', bytes(range(20, 90))]
    for rep in range(n or 40):
        b = B()
        b.mem(1, 2)
        b.data(segs[0], 'passive')
        b.data(segs[1], 'passive')
        b.data(segs[2], 'active', 100)
        for x in range(3):
            b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), X('memory.init', x)], 'init%d' % x)
            b.func([], [], [X('data.drop', x)], 'drop%d' % x)
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), O('memory.copy')], 'copy')
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), O('memory.fill')], 'fill')
        b.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        s = [INST(0)]
        edge = lambda lim, k: r.choice([0, 1, lim - k, lim - k + 1, lim - k - 1, lim, lim + 1, 0xffffffff, 0x80000000, (1 << 32) - k]) % (1 << 32)
        for _ in range(16):
            k = r.choice(['copy'] * 4 + ['init'] * 4 + ['fill'] * 2 + ['drop', 'mem', 'grow'])
            if k == 'copy':
                ln = r.choice([0, 0, 1, 2, 5, 9, 33, 64, 65, 130, size, size + 1, 0xffffffff])
                if r.random() < 0.6 and ln < 200:
                    d = r.randrange(90, 200)
                    sr = max(0, d + r.choice([-ln - 1, -ln, -ln + 1, -3, -1, 0, 1, 2, ln - 1, ln, ln + 1]))
                else:
                    d, sr = edge(size, ln), edge(size, ln)
                s.append(INV(0, 'copy', [C('i32', d), C('i32', sr), C('i32', ln)]))
            elif k == 'fill':
                ln = r.choice([0, 0, 1, 3, 64, 100, 0xffffffff])
                d = r.randrange(0, 300) if r.random() < 0.6 else edge(size, ln)
                s.append(INV(0, 'fill', [C('i32', d), C('i32', r.choice([0, 0x1ff, 0xab, -1])), C('i32', ln)]))
            elif k == 'init':
                x = r.choice([0, 0, 0, 1, 2])
                sl = len(segs[x])
                ln = r.choice([0, 0, 1, 2, 5, sl, sl + 1, 0xffffffff])
                sr = r.choice([0, 1, max(0, sl - ln), sl, sl + 1, sl - ln + 1]) % (1 << 32)
                d = r.randrange(0, 300) if r.random() < 0.7 else edge(size, ln)
                s.append(INV(0, 'init%d' % x, [C('i32', d), C('i32', sr), C('i32', ln)]))
            elif k == 'drop':
                s.append(INV(0, 'drop%d' % r.choice([0, 1, 2])))
            elif k == 'grow':
                s.append(INV(0, 'grow', [C('i32', r.choice([0, 1]))], ['i32']))
                size = 65536
            else:
                s.append(MEM(0))
        s.append(MEM(0))
        if r.random() < 0.4:        # a second instance starts with full segments
            s += [INST(0), INV(1, 'init0', [C('i32', 0), C('i32', 0), C('i32', 10)]), MEM(1), MEM(0)]
        out.append(scen([b.done()], s))
    return out


# ------------------------------------------------------------------- C09
def tabmod(alias=False):
    """With alias: all tables are imported, two of the indices denote one table."""
    b = B()
    if alias:
        b.imp('table', 't0', et='funcref', min=5, max=8)
        b.imp('table', 't1', et='externref', min=4, max=-1)
        b.imp('table', 't2', et='funcref', min=3, max=-1)
    else:
        b.table('funcref', 5, 8, 't0')
        b.table('externref', 4, -1, 't1')
        b.table('funcref', 3, -1, 't2')
    f0 = b.func([], ['i32'], [i32(100)], 'c0')
    f1 = b.func([], ['i32'], [i32(101)], 'c1')
    f2 = b.func(['i32'], ['i32'], [LG(0), i32(1), ADD], 'c2')
    b.elem([f0, f1, None, f2], 'active', 0, 1)
    b.elem([f2, f1, f0], 'passive')
    b.elem([None, None], 'passive', et='externref')
    b.elem([f1], 'declarative')
    b.elem([f1, None], 'active', 2, 0)
    for x, t in enumerate(['funcref', 'externref', 'funcref']):
        b.func(['i32', t], [], [LG(0), LG(1), X('table.set', x)], 'set%d' % x)
        b.func([t, 'i32'], ['i32'], [LG(0), LG(1), X('table.grow', x)], 'grow%d' % x)
        b.func(['i32', t, 'i32'], [], [LG(0), LG(1), LG(2), X('table.fill', x)], 'fill%d' % x)
        b.func(['i32'], ['i32'], [LG(0), X('table.get', x), O('ref.is_null')], 'null%d' % x)
    for x, y in ((0, 0), (0, 2), (2, 0), (1, 1), (2, 2)):
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), {'o': 'table.copy', 'x': x, 'y': y}], 'copy%d%d' % (x, y))
    for x, y in ((0, 0), (0, 1), (2, 1), (1, 2), (0, 3), (2, 4)):
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), {'o': 'table.init', 'x': x, 'y': y}], 'init%d%d' % (x, y))
    for y in range(5):
        b.func([], [], [X('elem.drop', y)], 'drop%d' % y)
    b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': 0}], 'ci0')
    b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': 2}], 'ci2')
    b.func(['i32'], ['funcref'], [X('ref.func', f0), X('ref.func', f2), LG(0), {'o': 'select_t', 't': 'funcref'}], 'pick')
    return b.probes().done()


def f_table(r, n=None):
    plain, shared = tabmod(), tabmod(True)
    ets = ['funcref', 'externref', 'funcref']
    seglen = [0, 3, 2, 0, 0]
    out = []
    for rep in range(2 * (n or 60)):
        alias = rep % 5 < 2
        m = shared if alias else plain
        size = [5, 4, 5 if alias else 3]
        imps = [OBJ(0), OBJ(1), OBJ(0)] if alias else []
        s = [{'o': 'htab', 'et': 'funcref', 'min': 5, 'max': 7}, {'o': 'htab', 'et': 'externref', 'min': 4, 'max': -1}] if alias else []
        s += [INST(0, imps), INV(0, 'pick', [C('i32', 0)], ['funcref']), INV(0, 'pick', [C('i32', 1)], ['funcref'])]

        def ref(t):
            if t == 'funcref':
                return r.choice([CAP(0), CAP(1), CNULL(t), CAP(9)])
            return r.choice([CX(r.choice([0, 1, 77, 0x7fffffff])), CNULL(t)])

        def idx(x, k=1):
            return r.choice([0, 1, 2, size[x] - k, size[x] - k + 1, size[x], size[x] + 1, 0xffffffff, 0x80000000]
                            if r.random() < 0.4 else [0, 1, 2, 3]) % (1 << 32)
        for _ in range(18):
            k = r.choice(['set', 'set', 'grow', 'fill', 'copy', 'copy', 'init', 'init', 'drop', 'ci', 'get', 'null', 'look'])
            x = r.randrange(3)
            ln = r.choice([0, 0, 1, 2, 2, 3, 4, 5, 0xffffffff])
            if k == 'set':
                s.append(INV(0, 'set%d' % x, [C('i32', idx(x)), ref(ets[x])]))
            elif k == 'grow':
                s.append(INV(0, 'grow%d' % x, [ref(ets[x]), C('i32', r.choice([0, 1, 1, 2, 4, 1020, 1024, 0xffffffff, 0x80000000]))], ['i32']))
            elif k == 'fill':
                s.append(INV(0, 'fill%d' % x, [C('i32', idx(x, ln)), ref(ets[x]), C('i32', ln)]))
            elif k == 'copy':
                x, y = r.choice([(0, 0), (0, 0), (0, 2), (2, 0), (1, 1), (2, 2)])
                s.append(INV(0, 'copy%d%d' % (x, y), [C('i32', idx(x, ln)), C('i32', idx(y, ln)), C('i32', ln)]))
            elif k == 'init':
                x, y = r.choice([(0, 0), (0, 1), (0, 1), (2, 1), (1, 2), (0, 3), (2, 4)])
                sr = r.choice([0, 1, seglen[y], seglen[y] + 1, max(0, seglen[y] - ln)])
                s.append(INV(0, 'init%d%d' % (x, y), [C('i32', idx(x, ln)), C('i32', sr), C('i32', ln)]))
            elif k == 'drop':
                s.append(INV(0, 'drop%d' % r.randrange(5)))
            elif k == 'ci':
                s.append(INV(0, 'ci%d' % r.choice([0, 2]), [C('i32', idx(0))], ['i32']))
            elif k == 'get':
                s.append(INV(0, 'tg%d' % x, [C('i32', idx(x))], [ets[x]]))
            elif k == 'null':
                s.append(INV(0, 'null%d' % x, [C('i32', idx(x))], ['i32']))
            else:
                s += observe(m, 0)
        s += observe(m, 0)
        if r.random() < 0.3:
            s += [INST(0, imps), INV(1, 'init01', [C('i32', 0), C('i32', 0), C('i32', 3)])] + observe(m, 1)
        out.append(scen([m], s))
    return out


# -------------------------------------------------------------- C10, C11
def leave(kind, rs, junk):
    """Instructions that leave the current function with results rs."""
    res = [const(t, 0x1111 * (k + 1)) for k, t in enumerate(rs)]
    pre = [i32(900), const('i64', 901)] if junk else []
    dead = [UNR]
    tail = [const(t, 5) for t in rs]
    if kind == 'fall':
        return pre + ([DROP, DROP] if junk else []) + res
    if kind == 'return':
        return pre + res + [RET] + dead
    if kind == 'br0':
        return pre + res + [BR(0)] + dead
    if kind == 'br_if0':
        return pre + res + [i32(1), BRIF(0)] + dead
    if kind == 'brt':
        return pre + res + [i32(3), BRT([0, 0], 0)] + dead
    if kind == 'block-return':
        return pre + [BLOCK([i32(77)] + res + [RET])] + dead
    if kind == 'block-br1':
        return pre + [BLOCK([i32(77)] + res + [BR(1)])] + dead
    if kind == 'loop-br2':
        return pre + [LOOP([i32(1), BLOCK([const('f32', 77)] + res + [BR(2)]), DROP])] + dead
    if kind == 'if-br1':
        return pre + [i32(1), IF([i32(5)] + res + [i32(2), BRIF(1), UNR], [])] + dead
    if kind == 'else-brt':
        return pre + [i32(0), IF([UNR], [i32(5)] + res + [i32(1), BRT([1, 1], 1)])] + dead
    if kind == 'deep':
        return pre + [BLOCK([LOOP([BLOCK([i32(7)] + res + [BR(3)])])])] + dead
    raise ValueError(kind)


LEAVES = ['fall', 'return', 'br0', 'br_if0', 'brt', 'block-return', 'block-br1', 'loop-br2', 'if-br1', 'else-brt', 'deep']
RSETS = [[], ['i32'], ['i32', 'i64'], ['i64', 'i32', 'i32']]


def f_leave(r, n=None):
    out = []
    combos = list(itertools.product(LEAVES, RSETS, (0, 1)))
    if n:
        combos = r.sample(combos, n * 6)
    for chunk in [combos[i:i + 6] for i in range(0, len(combos), 6)]:
        b = B()
        b.table('funcref', 20, -1, None)
        script = [INST(0)]
        slots = []
        for k, (kind, rs, junk) in enumerate(chunk):
            cal = b.func(['i32', 'i64'], rs, [LG(0), DROP, i32(1), LS(0), LG(2), DROP] + leave(kind, rs, junk), 'cal%d' % k, ['i32', 'f64'])
            slots.append(cal)
            ty = b.ty(['i32', 'i64'], rs)
            # the caller keeps operands beneath and checks its locals afterwards
            def caller(callins):
                body = [i32(0x55), const('i64', 0x66), LG(0), const('i64', 9)] + callins
                for q, t in reversed(list(enumerate(rs))):
                    body.append(LS(2 + q))
                body += [LS(6), DROP]
                return body + [LG(2 + q) for q in range(len(rs))] + [LG(0), LG(1), LG(6)]
            lr = rs + ['i32', 'i64', 'i64']
            # locals: 2.. results, filler to index 5, 6 = i64
            ls = list(rs) + ['i32'] * (4 - len(rs)) + ['i64']
            b.func(['i32', 'i64'], lr, caller([CALL(cal)]), 'd%d' % k, ls)
            b.func(['i32', 'i64'], lr, caller([i32(k), {'o': 'call_indirect', 'ty': ty, 'x': 0}]), 'n%d' % k, ls)
            # nested: a function whose body is only the call
            mid = b.func(['i32', 'i64'], rs, [LG(0), LG(1), CALL(cal)], None)
            mid2 = b.func(['i32', 'i64'], rs, [BLOCK([LG(0), LG(1), CALL(mid), BR(1)]), UNR], None)
            b.func(['i32', 'i64'], lr, caller([CALL(mid2)]), 'm%d' % k, ls)
            # in a loop: any leaked frame would accumulate
            b.func([], ['i32'], [i32(30), LS(0), LOOP([i32(1), const('i64', 2), CALL(cal)] + [DROP] * len(rs) +
                                                      [LG(0), i32(1), SUB, LT(0), BRIF(0)]), LG(0)], 'l%d' % k, ['i32'])
            for nm in ('d', 'n', 'm'):
                script.append(INV(0, nm + str(k), [C('i32', 31 + k), C('i64', 32)], lr))
            script.append(INV(0, 'cal%d' % k, [C('i32', 3), C('i64', 4)], rs))
            script.append(INV(0, 'l%d' % k, [], ['i32']))
        b.elem(slots)
        out.append(scen([b.done()], script))
    return out


def f_switch(r, n=None):
    """br_table with every index over labels of differing kinds and arities."""
    out = []
    for rep in range(n or 30):
        b = B()
        script = [INST(0)]
        for k in range(4):
            depth = r.randint(1, 4)
            nl = r.randint(0, 5)
            ts = r.choice([[], ['i32'], ['i64', 'i32']])
            # blocks depth-1 (outermost) .. 0 (innermost), each adds its number to local 1
            ls = [r.randrange(depth + 1) for _ in range(nl)]
            d = r.randrange(depth + 1)
            opd = [const(t, 10 + q) for q, t in enumerate(ts)]
            body = [const('f64', 1)] + opd + [LG(0), BRT(ls, d)]
            for lv in range(depth):
                after = []
                for t in reversed(ts):
                    after.append(DROP)
                after += [LG(1), i32(10), MUL, i32(lv + 1), ADD, LS(1)] + opd
                body = [i32(r.randrange(9)), BLOCK(body, [], ts)] + after
                if r.random() < 0.3:
                    body += [BR(0)]
                else:
                    # drop the junk i32 beneath the results
                    body = body[1:]
            # function label takes ts too
            b.func(['i32'], ts, body + [], 'f%d' % k, ['i32'])
            b.func(['i32'], ts + ['i32'], [LG(0), CALL(b.nf - 1)] + [i32(1)], 'g%d' % k)
            for x in list(range(nl + 2)) + [0x7fffffff, 0x80000000, 0xffffffff]:
                script.append(INV(0, 'f%d' % k, [C('i32', x)], ts))
        out.append(scen([b.done()], script))
    return out


def f_cond(r, n=None):
    """Everything that asks a condition, with conditions of every shape."""
    out = []
    conds = [0, 1, 2, 255, 256, 0x100, 0xff00, 0x10000, 0x1000000, 0x80000000, 0x7fffffff, 0xffffffff, 0xfffffffe, 0xffffff00, 0x80000001, 3]
    for t in NT + RT:
        b = B()
        p = ['i32', t, t]
        b.func(p, [t], [LG(1), LG(2), LG(0), {'o': 'select_t', 't': t}], 'selt')
        b.func(p, [t, 'i32'], [LG(1), LG(2), LG(0), {'o': 'select_t', 't': t}, LG(0), EQZ], 'selt2')
        if t in NT:
            b.func(p, [t], [LG(1), LG(2), LG(0), O('select')], 'sel')
        b.func(p, [t], [LG(0), IF([LG(1)], [LG(2)], [], [t])], 'if')
        b.func(p, ['i32'], [i32(1), LS(3), LG(0), IF([i32(2), LS(3)]), LG(3)], 'if1', ['i32'])
        b.func(p, [t], [BLOCK([LG(1), LG(0), BRIF(0), DROP, LG(2)], [], [t])], 'brif')
        b.func(p, [t], [LG(1), LG(0), BRIF(0), DROP, LG(2)], 'brif1')
        b.func(p, ['i32'], [LOOP([LG(3), i32(1), ADD, LT(3), i32(3), num('i32.lt_u'), IF([LG(0), BRIF(1)])]), LG(3)], 'loop', ['i32'])
        m = b.done()
        s = [INST(0)]
        vs = [C(t, v) for v in r.sample(VALS[t], 2)] if t in NT else [CNULL(t), CX(5) if t == 'externref' else CNULL(t)]
        for c in conds:
            x, y = vs if r.random() < 0.5 else vs[::-1]
            for f in ('selt', 'selt2', 'sel', 'if', 'if1', 'brif', 'brif1', 'loop'):
                if f == 'sel' and t in RT:
                    continue
                rt = {'selt2': [t, 'i32'], 'if1': ['i32'], 'loop': ['i32']}.get(f, [t])
                s.append(INV(0, f, [C('i32', c), x, y], rt))
        out.append(scen([m], s))
    return out


def f_loops(r, n=None):
    out = []
    for p in ([], ['i32'], ['i64', 'i32']):
        for q in ([], ['i32'], ['i32', 'f32']):
            b = B()
            ini = [const(t, 3 + k) for k, t in enumerate(p)]
            # loop keeps its parameters, counts down local 0, leaves junk every round
            body = [i32(99), const('i64', 98)]
            body += [const(t, 50 + k) for k, t in enumerate(p)]
            body += [LG(0), i32(1), SUB, LT(0), i32(0), num('i32.gt_s'), BRIF(0)]
            body += [const(t, 7 + k) for k, t in enumerate(q)]
            body += [BLOCK([], [], [])]
            # leave by br to an enclosing block, so junk is discarded
            f = [i32(5), BLOCK(ini + [LOOP(body + [BR(1)], p, [])] + [UNR], [], q)]
            f += [LS(1 + k) for k in reversed(range(len(q)))] + [LS(4)] + [LG(1 + k) for k in range(len(q))] + [LG(4)]
            b.func(['i32'], q + ['i32'], f, 'f', list(q) + ['i32'] * (3 - len(q)) + ['i32'])
            # if with parameters and results, both arms
            f = ini + [LG(0), IF([DROP] * len(p) + [const(t, 1) for t in q], [DROP] * len(p) + [const(t, 2) for t in q], p, q)]
            b.func(['i32'], q, f, 'if')
            f = ini + [LG(0), IF([i32(0), BRIF(0)] if False else [O('nop')], None, p, p)]
            b.func(['i32'], p, f, 'ifn')
            s = [INST(0)] + [INV(0, 'f', [C('i32', k)], q + ['i32']) for k in (0, 1, 2, 5)]
            s += [INV(0, 'if', [C('i32', k)], q) for k in (0, 1, 2, 256, -1, 1 << 31)]
            s += [INV(0, 'ifn', [C('i32', k)], p) for k in (0, 1, 1 << 16)]
            out.append(scen([b.done()], s))
    return out


def f_calls(r, n=None):
    """Recursion, mutual recursion, signature checks, exhaustion."""
    b = B()
    b.table('funcref', 6, -1, 't0')
    fac = b.nf
    b.func(['i32'], ['i32'], [LG(0), EQZ, IF([i32(1)], [LG(0), LG(0), i32(1), SUB, CALL(fac), MUL], [], ['i32'])], 'fac')
    ev, od = b.nf, b.nf + 1
    b.func(['i32'], ['i32'], [LG(0), EQZ, IF([i32(1), RET]), LG(0), i32(1), SUB, CALL(od)], 'even')
    b.func(['i32'], ['i32'], [LG(0), EQZ, IF([i32(0), BR(1)]), LG(0), i32(1), SUB, CALL(ev), BR(0)], 'odd')
    inf = b.nf
    b.func(['i32'], ['i32'], [LG(0), CALL(inf), i32(1), ADD], 'inf')
    inf2 = b.nf
    b.func([], [], [i32(4), {'o': 'call_indirect', 'ty': b.ty([], []), 'x': 0}], 'inf2')
    six = b.func(['i32', 'i64', 'f32', 'f64', 'v128', 'externref'], ['externref', 'v128', 'f64', 'f32', 'i64', 'i32'],
                 [LG(5), LG(4), LG(3), LG(2), LG(1), LG(0)], 'six')
    b.func(['i32', 'i64', 'f32', 'f64', 'v128', 'externref'], ['externref', 'v128', 'f64', 'f32', 'i64', 'i32'],
           [LG(k) for k in range(6)] + [CALL(six)], 'six2')
    zl = ['i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref']
    zero = b.nf
    b.func([], zl, [LG(k) for k in range(7)] + [i32(5), LS(0), const('i64', 5), LS(1), const('f32', 5), LS(2), const('f64', 5), LS(3)], 'zero', zl)
    b.func([], ['i32', 'i64'], [CALL(zero), DROP, DROP, DROP, DROP, DROP], 'zero2')
    b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': 0}], 'ci_i')
    b.func(['i32', 'i32'], ['i32'], [LG(1), LG(0), {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}], 'ci_ii')
    b.func(['i32', 'i64'], [], [LG(1), LG(0), {'o': 'call_indirect', 'ty': b.ty(['i64'], []), 'x': 0}], 'ci_l')
    k7 = b.func([], ['i32'], [i32(7)], None)
    b.elem([fac, ev, k7, None, inf2], 'active', 0, 0)
    s = [INST(0)]
    s += [INV(0, 'fac', [C('i32', k)], ['i32']) for k in (0, 1, 5, 12, 13, 40)]
    s += [INV(0, 'even', [C('i32', k)], ['i32']) for k in (0, 1, 7, 10, 250)]
    s += [INV(0, 'odd', [C('i32', k)], ['i32']) for k in (0, 1, 7, 10, 251)]
    args = [C('i32', -5), C('i64', 1 << 40), C('f32', 0x3fc00000), C('f64', 0x4000000000000000), C('v128', 1 << 100), CX(9)]
    s += [INV(0, 'six', args, ['externref', 'v128', 'f64', 'f32', 'i64', 'i32']), INV(0, 'six2', args, ['externref', 'v128', 'f64', 'f32', 'i64', 'i32'])]
    s += [INV(0, 'zero', [], zl), INV(0, 'zero', [], zl), INV(0, 'zero2', [], ['i32', 'i64'])]
    for k in (0, 1, 2, 3, 4, 5, 6, 0x7fffffff, 0x80000000, 0xffffffff):
        s += [INV(0, 'ci_i', [C('i32', k)], ['i32']), INV(0, 'ci_ii', [C('i32', k), C('i32', 4)], ['i32']),
              INV(0, 'ci_l', [C('i32', k), C('i64', 4)], [])]
    s += [INV(0, 'inf', [C('i32', 1)], ['i32']), INV(0, 'fac', [C('i32', 5)], ['i32']), INV(0, 'inf2'),
          INV(0, 'even', [C('i32', 100)], ['i32'])]
    return [scen([b.done()], s)] + [callmatrix(r, k) for k in range(3)]


def callmatrix(r, k):
    """call_indirect from every function type to every other; two of the type
    indices are equal types."""
    pool = NT + RT
    one = [[], ['i32'], ['i64'], ['f32']] if k == 0 else [[], [r.choice(NT)], [r.choice(pool)], r.sample(pool, 2)]
    sig = [(p, q) for p in one for q in one]
    b = B()
    for p, q in sig:
        b.ty(p, q)
    dup = r.randrange(len(b.types))
    ntab = len(sig) + 2
    b.table('funcref', ntab, -1, 't')
    zero = lambda t: {'o': 'ref.null', 't': t} if t in RT else const(t, 0)
    fs = [b.func(p, q, [zero(t) for t in q], None) for p, q in sig]
    b.elem(fs + [None], 'active', 0, 0)
    out = []
    for i, (p, q) in enumerate(sig):
        n = len(p)
        b.func(p + ['i32'], q, [LG(j) for j in range(n)] + [LG(n), {'o': 'call_indirect', 'ty': b.types.index((tuple(p), tuple(q))), 'x': 0}], 'c%d' % i)
    b.types.append(b.types[dup])
    p, q = b.types[dup]
    n = len(p)
    b.pend.append((dup, [], [LG(j) for j in range(n)] + [LG(n), {'o': 'call_indirect', 'ty': len(b.types) - 1, 'x': 0}]))
    b.pend[-1] = (b.ty(list(p) + ['i32'], list(q)), [], b.pend[-1][2])
    b._exp('cd', 'func', b.nf)
    b.nf += 1
    nil = lambda t: CNULL(t) if t in RT else C(t, 1)
    s = [INST(0)]
    for i, (p, q) in enumerate(sig):
        s += [INV(0, 'c%d' % i, [nil(t) for t in p] + [C('i32', j)], q) for j in range(ntab + 1)]
    p, q = b.types[dup]
    s += [INV(0, 'cd', [nil(t) for t in p] + [C('i32', j)], q) for j in range(ntab + 1)]
    return scen([b.done()], s)


# ------------------------------------------------------------------- C12
def f_glob(r, n=None):
    out = []
    types = NT + RT
    for t in types:
        vals = [C(t, v) for v in VALS[t]] if t in NT else ([CNULL(t), CAP(0)] if t == 'funcref' else [CNULL(t), CX(3), CX(0)])
        for k in range(2 if n else 5):
            a = B()
            f = a.func([], ['i32'], [i32(1)], 'c')
            init = rconst(r, t) if t in NT else (X('ref.func', f) if t == 'funcref' and k % 2 else {'o': 'ref.null', 't': t})
            a.glob(t, 1, init, 'g')
            a.glob(t, 0, init, 'k')
            a.glob('i32', 1, i32(77), 'o')
            a.func([t], [], [LG(0), GS(0)], 'set')
            a.func([], [t], [GG(0)], 'get')
            a.func([], [t], [GG(1)], 'getk')
            a.func([t], [t, t], [GG(0), LG(0), GS(0), GG(0)], 'swap')
            a.func([], ['i32'], [GG(2), i32(1), ADD, GS(2), GG(2)], 'inc')
            a.func([], ['funcref'], [X('ref.func', f)], 'rf')
            am = a.done()
            b = B()
            b.imp('global', 'g', vt=t, mut=1)
            b.imp('global', None, vt=t, mut=0)
            b.imp('global', 'o', vt='i32', mut=1)
            b.imp('global', 'g2', vt=t, mut=1)
            b.glob(t, 1, GG(1), 'mine')
            b.glob(t, 0, GG(1), 'mineK')
            b.func([t], [], [LG(0), GS(0)], 'set')
            b.func([], [t], [GG(0)], 'get')
            b.func([t], [], [LG(0), GS(4)], 'setm')
            b.func([], [t, t, t], [GG(1), GG(4), GG(5)], 'all')
            b.func([], [], [UNR], 'trap')
            b.func([t], [], [LG(0), GS(0), LG(0), GS(4), UNR], 'settrap')
            b.func([t], [t, t, t], [GG(3), LG(0), GS(0), GG(3), GG(1), GS(3), GG(0)], 'two')
            bm = b.done()
            s = [INST(0), INV(0, 'rf', [], ['funcref']), INST(1, [E(0, 'g'), E(0, 'k'), E(0, 'o'), E(0, 'g')]),
                 INST(1, [E(1, 'g'), E(0, 'k'), E(1, 'o'), r.choice([E(0, 'g'), E(1, 'g2'), E(1, 'mine')])])]
            for _ in range(14):
                v = r.choice(vals)
                h = r.randrange(3)
                s.append(r.choice([
                    INV(h, 'set', [v]), INV(h, 'get', [], [t]), GSET(h, 'g', t, v), GLOB(h, 'g', t), INV(0, 'swap', [v], [t, t]),
                    INV(0, 'inc', [], ['i32']), INV(1 + h % 2, 'setm', [v]), INV(1 + h % 2, 'all', [], [t] * 3),
                    INV(1 + h % 2, 'settrap', [v]), INV(1 + h % 2, 'two', [v], [t] * 3), INV(0, 'getk', [], [t]), GLOB(1 + h % 2, 'mine', t),
                    GSET(1 + h % 2, 'mine', t, v)]))
            for h in range(3):
                s += [GLOB(h, 'g', t), GLOB(h, 'o', 'i32')]
            s += [GLOB(0, 'k', t), GLOB(1, 'mine', t), GLOB(2, 'mine', t), GLOB(1, 'mineK', t)]
            out.append(scen([am, bm], s))
    return out


# ------------------------------------------------------------------- C13
def linker(kind, req, extra=True):
    """A module importing one thing, with visible side effects if linked."""
    b = B()
    h = b.imp_func([], [])
    if kind == 'func':
        b.imp_func(req['p'], req['r'])
    else:
        b.imp(kind, None, **req)
    mem = b.imp('mem', None, min=0, max=-1) if kind != 'mem' else 0
    tab = b.imp('table', None, et='funcref', min=0, max=-1) if kind != 'table' else b.imp('table', None, et='funcref', min=0, max=-1)
    g = b.imp('global', None, vt='i32', mut=1)
    b.elem([h], 'active', tab, 0)
    if kind != 'mem':
        b.data([9], 'active', 0)
    gi = 1 if kind == 'global' else 0
    st = b.func([], [], [GG(gi), i32(1), ADD, GS(gi), CALL(0)], None)
    b.m['start'] = st
    return b.done()


def base():
    b = B()
    b.mem(1, 4)
    b.table('funcref', 4, 9, 't')
    b.glob('i32', 1, i32(0), 'g')
    b.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
    b.func(['i32'], ['i32'], [{'o': 'ref.null', 't': 'funcref'}, LG(0), X('table.grow', 0)], 'tgrow')
    return b.probes().done()


def f_link(r, n=None):
    out = []
    bm = base()
    H = host([], [], [HRET()])

    def run(pairs, kind, mk):
        """pairs: (script ops creating the object, ref, requested)"""
        for chunk in [pairs[i:i + 10] for i in range(0, len(pairs), 10)]:
            mods = [bm]
            s = [HFUNC(1, [], []), INST(0)]
            nobj, ninst = 1, 1
            for prov, req in chunk:
                ops, ref, dn, di = mk(prov, nobj, ninst, mods)
                s += ops
                nobj += dn
                ninst += di
                mods.append(linker(kind, req))
                imps = [OBJ(0), ref]
                if kind != 'mem':
                    imps.append(E(0, 'm'))
                imps += [E(0, 't'), E(0, 'g')]
                s.append(INST(len(mods) - 1, imps))
                ninst += 1
                s += [GLOB(0, 'g', 'i32')]
            s += observe(bm, 0)
            out.append(scen(mods, s, [H]))

    ft = [([], []), (['i32'], []), ([], ['i32']), (['i32'], ['i32']), (['i32', 'i32'], ['i32']), (['i64'], ['i32']),
          (['i32'], ['i32', 'i32']), (['f32', 'i32'], []), (['i32', 'f32'], []), (['externref'], ['funcref']), (['funcref'], ['externref']),
          ([], ['i64']), ([], ['v128']), ([], ['i64', 'i32']), (['i32'], ['i64']), (['i32', 'i64'], ['i32'])]
    pairs = [((p, q), {'p': list(p2), 'r': list(r2)}) for p, q in ft for p2, r2 in ft]
    if n:
        pairs = [x for x in pairs if (x[0][0], x[0][1]) == (x[1]['p'], x[1]['r'])][:4] + r.sample(pairs, 26) + r.sample([x for x in pairs if x[0] != (x[1]['p'], x[1]['r']) and
            len(x[0][0]) == len(x[1]['p']) and len(x[0][1]) == len(x[1]['r'])], 24)

    def mkf(prov, nobj, ninst, mods):
        if r.random() < 0.5:
            b = B()
            b.func(prov[0], prov[1], [UNR], 'x')
            mods.append(b.done())
            return [INST(len(mods) - 1)], E(ninst, 'x'), 0, 1
        return [HFUNC(1, prov[0], prov[1])], OBJ(nobj), 1, 0
    run(pairs, 'func', mkf)

    gt = [(t, m) for t in NT + RT for m in (0, 1)]
    pairs = [(a, {'vt': b[0], 'mut': b[1]}) for a in gt for b in gt]
    if n:
        pairs = [x for x in pairs if x[0][0] == x[1]['vt']] + r.sample(pairs, 20)

    def mkg(prov, nobj, ninst, mods):
        t, m = prov
        if t == 'funcref' or r.random() < 0.5:
            b = B()
            b.glob(t, m, const(t, 1) if t in NT else {'o': 'ref.null', 't': t}, 'x')
            mods.append(b.done())
            return [INST(len(mods) - 1)], E(ninst, 'x'), 0, 1
        return [{'o': 'hglob', 'vt': t, 'mut': m, 'v': C(t, 1) if t in NT else CNULL(t)}], OBJ(nobj), 1, 0
    run(pairs, 'global', mkg)

    lims = [(0, -1), (0, 0), (1, -1), (1, 1), (1, 3), (2, 3), (2, -1), (0, 3)]
    # provided limits, growth before linking, requested limits
    pairs = [((mn, mx, gr), {'min': a, 'max': b}) for mn, mx in lims for gr in (0, 1)
             for a in (0, 1, 2, 3) for b in (-1, 0, 1, 2, 3, 4) if b == -1 or b >= a]
    if n:
        pairs = r.sample(pairs, 60)

    def mkm(prov, nobj, ninst, mods):
        mn, mx, gr = prov
        b = B()
        b.mem(mn, mx, 'x')
        b.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        mods.append(b.done())
        return [INST(len(mods) - 1), INV(ninst, 'grow', [C('i32', gr)], ['i32'])], E(ninst, 'x'), 0, 1
    run(pairs, 'mem', mkm)
    tp = [((x[0] + (et,)), dict(x[1], et=et2)) for x in pairs for et, et2 in
          (r.sample([('funcref', 'funcref'), ('externref', 'externref'), ('funcref', 'externref'), ('externref', 'funcref')], 2 if not n else 1))]

    def mkt(prov, nobj, ninst, mods):
        mn, mx, gr, et = prov
        if gr == 0 and mx != 0 and r.random() < 0.4:
            return [{'o': 'htab', 'et': et, 'min': mn, 'max': mx}], OBJ(nobj), 1, 0
        b = B()
        b.table(et, mn, mx, 'x')
        b.func(['i32'], ['i32'], [{'o': 'ref.null', 't': et}, LG(0), X('table.grow', 0)], 'grow')
        mods.append(b.done())
        return [INST(len(mods) - 1), INV(ninst, 'grow', [C('i32', gr)], ['i32'])], E(ninst, 'x'), 0, 1
    run(tp, 'table', mkt)

    # limits of many digits
    big = [(0, 65536), (0, 65535), (1, 32768), (0, 32767), (1, 40000), (0, 256), (0, 255), (1, -1)]
    bp = [((mn, mx, 0), {'min': a, 'max': b}) for mn, mx in big for a in (0, 1) for b in (-1, 255, 256, 257, 32767, 32768, 32769, 40000, 65535, 65536)]
    run(r.sample(bp, 50) if n else bp, 'mem', mkm)
    bt = [((mn, mx, 0, 'funcref'), {'min': a, 'max': b, 'et': 'funcref'}) for mn, mx in big[2:] + [(0, 1 << 30), (3, 70000), (0, 2 ** 31 - 1)] for a in (0, 1, 4)
          for b in (-1, 255, 256, 257, 32768, 65535, 65536, 70000, 70001, 1 << 30, 2 ** 31 - 1)]
    run(r.sample(bt, 50) if n else bt, 'table', mkt)

    # kinds, and missing objects, with other imports before and after
    kinds = {'func': {'p': [], 'r': []}, 'global': {'vt': 'i32', 'mut': 1}, 'mem': {'min': 0, 'max': -1},
             'table': {'et': 'funcref', 'min': 0, 'max': -1}}
    nm = {'func': 'grow', 'global': 'g', 'mem': 'm', 'table': 't'}
    for kind in kinds:
        mods = [bm, linker(kind, kinds[kind])]
        s = [HFUNC(1, [], []), INST(0)]
        for k2 in list(kinds) + ['none', 'gone']:
            ref = NOIMP if k2 == 'none' else E(0, 'nosuch') if k2 == 'gone' else OBJ(0) if k2 == 'func' else E(0, nm[k2])
            s += [INST(1, [OBJ(0), ref] + ([E(0, 'm')] if kind != 'mem' else []) + [E(0, 't'), E(0, 'g')]), GLOB(0, 'g', 'i32')]
        good = OBJ(0) if kind == 'func' else E(0, nm[kind])
        full = [OBJ(0), good] + ([E(0, 'm')] if kind != 'mem' else []) + [E(0, 't'), E(0, 'g')]
        for j in range(len(full)):          # each import missing in turn
            s += [INST(1, full[:j] + [NOIMP] + full[j + 1:]), GLOB(0, 'g', 'i32')]
        s += [INST(1, full), GLOB(0, 'g', 'i32')] + observe(bm, 0)
        out.append(scen(mods, s, [H]))
    return out


# ------------------------------------------------------------------- C14
def f_inst(r, n=None):
    out = []
    for rep in range(n or 60):
        bm = base()
        b = B()
        h = b.imp_func(['i32'], [])
        b.imp('mem', None, min=1, max=-1)
        t = b.imp('table', None, et='funcref', min=2, max=-1)
        gi = b.imp('global', None, vt='i32', mut=1)
        kg = b.imp('global', None, vt='i32', mut=0)
        own = b.table('funcref', 3, -1, 'own')
        g1 = b.glob('i32', 0, GG(kg), 'k1')
        g2 = b.glob('i64', 1, const('i64', r.getrandbits(60)), 'k2')
        f0 = b.func([], ['i32'], [i32(40 + rep % 9), GG(3), num('i32.wrap_i64'), ADD], 'f0')
        f1 = b.func([], ['i32'], [i32(0), load('i32.load8_u', 60000), LG(0), ADD], 'f1', ['i32'])
        g3 = b.glob('funcref', 1, X('ref.func', f0), 'k3')
        bad = r.choice(['none', 'elem', 'data', 'start', 'none', 'data', 'elem'])
        ne, nd = r.randint(1, 3), r.randint(1, 3)
        ke, kd = r.randrange(ne), r.randrange(nd)
        for k in range(ne):
            ln = r.randint(0, 2)
            tgt = r.choice([t, t, own])
            lim = 4 if tgt == t else 3
            off = r.randint(0, lim - ln)
            if bad == 'elem' and k == ke:
                off = r.choice([lim - ln + 1, lim + 1, 0xffffffff, 0x80000000])
            o = off if r.random() < 0.8 or off != 2 else GG(kg)
            b.elem([r.choice([f0, f1, h, None]) for _ in range(ln)], 'active', tgt, o)
            if r.random() < 0.3:
                b.elem([f0, None][:r.choice([1, 1, 2])], r.choice(['passive', 'declarative', 'declarative']))
        for k in range(nd):
            ln = r.choice([0, 1, 3, 5])
            off = r.choice([0, 2, 60000, 65536 - ln])
            if bad == 'data' and k == kd:
                off = r.choice([65536 - ln + 1, 65537, 0xffffffff, 0x80000000, 0xfffffffe])
            o = off if off != 2 or r.random() < 0.3 else GG(kg)
            b.data([10 * (k + 1) + q for q in range(ln)], 'active', o)
            if r.random() < 0.3:
                b.data([1, 2, 3], 'passive')
        # start looks at everything initialised before it
        st = b.func([], [], [i32(0), load('i32.load'), CALL(h), i32(60000), load('i32.load'), CALL(h), GG(gi), i32(1), ADD, GS(gi)] +
                    ([UNR] if bad == 'start' else []) + [i32(8), i32(7), store('i32.store')], None)
        if bad == 'start' or r.random() < 0.6:
            b.m['start'] = st
        b.func(['i32', 'i32'], [], [LG(0), i32(0), LG(1), {'o': 'table.init', 'x': t, 'y': 0}], 'ti')
        nseg, ndat = len(b.m['elems']), len(b.m['datas'])
        for k in range(nseg):
            b.func(['i32'], [], [i32(0), i32(0), LG(0), {'o': 'table.init', 'x': own, 'y': k}], 'se%d' % k)
        for k in range(ndat):
            b.func(['i32'], [], [i32(0), i32(0), LG(0), X('memory.init', k)], 'sd%d' % k)
        b.probes()
        m = b.done()
        c = B()
        c.imp('table', None, et='funcref', min=1, max=-1)
        c.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': c.ty([], ['i32']), 'x': 0}], 'ci')
        cm = c.done()
        s = [HFUNC(1, ['i32'], []), {'o': 'hglob', 'vt': 'i32', 'mut': 0, 'v': C('i32', 2)}, INST(0), INST(2, [E(0, 't')]),
             INST(1, [OBJ(0), E(0, 'm'), E(0, 't'), E(0, 'g'), OBJ(1)])]
        s += observe(bm, 0) + [INV(1, 'ci', [C('i32', k)], ['i32']) for k in range(5)]
        s += observe(m, 2) + [INV(2, 'ti', [C('i32', 0), C('i32', 1)]), INV(2, 'f0', [], ['i32'])]
        s += [INV(2, 'se%d' % k, [C('i32', v)]) for k in range(nseg) for v in (0, 1)]
        s += [INV(2, 'sd%d' % k, [C('i32', v)]) for k in range(ndat) for v in (0, 1)]
        s += [INST(1, [OBJ(0), E(0, 'm'), E(0, 't'), E(0, 'g'), OBJ(1)], 'fresh')]
        s += observe(bm, 0) + [INV(1, 'ci', [C('i32', k)], ['i32']) for k in range(5)]
        out.append(scen([bm, m, cm], s, [host(['i32'], [], [HRET()])]))
    # failing with nothing shared, then used again
    return out


# ------------------------------------------- signatures: C09, C11, C13, C17
def near_sigs(r, w, v):
    """A signature with w parameters and v results, and its near misses."""
    p = [r.choice(NT + RT) for _ in range(w)]
    q = [r.choice(NT + RT) for _ in range(v)]
    other = lambda t: r.choice([u for u in NT + RT if u != t])
    out = [(p, q)]
    out += [(p[:k] + [other(p[k])] + p[k + 1:], q) for k in range(w)]
    out += [(p, q[:k] + [other(q[k])] + q[k + 1:]) for k in range(v)]
    out += [(p[:-1], q), (p, q[:-1]), (p + ['i32'], q), (p, q + ['i64']), (p + [q[0]] if q else p + p[:1], q[1:]), (q, p), (p[::-1], q), (p, q[::-1])]
    return out


def f_sig(r, n=None):
    """Signatures compared position by position, however long they are: through
    tables, through imports, for guest and for host functions."""
    out = []
    shapes = [(0, 1), (1, 0), (1, 1), (2, 2), (3, 1), (7, 2), (9, 1), (12, 0), (1, 5), (0, 9), (17, 3)]
    zero = lambda t: {'o': 'ref.null', 't': t} if t in RT else const(t, 0)
    for w, v in shapes if n is None else r.sample(shapes, 6):
        sigs = near_sigs(r, w, v)
        p, q = sigs[0]
        a = B()
        for k, (x, y) in enumerate(sigs):
            a.func(x, y, [zero(t) for t in y], 'f%d' % k)
        a.table('funcref', len(sigs), -1, 't')
        a.elem(list(range(len(sigs))))
        for k in {0} | set(r.sample(range(len(sigs)), min(4, len(sigs)))):
            x, y = sigs[k]
            a.func(['i32'], ['i32'], [zero(t) for t in x] + [LG(0), {'o': 'call_indirect', 'ty': a.ty(x, y), 'x': 0}] + [DROP] * len(y) + [i32(k)], 'ci%d' % k)
        s = [HFUNC(0, p, q), INST(0)]
        names = [e['n'] for e in a.m['exports'] if e['n'].startswith('ci')]
        for c in names:
            s += [INV(0, c, [C('i32', k)], ['i32']) for k in range(len(sigs))]
        mods = [a.done()]
        # a module importing one signature, offered every other one
        for k in r.sample(range(len(sigs)), min(3, len(sigs))) + [0]:
            b = B()
            b.imp_func(*sigs[k])
            mods.append(b.done())
            s += [INST(len(mods) - 1, [E(0, 'f%d' % j)]) for j in range(len(sigs))]
            s.append(INST(len(mods) - 1, [OBJ(0)]))
        out.append(scen(mods, s, [host(p, q, [HRET(*[C(t, 0) if t in NT else CNULL(t) for t in q])])]))
    return out


NAMES = ['', ' ', 'f', 'F', 'f ', ' f', 'ff', 'fF', 'f0', 'f\0', '\0', 'f.g', 'f/g', 'f:g', '\u00e9', 'e\u0301', '\u00c9', '\ufb01', 'fi', '0', '00', '1', '-1',
         '__class__', 'None', 'env', 'memory', 'main', '_start', 'n' * 127, 'n' * 128, 'n' * 129, 'n' * 128 + 'm', '\U0001f600', '\u65e5\u672c', '\n', 'f\n', 'data', 'exps', '*', '.*', 'f*']


def f_names(r, n=None):
    """Exports and imports are found by their whole names, which are only alike in part."""
    out = []
    for rep in range(n or 8):
        names = r.sample(NAMES, 24)
        names += [x for x in ('f', 'F', 'f ') if x not in names]
        have, lack = names[:18] + names[24:], names[18:24]
        a = B()
        for i, x in enumerate(have):
            k = r.choice('ffffgmt') if i else 'f'
            if k == 'f':
                a.func([], ['i32'], [i32(100 + i)], x)
            elif k == 'g':
                a.glob('i32', r.randrange(2), i32(200 + i), x)
            elif k == 'm' and not a.m['mems']:
                a.mem(1, 3, x)
            else:
                a.table('funcref', 1 + i % 3, -1, x)
        am = a.done()
        kind = {e['n']: e['k'] for e in am['exports']}
        s = [INST(0)]
        for x in r.sample(have + lack, len(have) + len(lack)):
            s += [INV(0, x, [], ['i32']), GLOB(0, x, 'i32')]
            if kind.get(x) == 'mem':
                s.append(MEM(0, x))
        # from a namespace of many modules and names
        mods, where = [am], ['', 'env', 'Env', 'ENV', 'env ', 'e', 'wasi_snapshot_preview1', 'n' * 130]
        funcs = [x for x in have if kind[x] == 'func']
        for j in range(6):
            env, pairs = [], set()
            for x in funcs:
                m, nm = r.choice(where), r.choice(NAMES[:24])
                if (m, nm) not in pairs:
                    pairs.add((m, nm))
                    env.append({'m': m, 'n': nm, 'r': E(0, x)})
            b = B()
            use = [r.choice(env) for _ in range(5)]
            if j % 2:
                # one name off: there in another module, or nearly
                e = r.choice(env)
                m2, n2 = r.choice([(r.choice(where), e['n']), (e['m'], e['n'].swapcase()), (e['m'], e['n'] + ' '), (e['m'], e['n'][:-1]), (e['n'], e['m']), (e['m'].upper(), e['n'])])
                if (m2, n2) not in pairs:
                    use.insert(r.randrange(5), {'m': m2, 'n': n2})
            for i, e in enumerate(use):
                b.imp_func([], ['i32'], None, e['m'], e['n'])
            for i in range(len(use)):
                b.func([], ['i32'], [CALL(i)], 'c%d' % i)
            mods.append(b.done())
            s.append(dict(INST(len(mods) - 1), env=env))
            s += [INV(j + 1, 'c%d' % i, [], ['i32']) for i in range(len(use))]
        out.append(scen(mods, s))
    return out


def f_twin(r, n=None):
    """Instances that call each other down to some depth; at every level, on the way down
    and on the way up, each touches its own memory, globals, tables and segments."""
    out = []
    for rep in range(n or 14):
        mods, N = [], r.choice([2, 2, 3])
        same = rep % 2                              # instances of one module, or modules laid out differently
        for k in range(1 if same else N):
            b = B()
            b.imp('table', None, et='funcref', min=4, max=-1)
            if not same:
                for _ in range(r.randrange(3)):
                    b.glob('i64', 1, const('i64', 7))
                    b.func([], [], [])
            b.mem(1, 2)
            g = b.glob('i32', 1, i32(10 * k), 'g')
            v = b.glob('v128', 1, const('v128', k), 'v')
            t = b.table('funcref', 4, 9, 't')
            me = b.func(['i32'], ['i32'], [X('table.size', t)], 'me')
            b.elem([me], 'active', t, k % 3)
            se = b.elem([me, None, me], 'passive')
            sd = b.data([k + 1] * 9, 'passive')
            b.data([0x40 + k] * 4, 'active', 8)
            own = [GG(g), i32(1), ADD, GS(g), GG(g), i32(4), MUL, GG(g), store('i32.store', 0)]
            tail = [GG(g), i32(4), MUL, load('i32.load', 0), GG(g), ADD]
            more = r.sample([[i32(1), O('memory.grow'), DROP], [{'o': 'ref.null', 't': 'funcref'}, i32(1), X('table.grow', t), DROP],
                             [i32(160), i32(3), i32(2), X('memory.init', sd)], [i32(1), i32(0), i32(2), {'o': 'table.init', 'x': t, 'y': se}],
                             [X('elem.drop', se)], [X('data.drop', sd)], [i32(200), i32(8), i32(4), O('memory.copy')], [i32(230), i32(k + 77), i32(5), O('memory.fill')],
                             [X('table.size', t), O('memory.size'), ADD, GG(g), ADD, GS(g)], [GG(v), GS(v)], [LG(0), LS(1)]], 3)
            go = b.func(['i32'], ['i32'], own + more[0] + [LG(0), EQZ, IF([GG(g)], [LG(0), i32(1), SUB, LG(0), i32(N), num('i32.rem_u'),
                        {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}, GG(g), ADD] + more[1], (), ['i32'])] + more[2] + tail + [ADD], 'go', ['i32'])
            b.elem([go], 'declarative')
            b.func(['i32'], [], [LG(0), X('ref.func', go), X('table.set', 0)], 'put')
            b.probes()
            mods.append(b.done())
        s = [{'o': 'htab', 'et': 'funcref', 'min': 4, 'max': -1}]
        s += [INST(0 if same else h, [OBJ(0)]) for h in range(N)] + [INV(h, 'put', [C('i32', h)]) for h in range(N)]
        for d in (0, 1, 2, 7, r.randrange(8, 20)):
            s.append(INV(r.randrange(N), 'go', [C('i32', d)], ['i32']))
            s += [GLOB(h, 'g', 'i32') for h in range(N)]
        for h in range(N):
            s += [MEM(h), GLOB(h, 'v', 'v128'), INV(h, 'ts1', [], ['i32'])] + [INV(h, 'tg1', [C('i32', x)], ['funcref']) for x in range(5)]
        out.append(scen(mods, s))
    return out


def f_ci(r, n=None):
    """call_indirect and table accesses at every index around both ends of a table
    that holds a callable function in every slot, before and after it grows."""
    out = []
    for size in (1, 2, 5):
        a = B()
        sig = ([], ['i32'])
        fs = [a.func([], ['i32'], [i32(100 + k)], 'f%d' % k) for k in range(size)]
        a.table('externref', 2, -1, 't0')
        x = a.table('funcref', size, -1, 't1')
        a.elem(fs, 'active', x, 0)
        a.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': a.ty(*sig), 'x': x}], 'ci')
        a.func(['i32', 'i32'], [], [LG(0), LG(1), X('table.get', x), X('table.set', x)], 'cp')
        a.func(['i32', 'i32'], ['i32'], [LG(0), X('table.get', x), LG(1), X('table.grow', x)], 'gr')
        a.probes()
        am = a.done()
        b = B()
        b.imp('table', 't1', et='funcref', min=size, max=-1)
        b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty(*sig), 'x': 0}], 'ci')
        bm = b.done()
        ends = lambda m: [k & 0xffffffff for k in range(-m - 2, m + 3)] + [0x80000000, 0x7fffffff, 0x80000000 + m, 1 << 8, 1 << 16, 1 << 31 | 1]
        s = [INST(0), INST(1, [E(0, 't1')])]
        s += [INV(h, 'ci', [C('i32', k)], ['i32']) for h in (0, 1) for k in ends(size)]
        s += [INV(0, 'tg1', [C('i32', k)], ['funcref']) for k in ends(size)]
        for k in ends(size):
            s += [INV(0, 'cp', [C('i32', k), C('i32', size - 1)]), INV(0, 'ci', [C('i32', size - 1)], ['i32']), INV(0, 'ci', [C('i32', 0)], ['i32'])]
        s += [INV(0, 'gr', [C('i32', size - 1), C('i32', 3)], ['i32'])]
        s += [INV(h, 'ci', [C('i32', k)], ['i32']) for h in (0, 1) for k in ends(size + 3)]
        out.append(scen([am, bm], s))
    return out


# ------------------------------------------------------------------- C15
def f_iso(r, n=None):
    out = []
    for rep in range(n or 40):
        b = B()
        b.mem(1, 3)
        b.table('funcref', 4, 8, 't')
        b.glob('i32', 1, i32(5), 'g')
        b.glob('i64', 1, const('i64', 6), 'h')
        f0 = b.func([], ['i32'], [GG(0)], 'f0')
        f1 = b.func([], ['i32'], [i32(0), load('i32.load')], 'f1')
        b.elem([f0, f1], 'active', 0, 1)
        b.elem([f1, f0], 'passive')
        b.data([1, 2, 3, 4], 'active', 0)
        b.data([5, 6, 7, 8, 9], 'passive')
        b.func(['i32'], [], [LG(0), GS(0)], 'setg')
        b.func(['i32', 'i32'], [], [LG(0), LG(1), store('i32.store')], 'st')
        b.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        b.func(['i32'], ['i32'], [{'o': 'ref.null', 't': 'funcref'}, LG(0), X('table.grow', 0)], 'tgrow')
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), X('memory.init', 1)], 'mi')
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), {'o': 'table.init', 'x': 0, 'y': 1}], 'ti')
        b.func([], [], [X('data.drop', 1)], 'dd')
        b.func([], [], [X('elem.drop', 1)], 'ed')
        b.func(['i32'], [], [LG(0), {'o': 'ref.null', 't': 'funcref'}, X('table.set', 0)], 'tz')
        b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': 0}], 'ci')
        b.func(['i32'], [], [LG(0), GS(0), i32(0), i32(77), store('i32.store'), UNR], 'trap')
        am = b.probes().done()
        c = B()                         # shares everything of one instance and re-exports it
        c.imp_func([], ['i32'], 'f0')
        c.imp('mem', 'm', min=1, max=3)
        c.imp('table', 't', et='funcref', min=4, max=8)
        c.imp('global', 'g', vt='i32', mut=1)
        c.func(['i32'], [], [LG(0), GS(0)], 'setg')
        c.func(['i32', 'i32'], [], [LG(0), LG(1), store('i32.store')], 'st')
        c.func([], ['i32'], [CALL(0)], 'call0')
        mine = c.func([], ['i32'], [i32(999)], 'mine')
        c.func(['i32'], [], [LG(0), X('ref.func', mine), X('table.set', 0)], 'tset')
        c.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        cm = c.probes().done()
        k = r.randint(2, 3)
        src = lambda: r.choice(['same', 'same', 'fresh', 'file'])
        s = [INST(0, [], src()) for _ in range(k)]
        own = r.randrange(k)
        s += [INST(1, [E(own, 'f0'), E(own, 'm'), E(own, 't'), E(own, 'g')], src())]
        nin = k + 1
        if r.random() < 0.5:            # through a re-export
            s += [INST(1, [E(k, 'f0'), E(k, 'm'), E(k, 't'), E(k, 'g')])]
            nin += 1
        insts = [0] * k + [1] * (nin - k)
        for _ in range(16):
            h = r.randrange(len(insts))
            if insts[h] == 0:
                ops = [INV(h, 'setg', [C('i32', r.randrange(99))]), INV(h, 'st', [C('i32', 4 * r.randrange(4)), C('i32', r.getrandbits(30))]),
                       INV(h, 'grow', [C('i32', 1)], ['i32']), INV(h, 'tgrow', [C('i32', 1)], ['i32']),
                       INV(h, 'mi', [C('i32', 20), C('i32', 0), C('i32', 5)]), INV(h, 'ti', [C('i32', 2), C('i32', 0), C('i32', 2)]),
                       INV(h, 'dd'), INV(h, 'ed'), INV(h, 'tz', [C('i32', 1)]), INV(h, 'ci', [C('i32', r.randrange(5))], ['i32']),
                       INV(h, 'trap', [C('i32', 3)]), INV(h, 'f0', [], ['i32']), INV(h, 'f1', [], ['i32']),
                       MPUT(h, r.randrange(9), [9, 9]), GSET(h, 'h', 'i64', C('i64', r.randrange(99)))]
            else:
                ops = [INV(h, 'setg', [C('i32', r.randrange(99))]), INV(h, 'st', [C('i32', 4 * r.randrange(4)), C('i32', r.getrandbits(30))]),
                       INV(h, 'call0', [], ['i32']), INV(h, 'tset', [C('i32', r.randrange(4))]), INV(h, 'f0', [], ['i32']),
                       INV(h, 'grow', [C('i32', 1)], ['i32'])]
            s.append(r.choice(ops))
            if r.random() < 0.08:
                s.append(INST(0, [], src()))
                insts.append(0)
        for h, q in enumerate(insts):
            s += observe([am, cm][q], h)
            s += [INV(h, 'f0', [], ['i32'])]
        out.append(scen([am, cm], s))
    return out


# ------------------------------------------------------------------- C16
TRAPS = {
    'unr': [UNR],
    'div': [i32(1), i32(0), num('i32.div_s'), DROP],
    'ovf': [i32(-0x80000000), i32(-1), num('i32.div_s'), DROP],
    'rem': [const('i64', 1), const('i64', 0), num('i64.rem_u'), DROP],
    'trunc': [const('f32', 0x7f800000), num('i32.trunc_f32_s'), DROP],
    'nan': [const('f64', 0x7ff8000000000000), num('i64.trunc_f64_u'), DROP],
    'load': [i32(-1), load('i32.load'), DROP],
    'store': [i32(65533), i32(-1), store('i32.store')],
    'fill': [i32(65530), i32(7), i32(10), O('memory.fill')],
    'copy': [i32(65530), i32(100), i32(10), O('memory.copy')],
    'copysrc': [i32(100), i32(65533), i32(10), O('memory.copy')],
    'init': [i32(0), i32(0), i32(9), X('memory.init', 0)],
    'initdst': [i32(65534), i32(0), i32(3), X('memory.init', 0)],
    'store8': [i32(65529), const('i64', -1), store('i64.store')],
    'storev': [i32(65521), const('v128', -1), store('v128.store')],
    'tinitdst': [i32(3), i32(0), i32(2), {'o': 'table.init', 'x': 0, 'y': 1}],
    'tcopysrc': [i32(0), i32(1), i32(4), {'o': 'table.copy', 'x': 0, 'y': 0}],
    'tget': [i32(9), X('table.get', 0), DROP],
    'tset': [i32(9), {'o': 'ref.null', 't': 'funcref'}, X('table.set', 0)],
    'tfill': [i32(2), X('ref.func', 3), i32(9), X('table.fill', 0)],
    'tcopy': [i32(2), i32(0), i32(9), {'o': 'table.copy', 'x': 0, 'y': 0}],
    'tinit': [i32(2), i32(0), i32(9), {'o': 'table.init', 'x': 0, 'y': 0}],
    'cinull': [i32(2), {'o': 'call_indirect', 'ty': 0, 'x': 0}],
    'cioob': [i32(50), {'o': 'call_indirect', 'ty': 0, 'x': 0}],
    'cisig': [i32(1), {'o': 'call_indirect', 'ty': 0, 'x': 0}],
    'host': [CALL(0)],
    'rec': [CALL(2)],
}


def trapmod(kind, r):
    b = B()
    b.ty([], [])
    b.imp_func([], [])                  # 0: raises
    b.imp_func([], [])                  # 1: calls back
    inf = b.func([], [], [CALL(2)], None)
    b.mem(1, 2)
    b.table('funcref', 4, 4, 't')
    b.glob('i32', 1, i32(0), 'g')
    sq = b.func(['i32'], ['i32'], [LG(0), LG(0), MUL], 'sq')
    b.elem([inf, sq], 'active', 0, 0)
    b.elem([sq, sq], 'passive')
    b.data([1, 2, 3], 'passive')
    before = [GG(0), i32(1), ADD, GS(0), i32(100), GG(0), store('i32.store')]
    after = [GG(0), i32(1000), ADD, GS(0)]
    depth = r.randint(0, 3)
    body = before + TRAPS[kind] + after
    f = b.func([], ['i32'], body + [GG(0)], 'd0')
    for d in range(1, depth + 1):
        nest = [CALL(f), LS(0)]
        k = r.randrange(4)
        if k == 0:
            nest = [BLOCK(nest)]
        elif k == 1:
            nest = [i32(5), LOOP([i32(6)] + nest + [DROP]), DROP]
        elif k == 2:
            nest = [i32(1), IF(nest, [])]
        f = b.func([], ['i32'], [i32(d), const('i64', d)] + nest + [DROP, DROP] + after + [LG(0)], 'd%d' % d, ['i32'])
    b.func([], ['i32'], [GG(0), CALL(1), CALL(f), ADD], 'viahost')
    b.func(['i32'], ['i32'], [LG(0), i32(1), ADD, GG(0), ADD, GS(0), GG(0), CALL(sq)], 'work')
    return b.probes().done(), depth


def f_trap(r, n=None):
    out = []
    kinds = list(TRAPS)
    for kind in kinds:
        for rep in range(1 if n else 3):
            m, depth = trapmod(kind, r)
            prog = [INV(0, 'work', [C('i32', 2)], ['i32']), INV(0, 'd%d' % depth, [], ['i32'], catch=1), INV(0, 'work', [C('i32', 1)], ['i32'])]
            if r.random() < 0.4:
                prog.append(INV(0, 'd0', [], ['i32'], catch=0))
            prog.insert(r.randrange(len(prog) + 1), INST(r.choice([1, 2]), [OBJ(2)]))
            s = [HFUNC(1, [], []), HFUNC(2, [], []), HFUNC(3, ['i32'], ['i32']), INST(0, [OBJ(0), OBJ(1)])]
            for _ in range(8):
                k = r.choice(['d0', 'deep', 'work', 'via', 'work', 'inst'])
                if k == 'inst':
                    s.append(INST(r.choice([1, 2]), [OBJ(2)]))
                elif k == 'd0':
                    s.append(INV(0, 'd0', [], ['i32']))
                elif k == 'deep':
                    s.append(INV(0, 'd%d' % depth, [], ['i32']))
                elif k == 'via':
                    s.append(INV(0, 'viahost', [], ['i32']))
                else:
                    s.append(INV(0, 'work', [C('i32', r.randrange(9))], ['i32']))
            s += observe(m, 0)
            s.append(INV(0, 'work', [C('i32', 3)], ['i32']))
            out.append(scen([m, bad_start(rep), bad_start(3), bad_start(0, True)], s, [host([], [], [{'o': 'raise'}]), host([], [], prog + [HRET()]), host(['i32'], ['i32'], [HRET(A(0))])]))
            s = s[:4] + [INST(0, [OBJ(0), OBJ(1)]), INV(1, 'd%d' % depth, [], ['i32']), INV(1, 'work', [C('i32', 3)], ['i32'])] + observe(m, 0) + observe(m, 1)
            out.append(scen([m], s, [host([], [], [{'o': 'raise'}]), host([], [], [HRET()]), host(['i32'], ['i32'], [HRET(A(0))])]))
    return out


# ------------------------------------------------------------------- C17
def bad_start(rep, deep=False):
    """A module that fails while it is instantiated: after linking, with values,
    labels and (deep) host frames in flight."""
    b = B()
    h = b.imp_func(['i32'], ['i32'])
    b.mem(1, 1, None)
    g = b.glob('i32', 1, i32(3), None)
    if rep % 4 == 3:
        b.data([1, 2], 'active', 65535)
    t = b.func(['i32'], ['i32'], [i32(1), i32(2), BLOCK([LG(0), i32(0), num('i32.div_s')], [], ['i32']), ADD, ADD])
    b.m['start'] = b.func([], [], [i32(5), GS(g), i32(1), BLOCK([LOOP(([i32(1), CALL(h), DROP] if deep else []) + [i32(9), CALL(t), DROP])]), DROP])
    return b.done()


def f_host(r, n=None):
    out = []
    for rep in range(n or 50):
        vts = ['i32', 'i64', 'f32', 'f64', 'v128', 'externref']
        hp = [r.choice(vts) for _ in range(r.choice([0, 1, 2, 3, 4, r.randint(5, 20)]))]
        hr = [r.choice(vts) for _ in range(r.choice([0, 1, 2, 3, r.randint(4, 12)]))]
        b = B()
        h0 = b.imp_func(hp, hr, 'h0')       # does things
        h1 = b.imp_func(['i32'], ['i32'])   # re-enters, with a depth argument
        b.mem(1, 4)
        b.glob('i32', 1, i32(10), 'g')
        b.table('funcref', 3, -1, 't')
        b.elem([h0, h1], 'active')
        args = [rconst(r, t) if t in NT else {'o': 'ref.null', 't': t} for t in hp]
        keep = [i32(3), const('i64', 4)]
        # locals 0,1 params; results collected in locals
        col = [LS(2 + k) for k in reversed(range(len(hr)))]
        b.func(['i32', 'i64'], hr + ['i32', 'i64', 'i32', 'i32'],
               keep + args + [CALL(h0)] + col + [LS(1), LG(0), ADD, LS(0)] + [LG(2 + k) for k in range(len(hr))] +
               [LG(0), LG(1), GG(0), i32(16), load('i32.load')], 'direct', list(hr))
        b.func([], hr, args + [i32(0), {'o': 'call_indirect', 'ty': b.ty(hp, hr), 'x': 0}], 'indirect')
        b.func(['i32'], ['i32'], [LG(0), i32(7), LG(0), CALL(h1), ADD, ADD, GG(0), ADD], 'rec')
        b.func(['i32'], [], [LG(0), GS(0)], 'setg')
        b.func([], ['i32'], [GG(0)], 'getg')
        b.func([], [], [UNR], 'trap')
        b.func(['i32'], ['i32'], [LG(0), O('memory.grow')], 'grow')
        b.func([], ['i32'], [O('memory.size')], 'size')
        b.func(['i32', 'i32'], ['i32'], [O('memory.size'), LG(1), LG(0), CALL(h1), DROP, DROP, O('memory.size'), SUB], 'sz')
        m = b.done()
        prog = []
        for _ in range(r.randint(1, 4)):
            prog.append(r.choice([
                MPUT(0, 16, le(r.getrandbits(32), 4)), MGET(0, 16, 4), GSET(0, 'g', 'i32', C('i32', r.randrange(100))), GLOB(0, 'g', 'i32'),
                INV(0, 'setg', [C('i32', r.randrange(50))]), INV(0, 'getg', [], ['i32']), INV(0, 'trap'), MGROW(0, 1),
                INV(0, 'grow', [C('i32', 1)], ['i32']), INV(0, 'size', [], ['i32']), INV(0, 'rec', [C('i32', r.randrange(3))], ['i32'], catch=r.choice([0, 1])),
                INST(0, [OBJ(0), OBJ(1)]), INST(r.choice([2, 2, 3]), [OBJ(1)]), INST(0, [OBJ(1), OBJ(0)])]))
        if r.random() < 0.1:
            prog.append({'o': 'raise'})
        ret = []
        for t in hr:
            c = [A(j) for j, x in enumerate(hp) if x == t]
            ret.append(r.choice(c) if c and r.random() < 0.6 else (C(t, r.choice(VALS[t])) if t in NT else r.choice([CX(5), CNULL(t)])))
        # h1: skip when the argument is 0, else call rec with the argument (the guest decrements by masking)
        dec = B()
        re = [SKIPZ(A(0), 2), INV(1, 'half', [A(0)], ['i32']), INV(0, 'rec', [R(0)], ['i32'], catch=r.choice([0, 1, 1])), HRET(A(0))]
        half = B()
        half.func(['i32'], ['i32'], [LG(0), i32(1), num('i32.shr_u')], 'half')
        s = [HFUNC(1, hp, hr), HFUNC(2, ['i32'], ['i32']), INST(0, [OBJ(0), OBJ(1)]), INST(1)]
        for _ in range(6):
            s.append(r.choice([INV(0, 'direct', [C('i32', 50), C('i64', 60)], hr + ['i32', 'i64', 'i32', 'i32']),
                               INV(0, 'indirect', [], hr), INV(0, 'rec', [C('i32', r.choice([0, 1, 5, 30, 1000]))], ['i32']),
                               INV(0, 'sz', [C('i32', 3), C('i32', 1)], ['i32']),
                               INV(0, 'h0', [C(t, r.choice(VALS[t])) if t in NT else CX(8) for t in hp], hr),
                               INV(0, 'getg', [], ['i32'])]))
        s += observe(m, 0)
        out.append(scen([m, half.done(), bad_start(rep), bad_start(rep, deep=True)], s, [host(hp, hr, prog + [HRET(*ret)]), host(['i32'], ['i32'], re)]))
    return out


def f_caller(r, n=None):
    """A host function finds the memory of the instance whose code called it: directly,
    through another module's table, through a re-exported import, from a start
    function, after re-entry and after a nested trap - and none when the embedder calls it."""
    out = []
    CALLER = {'k': 'caller', 'i': 0, 'n': ''}
    on = lambda o: dict(o, on=CALLER)
    for rep in range(n or 40):
        mods = []
        nomem = r.random() < 0.3
        for k in range(3):
            b = B()
            h = b.imp_func(['i32'], ['i32'], 'h')
            g = b.imp_func(['i32'], ['i32']) if k else None     # the previous instance's way in
            b.imp('table', None, et='funcref', min=4, max=-1)
            if not (nomem and k == 1):
                b.mem(1, 3)
                b.data([k + 1] * 8, 'active', 0)
            b.elem([h], 'active', 0, k)
            b.func(['i32'], ['i32'], [LG(0), CALL(h)], 'go')
            b.func(['i32', 'i32'], ['i32'], [LG(1), LG(0), {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}], 'via')
            b.func([], [], [UNR], 'trap')
            if k:
                b.func(['i32'], ['i32'], [LG(0), CALL(g), CALL(h)], 'chain')
            if r.random() < 0.5:
                b.m['start'] = b.func([], [], [i32(40 + k), CALL(h), DROP])
            mods.append(b.done())
        look = [on(MGET(0, 0, 8)), on(MGET(0, 65532, 4)), on(MGET(0, 65533, 4)), on(MPUT(0, 8, le(rep + 1, 4))), on(MPUT(0, 20 + rep % 7, [9, 8, 7])),
                on(MGROW(0, 1)), on(MEM(0))]
        prog = r.sample(look, 2)
        prog += [SKIPZ(A(0), 3), r.choice([INV(0, 'trap'), INV(1, 'trap'), INV(2, 'go', [C('i32', 0)], ['i32']), INV(0, 'go', [C('i32', 0)], ['i32'])]),
                 r.choice([INV(1, 'via', [C('i32', 2), C('i32', 0)], ['i32']), INV(0, 'h', [C('i32', 0)], ['i32'])])] + [r.choice(look)]
        prog += [on(MGET(0, 0, 8)), HRET(A(0))]
        s = [HFUNC(1, ['i32'], ['i32']), {'o': 'htab', 'et': 'funcref', 'min': 4, 'max': -1},
             INST(0, [OBJ(0), OBJ(1)]), INST(1, [OBJ(0), E(0, r.choice(['go', 'h'])), OBJ(1)]), INST(2, [OBJ(0), E(1, r.choice(['go', 'h', 'chain'])), OBJ(1)])]
        for _ in range(6):
            k = r.randrange(3)
            s.append(r.choice([INV(k, 'go', [C('i32', r.randrange(2))], ['i32']), INV(k, 'via', [C('i32', r.randrange(4)), C('i32', r.randrange(2))], ['i32']),
                               INV(k, 'h', [C('i32', r.randrange(2))], ['i32']), INV(max(k, 1), 'chain', [C('i32', r.randrange(2))], ['i32'])]))
        s += [MEM(0), MEM(1), MEM(2)]
        out.append(scen(mods, s, [host(['i32'], ['i32'], prog)]))
    return out


# ------------------------------------------------------------------- C18
def f_api(r, n=None):
    out = []
    alls = NT + RT
    for t in alls:
        b = B()
        h = b.imp_func([t, t], [t, t])
        f = b.func([t], [t], [LG(0)], 'id')
        b.func([t, t], [t, t], [LG(1), LG(0)], 'swap')
        b.func([t, t], [t, t], [LG(0), LG(1), CALL(h)], 'host')
        b.func([t, 'i32'], [t], [LG(0), LG(1), DROP], 'pair')
        b.func([], [t, t, t], [rconst(r, t) if t in NT else X('ref.func', f) if t == 'funcref' else {'o': 'ref.null', 't': t},
                               rconst(r, t) if t in NT else {'o': 'ref.null', 't': t},
                               rconst(r, t) if t in NT else {'o': 'ref.null', 't': t}], 'three')
        if t in ('f32', 'f64'):
            b.func([t], ['i' + t[1:]], [LG(0), num('i%s.reinterpret_%s' % (t[1:], t))], 'bits')
            b.func(['i' + t[1:]], [t], [LG(0), num('%s.reinterpret_i%s' % (t, t[1:]))], 'unbits')
        b.func([], [], [O('nop')], 'nop')
        b.func(['i32'], [t], [LG(0), IF([UNR]), rconst(r, t) if t in NT else {'o': 'ref.null', 't': t}], 'mayt')
        b.mem(1)
        b.glob(t, 1, rconst(r, t) if t in NT else {'o': 'ref.null', 't': t}, 'g')
        m = b.done()
        vals = [C(t, v) for v in VALS[t]] if t in NT else ([CNULL(t), CX(0), CX(1), CX(0x7fffffff), CX(12345)] if t == 'externref' else [CNULL(t), CAP(0), CAP(1)])
        if t in NT:
            vals += [{'k': 'c', 't': t, 'v': rconst(r, t)['v']} for _ in range(3 if n else 20)]
            if t in ('f32', 'f64'):
                vals += [{'k': 'c', 't': t, 'v': le(x, TW[t])} for x in ((0x7fc00000, 0xffc00000, 0x7fc00001) if t == 'f32' else (0x7ff8000000000000, 0xfff8000000000000))]
        s = [HFUNC(1, [t, t], [t, t]), INST(0, [OBJ(0)]), INV(0, 'three', [], [t] * 3)]
        for v in vals:
            w = r.choice(vals)
            s += [INV(0, 'id', [v], [t]), INV(0, 'swap', [v, w], [t, t]), INV(0, 'host', [v, w], [t, t]),
                  INV(0, 'pair', [v, C('i32', 0)], [t]), GSET(0, 'g', t, v), GLOB(0, 'g', t)]
            if t in ('f32', 'f64'):
                s += [INV(0, 'bits', [v], ['i' + t[1:]]), INV(0, 'unbits', [dict(v, t='i' + t[1:])], [t])]
        s += [INV(0, 'id', [], [t]), INV(0, 'id', [vals[0]] * 2, [t]), INV(0, 'nop', [vals[0]]), INV(0, 'swap', [vals[0]], [t, t]),
              INV(0, 'nope'), INV(0, 'm'), INV(0, 'g', [], [t]), INV(0, 'm', [C('i32', 0)]), MEM(0, 'g'), GLOB(0, 'm', t), MEM(0, 'id'),
              GLOB(0, 'id', t), MEM(0, 'nope'), GLOB(0, 'nope', t),
              INV(0, 'host', [vals[0]], [t, t]), INV(0, 'nop'), INV(0, 'mayt', [C('i32', 1)], [t]), INV(0, 'mayt', [C('i32', 0)], [t]), MEM(0)]
        out.append(scen([m], s, [host([t, t], [t, t], [HRET(A(1), A(0))])]))
    # the same export name on different kinds of instances, and interleaved types
    b = B()
    ts = ['i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref']
    perms = [r.sample(ts, 7) for _ in range(4)]
    for k, p in enumerate(perms):
        b.func(ts, p, [LG(ts.index(t)) for t in p], 'p%d' % k)
    s = [INST(0)]
    for k, p in enumerate(perms):
        for _ in range(4):
            s.append(INV(0, 'p%d' % k, [C(t, r.choice(VALS[t])) if t in NT else CNULL(t) if t == 'funcref' else CX(r.randrange(99)) for t in ts], p))
    out.append(scen([b.done()], s))
    return out


# ------------------------------------------------- sizes beyond the ordinary
def f_wide(r, n=None):
    """Many parameters, results, locals, labels, functions, types, globals,
    segments and table entries: indices that need more than one byte."""
    out = []
    zero = lambda t: {'o': 'ref.null', 't': t} if t in RT else rconst(r, t)
    val = lambda t: CNULL(t) if t == 'funcref' else CX(r.choice([0, 5, 300])) if t == 'externref' else C(t, r.choice(VALS[t]))
    for rep in range(2 if n else 12):
        b = B()
        big = r.choice([9, 17, 40])
        hp = [r.choice(NT + RT) for _ in range(big)]
        hr = r.sample(hp, r.choice([8, 9]))
        h = b.imp_func(hp, hr, 'host')
        for k in range(150 if rep % 2 else 20):
            b.ty([NT[k % 5]] * (k // 5 % 6), [NT[k // 30 % 5]])
        perm = r.sample(range(big), big)
        f = b.func(hp, [hp[k] for k in perm], [LG(k) for k in perm], 'perm')
        b.func(hp, hr, [LG(k) for k in range(big)] + [CALL(h)], 'viahost')
        b.func(hp, [hp[k] for k in perm], [LG(k) for k in range(big)] + [i32(130), {'o': 'call_indirect', 'ty': b.ty(hp, [hp[k] for k in perm]), 'x': 0}], 'viatable')
        # a block taking and leaving many values, left by branches from its middle
        bt = [r.choice(NT) for _ in range(r.randint(5, 11))]
        b.func(['i32'] + bt, bt, [LG(k + 1) for k in range(len(bt))] +
               [BLOCK([LG(0), BRIF(1), LG(0), i32(1), ADD, IF([BR(1)], [BR(2)], bt, bt)], bt, bt)], 'wide')
        # a loop taking many values around several times, leaving them to a function's caller from its middle
        nb = len(bt)
        b.func(['i32'] + bt, bt, [LG(k + 1) for k in range(nb)] +
               [LOOP([LS(k + 1) for k in reversed(range(nb))] + [LG(0), i32(1), SUB, LT(0), EQZ] + [IF([LG(k + 1) for k in range(nb)] + [RET])] +
                     [i32(77), const('i64', 3)] + [LG(k + 1) for k in range(nb)] + [BR(0)], bt, bt)], 'wloop')
        wl = b.nf - 1
        b.func(['i32'] + bt, bt, [i32(5), BLOCK([const('i64', 8)] + [LG(k) for k in range(nb + 1)] + [CALL(wl), RET])] + [UNR], 'wcall')
        loc = [r.choice(NT) for _ in range(140)]
        b.func([], [loc[127], loc[128], loc[139], loc[0]], [zero(loc[128]), LS(128), zero(loc[139]), LT(139), LS(139), LG(127), LG(128), LG(139), LG(0)], 'locals', loc)
        for k in range(140):
            b.func(['i32'], ['i32'], [LG(0), i32(k), ADD], 'f%d' % k if k in (0, 100, 126, 127, 128, 139) else None)
        last = b.nf - 1
        b.func(['i32'], ['i32'], [LG(0), CALL(last), CALL(last - 12), CALL(last - 128)], 'chain')
        for k in range(134):
            b.glob('i32' if k % 2 else 'i64', 1, i32(k) if k % 2 else const('i64', k), 'g%d' % k if k in (0, 1, 63, 64, 127, 128, 133) else None)
        b.func([], ['i32', 'i64', 'i32'], [GG(127), GG(128), i32(9), GS(129), GG(129)], 'globs')
        b.table('funcref', 200, 300, 't')
        b.elem([f] * 2, 'active', 0, 129)
        for k in range(66):
            b.elem([last - k], 'passive')
        b.mem(1, 2)
        for k in range(66):
            b.data([k, k + 1], 'passive' if k % 2 else 'active', 4 * k)
        b.func(['i32'], ['i32'], [i32(7), i32(0), i32(1), {'o': 'table.init', 'x': 0, 'y': 65}, X('elem.drop', 64), LG(0), i32(7),
                                  {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}], 'inits')
        b.func([], ['i32'], [i32(1000), i32(0), i32(2), X('memory.init', 65), X('data.drop', 65), i32(1000), load('i32.load16_u')], 'minits')
        b.func([], [], [i32(1000), i32(0), i32(2), X('memory.init', 65)], 'minit2')
        deep = 45
        body = [LG(0), BRT(list(range(deep)), deep - 1)]
        for k in range(deep):
            body = [BLOCK(body), LG(1), i32(k), ADD, LS(1)]
        b.func(['i32', 'i32'], ['i32'], body + [LG(1)], 'labels')
        ls = [r.randrange(3) for _ in range(260)]
        b.func(['i32'], ['i32'], [BLOCK([BLOCK([BLOCK([LG(0), BRT(ls, 1)]), i32(10), RET]), i32(20), RET]), i32(30)], 'brt')
        b.func([], ['i32'], [i32(k) for k in range(300)] + [ADD] * 299, 'stack')
        m = b.done()
        s = [HFUNC(1, hp, hr), INST(0, [OBJ(0)])]
        for _ in range(3):
            a = [val(t) for t in hp]
            s += [INV(0, 'perm', a, [hp[k] for k in perm]), INV(0, 'viahost', a, hr), INV(0, 'viatable', a, [hp[k] for k in perm]), INV(0, 'host', a, hr)]
            s += [INV(0, f, [C('i32', k)] + [val(t) for t in bt], bt) for k in (1, 2, 4) for f in ('wloop', 'wcall')]
            s += [INV(0, 'wide', [C('i32', r.choice([0, 1, -1]))] + [val(t) for t in bt], bt)]
        s += [INV(0, 'perm', a[:-1], [hp[k] for k in perm]), INV(0, 'viahost', a + [C('i32', 0)], hr)]
        s += [INV(0, 'locals', [], [loc[127], loc[128], loc[139], loc[0]]), INV(0, 'chain', [C('i32', 5)], ['i32']), INV(0, 'globs', [], ['i32', 'i64', 'i32'])]
        s += [INV(0, 'f%d' % k, [C('i32', 1000)], ['i32']) for k in (0, 100, 126, 127, 128, 139)]
        s += [GLOB(0, 'g%d' % k, 'i32' if k % 2 else 'i64') for k in (0, 1, 63, 64, 127, 128, 133)]
        s += [INV(0, 'inits', [C('i32', 4)], ['i32']), INV(0, 'minits', [], ['i32']), INV(0, 'minit2'), INV(0, 'stack', [], ['i32'])]
        s += [INV(0, 'labels', [C('i32', k), C('i32', 0)], ['i32']) for k in (0, 1, 7, 8, 31, 32, 43, 44, 45, 46, -1)]
        s += [INV(0, 'brt', [C('i32', k)], ['i32']) for k in (0, 1, 2, 127, 128, 129, 255, 256, 257, 259, 260, 261, -1, -260)]
        s += [MEM(0)]
        ret = []
        for t in hr:
            c = [j for j, x in enumerate(hp) if x == t]
            ret.append(A(r.choice(c)))
        out.append(scen([m], s, [host(hp, hr, [HRET(*ret)])]))
    return out


def heights(deep):
    """Nested blocks, each over one more operand than the one around it: leaving to
    any must drop just those above."""
    body = [LG(0), BRT(list(range(deep)), deep - 1)]
    for k in range(deep):
        body = [i32(k * k + 1), BLOCK(body), LG(1), i32(3), MUL, ADD, LS(1)]
    return body


def f_many(r, n=None):
    """The same with more than 255 of each, in groups and nested."""
    out = []
    for rep in range(2 if n else 6):
        b = B()
        bts = []
        N = r.randint(257, 300)
        hosts = [b.imp_func([], ['i32']) for _ in range(140)]
        for k in range(N):
            b.ty([NT[(k >> j) % 3] for j in range(k.bit_length())], [])
        # locals in long runs: each keeps its own value
        runs = [('i64', 60), ('i32', N), ('f64', 3), ('i32', 130), ('v128', 2), ('i64', 256), ('f32', 1100), ('i32', 3)]
        loc = ['i32'] + [t for t, k in runs for _ in range(k)]
        tot = len(loc)
        pick = {t: [i for i in range(1, tot) if loc[i] == t] for t in NT}
        body = []
        for t in ('i32', 'i64'):
            for i in pick[t]:
                if i % 3:
                    body += [const(t, i * 7), LS(i)]
        b.func(['i32'], ['i32', 'i64'], body + [LG(0)] + [x for i in pick['i32'] for x in (LG(i), i32(31), MUL, ADD)] + [const('i64', 0)] +
               [x for i in pick['i64'] for x in (LG(i), num('i64.add'), const('i64', 3), num('i64.mul'))], 'sum', loc[1:])
        some = r.sample(range(1, tot), 12) + [255, 256, 257, tot - 1]
        b.func(['i32'], [loc[i] for i in some], body + [LG(i) for i in some], 'some', loc[1:])
        # and where the function is called from another
        b.func(['i32'], ['i32', 'i64'], [LG(0), CALL(b.nf - 2)], 'vsum')
        b.func(['i32'], [loc[i] for i in some], [LG(0), CALL(b.nf - 2)], 'vsome')
        # functions, calls forward and backward
        first = b.nf
        for k in range(N):
            b.func(['i32'], ['i32'], [LG(0), i32(k), ADD], 'f%d' % k if k in (0, 1, 2, 3, 127, 128, 255, 256, N - 1) else None)
        b.func(['i32'], ['i32'], [LG(0)] + [CALL(first + k) for k in (0, 1, 2, 115, 116, 127, 128, 255, 256, N - 1)] + [CALL(hosts[k]) for k in (0, 127, 128, 139)] + [ADD] * 4, 'chain')
        # globals
        gs = [b.glob('i32' if k % 2 else 'i64', 1, i32(k) if k % 2 else const('i64', k), 'g%d' % k if k in (0, 1, 2, 3, 255, 256, 257) else None) for k in range(N + 3)]
        b.func([], ['i32', 'i64'], [x for k in range(1, N, 2) for x in (GG(k), i32(1), ADD, GS(k))] + [i32(0)] + [x for k in range(1, N, 2) for x in (GG(k), i32(5), MUL, ADD)] +
               [const('i64', 0)] + [x for k in range(0, N, 2) for x in (GG(k), num('i64.add'))], 'globs')
        # a table with a function at high indices, segments of every number
        b.table('funcref', 1000, 1100, 't')
        b.elem([first + k for k in range(N)], 'active', 0, 600)
        for k in range(N):
            b.elem([first + k], 'passive')
        b.func(['i32', 'i32'], ['i32'], [LG(0), LG(1), {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}], 'ci')
        b.mem(1, 2)
        for k in range(N):
            b.data([k & 255, k >> 8, k % 7], 'active' if k % 4 == 0 else 'passive', 5 * k)
        for k in (0, 1, 2, 127, 128, 255, 256, 257 if N > 257 else 1, N - 1):
            b.func(['i32'], ['i32'], [i32(3), i32(0), i32(1), {'o': 'table.init', 'x': 0, 'y': k + 1}, X('elem.drop', k + 1), LG(0), i32(3),
                                      {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}], 'e%d' % k)
            b.func([], ['i32'], [i32(2000), i32(0), i32(3), X('memory.init', k), X('data.drop', k), i32(2000), load('i32.load')], 'd%d' % k)
        # deep nesting and far branches
        deep = r.choice([130, 260])
        body = [LG(0), BRT(list(range(deep)), deep - 1)]
        for k in range(deep):
            body = [BLOCK(body), LG(1), i32(k), ADD, LS(1)]
        b.func(['i32', 'i32'], ['i32'], body + [LG(1)], 'labels')
        # the same over operands that lie beneath
        b.func(['i32', 'i32'], ['i32'], heights(deep) + [LG(1)], 'heights')
        for q, sig in enumerate(((['i32', 'i64'], ['i64', 'i32', 'f32']), (['f64'], ['v128', 'f64']), (['i32'], ['f32', 'i64']))):
            b.ty(*sig)                                       # block types of high numbers
            ret = [const(t, 40 + q) for t in sig[1]]
            b.func(list(sig[0]) + ['i32'], list(sig[1]), [LG(k) for k in range(len(sig[0]))] +
                   [BLOCK([LG(len(sig[0])), IF([DROP] * len(sig[0]) + ret + [BR(1)], [DROP] * len(sig[0]) + ret[:1] + ret[1:], *sig)], *sig)], 'bt%d' % q)
            bts.append(('bt%d' % q, list(sig[0]) + ['i32'], list(sig[1])))
        ls = [r.randrange(3) for _ in range(700)]
        b.func(['i32'], ['i32'], [BLOCK([BLOCK([BLOCK([LG(0), BRT(ls, 1)]), i32(10), RET]), i32(20), RET]), i32(30)], 'brt')
        m = b.done()
        s = [HFUNC(k % 3 + 1, [], ['i32']) for k in range(len(hosts))] + [INST(0, [OBJ(k) for k in range(len(hosts))])]
        s += [INV(0, 'sum', [C('i32', 1)], ['i32', 'i64']), INV(0, 'some', [C('i32', 1)], [loc[i] for i in some]),
              INV(0, 'vsum', [C('i32', 1)], ['i32', 'i64']), INV(0, 'vsome', [C('i32', 1)], [loc[i] for i in some]), INV(0, 'chain', [C('i32', 5)], ['i32']), INV(0, 'globs', [], ['i32', 'i64'])]
        s += [INV(0, 'f%d' % k, [C('i32', 1000)], ['i32']) for k in (0, 1, 2, 3, 127, 128, 255, 256, N - 1)]
        s += [GLOB(0, 'g%d' % k, 'i32' if k % 2 else 'i64') for k in (0, 1, 2, 3, 255, 256, 257)]
        s += [INV(0, 'ci', [C('i32', 9), C('i32', k)], ['i32']) for k in (0, 255, 599, 600, 601, 727, 728, 855, 856, 600 + N - 1, 600 + N, 999, 1000, 1023)]
        for k in (0, 1, 2, 127, 128, 255, 256, N - 1):
            s += [INV(0, 'e%d' % k, [C('i32', 4)], ['i32']), INV(0, 'd%d' % k, [], ['i32'])]
        s += [INV(0, 'e%d' % k, [C('i32', 4)], ['i32']) for k in (0, 1, 255, N - 1)]
        s += [INV(0, 'labels', [C('i32', k), C('i32', 0)], ['i32']) for k in (0, 1, 63, 64, 127, 128, deep - 2, deep - 1, deep, deep + 1, -1)]
        s += [INV(0, 'heights', [C('i32', k), C('i32', 0)], ['i32']) for k in (0, 1, 62, 63, 64, 65, 66, 127, 128, 129, deep - 2, deep - 1, deep, -1)]
        s += [INV(0, f, [C(t, r.choice(VALS[t])) for t in p[:-1]] + [C('i32', c)], q) for f, p, q in bts for c in (0, 1)]
        s += [INV(0, 'brt', [C('i32', k)], ['i32']) for k in (0, 127, 128, 255, 256, 511, 512, 699, 700, 701, -1)]
        s += [MEM(0)]
        out.append(scen([m], s, [host([], ['i32'], [HRET(C('i32', 1000 * k))]) for k in (1, 2, 3)]))
    return out


def f_span(r, n=None):
    """Copies and fills of memory that are longer than a page."""
    out = []
    for rep in range(n or 30):
        b = B()
        b.mem(4, 4)
        for k, at in enumerate((0, 65500, 131040, 196000)):
            b.data([r.choice([0, 0, 0, 7, r.randrange(256)]) if q % 9 else k + 1 for q in range(90)], 'active', at)
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), O('memory.copy')], 'copy')
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), O('memory.fill')], 'fill')
        s = [INST(0)]
        size = 4 * 65536
        for _ in range(5):
            ln = r.choice([60000, 65535, 65536, 65537, 65600, 70000, 131072, 131073, 140000, 196608, 200000])
            x = r.choice([0, 0, 3, 65536 - 90, size - ln, (size - ln) // 2])
            x = min(x, size - ln)
            y = x + r.choice([1, -1, 7, -7, 64, -64, 255, 4096, -4096, 65535, 65536, -65536, 65537, 0])
            y = min(max(y, 0), size - ln + r.choice([0, 0, 0, 1]))
            if r.random() < 0.85:
                s += [INV(0, 'copy', [C('i32', y), C('i32', x), C('i32', ln)])]
            else:
                k = r.choice([ln, 1000])
                s += [INV(0, 'fill', [C('i32', y), C('i32', 0 if k > 1000 else r.choice([0, 5])), C('i32', k)])]
            s += [MEM(0)]
        out.append(scen([b.done()], s))
    return out


def f_high(r, n=None):
    """Loads and stores in memories of many pages: at addresses of every size."""
    out = []
    for rep in range(n or 24):
        pages = r.choice([3, 17, 18, 33, 40]) if rep else 257
        size = pages * 65536
        b = B()
        b.mem(pages, pages + 1)
        ops = r.sample(list(LOADS), 8) + r.sample(list(STORES), 6)
        ats = sorted({x + d for x in [1 << k for k in range(15, 25)] + [size] for d in (-8, -3, 0, 5)} & set(range(size)))
        for at in r.sample(ats, min(10, len(ats))):
            b.data([r.randrange(1, 256) for _ in range(min(20, size - at))], 'active', at)
        s = [INST(0)]
        for k, op in enumerate(ops):
            t = op.split('.')[0]
            w = LOADS.get(op) or STORES[op]
            m = r.randrange(16 // w) if op.endswith('_lane') else None
            off = r.choice([0, 0, 1, 3, 65536, 1 << 20, size - w, size - w - 1])
            if op in LOADS:
                ins = [LG(0)] + ([{'o': 'const', 't': 'v128', 'v': list(range(100, 116))}] if m is not None else []) + [load(op, off, 0, m)]
                rt = [t]
                if t in ('f32', 'f64'):
                    ins.append(num('i%s.reinterpret_%s' % (t[1:], t)))
                    rt = ['i' + t[1:]]
                b.func(['i32'], rt, ins, 'f%d' % k)
            else:
                v = {'o': 'const', 't': 'v128', 'v': list(range(200, 216))} if t == 'v128' else const(t, 0xfedcba9876543210)
                rt = []
                b.func(['i32'], rt, [LG(0), v, store(op, off, 0, m)], 'f%d' % k)
            tops = [size - w - q for q in (-1, 0, 1, 2)]
            for x in r.sample(ats, min(8, len(ats))) + tops:
                if x - off >= 0:
                    s.append(INV(0, 'f%d' % k, [C('i32', x - off)], rt))
        s.append(MEM(0))
        out.append(scen([b.done()], s))
    return out


def f_tabspan(r, n=None):
    """Tables of many entries: long copies over themselves, fills, segments."""
    out = []
    for rep in range(n or 30):
        b = B()
        N = r.choice([40, 70, 140, 300])
        fs = [b.func([], ['i32'], [i32(1000 + k)]) for k in range(N)]
        b.table('funcref', N, N + 700, 't0')
        b.table('funcref', N, N, 't1')
        b.elem(fs, 'active', 0, 0)
        b.elem(fs[::-1], 'passive')
        for x, y in ((0, 0), (0, 1), (1, 0), (1, 1)):
            b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), {'o': 'table.copy', 'x': x, 'y': y}], 'copy%d%d' % (x, y))
        for x in (0, 1):
            b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), {'o': 'table.init', 'x': x, 'y': 1}], 'init%d' % x)
            b.func(['i32', 'i32'], [], [LG(0), X('ref.func', fs[r.randrange(N)]), LG(1), X('table.fill', x)], 'fill%d' % x)
            b.func(['i32'], ['i32'], [X('ref.func', fs[r.randrange(N)]), LG(0), X('table.grow', x)], 'grow%d' % x)
            # all entries from local 0 up to local 1, mixed into one number
            b.func(['i32', 'i32'], ['i32'], [BLOCK([LOOP([LG(0), LG(1), num('i32.ge_u'), BRIF(1), LG(2), i32(31), MUL,
                    LG(0), X('table.get', x), O('ref.is_null'), IF([i32(5)], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': x}], [], ['i32']),
                    ADD, LS(2), LG(0), i32(1), ADD, LS(0), BR(0)])]), LG(2)], 'mix%d' % x, ['i32'])
        s = [INST(0)]
        for _ in range(6):
            x, y = r.choice([(0, 0), (0, 0), (1, 1), (0, 1), (1, 0)])
            ln = min(N, r.choice([15, 16, 17, 18, 32, 33, 64, 65, 128, 129, 256, 257, N - 1, N - 3, N]))
            a = r.randrange(N - ln + 1)
            c = min(max(0, a + r.choice([1, -1, 2, -2, 5, -5, 16, -16, 17, 0])), N - ln + (r.random() < 0.1))
            k = r.choice(['copy', 'copy', 'copy', 'init', 'fill', 'grow'])
            if k == 'copy':
                s += [INV(0, 'copy%d%d' % (x, y), [C('i32', c), C('i32', a), C('i32', ln)])]
            elif k == 'init':
                s += [INV(0, 'init%d' % x, [C('i32', c), C('i32', a), C('i32', ln)])]
            elif k == 'fill':
                s += [INV(0, 'fill%d' % x, [C('i32', c), C('i32', ln // 2)])]
            else:
                s += [INV(0, 'grow%d' % x, [C('i32', r.choice([1, 255, 256, 600, 700, 701, 1025 - N, 1024]))], ['i32']), INV(0, 'ts%d' % x, [], ['i32'])]
            s += [INV(0, 'mix%d' % z, [C('i32', 0), C('i32', N)], ['i32']) for z in {x, 0}]
        out.append(scen([b.probes().done()], s))
    return out


def f_conf(r):
    """One module configured differently by the embedders of several runtimes."""
    b = B()
    h = b.imp_func(['i32'], ['i32'], 'h')
    ts = [r.choice(NT) for _ in range(3)]
    b.imp('global', None, vt='i32', mut=0)
    for t in ts:
        b.imp('global', None, vt=t, mut=0)
    b.imp('global', 'shared', vt='i32', mut=1)
    mem = r.random() < 0.5
    if mem:
        b.imp('mem', 'm', min=1, max=-1)
    else:
        b.mem(1, 3)
    b.table('funcref', 6, 9, 't')
    for k, t in enumerate(ts):
        b.glob(t, 1, GG(1 + k), 'g%d' % k)
        b.glob(t, 0, GG(1 + k), 'k%d' % k)
    f = b.func(['i32'], ['i32'], [LG(0), GG(0), ADD], 'f')
    b.elem([h, f], 'active', 0, GG(0))
    p = b.elem([f, h], 'passive')
    b.data([1, 2, 3, 4], 'active', GG(0))
    d = b.data([9, 8, 7], 'passive')
    b.func(['i32', 'i32'], ['i32'], [LG(0), LG(1), {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}], 'ci')
    b.func([], [], [i32(0), i32(0), i32(2), {'o': 'table.init', 'x': 0, 'y': p}, X('elem.drop', p)], 'ti')
    b.func([], [], [i32(50), i32(0), i32(3), X('memory.init', d), X('data.drop', d)], 'mi')
    b.func([], ['i32'], [i32(1), O('memory.grow')], 'grow')
    if r.random() < 0.6:
        b.m['start'] = b.func([], [], [GG(4), GG(0), CALL(h), ADD, GS(4), i32(100), GG(4), store('i32.store', 0)])
    b.probes()
    m = b.done()
    out = []
    for k in range(r.choice([2, 2, 3])):
        s = [HFUNC(1, ['i32'], ['i32']), {'o': 'hglob', 'vt': 'i32', 'mut': 0, 'v': C('i32', r.choice([0, 1, 2, 3, 4]))}]
        s += [{'o': 'hglob', 'vt': t, 'mut': 0, 'v': C(t, r.choice(VALS[t]))} for t in ts]
        s += [{'o': 'hglob', 'vt': 'i32', 'mut': 1, 'v': C('i32', 100 * (k + 1))}] + [{'o': 'hmem', 'min': 1 + k % 2, 'max': r.choice([-1, 3])}] * mem
        s += [INST(0, [OBJ(x) for x in range(len(m['imports']))])]
        ops = [INV(0, 'ti'), INV(0, 'mi'), INV(0, 'grow', [], ['i32'])]
        ops += [INV(0, 'ci', [C('i32', 5), C('i32', x)], ['i32']) for x in range(7)]
        r.shuffle(ops)
        s += ops + [GLOB(0, 'g%d' % j, t) for j, t in enumerate(ts)] + [GLOB(0, 'k%d' % j, t) for j, t in enumerate(ts)] + [GLOB(0, 'shared', 'i32'), MEM(0), INV(0, 'ti'), INV(0, 'mi')]
        out.append(scen([m], s, [host(['i32'], ['i32'], [HRET(C('i32', 1000 * (k + 1)))])]))
    return out
