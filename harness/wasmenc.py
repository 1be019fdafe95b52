"""Encoder from the abstract module format (the JSON the TLA+ specification
interprets) to WebAssembly binaries.  With a random generator supplied it picks
among the encodings the format permits (padded integers, custom sections,
local grouping, segment forms); without one it emits the canonical form."""
import json, os, random

HERE = os.path.dirname(os.path.abspath(__file__))
OPS = {k: bytes(v) for k, v in json.load(open(os.path.join(HERE, 'ops.json'))).items()}
VT = {'i32': 0x7f, 'i64': 0x7e, 'f32': 0x7d, 'f64': 0x7c, 'v128': 0x7b, 'funcref': 0x70, 'externref': 0x6f}
KIND = {'func': 0, 'table': 1, 'mem': 2, 'global': 3}


def leb_u(n, pad=0):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        if n or pad:
            out.append(b | 0x80)
            if not n:
                for _ in range(pad - 1):
                    out.append(0x80)
                out.append(0x00)
                return bytes(out)
        else:
            out.append(b)
            return bytes(out)


def leb_s(n, pad=0):
    out = bytearray()
    while True:
        b = n & 0x7f
        n >>= 7
        done = (n == 0 and not b & 0x40) or (n == -1 and b & 0x40)
        if done and not pad:
            out.append(b)
            return bytes(out)
        out.append(b | 0x80)
        if done:
            f = 0x7f if n == -1 else 0x00
            for _ in range(pad - 1):
                out.append(f | 0x80)
            out.append(f)
            return bytes(out)


def natural(op):
    """log2 of the access width of a load or store."""
    t, o = op.split('.')
    if 'x' in o.split('_')[0]:
        return 3
    n = ''.join(c for c in o.split('_')[0] if c.isdigit())
    n = int(n) if n else {'i32': 32, 'f32': 32, 'i64': 64, 'f64': 64, 'v128': 128}[t]
    return {8: 0, 16: 1, 32: 2, 64: 3, 128: 4}[n]


def sint(bs):
    return int.from_bytes(bytes(bs), 'little', signed=True)


def uint(bs):
    return int.from_bytes(bytes(bs), 'little')


class Enc:
    def __init__(self, mod, rng=None, vary=()):
        self.m = mod
        self.rng = rng
        self.vary = set(vary) if rng else set()
        self.types = [(tuple(t['p']), tuple(t['r'])) for t in mod['types']]

    def chance(self, kind, p=0.3):
        return kind in self.vary and self.rng.random() < p

    def u(self, n, bits=32):
        pad = 0
        if self.chance('pad'):
            room = (bits + 6) // 7 - len(leb_u(n))
            pad = self.rng.randint(0, room) if room > 0 else 0
        return leb_u(n, pad)

    def s(self, n, bits=32):
        pad = 0
        if self.chance('pad'):
            room = (bits + 6) // 7 - len(leb_s(n))
            pad = self.rng.randint(0, room) if room > 0 else 0
        return leb_s(n, pad)

    def vec(self, items):
        return self.u(len(items)) + b''.join(items)

    def name(self, s):
        b = s.encode() if isinstance(s, str) else bytes(s)
        return self.u(len(b)) + b

    def limits(self, d):
        if d.get('max', -1) is None or d.get('max', -1) < 0:
            return b'\x00' + self.u(d['min'])
        return b'\x01' + self.u(d['min']) + self.u(d['max'])

    def tabletype(self, d):
        return bytes([VT[d['et']]]) + self.limits(d)

    def globaltype(self, d):
        return bytes([VT[d['vt']], 1 if d['mut'] else 0])

    def op(self, nm):
        b = OPS[nm]
        if b[0] >= 0xfc:
            sub = 0
            for i, x in enumerate(b[1:]):
                sub |= (x & 0x7f) << (7 * i)
            return b[:1] + self.u(sub)
        return b

    def typeidx(self, p, r):
        return self.types.index((tuple(p), tuple(r)))

    def blocktype(self, i):
        if 'bt' in i:
            return self.s(i['bt'], 33)
        p, r = i['p'], i['r']
        if not p and len(r) == 0 and not self.chance('bt', 0.0):
            return b'\x40'
        if not p and len(r) == 1:
            return bytes([VT[r[0]]])
        return self.s(self.typeidx(p, r), 33)

    def memarg(self, i):
        al = i.get('al', 0)
        if self.chance('align', 0.6):
            al = self.rng.randint(0, natural(i['op']))
        return self.u(al) + self.u(uint(i['off']))

    def instr(self, i, blocks):
        o = i['o']
        if o == 'const':
            t, v = i['t'], i['v']
            if t == 'i32':
                return OPS['i32.const'] + self.s(sint(v), 32)
            if t == 'i64':
                return OPS['i64.const'] + self.s(sint(v), 64)
            if t == 'v128':
                return self.op('v128.const') + bytes(v)
            return OPS[t + '.const'] + bytes(v)
        if o == 'num':
            return self.op(i['t'] + '.' + i['op']) + bytes(i.get('m', []))
        if o in ('block', 'loop'):
            return OPS[o] + self.blocktype(i) + self.seq(blocks[i['b'] - 1], blocks) + b'\x0b'
        if o == 'if':
            r = OPS['if'] + self.blocktype(i) + self.seq(blocks[i['b'] - 1], blocks)
            if i['e'] and (blocks[i['e'] - 1] or self.chance('else', 0.5)):
                r += b'\x05' + self.seq(blocks[i['e'] - 1], blocks)
            return r + b'\x0b'
        if o in ('br', 'br_if'):
            return OPS[o] + self.u(i['l'])
        if o == 'br_table':
            return OPS[o] + self.vec([self.u(l) for l in i['ls']]) + self.u(i['d'])
        if o == 'call':
            return OPS[o] + self.u(i['f'])
        if o == 'call_indirect':
            return OPS[o] + self.u(i['ty']) + self.u(i['x'])
        if o == 'select_t':
            return OPS[o] + self.vec([bytes([VT[i['t']]])])
        if o in ('local.get', 'local.set', 'local.tee', 'global.get', 'global.set', 'table.get', 'table.set',
                 'table.size', 'table.grow', 'table.fill', 'elem.drop', 'data.drop', 'ref.func'):
            return self.op(o) + self.u(i['x'])
        if o in ('load', 'store'):
            return self.op(i['op']) + self.memarg(i) + bytes(i.get('m', []))
        if o in ('memory.size', 'memory.grow'):
            return OPS[o] + b'\x00'
        if o == 'memory.copy':
            return self.op(o) + b'\x00\x00'
        if o == 'memory.fill':
            return self.op(o) + b'\x00'
        if o == 'memory.init':
            return self.op(o) + self.u(i['x']) + b'\x00'
        if o == 'table.copy':
            return self.op(o) + self.u(i['x']) + self.u(i['y'])     # dst, src
        if o == 'table.init':
            return self.op(o) + self.u(i['y']) + self.u(i['x'])     # elem y, table x
        if o == 'ref.null':
            return OPS[o] + bytes([VT[i['t']]])
        return self.op(o)

    def seq(self, ins, blocks):
        return b''.join(self.instr(i, blocks) for i in ins)

    def cexpr(self, e):
        return self.instr(e, []) + b'\x0b'

    def section(self, sid, body):
        return bytes([sid]) + self.u(len(body)) + body

    def customs(self):
        out = b''
        while self.chance('custom', 0.35):
            body = self.name(self.rng.choice(CUSTOM)) + bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 1, 2, 3, 9, 200])))
            out += self.section(0, body)
        return out

    def locals(self, ls):
        groups = []
        cut, none = self.rng.choice([(0.4, 0.1), (0.01, 0.01), (0, 0)]) if 'locals' in self.vary else (0, 0)
        for t in ls:
            if groups and groups[-1][1] == t and not self.chance('locals', cut):
                groups[-1][0] += 1
            else:
                groups.append([1, t])
            if self.chance('locals', none):
                groups.append([0, self.rng.choice(list(VT))])
        return self.vec([self.u(n) + bytes([VT[t]]) for n, t in groups])

    def func(self, f):
        body = self.locals(f['locals']) + self.seq(f['blocks'][0], f['blocks']) + b'\x0b'
        return self.u(len(body)) + body

    def elem(self, e):
        allfun = all(x['o'] == 'ref.func' for x in e['init']) and e['et'] == 'funcref'
        exprs = (not allfun) or self.chance('seg', 0.4)
        if exprs:
            items = self.vec([self.cexpr(x) for x in e['init']])
            ty = bytes([VT[e['et']]])
        else:
            items = self.vec([self.u(x['x']) for x in e['init']])
            ty = b'\x00'
        if e['mode'] == 'passive':
            return self.u(5 if exprs else 1) + ty + items
        if e['mode'] == 'declarative':
            return self.u(7 if exprs else 3) + ty + items
        if e['tab'] == 0 and e['et'] == 'funcref' and not self.chance('seg', 0.5):
            return self.u(4 if exprs else 0) + self.cexpr(e['off']) + items
        return self.u(6 if exprs else 2) + self.u(e['tab']) + self.cexpr(e['off']) + ty + items

    def data(self, d):
        b = self.u(len(d['bytes'])) + bytes(d['bytes'])
        if d['mode'] == 'passive':
            return self.u(1) + b
        if self.chance('seg', 0.4):
            return self.u(2) + self.u(0) + self.cexpr(d['off']) + b
        return self.u(0) + self.cexpr(d['off']) + b

    def imp(self, i):
        r = self.name(i['m']) + self.name(i['n']) + bytes([KIND[i['k']]])
        if i['k'] == 'func':
            return r + self.u(i['t'])
        if i['k'] == 'table':
            return r + self.tabletype(i)
        if i['k'] == 'mem':
            return r + self.limits(i)
        return r + self.globaltype(i)

    def module(self):
        m = self.m
        out = [b'\x00asm\x01\x00\x00\x00', self.customs()]

        def add(sid, items, force=False):
            if items or self.chance('empty', 0.15):
                out.append(self.section(sid, self.vec(items)))
            out.append(self.customs())
        add(1, [b'\x60' + self.vec([bytes([VT[x]]) for x in p]) + self.vec([bytes([VT[x]]) for x in r])
                for p, r in self.types])
        add(2, [self.imp(i) for i in m.get('imports', [])])
        add(3, [self.u(f['t']) for f in m.get('funcs', [])])
        add(4, [self.tabletype(t) for t in m.get('tables', [])])
        add(5, [self.limits(t) for t in m.get('mems', [])])
        add(6, [self.globaltype(g) + self.cexpr(g['init']) for g in m.get('globals', [])])
        add(7, [self.name(e['n']) + bytes([KIND[e['k']]]) + self.u(e['i']) for e in m.get('exports', [])])
        if m.get('start', -1) is not None and m.get('start', -1) >= 0:
            out.append(self.section(8, self.u(m['start'])))
        out.append(self.customs())
        add(9, [self.elem(e) for e in m.get('elems', [])])
        uses = any(i['o'] in ('memory.init', 'data.drop') for f in m.get('funcs', []) for b in f['blocks'] for i in b)
        if uses or (m.get('datas') and self.chance('seg', 0.4)):
            out.append(self.section(12, self.u(len(m.get('datas', [])))))
        add(10, [self.func(f) for f in m.get('funcs', [])])
        add(11, [self.data(d) for d in m.get('datas', [])])
        return b''.join(out)


CUSTOM = ['', 'name', 'name', 'x', 'producers', 'linking', '.debug_info', 'reloc.CODE', 'target_features', '\u00e9', '\u65e5\u672c', '\U0001f980',
          '\x00', 'a\nb', 'a b', '\u200b', '\ufeff', '\x7f', '\x85', '\U0010ffff', '\u0301', 'A' * 200, '/', '%s', '\\', "'"]
FORMS = ('pad', 'custom', 'locals', 'seg', 'else', 'empty')     # choices that leave the module the same
ALL = FORMS + ('align',)


def encode(mod, rng=None, vary=ALL):
    return Enc(mod, rng, vary).module()
