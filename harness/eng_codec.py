"""C19-C21: the LEB128 codec and the binary decoder, checked against Leb128.tla
and Binary.tla (and, for behaviour, the machine of Wasm.tla)."""
import json, random
import gen_exec, families, wasmenc, eng_exec
from gen_exec import LOADS, STORES, i32, const, load, store, X, O
from wasmenc import OPS, VT, natural

NT, RT = gen_exec.NT, gen_exec.RT


# ------------------------------------------------------------------ C20
def ibytes(n):
    return list(n.to_bytes(n.bit_length() // 8 + 1, 'little', signed=True))


def leb_jobs(r, quick, k=0):
    ints = set(range(-2000, 2001)) if quick else set(range(-20000, 20001))
    for b in range(6, 141):
        for d in range(-3, 4):
            ints |= {(1 << b) + d, -(1 << b) + d}
    for _ in range(300 if quick else 4000):
        ints.add(r.getrandbits(r.randint(1, 300)) * r.choice([1, -1]))
    for _ in range(40):
        ints.add(r.getrandbits(r.randint(300, 2000)) * r.choice([1, -1]))
    if k:
        ints = {r.getrandbits(r.randint(1, 200)) * r.choice([1, -1]) for _ in range(6000)}
    jobs = []
    for n in ints:
        for sg in (True, False):
            if sg or n >= 0:
                jobs.append({'op': 'enc', 'sg': sg, 'v': ibytes(n)})
                e = list((wasmenc.leb_s if sg else wasmenc.leb_u)(n, r.choice([0, 0, 0, 1, 2, 5, 20])))
                tail = [r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)]) for _ in range(r.choice([0, 0, 1, 3]))]
                jobs.append({'op': 'buf', 'sg': sg, 'b': e + tail})
                jobs.append({'op': 'str', 'sg': sg, 'b': e + tail, 'raw': r.randrange(2)})
    edge = [0, 1, 0x3f, 0x40, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xfe, 0xff]
    strs = [[]] + [[a] for a in range(256)] + [[a, b] for a in (range(256) if not quick else edge + [128 + r.randrange(128) for _ in range(20)]) for b in range(256)]
    strs += [[a, b, c] for a in edge for b in edge for c in edge]
    for _ in range(800 if quick else 6000):
        n = r.randint(1, r.choice([4, 6, 10, 20, 60]))
        strs.append([r.choice([0x80, 0xff, 128 + r.randrange(128)]) for _ in range(n - 1)] + [r.choice(edge + [r.randrange(256)])])
        strs.append([r.randrange(256) for _ in range(n)])
    if k:
        strs = [[128 + r.randrange(128) for _ in range(r.randint(0, 40))] + [r.randrange(256) for _ in range(r.randint(0, 3))] for _ in range(6000)]
    for b in strs:
        for sg in (True, False):
            jobs.append({'op': 'buf', 'sg': sg, 'b': b})
            jobs.append({'op': 'str', 'sg': sg, 'b': b, 'raw': r.randrange(2)})
    return jobs


def judge_leb(ctx, jobs):
    recs = [dict(j, **o) if 'k' in o else dict(j, k='died') for j, o in zip(jobs, ctx.drive('drv_codec.py', jobs))]
    for t in recs:
        t.setdefault('r', [])
        t.setdefault('pos', False)
        t.setdefault('n', -1)
        t.setdefault('at', -1)
    res = ctx.tlc('LebTrace', env={'TRACE': ctx.ndjson(recs, 'leb.ndjson')})
    ctx.traces += len(recs)
    for p in res.prints('REJECT')[:20]:
        t = recs[int(p) - 1]
        ctx.violation('leb/%s/%s' % (t['op'], 'signed' if t['sg'] else 'unsigned'),
                      'LEB128 %s %s of %s: %s' % ('signed' if t['sg'] else 'unsigned', t['op'], t.get('v', t.get('b')),
                                                  {k: t[k] for k in ('k', 'r', 'n', 'at', 'e') if k in t}), t)
    return recs


def run_leb(ctx):
    ctx.model_check('MC_Leb', 'MC_Leb.cfg')
    r = ctx.rng
    recs = judge_leb(ctx, leb_jobs(r, ctx.quick))
    for t in recs[:6:3] + recs[-2:]:
        ctx.sample(json.dumps(t)[:200])
    ctx.cov['calls'] = {k: sum(t['op'] == k for t in recs) for k in ('enc', 'buf', 'str')}
    ctx.cov['truncated'] = sum(t['op'] != 'enc' and all(x >= 128 for x in t['b']) for t in recs)
    k = 0
    while not ctx.quick and not ctx.violations and ctx.left() > 120:
        k += 1
        judge_leb(ctx, leb_jobs(r, False, k))
    ctx.cov['rounds'] = k + 1


# ------------------------------------------------------------ the corpus
def empty():
    return {'types': [], 'imports': [], 'funcs': [], 'tables': [], 'mems': [], 'globals': [], 'exports': [], 'start': -1,
            'elems': [], 'datas': []}


LANES = {'i8x16': 16, 'i16x8': 8, 'i32x4': 4, 'i64x2': 2, 'f32x4': 4, 'f64x2': 2}


def every_instruction(r):
    """One instance of every instruction of the format (bodies need not be valid)."""
    out = []
    for nm in OPS:
        if nm in ('else', 'end', 'block', 'loop', 'if', 'br', 'br_if', 'br_table', 'call', 'call_indirect', 'select_t'):
            continue
        if nm.endswith('.const'):
            t = nm.split('.')[0]
            out += [const(t, v) for v in (0, -1, r.getrandbits(128), 63, 64, -64, -65, 1 << 31, 1 << 30, 1 << 62)]
        elif nm in LOADS or nm in STORES:
            for al in range(natural(nm) + 1):
                i = (load if nm in LOADS else store)(nm, r.choice([0, 1, 127, 128, 65535, (1 << 32) - 1]), al)
                if nm.endswith('_lane'):
                    n = 128 // int(''.join(c for c in nm.split('.')[1].split('_')[0] if c.isdigit()))
                    out += [dict(i, m=[l]) for l in range(n)]
                else:
                    out.append(i)
        elif nm == 'ref.null':
            out += [{'o': nm, 't': t} for t in RT]
        elif nm in ('table.copy', 'table.init'):
            out += [{'o': nm, 'x': x, 'y': y} for x, y in ((0, 1), (127, 128), (300, 2))]
        elif nm in ('local.get', 'local.set', 'local.tee', 'global.get', 'global.set', 'table.get', 'table.set',
                    'table.size', 'table.grow', 'table.fill', 'elem.drop', 'data.drop', 'ref.func', 'memory.init'):
            out += [X(nm, x) for x in (0, 1, 127, 128, 16384)]
        elif '.' in nm and nm.split('.')[0] in gen_exec.NT + list(LANES) and nm not in ('memory.size', 'memory.grow'):
            t, op = nm.split('.', 1)
            if nm == 'i8x16.shuffle':
                ms = [[r.randrange(32) for _ in range(16)] for _ in range(3)] + [list(range(31, 15, -1)), list(range(16))]
            elif '_lane' in op:
                ms = [[l] for l in range(LANES[t])]
            else:
                ms = [[]]
            out += [{'o': 'num', 't': t, 'op': op, 'n': 0, 'm': m} for m in ms]
        else:
            out.append(O(nm))
    out += [{'o': 'br', 'l': x} for x in (0, 127, 128)] + [{'o': 'br_if', 'l': x} for x in (0, 200)]
    out += [{'o': 'br_table', 'ls': ls, 'd': d} for ls, d in (([], 0), ([1], 2), ([0, 128, 5], 129), (list(range(130)), 1))]
    out += [{'o': 'call', 'f': x} for x in (0, 129)] + [{'o': 'call_indirect', 'ty': a, 'x': b} for a, b in ((0, 0), (3, 129))]
    out += [{'o': 'select_t', 't': t} for t in NT + RT]
    return out


def block_shapes(r, types):
    """Block instructions of every kind and block type, nested, with and without else."""
    blocks = [[]]
    idx = [dict(p=list(t['p']), r=list(t['r'])) for t in types]
    shapes = [{'p': [], 'r': []}] + [{'p': [], 'r': [t]} for t in NT + RT] + idx

    def add(body):
        blocks.append(body)
        return len(blocks)
    outer = []
    for s in shapes:
        for o in ('block', 'loop', 'if'):
            b = add([O('nop')])
            i = dict(s, o=o, b=b)
            if o == 'if':
                for e in (0, add([]), add([O('unreachable'), O('drop')])):
                    outer.append(dict(i, e=e))
            else:
                outer.append(i)
    for bt in (0, 1, 63, 64, 127, 128, 300):
        outer.append({'o': 'block', 'bt': bt, 'p': [], 'r': [], 'b': add([i32(1)])})
        outer.append({'o': 'if', 'bt': bt, 'p': [], 'r': [], 'b': add([i32(1)]), 'e': add([i32(2)])})
    cur = [O('nop')]
    for k in range(30):
        cur = [{'o': r.choice(['block', 'loop', 'if']), 'p': [], 'r': [], 'b': add(cur), 'e': add([O('nop')]) if k % 3 else 0}]
    blocks[0] = outer + cur
    return blocks


def catalog(r):
    """Modules that between them hold every instruction, section, segment form,
    type and immediate."""
    out = []
    types = [{'p': list(p), 'r': list(q)} for p, q in
             [((), ()), (('i32',), ()), (tuple(NT + RT), tuple(RT + NT)), ((), ('i64', 'v128')), (('f32', 'f64'), ('externref',))]]
    ins = every_instruction(r)
    r.shuffle(ins)
    for k in range(0, len(ins), 60):
        m = empty()
        m['types'] = types
        m['funcs'] = [{'t': 0, 'locals': [], 'blocks': [ins[k:k + 60]]}]
        m['datas'] = [{'mode': 'passive', 'off': i32(0), 'bytes': []}]
        out.append(m)
    m = empty()
    m['types'] = types
    m['funcs'] = [{'t': 0, 'locals': ['i32', 'i32', 'i64'] + RT * 2 + ['v128'] * 130, 'blocks': block_shapes(r, types)},
                  {'t': 1, 'locals': [], 'blocks': [[]]}]
    out.append(m)
    # the other sections
    m = empty()
    m['types'] = types
    names = ['', 'a', 'memory', 'é', '日本', '\U0001f980', 'x' * 130, '\x00', 'a b\n']
    for k, n in enumerate(names):
        m['imports'] += [{'m': n, 'n': names[-k - 1], 'k': 'func', 't': k % 5},
                         {'m': 'e', 'n': n, 'k': 'global', 'vt': (NT + RT)[k % 7], 'mut': k % 2}]
    for lo, hi in ((0, -1), (0, 0), (1, 1), (3, 70000), (127, 128), (65536, -1), (1, (1 << 32) - 1)):
        m['imports'] += [{'m': 't', 'n': '', 'k': 'table', 'et': RT[lo % 2], 'min': lo, 'max': hi},
                         {'m': 'm', 'n': '', 'k': 'mem', 'min': lo, 'max': hi}]
        m['tables'].append({'et': RT[hi % 2], 'min': lo, 'max': hi})
        m['mems'].append({'min': lo, 'max': hi})
    m['globals'] = [{'vt': t, 'mut': k, 'init': const(t, r.getrandbits(100)) if t in NT else {'o': 'ref.null', 't': t}}
                    for t in NT + RT for k in (0, 1)] + [{'vt': 'i32', 'mut': 0, 'init': X('global.get', 200)},
                                                        {'vt': 'funcref', 'mut': 1, 'init': X('ref.func', 129)}]
    m['exports'] = [{'n': n + str(k), 'k': kd, 'i': r.choice([0, 1, 128, 20000])} for k, n in enumerate(names)
                    for kd in ('func', 'table', 'mem', 'global')]
    m['start'] = 128
    for mode in ('active', 'passive', 'declarative'):
        for et in RT:
            for init in ([], [{'o': 'ref.null', 't': et}], [X('ref.func', 1), X('ref.func', 200)], [X('global.get', 1), {'o': 'ref.null', 't': et}]):
                for tab in (0, 1, 128):
                    m['elems'].append({'mode': mode, 'tab': tab, 'et': et, 'off': r.choice([i32(5), i32(-1), X('global.get', 129)]), 'init': init})
    m['datas'] = [{'mode': md, 'off': r.choice([i32(7), X('global.get', 0)]), 'bytes': [r.randrange(256) for _ in range(n)]}
                  for md in ('active', 'passive') for n in (0, 1, 127, 128, 300)]
    out.append(m)
    out.append(empty())
    return out


def scen_modules(r, n, big=True):
    """Modules of the execution engine: valid, and of every shape it generates."""
    out = []
    for k in range(n):
        s = gen_exec.scenario('mods/%s' % r.random(), {'size': 5, 'nmods': [1, 2]})
        out += s['mods']
    for f in ('f_mem', 'f_bulk', 'f_table', 'f_leave', 'f_inst', 'f_api') + (('f_wide',) if big else ()):
        for s in getattr(families, f)(r, 1)[:2]:
            out += s['mods']
    return out


# ------------------------------------------------------------------ C19
STRICT = ('pad', 'custom', 'empty')         # the decoded structure may not differ at all


def run_wellformed(ctx):
    r = ctx.rng
    k = 0
    seen = {}
    while True:
        mods = (catalog(r) if k < 2 else []) + scen_modules(r, 25 if ctx.quick else 80, k == 0)
        jobs, recs, sigs = [], [], []
        for mi, m in enumerate(mods):
            canon = wasmenc.encode(m)
            variants = [wasmenc.encode(m, random.Random(r.random()), wasmenc.FORMS) for _ in range(3)]
            variants += [wasmenc.encode(m, random.Random(r.random()), STRICT)]
            jobs += [{'op': 'parse', 'b': list(b)} for b in [canon] + variants]
            recs += [{'op': 'same', 'a': list(canon), 'b': list(v)} for v in variants]
            sigs.append((len(sigs), {'op': 'sig', 'bs': [list(canon), list(canon)] +
                                     [list(wasmenc.encode(m, random.Random(r.random()), STRICT)) for _ in range(3)]}))
        got = ctx.drive('drv_codec.py', jobs + [s for _, s in sigs])
        lines = [dict(op='parse', b=j['b'], r='ok' if o.get('r') == 'ok' else 'err') for j, o in zip(jobs, got)]
        res = ctx.tlc('BinTrace', env={'TRACE': ctx.ndjson(recs + lines, 'bin.ndjson')})
        if res.prints('BADPAIR') or res.prints('ODD') or res.prints('LONG') or res.prints('REJECT'):
            raise RuntimeError('the encoder and Binary.tla disagree: %s' % (res.prints('BADPAIR') + res.prints('ODD') + res.prints('REJECT'))[:3])
        ctx.traces += len(lines)
        for p in res.prints('REFUSED'):
            j = int(p) - 1 - len(recs)
            ctx.violation('refused', 'a well-formed module is refused (%s): %s' % (got[j].get('e', got[j]), bytes(jobs[j]['b']).hex()[:160]),
                          {'module': mods[j // 5], 'binary': bytes(jobs[j]['b']).hex()})
        well = len(res.prints('WELL')) + len(res.prints('REFUSED'))
        if well != len(lines):
            raise RuntimeError('well-formed corpus: %d of %d' % (well, len(lines)))
        for (i, s), o in zip(sigs, got[len(jobs):]):
            ctx.traces += len(s['bs'])
            v = o.get('sigs', ['died'])
            if len(set(v)) != 1 or v[0].startswith('error') or v[0] == 'died':
                ctx.violation('structure', 'encodings of one module decode to different modules: %s' % v,
                              {'module': mods[i], 'binaries': [bytes(b).hex() for b in s['bs']]})
        ctx.cov['modules'] = ctx.cov.get('modules', 0) + len(mods)
        ctx.cov['binaries'] = ctx.cov.get('binaries', 0) + len(jobs) + 5 * len(sigs)
        if k == 0:
            for b in (jobs[1]['b'], jobs[len(jobs) // 2]['b'], jobs[-1]['b']):
                ctx.sample('binary of %d bytes: %s..' % (len(b), bytes(b).hex()[:120]))
        if k == 0:
            judge_bin(ctx, [(w, x) for w, x in immediates()], True)
        # what the module does must not depend on its encoding
        scs = [gen_exec.scenario('enc/%s/%s/%s' % (ctx.seed, k, i), {'size': 7, 'badseg': 0.02, 'mislink': 0}) for i in range(120 if ctx.quick else 800)]
        for f in ('f_mem', 'f_bulk', 'f_inst', 'f_leave', 'f_table', 'f_host', 'f_wide', 'f_switch'):
            scs += getattr(families, f)(r, 2)[:6]
        for s in scs:
            s['enc'] = r.randrange(1, 1 << 30)
        ctx.cov['executed_encodings'] = ctx.cov.get('executed_encodings', 0) + len(scs)
        eng_exec.report(ctx, 'encoding', eng_exec.judge(ctx, scs))
        k += 1
        if ctx.quick or ctx.violations or ctx.left() < 150:
            break


# ------------------------------------------------------------------ C21
class Cut:
    """Where the parts of a binary are: sections, and items within code."""

    def __init__(self, b):
        self.b = bytes(b)
        self.secs = []
        i = 8
        while i < len(b):
            n, k = self.leb(i + 1)
            self.secs.append((b[i], bytes(b[i + 1 + k:i + 1 + k + n])))
            i += 1 + k + n

    def leb(self, i):
        n = s = k = 0
        while True:
            c = self.b[i + k]
            n |= (c & 0x7f) << s
            s += 7
            k += 1
            if c < 128:
                return n, k


HEAD = b'\0asm\1\0\0\0'


def join(secs):
    return HEAD + b''.join(bytes([i]) + wasmenc.leb_u(len(p)) + p for i, p in secs)


def code_items(p):
    c = Cut(HEAD)
    c.b = p
    n, k = c.leb(0)
    out, i = [], k
    for _ in range(n):
        z, w = c.leb(i)
        out.append(p[i + w:i + w + z])
        i += w + z
    return out


def code_join(items):
    return wasmenc.leb_u(len(items)) + b''.join(wasmenc.leb_u(len(x)) + x for x in items)


def damage(r, b, full):
    """Binaries near b, most of them malformed, each with what was done."""
    out = []
    c = Cut(b)
    S = c.secs
    # truncation of the whole
    pts = range(len(b)) if full else r.sample(range(len(b)), min(len(b), 40))
    out += [('cut at %d' % k, b[:k]) for k in pts]
    out += [('trailing', b + t) for t in (b'\0', b'\1', b'\x0d\0', b'\x0b', b'\0\1\0', b'\xff')]
    out += [('magic', b[:k] + bytes([b[k] ^ x]) + b[k + 1:]) for k in range(8) for x in (1, 0x80)]
    # within one section, its size kept right
    for si, (sid, p) in enumerate(S):
        put = lambda q: join(S[:si] + [(sid, q)] + S[si + 1:])
        ks = range(len(p)) if full and len(p) < 80 else sorted(r.sample(range(len(p)), min(len(p), 16)))
        out += [('section %d cut at %d' % (sid, k), put(p[:k])) for k in ks]
        out += [('section %d with %s left over' % (sid, t.hex()), put(p + t)) for t in (b'\0', b'\x0b', b'\x80', b'\1\2')]
        out += [('section %d count changed' % sid, put(wasmenc.leb_u(n) + p[1:])) for n in (0, max(0, p[0] - 1), p[0] + 1, 127) if p and p[0] < 127]
        for k in r.sample(range(len(p)), min(len(p), 60 if full else 14)):
            for v in {0, 1, 2, 5, 0x0b, 0x40, 0x60, 0x6f, 0x70, 0x7f, 0x80, 0xff, p[k] ^ 0x80, p[k] + 1 & 255, p[k] - 1 & 255, r.randrange(256)} if full \
                    else {r.choice([0, 5, 0x0b, 0x40, 0x7f, 0x80, 0xff]), p[k] + 1 & 255, r.randrange(256)}:
                out.append(('section %d byte %d set to %02x' % (sid, k, v), put(p[:k] + bytes([v]) + p[k + 1:])))
        for k in r.sample(range(len(p) + 1), min(len(p) + 1, 24 if full else 6)):
            out.append(('section %d byte inserted at %d' % (sid, k), put(p[:k] + bytes([r.choice([0, 1, 5, 0x0b, 0x41, 0x80, r.randrange(256)])]) + p[k:])))
            if k < len(p):
                out.append(('section %d byte %d deleted' % (sid, k), put(p[:k] + p[k + 1:])))
        # the section's own size wrong
        for d in (-2, -1, 1, 2, 100):
            if len(p) + d >= 0:
                out.append(('section %d size %+d' % (sid, d), HEAD + b''.join(
                    bytes([i]) + wasmenc.leb_u(len(q) + (d if j == si else 0)) + q for j, (i, q) in enumerate(S))))
        out.append(('section %d twice' % sid, join(S[:si + 1] + S[si:])))
        out.append(('section %d missing' % sid, join(S[:si] + S[si + 1:])))
        out.append(('section id %d' % sid, join(S[:si] + [(r.choice([13, 14, 64, 127, 128, 255]), p)] + S[si + 1:])))
        for j in range(si + 1, len(S)):
            if full or r.random() < 0.4:
                T = list(S)
                T[si], T[j] = T[j], T[si]
                out.append(('sections %d and %d swapped' % (sid, S[j][0]), join(T)))
        if sid == 10:
            items = code_items(p)
            for k, x in enumerate(items):
                some = range(len(x)) if full and len(x) < 60 else sorted(r.sample(range(len(x)), min(len(x), 14)))
                cp = lambda q: put(code_join(items[:k] + [q] + items[k + 1:]))
                out += [('body %d cut at %d' % (k, j), cp(x[:j])) for j in some]
                out += [('body %d with %s left over' % (k, t.hex()), cp(x + t)) for t in (b'\0', b'\x0b', b'\x01\x0b', b'\x05')]
                out += [('body %d with %s before its end' % (k, t.hex()), cp(x[:-1] + t + b'\x0b'))
                        for t in (b'\x05', b'\x04\x40\x05\x05\x0b', b'\x02\x40\x05\x0b', b'\x03\x40', b'\x06', b'\xd0\x7f', b'\xd0\x40', b'\x1c\x01\x40',
                                  b'\x1c\x02\x7f\x60', b'\x3f\x01', b'\x40\x80\x00', b'\x02\x7a\x0b', b'\x02\x41\x0b', b'\xfc\x12', b'\xfc\x0a\x00\x01',
                                  b'\xfc\x0a\x01\x00', b'\xfc\x0b\x01', b'\xfc\x08\x00\x01', b'\xfd\x9a\x01', b'\xfd\xa2\x01', b'\xfd\xff\x01', b'\xfd\x80\x02',
                                  b'\xfe\x00\x02\x00', b'\xff', b'\x0e\x05\x00', b'\xfd\x0c\x01', b'\x43\x00', b'\x44\x00\x00\x00\x00', b'\x41\x80', b'\xfd\x15\x10',
                                  b'\xfd\x15\x80\x00', b'\x28\x03\x00', b'\x29\x04\x00', b'\x2c\x01\x00', b'\x3b\x02\x00', b'\xfd\x00\x05\x00', b'\xfd\x5c\x03\x00',
                                  b'\xfd\x5d\x04\x00', b'\xfd\x54\x01\x00\x00', b'\xfd\x57\x03\x00\x02', b'\xfd\x57\x04\x00\x01', b'\xfd\x0d' + b'\0' * 15 + b'\x20')]
                for sz in (-1, 1, 2):
                    if len(x) + sz >= 0:
                        out.append(('body %d size %+d' % (k, sz), put(wasmenc.leb_u(len(items)) + b''.join(
                            wasmenc.leb_u(len(y) + (sz if j == k else 0)) + y for j, y in enumerate(items)))))
    for sid, p in ((0, b''), (0, b'\x05ab'), (0, b'\x80'), (0, b'\x02\xc3\x28'), (12, b'\0'), (12, b'\x09'), (13, b''), (8, b''), (8, b'\0\0'), (3, b'\1\0'),
                   (10, b'\0'), (10, b'\1\2\0\x0b'), (1, b'\1\x60'), (7, b'\1\1\xff\0\0'), (2, b'\1\0\0\4\0'), (4, b'\1\x7f\0\0'), (4, b'\1\x70\2\0'), (5, b'\1\3\0\0'),
                   (6, b'\1\x7f\2\x41\0\x0b'), (9, b'\1\x08\x41\0\x0b\0'), (9, b'\1\1\1\0'), (9, b'\1\7\x7f\0'), (11, b'\1\3\x41\0\x0b\0'), (9, b'\0'), (255, b'\0')):
        for at in {0, len(S), r.randint(0, len(S))}:
            out.append(('section %d (%s) put in at %d' % (sid, p.hex(), at), join(S[:at] + [(sid, p)] + S[at:])))
    return [(w, x) for w, x in out if x != b]


def small_modules(r):
    """Small modules which together use every section and kind of immediate."""
    out = []
    for f in range(3):
        b = families.B()
        b.ty(['i32', 'externref'], ['f64'])
        b.imp_func(['i32'], ['i32'], 'é')
        b.imp('global', None, vt='i32', mut=0)
        b.imp('table', None, et='externref', min=1, max=3)
        b.imp('mem', None, min=1, max=2)
        b.table('funcref', 2, -1, 't')
        b.glob('i64', 1, const('i64', -5), 'g')
        b.glob('funcref', 0, {'o': 'ref.null', 't': 'funcref'}, None)
        b.func(['i32'], ['i32'], [LG0, families.IF([i32(1)], [i32(300)], [], ['i32']), families.BLOCK([families.LOOP([families.BR(1)])]),
                                  families.BRT([0, 0], 0)], 'f', ['i32', 'i64', 'i64'])
        b.func([], [], [const('f32', 1), O('drop'), const('v128', 5), O('drop'), i32(0), load('i64.load', 200), O('drop')][2 * f:], 'h')
        b.elem([0, 1], 'active', 1, 0)
        b.elem([None], 'passive', et='externref')
        b.elem([X('ref.func', 1), None], 'declarative')
        b.data([1, 2, 3], 'active', 4)
        b.data([9], 'passive')
        m = b.done()
        if f == 1:
            m['start'] = 2
        out.append(wasmenc.encode(m, random.Random(f) if f else None))
    for m in catalog(r)[:-2]:
        out.append(wasmenc.encode(m))
    return out


LG0 = X('local.get', 0)


def immediates():
    """One-instruction modules: every opcode, known or not, before every kind of
    immediate, in range or just outside it."""
    u = wasmenc.leb_u
    ops = [bytes([o]) for o in range(0xfc)] + [b'\xfe', b'\xff'] + [b'\xfe' + u(n) for n in range(6)] + \
        [b'\xfc' + u(n) for n in list(range(40)) + [64, 127, 128, 255, 256, 300, 16384]] + \
        [b'\xfd' + u(n) for n in list(range(300)) + [511, 512, 1024, 16384]]
    tails = [b''] + [bytes(x) for x in ([0], [1], [2], [4], [8], [16], [32], [0x40], [0x6f], [0x70], [0x7f], [0xff, 0], [0x80, 0])]
    tails += [bytes([a, 0]) for a in range(7)] + [b'\0\1', b'\0\x80\0', b'\0\xff\x7f', b'\1\x7f', b'\1\x60', b'\2\x7f\x7f', b'\1\0\0', b'\1\0']
    tails += [bytes([a, 0, l]) for a, l in ((0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 7), (0, 8), (0, 15), (0, 16), (0, 255), (1, 0), (2, 0), (3, 0), (4, 0), (1, 8), (2, 4), (3, 2))]
    tails += [b'\0' * n for n in (4, 5, 7, 8, 9, 15, 16, 17)] + [b'\0' * k + bytes([v]) + b'\0' * (15 - k) for k in (0, 8, 15) for v in (31, 32, 255)]
    out = []
    for o in ops:
        for t in tails:
            for e in (b'', b'\x0b') if o in (b'\2', b'\3', b'\4') else (b'',):
                body = b'\0' + o + t + e + b'\x0b'
                out.append(('opcode %s immediate %s' % (o.hex(), t.hex()),
                            HEAD + b'\1\4\1\x60\0\0\3\2\1\0\x0a' + u(len(body) + len(u(len(body))) + 1) + b'\1' + u(len(body)) + body))
    return out


def judge_bin(ctx, cases, refused=False):
    jobs = [{'op': 'parse', 'b': list(x)} for _, x in cases]
    got = ctx.drive('drv_codec.py', jobs)
    recs = [dict(op='parse', b=j['b'], r='ok' if o.get('r') == 'ok' else 'err') for j, o in zip(jobs, got)]
    res = ctx.tlc('BinTrace', env={'TRACE': ctx.ndjson(recs, 'bin.ndjson')})
    ctx.traces += len(recs)
    st = ctx.cov.setdefault('judged', {'malformed': 0, 'well-formed': 0, 'overlong integers': 0})
    for p in res.prints('REFUSED'):
        what, x = cases[int(p) - 1]
        if refused:
            ctx.violation('refused/' + what, 'a well-formed binary is refused (%s): %s' % (what, x.hex()[:200]), {'what': what, 'binary': x.hex()})
    w, o = len(res.prints('WELL')) + len(res.prints('REFUSED')), len(res.prints('ODD')) + len(res.prints('LONG'))
    st['well-formed'] += w
    st['overlong integers'] += o
    st['malformed'] += len(recs) - w - o
    for p in res.prints('REJECT'):
        what, x = cases[int(p) - 1]
        ctx.violation('accepted/' + what, 'a malformed binary is accepted (%s): %s' % (what, x.hex()[:200]), {'what': what, 'binary': x.hex()})
    for p in res.prints('LONG')[:1]:
        what, x = cases[int(p) - 1]
        ctx.violation('overlong', 'an integer of more bits than its field is accepted (%s): %s' % (what, x.hex()[:200]), {'what': what, 'binary': x.hex()})


def run_malformed(ctx):
    r = ctx.rng
    k = 0
    while True:
        bins = small_modules(r)
        if k or not ctx.quick:
            bins += [wasmenc.encode(m, random.Random(k)) for m in scen_modules(r, 6, False)]
        cases = immediates() if k == 0 else []
        cut = len(cases) + 4000
        for i, b in enumerate(bins):
            cases += damage(r, b, i < 3)
        seen, uniq = set(), []
        for w, x in cases:
            if x not in seen:
                seen.add(x)
                uniq.append((w, x))
        if ctx.quick and len(uniq) > cut + 6000:
            uniq = uniq[:cut] + r.sample(uniq[cut:], 6000)
        for i in range(0, len(uniq), 20000):
            judge_bin(ctx, uniq[i:i + 20000])
        if k == 0:
            for w, x in r.sample(uniq, 5):
                ctx.sample('%s: %s..' % (w, x.hex()[:100]))
        k += 1
        if ctx.quick or ctx.violations or ctx.left() < 150:
            break


# ------------------------------------------------------------------ C24
LETTERS = 'abcXYZ019_$.-/ \t\n\0"\\' + '\x7f\x80\xe9\u0301\u07ff\u0800\ufeff\uffff\u200b' + '\U00010000\U0001f980\U0010ffff'


def text(r):
    return ''.join(r.choice(LETTERS) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 8, 20, r.choice([63, 64, 127, 128, 129, 300])])))


def span(r, top):
    lo = r.choice([0, 0, 1, 2, r.choice([127, 128, 255, 16383, 16384, 65535, 65536, top])])
    lo = min(lo, top)
    return {'min': lo, 'max': r.choice([-1, lo, min(top, lo + 1), top, r.randint(lo, top)])}


def declaring(r):
    """A valid module of declarations: whatever a description has to tell."""
    m = empty()
    size = r.choice([2, 5, 5, 12, 12, 140 if r.random() < 0.3 else 30])
    some = lambda k=1: r.randrange(size * k + 1)
    types = lambda: [r.choice(NT + RT) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 8, r.choice([20, 127, 128, 130])]))]
    m['types'] = [{'p': types(), 'r': types()} for _ in range(some())] + [{'p': [], 'r': []}]
    if r.random() < 0.5:
        r.shuffle(m['types'])
    if r.random() < 0.3:
        m['types'] += m['types'][:3]
    nt, mem = len(m['types']), False
    top = {'func': 0, 'table': 0, 'mem': 0, 'global': 0}
    plain, ro = [], []
    for _ in range(some()):
        k = r.choice(['func', 'func', 'global', 'table', 'mem'])
        x = {'m': r.choice(['env', 'env', text(r)]), 'n': text(r), 'k': k}
        if k == 'mem' and mem:
            continue
        if k == 'func':
            x['t'] = r.randrange(nt)
            if m['types'][x['t']] == {'p': [], 'r': []}:
                plain.append(top['func'])
        elif k == 'table':
            x.update(et=r.choice(RT), **span(r, (1 << 32) - 1))
        elif k == 'mem':
            mem = True
            x.update(span(r, 65536))
        else:
            x.update(vt=r.choice(NT + RT), mut=r.randrange(2))
        top[k] += 1
        m['imports'].append(x)
    for _ in range(some()):
        t = r.randrange(nt)
        if m['types'][t] == {'p': [], 'r': []}:
            plain.append(top['func'])
        m['funcs'].append({'t': t, 'locals': [], 'blocks': [[{'o': 'unreachable'}]]})
        top['func'] += 1
    for _ in range(r.choice([0, 1, 2, some()])):
        m['tables'].append(dict(et=r.choice(RT), **span(r, (1 << 32) - 1)))
        top['table'] += 1
    if not mem and r.random() < 0.7:
        m['mems'].append(span(r, 65536))
        top['mem'] += 1
    for _ in range(some()):
        t = r.choice(NT + RT)
        m['globals'].append({'vt': t, 'mut': r.randrange(2), 'init': const(t, r.getrandbits(128)) if t in NT else {'o': 'ref.null', 't': t}})
        top['global'] += 1
    kinds = [k for k in top if top[k]]
    names = {text(r) for _ in range(some(2))} if kinds else ()
    for n in sorted(sorted(names), key=lambda _: r.random()):
        k = r.choice(kinds)
        m['exports'].append({'n': n, 'k': k, 'i': r.randrange(top[k])})
    if plain and r.random() < 0.6:
        m['start'] = r.choice(plain)
    tabs = [x for x in m['imports'] if x['k'] == 'table'] + m['tables']
    for _ in range(some() if tabs else 0):
        i = r.randrange(len(tabs))
        et = tabs[i]['et']
        one = lambda: X('ref.func', r.randrange(top['func'])) if et == 'funcref' and top['func'] and r.random() < 0.7 else {'o': 'ref.null', 't': et}
        m['elems'].append({'mode': r.choice(['active', 'passive', 'declarative']), 'tab': i, 'et': et, 'off': i32(r.randrange(9)),
                           'init': [one() for _ in range(r.choice([0, 1, 2, 5, r.choice([127, 128, 200])]))]})
    for _ in range(some()):
        m['datas'].append({'mode': r.choice(['active', 'passive']) if top['mem'] else 'passive', 'off': i32(r.randrange(99)),
                           'bytes': [r.randrange(256) for _ in range(r.choice([0, 1, 2, 9, r.choice([127, 128, 300, 5000 if r.random() < 0.1 else 20])]))]})
    return m


SAYS = {1: 'type', 2: 'import', 3: 'function', 4: 'table', 5: 'memory', 6: 'global', 7: 'export', 8: 'start', 9: 'element', 11: 'data'}


def run_describe(ctx):
    r = ctx.rng
    k = 0
    while True:
        mods = (catalog(r) if k < 2 else []) + scen_modules(r, 25 if ctx.quick else 60, k == 0)
        mods += [declaring(r) for _ in range(150 if ctx.quick else 500)]
        jobs, owner = [], []
        for m in mods:
            for e in [None, wasmenc.FORMS, wasmenc.FORMS]:
                b = wasmenc.encode(m) if e is None else wasmenc.encode(m, random.Random(r.random()), e)
                jobs.append({'op': 'desc', 'b': list(b), 'run': e is None or r.random() < 0.3, 'raw': r.random() < 0.3})
                owner.append(m)
        got = ctx.drive('drv_codec.py', jobs)
        recs, what = [], []
        for i, (j, o) in enumerate(zip(jobs, got)):
            if 'd' not in o:
                ctx.violation('refused', 'no description of a well-formed binary (%s): %s' % (o.get('e', o), bytes(j['b']).hex()[:160]),
                              {'module': owner[i], 'binary': bytes(j['b']).hex()})
                continue
            recs.append({'op': 'desc', 'b': j['b'], 'd': o['d']})
            what.append((i, 'read'))
            if 'after' in o:
                recs.append({'op': 'desc', 'b': j['b'], 'd': o['after']})
                what.append((i, 'used'))
        res = ctx.tlc('BinTrace', env={'TRACE': ctx.ndjson(recs, 'bin.ndjson')})
        if res.prints('BADPAIR'):
            raise RuntimeError('the encoder and Binary.tla disagree')
        ctx.traces += len(recs)
        for sec, word in sorted(SAYS.items()):
            for p in res.prints('TELLS%d' % sec):
                i, when = what[int(p) - 1]
                ctx.violation('%s/%s' % (when, word), 'the %s section of a description is not the binary\'s once it was %s: %s' %
                              (word, when, bytes(jobs[i]['b']).hex()[:200]),
                              {'module': owner[i], 'binary': bytes(jobs[i]['b']).hex(), 'when': when, 'said': recs[int(p) - 1]['d'][sec - 1]})
        c = ctx.cov.setdefault('descriptions', {'modules': 0, 'binaries': 0, 'used': 0})
        c['modules'] += len(mods)
        c['binaries'] += len(jobs)
        c['used'] += sum('after' in o for o in got)
        if k == 0:
            for i in (1, len(jobs) // 2, len(jobs) - 1):
                ctx.sample('description of %s..' % bytes(jobs[i]['b']).hex()[:120])
        k += 1
        if ctx.quick or ctx.violations or ctx.left() < 150:
            break


def run(ctx):
    {'C24': run_describe, 'C19': run_wellformed, 'C20': run_leb, 'C21': run_malformed}[ctx.pid](ctx)
