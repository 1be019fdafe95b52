"""C40: exported functions run from the command line, judged by the machine
specification Wasm.tla through ExecTrace.tla."""
import json, random, struct
import wasmenc
import eng_codec
from families import TRAPS, BLOCK, LOOP, B, LG, LS, GG, GS, CALL, IF, UNR, ADD, MUL, i32, load, store, O, X, num, rconst, scen, INST, INV, C, VALS, NT, le, TW


def text(t, v):
    v = bytes(v)
    if t in ('i32', 'i64'):
        return str(int.from_bytes(v, 'little', signed=True))
    if t == 'v128':
        return '0x' + v.hex()
    x = struct.unpack('<f' if t == 'f32' else '<d', v)[0]
    return None if x != x else repr(x)


BIN = {'i32': ['i32.add', 'i32.sub', 'i32.mul', 'i32.div_u', 'i32.div_s', 'i32.shl', 'i32.rotl'], 'i64': ['i64.add', 'i64.sub', 'i64.mul', 'i64.rem_u', 'i64.div_s', 'i64.xor'],
       'f32': ['f32.add', 'f32.sub', 'f32.mul', 'f32.copysign'], 'f64': ['f64.add', 'f64.mul', 'f64.copysign', 'f64.sub'], 'v128': ['v128.xor', 'i8x16.add', 'i32x4.sub']}


def module(r, fn):
    b = B()
    p = [r.choice(NT) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
    kind = r.choice(['perm', 'arith', 'state', 'trap', 'plain', 'deep'])
    b.mem(1, 2, 'mem')
    g = b.glob('i64', 1, {'o': 'const', 't': 'i64', 'v': le(r.getrandbits(64), 8)}, 'g')
    b.data(r.randbytes(8), off=16)
    for k in range(r.randrange(3)):
        b.func([], [], [O('nop')], 'other%d' % k)
    # other exports with similar names and types of their own
    near = sorted({fn + 'x', fn + fn, 'z' + fn, fn.upper() + '_', fn.upper(), fn.title(), fn + ' ', ' ' + fn, fn.replace('é', 'e\u0301'), fn[:-1], fn[1:]} - {fn})
    for n in r.sample(near, r.randrange(3)):
        t = r.choice(NT)
        b.func([r.choice(NT) for _ in p] if r.random() < 0.7 else [], [t], [rconst(r, t)], n)
        near.remove(n)
    ins, rs = [], []
    for i, t in r.sample(list(enumerate(p)), len(p)):
        x = r.random()
        if kind == 'arith' and x < 0.7:
            js = [j for j, s in enumerate(p) if s == t]
            ins += [LG(i), LG(r.choice(js)), num(r.choice(BIN[t]))]
            rs.append(t)
        elif x < 0.85:
            ins.append(LG(i))
            rs.append(t)
    if kind == 'state':
        ins += [GG(g), i32(16), load('i32.load'), i32(20), i32(-7), store('i32.store'), i32(20), load('i32.load')]
        rs += ['i64', 'i32', 'i32']
    if kind == 'trap':
        ins += [i32(r.choice([65533, 65532, 16])), load('i32.load')]
        rs.append('i32')
    if kind == 'plain':
        for _ in range(r.randrange(3)):
            t = r.choice(NT)
            ins.append(rconst(r, t))
            rs.append(t)
    if kind == 'deep':
        f = b.func(p, rs, ins)
        b.func(p, rs, [LG(i) for i in range(len(p))] + [CALL(f)], fn)
    else:
        b.func(p, rs, ins, fn)
    if r.random() < 0.4:
        for n in r.sample(near, r.randrange(len(near) + 1)):
            t = r.choice(NT)
            b.func(p if r.random() < 0.5 else [r.choice(NT) for _ in p], [t], [rconst(r, t)], n)
    if r.random() < 0.3:
        st = b.func([], [], [GG(g), {'o': 'const', 't': 'i64', 'v': le(1, 8)}, num('i64.add'), GS(g)])
        b.m['start'] = st
    return b.done(), p, rs


def job(r, first=None):
    name = r.choice(['_start', '_start', 'f', 'add', '-f', 'é', 'a b', 'main'])
    m, p, rs = module(r, name)
    args, txt = [], []
    for t in p:
        while True:
            v = C(t, r.choice(VALS[t])) if r.random() < 0.5 else {'k': 'c', 't': t, 'v': rconst(r, t)['v']}
            s = text(t, v['v'])
            if s is not None:
                break
        args.append(v)
        txt.append(s)
    x = r.random()
    call = name
    if x < 0.06:
        txt, args = (txt[:-1], args[:-1]) if txt and r.random() < 0.5 else (txt + ['1'], args + [C('i32', 1)])
    elif x < 0.10:
        call = r.choice(['mem', 'g', 'nope', name + 'x', ''])
        if call != 'nope':
            txt, args = [], []
    s = scen([m], [INST(0, []), INV(0, call, args, rs)], [])
    s.update(func=None if call == '_start' and r.random() < 0.6 else call, args=txt, rts=rs, sep=1 if call[:1] == '-' else r.randrange(2), first=r.randrange(2))
    if r.random() < 0.4:
        s['enc'] = r.randrange(1, 1 << 30)
    return s


def trapjob(r, kind, where):
    """A trap of that kind in an exported function, behind calls, in a start
    function or in an active segment."""
    b = B()
    b.ty([], [])
    b.mem(1, 1)
    b.table('funcref', 4, 4)
    e = b.func([], [], [O('nop')])
    q = b.func(['i32'], ['i32'], [LG(0), LG(0), MUL])
    b.func([], [], [CALL(2)])
    b.func([], [], [O('nop')])
    b.elem([e, q], 'active', 0, 0)
    b.elem([q, q], 'passive')
    b.data([1, 2, 3], 'passive')
    rs = [r.choice(NT) for _ in range(r.randrange(3))]
    f = b.func([], rs, TRAPS[kind] + [rconst(r, t) for t in rs])
    if where == 'start':
        rs = []
        b.m['start'] = b.func([], [], TRAPS[kind])
    elif where == 'segment':
        if r.random() < 0.5:
            b.data([1, 2, 3], off=65534)
        else:
            b.elem([e, q], 'active', 0, 3)
    for _ in range(r.randrange(3)):
        f = b.func([], rs, [CALL(f)]) if where == 'call' else f
    b.func([], rs, [BLOCK([CALL(f)], r=rs)] if where == 'call' else [rconst(r, t) for t in rs], 'f')
    bad = where in ('start', 'segment')
    s = scen([b.done()], [INST(0, [])] + ([] if bad else [INV(0, 'f', [], rs)]), [])
    s.update(func='f', args=[], rts=rs, sep=0, first=r.randrange(2), inst=bad)
    return s


def values(r):
    """Every notable value of every type through the command line and back, alone and among others."""
    out = []
    for t in NT:
        vs = [x['v'] for x in (C(t, v) for v in VALS[t])] + [le(1 << (8 * TW[t] - 1), TW[t]), le((1 << (8 * TW[t] - 1)) - 1, TW[t])] + [rconst(r, t)['v'] for _ in range(4)]
        for v in vs:
            if text(t, v) is None:
                continue
            b = B()
            n = r.choice([1, 1, 2])
            b.func([t] * n, [t] * n, [LG(i) for i in range(n)], 'f')
            a = {'k': 'c', 't': t, 'v': v}
            s = scen([b.done()], [INST(0, []), INV(0, 'f', [a] * n, [t] * n)], [])
            s.update(func='f', args=[text(t, v)] * n, rts=[t] * n, sep=0, first=r.randrange(2))
            out.append(s)
    return out


def malformed(ctx, r, n):
    """Modules that are none: refused with a status and without a result."""
    cs = []
    for b in eng_codec.small_modules(r)[:2]:
        cs += [x for _, x in r.sample(eng_codec.damage(r, b, True), n)]
    cs += [b'', b'\0asm', b'\0asm\1\0\0\0', b'not a module', b'\0asm\2\0\0\0']
    got = ctx.drive('drv_cliexec.py', [dict(raw=list(x), func='f', args=[], sep=0, first=0) for x in cs])
    recs = [dict(op='parse', b=list(x), r=o.get('r', 'ok')) for x, o in zip(cs, got)]
    res = ctx.tlc('BinTrace', env={'TRACE': ctx.ndjson(recs, 'cli.ndjson')})
    for p in res.prints('REJECT'):
        x = cs[int(p) - 1]
        ctx.violation('malformed', 'pywasm ran a malformed module: %s' % x.hex()[:200], {'binary': x.hex()})
    ctx.traces += len(recs)


def judge(ctx, js):
    logs = ctx.drive('drv_cliexec.py', js)
    recs, at = [], []
    for j, l in zip(js, logs):
        log = l['log'] if 'log' in l else [{'e': 'died', 'x': l['died'][-200:]}]
        if log is None:
            ctx.cov['nan'] = ctx.cov.get('nan', 0) + 1
            continue
        recs.append(dict(mode='trace', mods=j['mods'], hosts=j['hosts'], script=j['script'], log=log))
        at.append(j)
    res = ctx.tlc('ExecTrace', env={'TRACE': ctx.ndjson(recs, 'cli.ndjson')})
    for p in res.prints('REJECT'):
        i, pos, why = p.split(' ', 2)
        j, rec = at[int(i) - 1], recs[int(i) - 1]
        got = rec['log'][int(pos) - 1] if int(pos) <= len(rec['log']) else 'end of log'
        ctx.violation('cli/%s' % pos, 'pywasm --func %s %s: %s; observed %s' % (j['func'], j['args'], why[:200], json.dumps(got)[:150]), dict(j, log=rec['log']))
    ctx.traces += len(recs)
    ctx.evaluations += len(recs)
    ctx.cov['traps'] = ctx.cov.get('traps', 0) + sum(x['log'][-1]['e'] == 'trap' for x in recs)


def run(ctx):
    r = random.Random('cli%d' % ctx.seed)
    k = 0
    while True:
        js = [job(r) for _ in range(230 if k == 0 else 1200)]
        if k == 0:
            js += [trapjob(r, t, 'call') for t in TRAPS if t != 'host']
            js += [trapjob(r, r.choice([t for t in TRAPS if t not in ('host', 'rec')]), w) for w in ('start', 'segment') for _ in range(6)]
            js += values(r)
            malformed(ctx, r, 12 if ctx.quick else 150)
        judge(ctx, js)
        if k == 0:
            for j in js[:4]:
                ctx.sample('--func %s %s' % (j['func'], j['args']))
        k += 1
        if ctx.violations or ctx.quick or ctx.left() < 200:
            break
