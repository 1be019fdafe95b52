"""Small closed systems explored exhaustively by TLC (ExecMC.tla): a setup
script, a menu of embedder actions, and what to look at after a history."""
import json, random
from families import *
from families import trapmod, tabmod, base, TRAPS

T = {'o': 'call_indirect'}


def I(n):
    return C('i32', n)


def system(mods, setup, menu, looks, depth, hosts=()):
    return {'mode': 'free', 'mods': list(mods), 'hosts': list(hosts), 'script': list(setup),
            'menu': [m if isinstance(m, list) else [m] for m in menu], 'looks': looks, 'depth': depth, 'log': []}


def s_grow(deep):
    """C07: one memory seen by its owner, an importer and the embedder."""
    out = []
    for mn, mx in ((1, 3), (0, 1), (2, 2), (0, 0)):
        a = B()
        a.mem(mn, mx)
        c = B()
        c.imp('mem', 'm', min=mn, max=mx)
        for b in (a, c):
            b.func(['i32'], ['i32', 'i32'], [LG(0), O('memory.grow'), O('memory.size')], 'grow')
            b.func(['i32', 'i32'], [], [LG(0), LG(1), store('i32.store8')], 'st')
            b.func(['i32'], ['i32'], [LG(0), load('i32.load8_u')], 'ld')
        gr = lambda h, n: INV(h, 'grow', [I(n)], ['i32', 'i32'])
        menu = [gr(0, 0), gr(0, 1), gr(1, 1), gr(1, 2), gr(0, -1), gr(1, 65536), MGROW(0, 1), MGROW(1, 0),
                INV(0, 'st', [I(65535), I(1)]), INV(1, 'st', [I(65536), I(2)]), MPUT(1, 131071, [3]),
                INV(1, 'ld', [I(65535)], ['i32']), INV(0, 'ld', [I(131071)], ['i32']), MGET(0, 65536, 1), MGET(0, 131072, 0)]
        out.append(system([a.done(), c.done()], [INST(0), INST(1, [E(0, 'm')])], menu,
                          [MEM(0), MEM(1), gr(0, 0), gr(1, 0)], 4 + deep))
    a = B()                             # no maximum: the runtime's own ceiling
    a.mem(1021, -1)
    a.func(['i32'], ['i32', 'i32'], [LG(0), O('memory.grow'), O('memory.size')], 'grow')
    if deep:
        out.append(system([a.done()], [INST(0)], [INV(0, 'grow', [I(k)], ['i32', 'i32']) for k in (0, 1, 2, 3, 4, -1)], [], 4))
    return out


def s_bulk(deep):
    b = B()
    b.mem(1, 1)
    b.data([1, 2, 3], 'passive')
    b.data([7, 8], 'active', 1)
    b.data([5], 'passive')
    for x in range(3):
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), X('memory.init', x)], 'init%d' % x)
        b.func([], [], [X('data.drop', x)], 'drop%d' % x)
    b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), O('memory.copy')], 'copy')
    b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), O('memory.fill')], 'fill')
    f = lambda n, *a: INV(0, n, [I(x) for x in a])
    menu = [f('copy', 1, 0, 3), f('copy', 0, 1, 3), f('copy', 2, 0, 2), f('copy', 65534, 0, 3), f('copy', 65536, 65536, 0), f('copy', 65537, 0, 0),
            f('fill', 1, 9, 2), f('fill', 65535, 9, 2), f('init0', 0, 0, 3), f('init0', 1, 1, 2), f('init0', 1, 2, 2), f('init0', 0, 3, 0),
            f('init0', 0, 4, 0), f('init1', 0, 0, 1), f('init1', 0, 0, 0), f('init2', 3, 0, 1), f('drop0'), f('drop1'), f('drop2'),
            INST(0)]
    return [system([b.done()], [INST(0)], menu, [MEM(0), f('init0', 10, 0, 3), f('init2', 20, 0, 1), MEM(0)], 3 + deep)]


def s_table(deep):
    return [tables(deep, False), tables(deep, True)]


def tables(deep, alias):
    b = B()
    if alias:
        b.imp('table', 't0', et='funcref', min=2, max=-1)
        b.imp('table', 't1', et='funcref', min=3, max=5)
    else:
        b.table('funcref', 3, 5, 't0')
        b.table('funcref', 2, -1, 't1')
    b.table('externref', 1, 2, 't2')
    f0 = b.func([], ['i32'], [i32(100)], 'c0')
    f1 = b.func([], ['i32'], [i32(101)], 'c1')
    b.func(['i32'], ['i32'], [LG(0)], 'c2')
    b.elem([f0, f1], 'active', 0, 1)
    b.elem([f1, None, 2], 'passive')
    nul = {'o': 'ref.null', 't': 'funcref'}
    for x in (0, 1):
        b.func(['i32'], [], [LG(0), X('ref.func', f1), X('table.set', x)], 'set%d' % x)
        b.func(['i32'], ['i32'], [X('ref.func', f0), LG(0), X('table.grow', x)], 'grow%d' % x)
        b.func(['i32', 'i32'], [], [LG(0), nul, LG(1), X('table.fill', x)], 'fill%d' % x)
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), {'o': 'table.init', 'x': x, 'y': 1}], 'init%d' % x)
    for x, y in ((0, 0), (0, 1), (1, 0)):
        b.func(['i32', 'i32', 'i32'], [], [LG(0), LG(1), LG(2), {'o': 'table.copy', 'x': x, 'y': y}], 'copy%d%d' % (x, y))
    b.func([], [], [X('elem.drop', 1)], 'drop')
    b.func(['i32', 'externref'], [], [LG(0), LG(1), X('table.set', 2)], 'setx')
    b.func(['externref', 'i32'], ['i32'], [LG(0), LG(1), X('table.grow', 2)], 'growx')
    b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': 0}], 'ci0')
    b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': 1}], 'ci1')
    m = b.probes().done()
    f = lambda n, *a: INV(0, n, [I(x) for x in a])
    v = lambda n, *a: INV(0, n, [I(x) for x in a], ['i32'])
    menu = [f('set0', 0), f('set1', 1), f('set1', 2), v('grow0', 1), v('grow0', 3), v('grow1', 1), f('fill0', 1, 2), f('fill0', 2, 2),
            f('copy00', 1, 0, 2), f('copy00', 0, 1, 2), f('copy01', 0, 0, 2), f('copy10', 0, 1, 2), f('copy10', 1, 0, 2), f('init0', 0, 0, 3),
            f('init1', 0, 1, 2), f('init0', 0, 3, 0), f('drop'), INV(0, 'setx', [I(0), CX(7)]), INV(0, 'setx', [I(1), CX(8)]),
            INV(0, 'growx', [CX(9), I(1)], ['i32'])]
    looks = observe(m, 0) + [v('ci0', k) for k in range(5)] + [v('ci1', k) for k in range(3)]
    if alias:
        setup = [{'o': 'htab', 'et': 'funcref', 'min': 4, 'max': 5}, INST(0, [OBJ(0), OBJ(0)])]
        menu = [f('copy01', 0, 1, 3), f('copy01', 1, 0, 3), f('copy10', 0, 2, 2)] + [x for x in menu if x['on']['n'] not in ('copy00', 'setx', 'growx')]
        return system([m], setup, menu, looks, 2 + deep)
    return system([m], [INST(0)], menu, looks, 2 + deep)


def s_glob(deep):
    out = []
    for t, v1, v2 in (('i32', 1, -2), ('i64', 1 << 40, -1), ('f32', 0x40490fdb, 0x80000000), ('f64', 0x400921fb54442d18, 1),
                      ('v128', 1 << 100, 77), ('externref', 3, 5)):
        cv = (lambda x: CX(x)) if t == 'externref' else (lambda x, t=t: C(t, x))
        ini = {'o': 'ref.null', 't': t} if t == 'externref' else const(t, v1)
        a = B()
        a.glob(t, 1, ini, 'g')
        a.glob(t, 0, ini, 'k')
        c = B()
        c.imp('global', 'g', vt=t, mut=1)
        c.imp('global', 'k', vt=t, mut=0)
        c.glob(t, 1, GG(1), 'mine')
        for b in (a, c):
            b.func([t], [t], [GG(0), LG(0), GS(0)], 'swap')
            b.func([t], [], [LG(0), GS(0), UNR], 'settrap')
            b.func([], [t, t], [GG(0), GG(1)], 'both')
        c.func([], [], [GG(0), GS(2)], 'keep')
        c.func([], [], [GG(2), GS(0)], 'back')
        menu = [INV(0, 'swap', [cv(v1)], [t]), INV(1, 'swap', [cv(v2)], [t]), INV(0, 'settrap', [cv(v2)]), GSET(1, 'g', t, cv(v2)),
                GSET(0, 'g', t, cv(v1)), INV(1, 'keep'), INV(2, 'keep'), INV(1, 'back'), INV(2, 'back'), GSET(2, 'mine', t, cv(v2)),
                INV(0, 'swap', [], [t]), INST(1, [E(1, 'g'), E(1, 'k')])]
        looks = [GLOB(h, 'g', t) for h in (0, 1, 2)] + [GLOB(h, 'k', t) for h in (0, 1)] + [GLOB(1, 'mine', t), GLOB(2, 'mine', t), INV(0, 'both', [], [t, t]), INV(2, 'both', [], [t, t])]
        out.append(system([a.done(), c.done()], [INST(0), INST(1, [E(0, 'g'), E(0, 'k')]), INST(1, [E(1, 'g'), E(0, 'k')])],
                          menu, looks, 2 + deep))
    return out


def s_link(deep):
    """What may be linked depends on what earlier actions did to the objects."""
    bm = base()                         # mem 1..4, table 4..9, global i32
    mods = [bm]
    menu = [INV(0, 'grow', [I(1)], ['i32']), INV(0, 'tgrow', [I(2)], ['i32']), GSET(0, 'g', 'i32', I(5))]
    H = host([], [], [HRET()])

    def cons(kind, req, prov):
        b = B()
        b.imp_func([], [])
        b.imp('global', None, vt='i32', mut=1)
        b.imp(kind, None, **req)
        if kind == 'mem':
            b.data([6], 'active', 3)
        elif kind == 'table':
            b.elem([0], 'active', 0, 1)
        b.m['start'] = b.func([], [], [GG(0), i32(16), ADD, GS(0), CALL(0)], None)
        mods.append(b.done())
        menu.append(INST(len(mods) - 1, [OBJ(0), E(0, 'g'), E(0, prov)]))
    for mn, mx in ((2, 4), (1, 3), (1, 5), (3, -1)):
        cons('mem', {'min': mn, 'max': mx}, 'm')
    for mn, mx, et in ((4, 9, 'funcref'), (6, 9, 'funcref'), (4, 8, 'funcref'), (4, 9, 'externref'), (8, -1, 'funcref')):
        cons('table', {'min': mn, 'max': mx, 'et': et}, 't')
    for t, mu in (('i32', 1), ('i32', 0), ('i64', 1)):
        cons('global', {'vt': t, 'mut': mu}, 'g')
    looks = observe(bm, 0)
    return [system(mods, [HFUNC(1, [], []), INST(0)], menu, looks, 3 + deep, [H])]


def s_inst(deep):
    """Instantiations that write into shared objects and may fail half way."""
    bm = base()
    mods = [bm]
    menu = [INV(0, 'grow', [I(1)], ['i32']), INV(0, 'tgrow', [I(2)], ['i32']), GSET(0, 'g', 'i32', I(1))]
    H = host(['i32'], [], [HRET()])

    def cand(elems, datas, trap):
        b = B()
        h = b.imp_func(['i32'], [])
        b.imp('mem', None, min=1, max=-1)
        b.imp('table', None, et='funcref', min=1, max=-1)
        b.imp('global', None, vt='i32', mut=1)
        f = b.func([], ['i32'], [i32(len(mods))], 'f')
        for off in elems:
            b.elem([f], 'active', 0, off)
        for off in datas:
            b.data([len(mods)] * 2, 'active', off)
        st = [i32(0), load('i32.load8_u', 65535), CALL(h), GG(0), i32(2), ADD, GS(0)]
        if trap:
            st += [GG(0), IF([UNR])] if trap == 2 else [GG(0), i32(1), num('i32.and'), IF([UNR])]
        b.m['start'] = b.func([], [], st + [i32(0), i32(len(mods)), store('i32.store8', 9)], None)
        mods.append(b.done())
        menu.append(INST(len(mods) - 1, [OBJ(0), E(0, 'm'), E(0, 't'), E(0, 'g')]))
    cand([0], [65534], 0)
    cand([1, 4], [4], 0)                # needs a larger table
    cand([2], [6, 65535], 0)            # needs a larger memory
    cand([3], [8], 1)                   # start traps when the global is odd
    cand([0, 0], [65536, 10], 0)
    looks = observe(bm, 0)
    c = B()
    c.imp('table', None, et='funcref', min=1, max=-1)
    c.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': c.ty([], ['i32']), 'x': 0}], 'ci')
    mods.append(c.done())
    looks += [INV(1, 'ci', [I(k)], ['i32']) for k in range(6)]
    return [system(mods, [HFUNC(1, ['i32'], []), INST(0), INST(len(mods) - 1, [E(0, 't')])], menu, looks, 3 + deep, [H])]


def s_iso(deep):
    b = B()
    b.mem(1, 2)
    b.table('funcref', 2, 3, 't')
    b.glob('i32', 1, i32(5), 'g')
    f0 = b.func([], ['i32'], [GG(0)], 'f0')
    b.elem([f0], 'active', 0, 0)
    b.elem([f0], 'passive')
    b.data([1, 2], 'passive')
    b.func([], [], [i32(6), GS(0)], 'setg')
    b.func([], [], [i32(0), i32(7), store('i32.store8')], 'st')
    b.func([], ['i32'], [i32(1), O('memory.grow')], 'grow')
    b.func([], ['i32'], [{'o': 'ref.null', 't': 'funcref'}, i32(1), X('table.grow', 0)], 'tgrow')
    b.func([], [], [i32(4), i32(0), i32(2), X('memory.init', 0)], 'mi')
    b.func([], [], [i32(1), i32(0), i32(1), {'o': 'table.init', 'x': 0, 'y': 1}], 'ti')
    b.func([], [], [X('data.drop', 0)], 'dd')
    b.func([], [], [X('elem.drop', 1)], 'ed')
    b.func([], [], [i32(0), {'o': 'ref.null', 't': 'funcref'}, X('table.set', 0)], 'tz')
    b.func(['i32'], ['i32'], [LG(0), {'o': 'call_indirect', 'ty': b.ty([], ['i32']), 'x': 0}], 'ci')
    am = b.probes().done()
    c = B()
    c.imp('mem', 'm', min=1, max=2)
    c.imp('table', 't', et='funcref', min=2, max=3)
    c.imp('global', 'g', vt='i32', mut=1)
    mine = c.func([], ['i32'], [i32(999)], 'f0')
    c.func([], [], [i32(1), X('ref.func', mine), X('table.set', 0)], 'put')
    c.func([], [], [i32(8), GS(0), i32(0), i32(9), store('i32.store8')], 'wr')
    cm = c.probes().done()
    menu = []
    for h in (0, 1):
        menu += [INV(h, n) for n in ('setg', 'st', 'mi', 'ti', 'dd', 'ed', 'tz')] + [INV(h, n, [], ['i32']) for n in ('grow', 'tgrow')]
    menu += [INV(2, 'put'), INV(2, 'wr'), INST(0), INST(0, [], 'fresh')]
    looks = []
    for h in (0, 1):
        looks += observe(am, h) + [INV(h, 'ci', [I(k)], ['i32']) for k in range(2)] + [INV(h, 'mi'), INV(h, 'ti')]
    looks += observe(cm, 2) + [INST(0, [], 'same'), ]
    return [system([am, cm], [INST(0), INST(0), INST(1, [E(1, 'm'), E(1, 't'), E(1, 'g')])], menu, looks, 2 + deep)]


def s_trap(deep):
    out = []
    r = random.Random(5)
    kinds = list(TRAPS) if deep else ['store', 'host', 'cisig', 'tinit', 'div']
    for kind in kinds:
        m, depth = trapmod(kind, r)
        menu = [INV(0, 'd0', [], ['i32']), INV(0, 'd%d' % depth, [], ['i32']), INV(0, 'work', [I(3)], ['i32']), INV(0, 'viahost', [], ['i32']),
                INV(1, 'work', [I(1)], ['i32']), INV(1, 'd%d' % depth, [], ['i32'])]
        prog = [INV(0, 'work', [I(2)], ['i32']), INV(1, 'd0', [], ['i32'], catch=1), INV(1, 'work', [I(1)], ['i32']),
                INV(0, 'd0', [], ['i32'], catch=0)]
        looks = observe(m, 0) + observe(m, 1) + [INV(0, 'work', [I(4)], ['i32'])]
        out.append(system([m], [HFUNC(1, [], []), HFUNC(2, [], []), INST(0, [OBJ(0), OBJ(1)]), INST(0, [OBJ(0), OBJ(1)])], menu, looks,
                          2 + deep, [host([], [], [{'o': 'raise'}]), host([], [], prog + [HRET()])]))
    return out


def s_host(deep):
    b = B()
    h0 = b.imp_func(['i32'], ['i32'], 'h0')
    h1 = b.imp_func(['i32'], ['i32'], 'h1')
    b.mem(1, 3)
    b.glob('i32', 1, i32(10), 'g')
    b.table('funcref', 2, -1, 't')
    b.elem([h0, h1], 'active')
    b.func(['i32'], ['i32'], [i32(1), LG(0), CALL(h0), ADD, GG(0), ADD, O('memory.size'), ADD, i32(0), load('i32.load8_u'), ADD], 'a')
    b.func(['i32'], ['i32'], [i32(3), LG(0), CALL(h1), ADD, GG(0), ADD], 'b')
    b.func(['i32'], ['i32'], [GG(0), i32(1), ADD, GS(0), LG(0), i32(1), {'o': 'call_indirect', 'ty': b.ty(['i32'], ['i32']), 'x': 0}], 'c')
    b.func([], [], [GG(0), i32(1), ADD, GS(0), UNR], 'trap')
    b.func([], ['i32'], [GG(0)], 'get')
    m = b.done()
    p0 = [MPUT(0, 0, [41]), GSET(0, 'g', 'i32', I(12)), MGROW(0, 1), INV(0, 'get', [], ['i32']), HRET(R(0))]
    p1 = [SKIPZ(A(0), 3), INV(0, 'trap'), INV(0, 'b', [I(0)], ['i32']), HRET(R(0)), INV(0, 'a', [I(5)], ['i32']), HRET(A(0))]
    p2 = [GSET(0, 'g', 'i32', A(0)), {'o': 'raise'}]
    menu = [INV(0, n, [I(k)], ['i32']) for n in 'abc' for k in (0, 1)] + [INV(0, 'trap'), INV(0, 'h0', [I(3)], ['i32']), INV(0, 'h1', [I(0)], ['i32'])] + \
           [INV(1, n, [I(k)], ['i32']) for n in 'abc' for k in (0, 1)] + [GSET(0, 'g', 'i32', I(10))]
    looks = [MEM(0), GLOB(0, 'g', 'i32'), MEM(1), GLOB(1, 'g', 'i32'), INV(0, 'a', [I(0)], ['i32'])]
    setup = [HFUNC(k, ['i32'], ['i32']) for k in (1, 2, 3)] + [INST(0, [OBJ(0), OBJ(1)]), INST(0, [OBJ(2), OBJ(0)])]
    return [system([m], setup, menu, looks, 3 + deep, [host(['i32'], ['i32'], p) for p in (p0, p1, p2)])]


SYSTEMS = {'C07': s_grow, 'C08': s_bulk, 'C09': s_table, 'C12': s_glob, 'C13': s_link, 'C14': s_inst, 'C15': s_iso,
           'C16': s_trap, 'C17': s_host}


def histories(ctx, systems, tag='mc'):
    """Explore with TLC; return maximal histories as trace-mode scenarios."""
    recs = [{k: v for k, v in s.items() if k != 'looks'} for s in systems]
    res = ctx.tlc('ExecMC', env={'TRACE': ctx.ndjson(recs, tag + '.ndjson')})
    tr = set()
    for p in res.prints('T'):
        tr.add(tuple(int(x) for x in p.split()))
    inner = {h[:k] for h in tr for k in range(1, len(h))}
    out = []
    for h in sorted(tr - inner):
        s = systems[h[0] - 1]
        script = list(s['script'])
        for i in h[1:]:
            script += s['menu'][i - 1]
        out.append({'mode': 'trace', 'mods': s['mods'], 'hosts': s['hosts'], 'script': script + s['looks']})
    ctx.cov.setdefault('models', []).append({'module': 'ExecMC', 'systems': len(systems), 'states': res.distinct,
                                             'transitions': len(tr), 'histories': len(out), 'wall_s': round(res.wall, 1),
                                             'depth': [s['depth'] for s in systems]})
    return out
