"""C06-C18: executions of the real runtime checked against the machine
specification Wasm.tla: exhaustive histories of small systems (ExecMC.tla),
directed families and random programs, all judged by ExecTrace.tla."""
import json, random
import gen_exec, families, systems

NUM = ['i32', 'i32', 'i64', 'f32', 'f64', 'v128']
W0 = {k: 0 for k in gen_exec.BASE}


def w(**k):
    return dict(W0, push=4, drop=1, setl=3, **k)


CLEAN = {'badseg': 0, 'mislink': 0}
PLAIN = dict(CLEAN, ntabs=[0], nimpt=[0], nimpf=[0], nhost=[0], nobj=[0], nimpg=[0], start=0, nelem=[0])
PROFILE = {
    'C06': dict(PLAIN, vts=NUM, refs=0, w=w(store=8, bulk=0.2, grow=0.2, block=0.4), mem=8, risk=0.12, memsrc=[1, 0, 0], size=10),
    'C07': dict(PLAIN, vts=NUM, refs=0, w=w(store=2, grow=5, block=0.5, call=0.5), mem=3, risk=0.1, memsrc=[3, 3, 0], poke=0.7,
                nobj=[0, 1, 2], mempages=[0, 1, 1, 2]),
    'C08': dict(PLAIN, vts=NUM, refs=0, w=w(store=1, bulk=8, grow=0.2, block=0.3), mem=1, risk=0.1, memsrc=[1, 0, 0], ndata=[2, 3, 4],
                again=0.5),
    'C09': dict(CLEAN, w=w(table=8, calli=3, block=0.3), mem=0, ntabs=[1, 2, 3], nimpt=[0, 1], nelem=[1, 2, 3, 4], nhost=[0], nimpf=[0],
                memsrc=[0, 0, 1], ndata=[0], risk=0.08, start=0),
    'C10': dict(PLAIN, vts=NUM, refs=0, w=w(block=4, **{'if': 4}, loop=3, brif=5, br=3, brt=3, ret=2, setg=1, nop=1), nest=5, size=9, mem=0,
                memsrc=[0, 0, 1], ndata=[0], risk=0.02),
    'C11': dict(CLEAN, w=w(call=6, calli=4, block=1, brif=1, ret=2, loop=0.3, **{'if': 1}), rec=0.4, fuel=40, ntabs=[1, 2], nelem=[1, 2, 3],
                nimpf=[0, 1], nhost=[0, 1], memsrc=[0, 0, 1], ndata=[0], mem=0, risk=0.03, ntypes=6),
    'C12': dict(CLEAN, w=w(setg=6, call=1, block=1, brif=1, trap=1) | {'setl': 7}, memsrc=[0, 0, 1], ndata=[0], mem=0, ntabs=[0], nimpt=[0], nelem=[0],
                nimpg=[0, 1, 2, 3], nobj=[0, 1, 2], nmods=[1, 2, 3], poke=0.5, nhost=[0], nimpf=[0], risk=0.05),
    'C13': dict(mislink=0.12, badseg=0.02, size=4, nobj=[1, 2, 3, 4], nhost=[0, 1, 2], nimpf=[1, 2], nimpg=[1, 2], nimpt=[0, 1], memsrc=[2, 3, 1],
                nmods=[2, 3, 4], calls=1, start=0.3),
    'C14': dict(badseg=0.15, mislink=0.01, size=4, nelem=[1, 2, 3, 4], ndata=[1, 2, 3], start=0.6, nmods=[1, 2, 3], calls=1, nimpt=[0, 1, 1], memsrc=[3, 3, 1]),
    'C15': dict(CLEAN, again=0.6, nmods=[2, 3, 4], size=6, w=dict(setg=4, store=4, table=3, bulk=3, grow=1), look=0.6, nobj=[0, 1]),
    'C16': dict(CLEAN, risk=0.15, w=dict(trap=3, setg=3, store=3, call=3), size=7, look=0.6),
    'C17': dict(CLEAN, nhost=[1, 2, 3], nimpf=[1, 2, 3], hostops=[1, 2, 3, 3], w=dict(call=5), size=6, poke=0.4, nmods=[1, 2, 2]),
    'C18': dict(CLEAN, size=3, calls=5, poke=0.5, nhost=[0, 1], nimpf=[0, 1], ntypes=8),
}
FAMILY = {'C06': ['f_mem', 'f_high'], 'C07': ['f_grow'], 'C08': ['f_bulk', 'f_span', 'f_wide', 'f_many'], 'C09': ['f_table', 'f_tabspan', 'f_ci', 'f_sig', 'f_wide', 'f_many'], 'C10': ['f_cond', 'f_leave', 'f_switch', 'f_loops', 'f_wide', 'f_many'],
          'C11': ['f_calls', 'f_ci', 'f_sig', 'f_leave', 'f_wide', 'f_many'], 'C12': ['f_glob', 'f_twin', 'f_wide', 'f_many'], 'C13': ['f_link', 'f_sig', 'f_names', 'f_wide'], 'C14': ['f_inst', 'f_many'], 'C15': ['f_iso', 'f_caller', 'f_twin'], 'C16': ['f_trap', 'f_ci'],
          'C17': ['f_host', 'f_caller', 'f_sig', 'f_wide'], 'C18': ['f_api', 'f_names', 'f_wide']}
DEPTH = {'C07': 1, 'C08': 1, 'C09': 1, 'C12': 1, 'C17': 1}      # beyond the base depth, at the quick tier
RANDOM = {'C06': 900, 'C10': 1500, 'C11': 1100, 'C16': 1100, 'C17': 900, 'C18': 1000}


def plain(x):
    """What the embedder passes as f32 is a Python float, which no signalling NaN
    survives on the way in: make the ones a scenario passes quiet."""
    if isinstance(x, list):
        for y in x:
            plain(y)
    elif isinstance(x, dict):
        v = x.get('v')
        if x.get('t') == 'f32' and isinstance(v, list) and len(v) == 4 and (v[3] & 127, v[2] & 128) == (127, 128) and (v[0] or v[1] or v[2] & 127):
            x['v'] = v[:2] + [v[2] | 64, v[3]]
        for y in x.values():
            plain(y)


def judge(ctx, scs, tag='exec', groups=None):
    """Run scenarios and have TLC validate the recorded logs; groups are lists of
    scenarios whose runtimes take turns in one process, otherwise each runs alone."""
    for sc in scs or [sc for g, _ in groups for sc in g]:
        plain(sc['script'])
        plain(sc['hosts'])
    if groups is None:
        logs = ctx.drive('drv_exec.py', scs)
    else:
        scs = [sc for g, _ in groups for sc in g]
        got = ctx.drive('drv_exec.py', [dict(together=g, share=share, seed=ctx.rng.getrandbits(32)) for g, share in groups])
        logs = [x for (g, _), o in zip(groups, got) for x in ([{'log': l} for l in o['logs']] if 'logs' in o else [o] * len(g))]
    recs = []
    for sc, l in zip(scs, logs):
        log = l.get('log') if 'log' in l else [{'e': 'died', 'x': l['died'][-200:]}]
        recs.append(dict(mode='trace', mods=sc['mods'], hosts=sc['hosts'], script=sc['script'], log=log))
    res = ctx.tlc('ExecTrace', env={'TRACE': ctx.ndjson(recs, tag + '.ndjson')})
    bad = []
    for p in res.prints('REJECT'):
        i, pos, why = p.split(' ', 2)
        sc, rec = scs[int(i) - 1], recs[int(i) - 1]
        got = rec['log'][int(pos) - 1] if int(pos) <= len(rec['log']) else 'end of log'
        bad.append((sc, rec, int(pos), '%s; observed %s' % (why[:300], json.dumps(got)[:200])))
    ctx.traces += len(recs)
    ctx.evaluations += sum(len(r['log']) for r in recs)
    ctx.cov['undetermined'] = ctx.cov.get('undetermined', 0) + len(res.prints('UNDETERMINED'))
    ctx.cov['toolong'] = ctx.cov.get('toolong', 0) + len(res.prints('TOOLONG'))
    return bad


def report(ctx, kind, bad):
    for sc, rec, pos, why in bad[:20]:
        ctx.violation('%s/%d' % (kind, pos), '%s scenario, event %d: %s' % (kind, pos, why), rec)


def batches(scs, n):
    for i in range(0, len(scs), n):
        yield scs[i:i + n]


def recode(r, scs, p=0.4):
    """Have a share of the scenarios load their modules from other encodings of
    the same binary format (padded integers, other segment forms, custom sections)."""
    for s in scs:
        if r.random() < p:
            s['enc'] = r.randrange(1, 1 << 30)
    return scs


def run(ctx):
    pid = ctx.pid
    r = ctx.rng
    if pid in systems.SYSTEMS:
        deep = DEPTH.get(pid, 0) + (0 if ctx.quick else 1)
        hist = systems.histories(ctx, systems.SYSTEMS[pid](deep))
        r.shuffle(hist)
        recode(r, hist)
        cap = 4000 if ctx.quick else 30000
        ctx.cov['histories_replayed'] = min(cap, len(hist))
        for b in batches(hist[:cap], 4000):
            report(ctx, 'history', judge(ctx, b))
            if ctx.violations:
                return
    scs = []
    for f in FAMILY[pid]:
        got = getattr(families, f)(random.Random('%s%s' % (f, ctx.seed)), 12 if ctx.quick else None)
        ctx.cov[f] = len(got)
        scs += [('directed ' + f, s) for s in got]
    n = RANDOM.get(pid, 700)
    prof = dict({'size': 8}, **PROFILE[pid])
    rand = lambda k, n: [('random', gen_exec.scenario('%s/%s/%s/%s' % (pid, ctx.seed, k, i), prof)) for i in range(n)]
    scs += rand(0, n)
    for k in range(1, 10000):
        recode(r, [s for _, s in scs])
        bad = judge(ctx, [s for _, s in scs])
        kinds = {id(s): t for t, s in scs}
        for b in bad:
            report(ctx, kinds[id(b[0])], [b])
        if k == 1:
            for t, s in scs[:2] + scs[-2:]:
                ctx.sample('%s: %d modules, script %s' % (t, len(s['mods']), json.dumps(s['script'])[:300]))
        ctx.cov['random'] = ctx.cov.get('random', 0) + sum(t == 'random' for t, _ in scs)
        if bad or ctx.quick or ctx.left() < 200:
            break
        scs = rand(k, 2500)
        for f in FAMILY[pid]:
            scs += [('directed ' + f, s) for s in getattr(families, f)(random.Random('%s%s%d' % (f, ctx.seed, k)), 12)]


# ------------------------------------------------------------------- C23
def apart(ctx):
    """C23: runtimes and WASI environments that take turns in one process, each of
    which must behave as if it were alone."""
    import eng_wasi
    r = ctx.rng
    fams = ['f_twin', 'f_iso', 'f_inst', 'f_glob', 'f_host', 'f_trap', 'f_link', 'f_grow', 'f_bulk', 'f_table', 'f_calls', 'f_caller', 'f_leave', 'f_names']
    profs = ['C15', 'C16', 'C17', 'C13', 'C14', 'C11', 'C09']
    for k in range(1, 10000):
        pool = []
        for f in fams:
            got = getattr(families, f)(random.Random('%s%s%d' % (f, ctx.seed, k)), 6)
            pool += r.sample(got, min(len(got), 6 if ctx.quick else 20))
        for p in profs:
            pool += [gen_exec.scenario('apart/%s/%s/%s/%d' % (p, ctx.seed, k, i), dict({'size': 8}, **PROFILE[p])) for i in range(14 if ctx.quick else 100)]
        r.shuffle(pool)
        recode(r, pool)
        def copy(sc, other=0.0):
            """The same, or with other values from the embedder."""
            sc = json.loads(json.dumps(sc))
            for o in sc['script']:
                if o['o'] in ('hglob', 'gset') and o['v']['k'] == 'c' and o['v']['t'] in gen_exec.NT and r.random() < other:
                    o['v']['v'] = [r.randrange(3)] + o['v']['v'][1:]
                elif o['o'] == 'mput' and r.random() < other:
                    o['b'] = [x ^ 0x11 for x in o['b']]
            return sc
        groups = []
        for i, sc in enumerate(pool):
            if i % 3 == 0 or i % 3 == 1 and any(o['o'] == 'hglob' for o in sc['script']):   # the same modules in two or three runtimes, which share what was parsed
                groups.append(([copy(sc, 0.5) for _ in range(r.choice([2, 2, 3]))], True))
            else:
                groups.append(([sc] + r.sample(pool, r.choice([1, 1, 2])), False))
        groups += [(families.f_conf(r), True) for _ in range(30 if ctx.quick else 200)]
        groups = [(g if share else [copy(sc) for sc in g], share) for g, share in groups]
        report(ctx, 'in turns', judge(ctx, None, groups=groups))
        ctx.cov['groups'] = ctx.cov.get('groups', 0) + len(groups)
        if ctx.violations:
            return
        m = eng_wasi.Make(ctx)
        hs = eng_wasi.crowd(m, random.Random('crowd%s%d' % (ctx.seed, k)), ctx.quick)
        eng_wasi.report(ctx, 'in turns', eng_wasi.judge(ctx, None, groups=hs))
        ctx.cov['environments'] = ctx.cov.get('environments', 0) + sum(map(len, hs))
        for g, share in groups[:2]:
            ctx.sample('%d runtimes%s, %d events each' % (len(g), ' of the same modules' if share else '', len(g[0]['script'])))
        if ctx.violations or ctx.quick or ctx.left() < 200:
            return
