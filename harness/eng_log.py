"""C22: the same behaviours, judged by the same specifications, with diagnostics
switched on; and with them off nothing is printed."""
import contextlib, os, random
import eng_codec, eng_exec, eng_numeric, families, gen_exec, numops, wasmenc


@contextlib.contextmanager
def level(n):
    os.environ['PYWASM_LOG'] = str(n)
    try:
        yield
    finally:
        del os.environ['PYWASM_LOG']


def scenarios(ctx, k):
    r = random.Random('log/%s/%d' % (ctx.seed, k))
    out = []
    for f in sorted({f for fs in eng_exec.FAMILY.values() for f in fs}):
        got = getattr(families, f)(random.Random(r.random()), 3)
        out += [('directed ' + f, s) for s in (r.sample(got, 30) if len(got) > 30 else got)]
    n = 30 if ctx.quick else 150
    for pid in sorted(eng_exec.PROFILE):
        prof = dict({'size': 8}, **eng_exec.PROFILE[pid])
        out += [('random ' + pid, gen_exec.scenario('log/%s/%s/%s/%s' % (pid, ctx.seed, k, i), prof)) for i in range(n)]
    eng_exec.recode(r, [s for _, s in out])
    return out


def differ(ctx, n, f):
    """Violations found at level n that are none at level 0 (those belong to other properties)."""
    old, ctx.violations = ctx.violations, []
    with level(n):
        f()
    got = ctx.violations
    if got:
        ctx.violations = []
        f()
        same = {k for k, _, _ in ctx.violations}
        got = [v for v in got if v[0] not in same]
    ctx.violations = old + got


def execs(ctx, scs):
    return eng_exec.judge(ctx, scs)


def run(ctx):
    k = 0
    while True:
        scs = scenarios(ctx, k)
        kinds = {id(s): t for t, s in scs}
        scs = [s for _, s in scs]
        for i, n in enumerate((1, 2, 100)):             # every positive level is "on"
            with level(n):
                bad = execs(ctx, scs[i::3])
            plain = {id(b[0]) for b in execs(ctx, [b[0] for b in bad[:300]])} if bad else set()
            for b in bad:
                if id(b[0]) not in plain:
                    eng_exec.report(ctx, kinds[id(b[0])], [b])
        r = random.Random('lognum/%s/%d' % (ctx.seed, k))
        jobs = []
        for mn in numops.NUMERIC:
            cs = list(numops.cases(mn, random.Random(r.random()), 40))
            jobs += [[mn, a, m, int(r.random() < 0.5)] for a, m in r.sample(cs, min(len(cs), 4 if ctx.quick else 20))]
        differ(ctx, 1, lambda: eng_numeric.judge(ctx, jobs))
        mods = (eng_codec.catalog(r) if k == 0 else []) + eng_codec.scen_modules(r, 15, k == 0)
        cases = [('well-formed', wasmenc.encode(m, random.Random(r.random()), wasmenc.FORMS)) for m in mods]
        differ(ctx, 1, lambda: eng_codec.judge_bin(ctx, cases, True))
        bad = []
        for b in eng_codec.small_modules(r):
            bad += eng_codec.damage(r, b, True)
        bad = r.sample(bad, min(len(bad), 2500))
        differ(ctx, 1, lambda: eng_codec.judge_bin(ctx, bad))
        ctx.cov['scenarios'] = ctx.cov.get('scenarios', 0) + len(scs)
        if k == 0:
            for s in r.sample(scs, 4):
                ctx.sample('%s: %d modules, script %s' % (kinds[id(s)], len(s['mods']), str(s['script'])[:300]))
            # silence at level 0
            ctx.noise.clear()
            old, ctx.violations = ctx.violations, []
            execs(ctx, r.sample(scs, 250))
            eng_numeric.judge(ctx, r.sample(jobs, 300))
            eng_codec.judge_bin(ctx, cases[:60] + bad[:300])
            ctx.violations = old
            for x in ctx.noise[:3]:
                ctx.violation('noise', 'printed with diagnostics off: %r' % x[:200], {'printed': repr(x)})
        k += 1
        if ctx.quick or ctx.violations or ctx.left() < 200:
            break
