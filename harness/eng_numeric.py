"""C01-C05: every numeric instruction against the exact TLA+ definitions."""
import os, random, re
from numops import NUMERIC, cases, group

QUICK = {'C01': 1500, 'C02': 1100, 'C03': 900, 'C04': 300, 'C05': 400}
SLOW = {'sqrt': 0.5, 'div': 0.7}


def run(ctx):
    ops = [m for m in NUMERIC if group(m) == ctx.pid]
    ctx.model_check('MC_Bits', 'MC_Bits.cfg')
    if ctx.pid in ('C02', 'C03', 'C05'):
        ctx.model_check('MC_Float', 'MC_Float.cfg')
    ctx.cov['instructions'] = len(ops)
    rounds = 1 if ctx.quick else 1000
    for rnd in range(rounds):
        if rnd and ctx.left() < 150:
            break
        jobs = []
        for mn in ops:
            r = random.Random('%s/%s/%s/%d' % (ctx.pid, mn, ctx.seed, rnd))
            n = int(QUICK[ctx.pid] * (1 if ctx.quick else 3) * SLOW.get(mn.split('.')[1], 1))
            for a, m in cases(mn, r, n):
                jobs.append([mn, a, m, 1 if r.random() < 0.12 else 0])
        random.Random(ctx.seed).shuffle(jobs)
        judge(ctx, jobs)
        if ctx.violations:
            break
        ctx.cov['rounds'] = rnd + 1


def judge(ctx, jobs):
    recs = ctx.drive('drv_numeric.py', jobs)
    lines = []
    for j, r in zip(jobs, recs):
        if 'died' in r:
            t, op = j[0].split('.', 1)
            r = {'t': t, 'op': op, 'a': j[1], 'm': j[2], 'r': {'k': 'died', 'e': r['died'][-80:]}}
        if r['r']['k'] not in ('val', 'trap'):
            ctx.violation('%s.%s' % (r['t'], r['op']), '%s.%s %s imm %s: %s' % (
                r['t'], r['op'], r['a'], r['m'], r['r']), r)
        else:
            lines.append(r)
    res = ctx.tlc('NumericTrace', env={'TRACE': ctx.ndjson(lines)})
    rej = res.prints('REJECT')
    for p in rej:
        i, want = p.split(' ', 1)
        r = lines[int(i) - 1]
        ctx.violation('%s.%s' % (r['t'], r['op']), '%s.%s operands %s imm %s gave %s, specification says %s' % (
            r['t'], r['op'], r['a'], r['m'], r['r'].get('v', 'trap'), want), r)
    ctx.traces += len(lines)
    ctx.evaluations += len(lines)
    for r in lines[:4]:
        ctx.sample('%s.%s %s -> %s' % (r['t'], r['op'], r['a'], r['r'].get('v', 'trap')))
