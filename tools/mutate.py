"""Mutation testing of the implementation against the scenario corpus.

A mutant is killed when some scenario's log differs from the unmutated code's
log (which the specification accepted).  Survivors are printed for review:
equivalent, or a gap in the generators.
usage: mutate.py FILE FUNCTION-REGEX [--n N] [--seed S] [--corpus exec|numeric|codec|wasi] [--lines a-b]"""
import ast, argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, 'harness')
sys.path.insert(0, H)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&',
       ast.FloorDiv: '*', ast.Mod: '//'}


def mutants(src, rx, lo, hi):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    pos = [0]
    for l in lines:
        pos.append(pos[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return pos[n.lineno - 1] + n.col_offset, pos[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, what):
        if not lo <= n.lineno <= hi:
            return
        a, b = span(n)
        if '\n' in raw[a:b].decode() and what != 'del':
            pass
        out.append((n.lineno, what, raw[a:b].decode()[:60], raw[:a] + new.encode() + raw[b:]))

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def visit(n, inside):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            q = inside + '.' + n.name if inside else n.name
            for c in n.body:
                visit(c, q)
            return
        if inside and re.search(rx, inside):
            one(n)
        for c in ast.iter_child_nodes(n):
            visit(c, inside)

    def one(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), 'bin')
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), 'const+1')
            if n.value > 1:
                add(n, str(n.value - 1), 'const-1')
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), 'bool')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert, ast.Raise)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and not 'log.' in seg(n)[:5]:
            add(n, 'pass', 'del')
        elif isinstance(n, ast.If) or isinstance(n, ast.While):
            add(n.test, 'not (%s)' % seg(n.test), 'neg')
        elif isinstance(n, ast.BoolOp):
            a, b = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            add(n, (' %s ' % b).join('(%s)' % seg(v) for v in n.values), 'bool-op')
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            add(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, seg(n.operand), 'not')
        if isinstance(n, ast.keyword) and isinstance(n.value, ast.Constant) and type(n.value.value) is bool:
            pass
        if isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'del')
    for n in tree.body:
        visit(n, '')
    ok = []
    for m in out:
        try:
            compile(m[3], 'x', 'exec')
            ok.append(m)
        except (SyntaxError, ValueError):
            pass
    return ok


WORKER = r'''
import sys, json, os
sys.dont_write_bytecode = True
mode, corpus, base = sys.argv[1:4]
sys.path.insert(0, %r)
import common_drv as cd
jobs = json.load(open(corpus))
want = json.load(open(base)) if mode == 'diff' else None
got = []
if os.environ['CORPUS'] in ('exec', 'codec'):
    import drv_exec as d
    def run(sc):
        r = d.Runner(sc)
        try:
            cd.guard(10, r.run, sc['script'], [])
        except cd.Hang:
            r.log.append({'e': 'hang'})
        except Exception as e:
            r.log.append({'e': 'driver'})
        for e in r.log: e.pop('x', None)
        return r.log
elif os.environ['CORPUS'] == 'wasi':
    import drv_wasi as d
    run = d.run_logged
else:
    import drv_numeric as d
    cache = {}
    def run(j):
        mn, a, m, c = j
        try:
            r = cd.guard(5, d.run_case, cache, mn, a, m, c)
        except cd.Hang:
            r = {'k': 'hang'}
        if r['k'] != 'val': cache.pop((mn, tuple(m)), None)
        r.pop('e', None)
        return r
for k, j in enumerate(jobs):
    g = json.loads(json.dumps(run(j)))
    if mode == 'diff':
        if g != want[k]:
            print('KILLED', k); sys.exit(0)
    else:
        got.append(g)
if mode == 'base':
    json.dump(got, open(base, 'w'))
else:
    print('SURVIVED')
''' % H


def corpus(kind, seed, scale):
    r = random.Random(seed)
    if kind == 'exec':
        import eng_exec, gen_exec, families, systems
        scs = []
        for pid in eng_exec.PROFILE:
            prof = dict({'size': 8}, **eng_exec.PROFILE[pid])
            scs += [gen_exec.scenario('mut%s/%s/%d' % (seed, pid, i), prof) for i in range(int(40 * scale))]
        for f in sorted({x for v in eng_exec.FAMILY.values() for x in v}):
            g = getattr(families, f)(random.Random(seed), 12)
            r.shuffle(g)
            scs += g[:int(25 * scale)]
        r.shuffle(scs)
        return scs
    if kind == 'numeric':
        from numops import NUMERIC, cases
        jobs = []
        for mn in NUMERIC:
            for a, m in cases(mn, random.Random('%s%s' % (seed, mn)), int(60 * scale)):
                jobs.append([mn, a, m, 0])
        r.shuffle(jobs)
        return jobs
    if kind == 'codec':
        import eng_codec
        return eng_codec.mutation_corpus(seed, scale)
    import eng_wasi
    return eng_wasi.mutation_corpus(seed, scale)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('rx')
    ap.add_argument('--n', type=int, default=200)
    ap.add_argument('--seed', default='1')
    ap.add_argument('--corpus', default='exec')
    ap.add_argument('--lines', default='1-999999')
    ap.add_argument('--scale', type=float, default=1)
    a = ap.parse_args()
    lo, hi = map(int, a.lines.split('-'))
    src = open('/repo/pywasm/' + a.file).read()
    ms = mutants(src, a.rx, lo, hi)
    random.Random(a.seed).shuffle(ms)
    print(len(ms), 'mutants; testing', min(a.n, len(ms)), flush=True)
    ms = ms[:a.n]
    d = tempfile.mkdtemp(prefix='mut-')
    os.chmod(d, 0o755)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', CORPUS=a.corpus, PYTHONPATH=H)
    try:
        cp, bp = os.path.join(d, 'c.json'), os.path.join(d, 'b.json')
        open(os.path.join(d, 'w.py'), 'w').write(WORKER)
        json.dump(corpus(a.corpus, a.seed, a.scale), open(cp, 'w'))
        subprocess.run([PY, d + '/w.py', 'base', cp, bp], env=dict(env, PYWASM_REPO='/repo'), check=True)
        print('baseline ready', flush=True)

        def one(k):
            w = os.path.join(d, 'm%d' % k)
            shutil.copytree('/repo/pywasm', w + '/pywasm', ignore=shutil.ignore_patterns('__pycache__'))
            open(w + '/pywasm/' + a.file, 'wb').write(ms[k][3])
            try:
                p = subprocess.run([PY, d + '/w.py', 'diff', cp, bp], env=dict(env, PYWASM_REPO=w), capture_output=True, timeout=600)
                o = p.stdout.decode()
                return 'SURVIVED' if 'SURVIVED' in o else 'KILLED'
            except subprocess.TimeoutExpired:
                return 'TIMEOUT'
            finally:
                shutil.rmtree(w, ignore_errors=True)
        n = 0
        with cf.ThreadPoolExecutor(8) as ex:
            for k, res in enumerate(ex.map(one, range(len(ms)))):
                if res != 'KILLED':
                    n += 1
                    print(res, a.file, 'line', ms[k][0], ms[k][1], '|', ms[k][2].replace('\n', ' '), flush=True)
        print('survivors', n, 'of', len(ms))
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
