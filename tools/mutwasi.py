"""Mutation testing of pywasm/wasi.py against the WASI histories: a mutant is
killed when TLC rejects one of its histories.
usage: mutwasi.py FUNCTION-REGEX [--n N] [--seed S] [--k HISTORIES]"""
import argparse, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.path.insert(0, os.path.join(ROOT, 'tools'))

ONE = '''
import sys, os, random
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
import fw, tlc
fw.NCPU = 1
import eng_wasi, functools
tlc.run = functools.partial(tlc.run, workers=1, heap='2g')
fn, k, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
ctx = fw.Ctx('C30', 'quick', 1)
try:
    hs = []
    for pid in ['C%%d' %% i for i in (30, 31, 32, 33, 34, 35, 36, 37, 38, 41)]:
        ctx.pid = pid
        m = eng_wasi.Make(ctx)
        m.n = len(hs) + 100000 * int(pid[1:])
        for f in eng_wasi.FAM.get(pid, []):
            r = random.Random(f.__name__ + seed)
            hs += f(m, r, False)
        if pid in eng_wasi.MIX:
            hs += [m.random('%%s/%%s/%%d' %% (seed, pid, i), pid, 14) for i in range(120)]
    if fn != '-':
        hit = [h for h in hs if any(c['f'] == fn for c in h.calls)]
        hs = hit if hit else hs
    random.Random(seed).shuffle(hs)
    hs = hs[:k]
    try:
        bad = eng_wasi.judge(ctx, hs)
    except fw.DomainError:
        bad = ['domain']
    print('KILLED' if bad else 'SURVIVED', len(hs), bad[0][5] if bad and bad[0] != 'domain' else '')
finally:
    import shutil
    shutil.rmtree(ctx.scratch, ignore_errors=True)
''' % os.path.join(ROOT, 'harness')


def main():
    import ast
    src = open(os.path.join(ROOT, 'tools', 'mutate.py')).read().replace('\nmain()\n', '\n')
    ns = {'__file__': os.path.join(ROOT, 'tools', 'mutate.py'), '__name__': 'mutate'}
    exec(src, ns)
    ap = argparse.ArgumentParser()
    ap.add_argument('rx')
    ap.add_argument('--n', type=int, default=100)
    ap.add_argument('--seed', default='1')
    ap.add_argument('--k', type=int, default=350)
    ap.add_argument('--jobs', type=int, default=7)
    a = ap.parse_args()
    text = open('/repo/pywasm/wasi.py').read()
    ms = ns['mutants'](text, a.rx, 1, 999999)
    random.Random(a.seed).shuffle(ms)
    print(len(ms), 'mutants; testing', min(a.n, len(ms)), flush=True)
    ms = ms[:a.n]
    spans = [(n.lineno, n.end_lineno, n.name) for c in ast.parse(text).body if isinstance(c, ast.ClassDef) for n in c.body if isinstance(n, ast.FunctionDef)]
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    d = tempfile.mkdtemp(prefix='mutw-')
    os.chmod(d, 0o755)
    open(d + '/one.py', 'w').write(ONE)

    def one(k):
        w = os.path.join(d, 'm%d' % k)
        shutil.copytree('/repo/pywasm', w + '/pywasm', ignore=shutil.ignore_patterns('__pycache__'))
        open(w + '/pywasm/wasi.py', 'wb').write(ms[k][3])
        fn = next((n for lo, hi, n in spans if lo <= ms[k][0] <= hi), '-')
        if not fn.startswith(('fd_', 'path_', 'args_', 'environ_', 'clock_', 'poll_', 'random_', 'sched_', 'proc_', 'sock_')):
            fn = '-'
        try:
            p = subprocess.run(['/usr/bin/python3', d + '/one.py', fn, str(a.k), a.seed], env=dict(os.environ, PYWASM_REPO=w, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, timeout=500)
            o = p.stdout.decode()
            return 'SURVIVED' if 'SURVIVED' in o else 'KILLED' if 'KILLED' in o else 'ERROR ' + p.stderr.decode()[-200:]
        except subprocess.TimeoutExpired:
            return 'TIMEOUT'
        finally:
            shutil.rmtree(w, ignore_errors=True)
    n = 0
    try:
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            for k, res in enumerate(ex.map(one, range(len(ms)))):
                if res != 'KILLED':
                    n += 1
                    print(res, 'line', ms[k][0], ms[k][1], '|', ms[k][2].replace('\n', ' '), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    print('survivors', n, 'of', len(ms))


main()
