"""Mutation testing of the implementation against the checks themselves: a mutant
is killed when one of the checks reports a violation.
usage: mutcheck.py FILE FUNCTION-REGEX CHECK,CHECK.. [--n N] [--seed S] [--lines a-b] [--jobs J]"""
import argparse, concurrent.futures as cf, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def load():
    src = open(os.path.join(ROOT, 'tools', 'mutate.py')).read().rsplit('\nmain()', 1)[0]
    g = {'__file__': os.path.join(ROOT, 'tools', 'mutate.py'), '__name__': 'mutate'}
    exec(compile(src, 'mutate.py', 'exec'), g)
    return g['mutants']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('rx')
    ap.add_argument('checks')
    ap.add_argument('--n', type=int, default=40)
    ap.add_argument('--seed', default='1')
    ap.add_argument('--lines', default='1-999999')
    ap.add_argument('--jobs', type=int, default=2)
    a = ap.parse_args()
    lo, hi = map(int, a.lines.split('-'))
    ms = load()(open('/repo/pywasm/' + a.file).read(), a.rx, lo, hi)
    random.Random(a.seed).shuffle(ms)
    ms = ms[:a.n]
    d = tempfile.mkdtemp(prefix='mutc-')
    os.chmod(d, 0o755)

    def one(k):
        w = os.path.join(d, 'm%d' % k)
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns('__pycache__', '.git', 'example', 'test'))
        open(w + '/pywasm/' + a.file, 'wb').write(ms[k][3])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYWASM_REPO=w, VERIF_SEED='1', VERIF_TIER='quick')
        try:
            for c in a.checks.split(','):
                try:
                    p = subprocess.run([sys.executable, os.path.join(ROOT, 'harness', 'check.py'), c], env=env, capture_output=True, timeout=900)
                except subprocess.TimeoutExpired:
                    return 'TIMEOUT ' + c
                if p.returncode == 1 and b'VIOLATION' in p.stdout:
                    return 'KILLED'
                if p.returncode:
                    return 'BROKEN %s %s' % (c, (p.stderr or p.stdout)[-200:])
            return 'SURVIVED'
        finally:
            shutil.rmtree(w, ignore_errors=True)
    n = 0
    with cf.ThreadPoolExecutor(a.jobs) as ex:
        for k, res in enumerate(ex.map(one, range(len(ms)))):
            if res != 'KILLED':
                n += 1
                print(res, a.file, 'line', ms[k][0], ms[k][1], '|', ms[k][2].replace('\n', ' '), flush=True)
    print('survivors', n, 'of', len(ms))
    shutil.rmtree(d, ignore_errors=True)


main()
