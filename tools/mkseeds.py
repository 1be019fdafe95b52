"""Regenerates /verif/seeded from seeds_*.py (edits of the original lines plus
a demonstration each) and verifies them:
  mkseeds.py make            write every seeded/<id>/
  mkseeds.py verify ID...    apply to /repo, build, stable tests, demo both ways, the property's check
No check reads any of this."""
import glob, json, os, shutil, subprocess, sys, importlib.util, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = os.path.join(ROOT, 'tools')
SEEDED = os.path.join(ROOT, 'seeded')
BASE = '6e51034'


def seeds():
    out = {}
    for p in sorted(glob.glob(TOOLS + '/seeds_*.py')):
        sp = importlib.util.spec_from_file_location('m', p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for x in m.SEEDS:
            assert x['id'] not in out
            out[x['id']] = x
    return out


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix='seedrepo-')
    sh('cp', '-a', '/repo/.', d)
    sh('git', '-C', d, 'checkout', '--', '.')
    return d


def make(s, repo):
    d = os.path.join(SEEDED, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for f, old, new in s['edits']:
            p = repo + '/' + f
            t = open(p).read()
            k = t.count(old)
            assert k == 1, '%s: %d matches of %r' % (s['id'], k, old)
            # the removed lines must come from the original repository
            first = t[:t.index(old)].count('\n') + 1
            last = first + old.rstrip('\n').count('\n')
            bl = sh('git', '-C', repo, 'blame', '-s', '-L', '%d,%d' % (first, last), 'HEAD', '--', f).stdout.splitlines() if t == open('/repo/' + f).read() else []
            src = t.splitlines()
            newl = set(new.splitlines())
            for i, l in enumerate(bl):
                if not l.startswith('^') and src[first - 1 + i] not in newl:
                    print('  WARNING', s['id'], 'touches own line:', l[:100])
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git', '-C', repo, 'diff').stdout
    finally:
        sh('git', '-C', repo, 'checkout', '--', '.')
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(TOOLS + '/seedlib/asm.py', d + '/asm.py')
    if s.get('wasi'):
        shutil.copy(TOOLS + '/seedlib/wasidemo.py', d + '/wasidemo.py')
    open(d + '/demo.py', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


def verify(i, s, tests=True):
    d = os.path.join(SEEDED, i)
    repo = copy()
    try:
        res = {'id': i, 'property': s['property']}
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])
        r = sh('bash', d + '/demo.sh', cwd=repo, env=env)
        res['demo_clean'] = r.returncode
        if r.returncode:
            res['clean_out'] = (r.stdout + r.stderr)[-300:]
        res['applies'] = sh('git', '-C', repo, 'apply', d + '/patch.diff').returncode == 0
        r = sh('bash', d + '/demo.sh', cwd=repo, env=env)
        res['demo_bug'] = r.returncode
        res['demo_out'] = (r.stdout + r.stderr)[-160:]
        if tests:
            f = repo + '/../' + os.path.basename(repo) + '.res'
            sh('python', '/opt/vp/drive.py', f, 'test/example.py', 'test/main.py', cwd=repo, env=env)
            sh('python', '/opt/vp/results.py', f + '.json', 'lines:' + f, cwd=repo, env=env)
            js = json.load(open(f + '.json'))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            passed = set(js.get('passed', js.get('pass', [])))
            res['tests_failed'] = [x for x in stable if x not in passed]
            os.unlink(f)
            os.unlink(f + '.json')
        t0 = time.time()
        r = sh('/usr/bin/python3', ROOT + '/harness/check.py', s['property'], cwd=ROOT, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', PYWASM_REPO=repo))
        res['check'] = (r.returncode, 'VIOLATION property=' + s['property'] in r.stdout, round(time.time() - t0, 1))
        res['first'] = r.stdout.strip().splitlines()[0][:150] if r.stdout.strip() else ''
        if r.returncode == 2:
            res['out'] = (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(repo, ignore_errors=True)
    res['ok'] = res['demo_clean'] == 0 and res['demo_bug'] != 0 and res['applies'] and not res.get('tests_failed') and res['check'][:2] == (1, True)
    return res


if __name__ == '__main__':
    S = seeds()
    ids = [a for a in sys.argv[2:] if not a.startswith('-')] or list(S)
    if sys.argv[1] == 'make':
        repo = copy()
        try:
            for i in ids:
                make(S[i], repo)
        finally:
            shutil.rmtree(repo, ignore_errors=True)
        print(len(S), 'seeds')
    else:
        for i in ids:
            r = verify(i, S[i], tests='--notests' not in sys.argv)
            print('OK ' if r['ok'] else 'BAD', json.dumps(r), flush=True)
