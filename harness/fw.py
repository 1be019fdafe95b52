"""Framework shared by all checks: scratch space, drivers, TLC, verdicts, evidence."""
import concurrent.futures as cf
import hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
import tlc

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, 'harness')
REPO = os.environ.get('PYWASM_REPO', '/repo')
PY = '/opt/venv/bin/python'
NCPU = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


class DomainError(MachineryError):
    """The implementation produced an observation outside the specification's domain."""


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        os.chmod(self.scratch, 0o755)
        self.states = self.transitions = self.traces = self.evaluations = 0
        self.samples = []
        self.cov = {}
        self.noise = []             # what the drivers printed
        self.violations = []        # (key, text, replay object)
        self.known = []
        self.assumptions = []
        self.rng = random.Random('%s/%s' % (pid, seed))
        self.findings = [f for f in known_findings() if f['property'] == pid]
        self.quick = tier != 'thorough'

    def left(self):
        """Seconds of this tier's budget still available."""
        return (float(os.environ.get('VERIF_BUDGET', 0)) or (600 if self.quick else 840)) - (time.time() - self.t0)

    # ---------------------------------------------------------------- drivers
    def drive(self, script, jobs, timeout=300, shards=None, lines=False, user=None):
        """Run driver `script` over the job list in parallel; returns the records
        in job order.  A driver that dies or hangs yields records for the jobs it
        completed; the caller sees the rest as {'k': 'died'}."""
        n = shards or max(1, min(NCPU, len(jobs)))
        d = tempfile.mkdtemp(dir=self.scratch)
        if user:
            os.chmod(d, 0o777)
        parts = [jobs[i::n] for i in range(n)]

        def one(i):
            src, dst = os.path.join(d, 'j%d.json' % i), os.path.join(d, 'o%d.ndjson' % i)
            recs = []
            todo = parts[i]
            deaths = 0
            while todo:
                json.dump(todo, open(src, 'w'))
                open(dst, 'w').close()
                if user:
                    os.chmod(dst, 0o666)
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYWASM_REPO=REPO,
                           PYTHONPATH=REPO + os.pathsep + HARNESS)
                p = subprocess.Popen([PY, os.path.join(HARNESS, script), src, dst], env=env, cwd=d,
                                     stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
                try:
                    said, err = p.communicate(timeout=timeout)
                    if said or (err and p.returncode == 0):
                        self.noise.append(said or err)
                    why = 'exit %s: %s' % (p.returncode, err.decode(errors='replace')[-300:])
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.communicate()
                    why = 'driver timeout'
                got = []
                for l in open(dst):
                    try:
                        got.append(json.loads(l))
                    except ValueError:
                        break
                recs += got[:len(todo)]
                todo = todo[len(got):]
                if todo:                        # the next job killed the driver
                    deaths += 1
                    if deaths > 3:
                        recs += [{'died': why}] * len(todo)
                        break
                    recs.append({'died': why})
                    todo = todo[1:]
            return recs
        with cf.ThreadPoolExecutor(n) as ex:
            outs = list(ex.map(one, range(n)))
        shutil.rmtree(d, ignore_errors=True)
        res = [None] * len(jobs)
        for i in range(n):
            for k, r in enumerate(outs[i]):
                res[i + k * n] = r
        return res

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, must=True, count=True, **kw):
        kw.setdefault('timeout', max(30, self.left()))
        r = tlc.run(module, cfg, env=env, scratch=self.scratch, **kw)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        if must and not r.ok:
            if env and 'TRACE' in env and r.rc != 124 and not any(x in r.out for x in ('OutOfMemory', 'StackOverflow', 'java.io')):
                raise DomainError('the observations in this batch are not even expressible in %s: %s' % (module, r.out[-700:]))
            raise MachineryError('TLC %s: rc=%s\n%s' % (module, r.rc, r.out[:1500] + " ... " + r.out[-1500:]))
        return r

    def model_check(self, module, cfg, **kw):
        """An exhaustive run over the specification alone."""
        r = self.tlc(module, cfg, **kw)
        self.cov.setdefault('models', []).append({'module': module, 'cfg': cfg, 'states': r.distinct,
                                                  'generated': r.generated, 'wall_s': round(r.wall, 1)})
        return r

    def ndjson(self, recs, name='trace.ndjson'):
        p = os.path.join(self.scratch, name)
        with open(p, 'w') as f:
            for x in recs:
                f.write(json.dumps(x, separators=(',', ':')) + '\n')
        return p

    # ---------------------------------------------------------------- verdict
    def violation(self, key, text, replay):
        for f in self.findings:
            if f['key'] == key:
                self.known.append((f['key'], f.get('what', text)))
                return
        self.violations.append((key, text, replay))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self, level='model_checking'):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.update({'states': self.states, 'transitions': self.transitions,
                    'traces_validated_against_impl': self.traces, 'evaluations': self.evaluations or self.traces,
                    'samples': self.samples[:12]})
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, w in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if not self.violations:
            print('OK property=%s tier=%s states=%d traces=%d wall=%.1fs' % (
                self.pid, self.tier, self.states, self.traces, wall))
            return 0
        out = os.path.join(ROOT, 'out')
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, 'replay-%s.json' % self.pid)
        with open(path, 'w') as f:
            json.dump([{'key': k, 'what': t, 'replay': r} for k, t, r in self.violations], f, indent=1)
        for k, t, _ in self.violations[:8]:
            print('  %s: %s' % (k, t[:400]))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        return 1
