"""Runs TLC and returns its output; every TLC run of the framework goes here."""
import os, re, shutil, subprocess, tempfile, time

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out or (
            rc == 0 and 'Error:' not in out)

    def prints(self, tag):
        """Payloads of PrintT("<tag> ...") lines."""
        res = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag + ' '):
                res.append(line[len(tag) + 2:].rstrip('"').replace('\\"', '"'))
        return res


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap='6g', scratch=None, stack='64m'):
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss' + stack, '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-metadir', meta,
           '-workers', str(workers), '-nowarning', '-noTE', '-config', cfg or module + '.cfg', *extra, module + '.tla']
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode(errors='replace'), p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') + '\nTLC-TIMEOUT', 124
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t0)
