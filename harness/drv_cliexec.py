"""Runs an exported function through `python -m pywasm` and reports what was
printed as the events the machine specification knows.
job: mods, enc?, func (or null for the default), args (strings), rts"""
import json, math, os, subprocess, sys, tempfile
import common_drv as D
import wasmenc, random
from drv_exec import from_py


def run(job, d):
    f = os.path.join(d, 'm.wasm')
    mod = job['mods'][0] if job.get('mods') else None
    open(f, 'wb').write(bytes(job['raw']) if 'raw' in job else wasmenc.encode(mod, random.Random(job['enc'])) if job.get('enc') else wasmenc.encode(mod))
    cmd = [sys.executable, '-m', 'pywasm']
    opts = [] if job['func'] is None else [['--func', job['func']], ['--func=' + job['func']]][job['sep']]
    for a in job['args']:
        opts += ['--func-args=' + a]
    cmd += [f] + opts if job['first'] else opts + [f]
    env = {'PYTHONPATH': D.REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': os.environ.get('PATH', ''), 'PYTHONUTF8': '1'}
    try:
        p = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=30)
    except subprocess.TimeoutExpired:
        return [{'e': 'hang'}]
    log = [{'e': 'inst', 'ok': 1}]
    out = p.stdout.decode(errors='replace')
    if 'raw' in job:
        return {'r': 'ok' if p.returncode == 0 or out else 'err'}
    if job.get('inst'):                          # instantiation fails
        return [{'e': 'inst', 'ok': int(p.returncode == 0 or bool(out))}]
    if p.returncode != 0:
        if out:
            return log + [{'e': 'failed with output', 'x': out[:100]}]
        return log + [{'e': 'trap', 'x': p.stderr.decode(errors='replace')[-60:]}]
    try:
        if not out.endswith('\n') or out.count('\n') != 1:
            raise ValueError(out)
        v = eval(out, {'__builtins__': {}, 'nan': math.nan, 'inf': math.inf, 'bytearray': bytearray})
    except Exception as e:
        return log + [{'e': 'printed', 'x': out[:100]}]
    ts = job['rts']
    ok = isinstance(v, list) and len(v) == len(ts)
    if ok and any(type(x) is float and math.isnan(x) for x in v):
        return None
    return log + [{'e': 'ret', 'v': [from_py(t, x) for t, x in zip(ts, v)] if ok else [[]] * (len(ts) + 1), 'am': 0}]


def main():
    jobs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], 'w') as o, tempfile.TemporaryDirectory() as d:
        for j in jobs:
            x = run(j, d)
            o.write(json.dumps(x if isinstance(x, dict) else {'log': x}) + '\n')
            o.flush()


main()
