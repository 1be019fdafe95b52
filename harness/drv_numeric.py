"""Executes single instructions through real modules and records outcomes.
usage: drv_numeric.py jobs.json out.ndjson   (run with /repo on sys.path)"""
import io, json, signal, sys
import common_drv as cd
import pywasm
from wasmenc import encode
from numops import signature, TW


def build(mn, imm, const_args):
    t, op = mn.split('.', 1)
    p, res = signature(mn)
    ip = [{'f32': 'i32', 'f64': 'i64'}.get(x, x) for x in p]
    ir = {'f32': 'i32', 'f64': 'i64'}.get(res, res)
    code = []
    for k, x in enumerate(p):
        if const_args is None:
            code.append({'o': 'local.get', 'x': k})
            if x in ('f32', 'f64'):
                code.append({'o': 'num', 't': x, 'op': 'reinterpret_i' + x[1:], 'n': 1})
        else:
            code.append({'o': 'const', 't': x, 'v': const_args[k]})
    code.append({'o': 'num', 't': t, 'op': op, 'n': len(p), 'm': imm})
    if res in ('f32', 'f64'):
        code.append({'o': 'num', 't': ir, 'op': 'reinterpret_' + res, 'n': 1})
    if const_args is not None:
        ip = []
    return {'types': [{'p': ip, 'r': [ir]}], 'funcs': [{'t': 0, 'locals': [], 'blocks': [code]}],
            'exports': [{'n': 'f', 'k': 'func', 'i': 0}]}, ip, ir


def run_case(cache, mn, a, m, const):
    key = (mn, tuple(m))
    if const or key not in cache:
        mod, ip, ir = build(mn, m, a if const else None)
        try:
            rt = pywasm.core.Runtime()
            mi = rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(encode(mod))))
        except cd.Hang:
            raise
        except Exception as e:
            return {'k': 'load-failed', 'e': repr(e)[:80]}
        ent = (rt, mi, ip, ir)
        if not const:
            cache[key] = ent
    else:
        ent = cache[key]
    rt, mi, ip, ir = ent
    args = [cd.to_api(t, v) for t, v in zip(ip, a)] if not const else []
    return cd.invoke(rt, mi, 'f', args, [ir])


def main():
    jobs = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], 'w')
    cache = {}
    for mn, a, m, const in jobs:
        t, op = mn.split('.', 1)
        try:
            r = cd.guard(5, run_case, cache, mn, a, m, const)
        except cd.Hang:
            cache.clear()
            r = {'k': 'hang'}
        if r['k'] != 'val':
            cache.pop((mn, tuple(m)), None)     # a fresh runtime after a trap
        else:
            r = {'k': 'val', 'v': r['v'][0]}
        out.write(json.dumps({'t': t, 'op': op, 'a': a, 'm': m, 'r': r, 'c': int(const)}) + '\n')
    out.close()


if __name__ == "__main__":
    main()
