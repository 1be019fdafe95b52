"""Runs the LEB128 codec and the binary decoder.
usage: drv_codec.py jobs.json out.ndjson
jobs: {op: desc, b, run} | {op: enc, sg, v} | {op: buf|str, sg, b} | {op: parse, b} | {op: sig, bs: [...]}"""
import hashlib, io, json, os, sys, tempfile
import common_drv as cd
import pywasm

sys.setrecursionlimit(20000)


def ibytes(n):
    return list(n.to_bytes((n.bit_length() // 8) + 1, 'little', signed=True))


class Stream(io.RawIOBase):
    """A stream that hands out what it has and cannot seek."""

    def __init__(self, b):
        self.b, self.at = bytes(b), 0

    def readable(self):
        return True

    def read(self, n=-1):
        r = self.b[self.at:] if n is None or n < 0 else self.b[self.at:self.at + n]
        self.at += len(r)
        return r


def leb(j):
    c = pywasm.leb128.i if j['sg'] else pywasm.leb128.u
    if j['op'] == 'enc':
        n = int.from_bytes(bytes(j['v']), 'little', signed=j['sg'])
        r = c.encode(n)
        return {'k': 'val', 'r': list(r)} if isinstance(r, (bytes, bytearray)) else {'k': 'bad'}
    if j['op'] == 'buf':
        src = bytearray(j['b'])
        n = c.decode(src)
        if type(n) is not int or list(src) != j['b']:
            return {'k': 'bad'}
        return {'k': 'val', 'r': ibytes(n), 'pos': n >= 0}
    s = Stream(j['b']) if j.get('raw') else io.BytesIO(bytes(j['b']))
    n, k = c.decode_reader(s)
    if type(n) is not int:
        return {'k': 'bad'}
    return {'k': 'val', 'r': ibytes(n), 'pos': n >= 0, 'n': k, 'at': s.at if j.get('raw') else s.tell()}


def shape(x, depth=0):
    """Structure of a decoded module, whatever its classes are called."""
    if depth > 400:
        return '...'
    if isinstance(x, (list, tuple)):
        return [shape(e, depth + 1) for e in x]
    if isinstance(x, (bytes, bytearray)):
        return ['bytes', x.hex()]
    if isinstance(x, dict):
        return sorted((repr(k), shape(v, depth + 1)) for k, v in x.items())
    if x is None or isinstance(x, (int, str, float, bool)):
        return repr(x)
    if hasattr(x, '__dict__'):
        return [type(x).__name__, shape(vars(x), depth + 1)]
    return type(x).__name__


def uleb(n):
    out = []
    while True:
        out.append(n & 127 | (128 if n > 127 else 0))
        n >>= 7
        if not n:
            return out


def name(s):
    s = list(s.encode())
    return uleb(len(s)) + s


def limits(x):
    return [1] + uleb(x.n) + uleb(x.m) if x.c else [0] + uleb(x.n)


def table(x):
    return [x.type.data] + limits(x.limits)


def glob(x):
    return [x.type.data, int(x.mut)]


def told(d):
    """What a description says its module declares, item by item, by section."""
    what = {0: uleb, 1: table, 2: lambda x: limits(x.limits), 3: glob}
    out = [[] for _ in range(11)]
    out[0] = [[0x60] + uleb(len(t.args)) + [v.data for v in t.args] + uleb(len(t.rets)) + [v.data for v in t.rets] for t in d.type]
    out[1] = [name(x.module) + name(x.name) + [x.kind] + what[x.kind](x.desc) for x in d.imps]
    out[2] = [uleb(f.type) for f in d.func]
    out[3] = [table(x) for x in d.tabl]
    out[4] = [limits(x.limits) for x in d.mems]
    out[5] = [glob(x.type) for x in d.glob]
    out[6] = [name(x.name) + [x.kind] + uleb(x.desc) for x in d.exps]
    out[7] = [uleb(d.star)] if d.star != -1 else []
    out[8] = [[x.type.data] + uleb(len(x.init)) for x in d.elem]
    out[10] = [list(x.init) for x in d.data]
    return out


def supply(rt, d):
    """Something of the declared type for every import."""
    for x in d.imps:
        if x.kind == 0:
            t = d.type[x.desc]
            zero = {0x7f: 0, 0x7e: 0, 0x7d: 0.0, 0x7c: 0.0, 0x7b: bytearray(16), 0x70: 0, 0x6f: 0}
            it = rt.allocate_func_host(t, lambda m, a, t=t: [zero[v.data] for v in t.rets])
        elif x.kind == 1:
            it = rt.allocate_table(x.desc)
        elif x.kind == 2:
            it = rt.allocate_memory(x.desc)
        else:
            it = rt.allocate_global(x.desc, pywasm.core.ValInst(x.desc.type, bytearray(16)))
        rt.imports.setdefault(x.module, {})[x.name] = it


def used(d):
    """Instantiate a description twice and call what it exports."""
    rt = pywasm.core.Runtime()
    supply(rt, d)
    for _ in range(2):
        try:
            m = rt.instance(d)
            for x in [e for e in d.exps if e.kind == 0][:6]:
                f = rt.machine.store.func[[e for e in m.exps if e.name == x.name][0].data.data]
                try:
                    rt.invocate(m, x.name, [{0x7d: 1.0, 0x7c: 1.0, 0x7b: bytearray(16)}.get(v.data, 1) for v in f.type.args])
                except Exception:
                    pass
        except Exception:
            pass


def run_case(j):
    if j['op'] == 'desc':
        try:
            d = cd.guard(5, pywasm.core.ModuleDesc.from_reader, Stream(j['b']) if j.get('raw') else io.BytesIO(bytes(j['b'])))
            out = {'d': told(d)}
        except Exception as e:
            return {'e': repr(e)[:80]}
        if j['run']:
            small = all(x.limits.n <= 64 for x in d.mems + d.tabl) and all(x.kind not in (1, 2) or x.desc.limits.n <= 64 for x in d.imps)
            try:
                if small:
                    cd.guard(2, used, d)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
            out['after'] = told(d)
        return out
    if j['op'] in ('enc', 'buf', 'str'):
        try:
            return cd.guard(5, leb, j)
        except cd.Hang:
            return {'k': 'hang'}
        except Exception as e:
            return {'k': 'err', 'e': repr(e)[:60]}
    if j['op'] == 'parse':
        try:
            cd.guard(5, pywasm.core.ModuleDesc.from_reader, io.BytesIO(bytes(j['b'])))
            return {'r': 'ok'}
        except cd.Hang:
            return {'r': 'hang'}
        except Exception as e:
            return {'r': 'err', 'e': repr(e)[:60]}
    out = []
    for b in j['bs']:
        try:
            out.append(hashlib.sha1(repr(shape(pywasm.core.ModuleDesc.from_reader(io.BytesIO(bytes(b))))).encode()).hexdigest())
        except Exception as e:
            out.append('error ' + repr(e)[:80])
    return {'sigs': out}


def main():
    jobs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], 'a') as f:
        for j in jobs:
            f.write(json.dumps(run_case(j)) + '\n')
            f.flush()


if __name__ == '__main__':
    main()
