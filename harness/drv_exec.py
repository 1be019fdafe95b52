"""Runs scenarios (modules + host programs + script) on the real runtime and
records the events an embedder can observe.
usage: drv_exec.py jobs.json out.ndjson"""
import io, json, math, os, random, struct, sys, tempfile
import common_drv as cd
import pywasm
from wasmenc import encode, VT

core = pywasm.core
sys.setrecursionlimit(3000)
KIND = {'func': 0, 'table': 1, 'mem': 2, 'global': 3}


def vt(t):
    return core.ValType(VT[t])


def to_py(t, v, raw=None):
    """Python value of an abstract value."""
    v = bytes(v)
    if t in ('i32', 'i64'):
        return int.from_bytes(v, 'little', signed=True)
    if t == 'f32':
        return struct.unpack('<f', v)[0]
    if t == 'f64':
        return struct.unpack('<d', v)[0]
    if t == 'v128':
        return bytearray(v)
    if v == b'\0':
        return None
    return int.from_bytes(v[1:5], 'little')


def from_py(t, x):
    """Abstract value of a Python value; [] marks one the API must not return."""
    try:
        if t in ('i32', 'i64'):
            n = 4 if t == 'i32' else 8
            if type(x) is not int:
                return []
            return list(x.to_bytes(n, 'little', signed=True))
        if t in ('f32', 'f64'):
            if type(x) is not float:
                return []
            c = '<f' if t == 'f32' else '<d'
            b = struct.pack(c, x)
            y = struct.unpack(c, b)[0]
            if y != x and not (math.isnan(x) and math.isnan(y)):
                return []
            return list(b)
        if t == 'v128':
            return list(x) if isinstance(x, (bytes, bytearray)) and len(x) == 16 else []
        if x is None:
            return [0]
        if type(x) is not int:
            return []
        return [1 if t == 'funcref' else 2] + list(x.to_bytes(4, 'little'))
    except (OverflowError, struct.error):
        return []


def val_inst(t, x):
    return core.ValInst.from_all(vt(t), x)


def fresh(x):
    return bytearray(x) if isinstance(x, bytearray) else x


def scribble(xs):
    """The caller's buffers are the caller's: writing into them later must not
    reach the runtime."""
    for x in xs:
        if isinstance(x, bytearray):
            for i in range(len(x)):
                x[i] ^= 0x5a


class Runner:
    def __init__(self, sc, descs=None):
        self.sc = sc
        self.log = []
        self.rt = core.Runtime()
        self.descs = {} if descs is None else descs
        self.meanwhile = lambda: None
        self.alone = True
        self.hnd = []
        self.ext = []
        self.caps = []
        self.nfuel = 0

    def ev(self, e, **k):
        if len(self.log) > 4000:
            raise cd.Hang()
        self.log.append(dict(e=e, **k))

    def blob(self, mi):
        s = self.sc.get('enc')
        return encode(self.sc['mods'][mi], random.Random(s * 31 + mi) if s else None)

    def desc(self, mi, src):
        if src == 'fresh' or mi not in self.descs:
            d = core.ModuleDesc.from_reader(io.BytesIO(self.blob(mi)))
            if src == 'fresh':
                return d
            self.descs[mi] = d
        return self.descs[mi]

    def resolve(self, r):
        if r['k'] == 'obj':
            return self.ext[r['i']] if r['i'] < len(self.ext) else None
        if r['k'] == 'exp':
            mi = self.hnd[r['i']] if r['i'] < len(self.hnd) else None
            if mi is None:
                return None
            xs = [e for e in mi.exps if e.name == r['n']]
            return xs[0].data if xs else None
        return None

    def pval(self, f, p):
        k = p['k']
        if k == 'c':
            if 'py' in p:
                return int(p['py'])
            return to_py(p['t'], p['v'])
        if k == 'a':
            return fresh(f['args'][p['x']])
        if k == 'r':
            return fresh(f['last'][p['x']])
        if k == 'cap':
            return None if not self.caps else self.caps[p['x']] if p['x'] < len(self.caps) else self.caps[-1]
        raise AssertionError(k)

    def note(self, ts, xs):
        self.caps += [x for t, x in zip(ts, xs) if t == 'funcref']

    def host(self, h, p, r):
        prog = self.sc['hosts'][h - 1]['prog']

        def f(machine, args):
            self.ev('host', h=h, v=[from_py(t, x) for t, x in zip(p, args)] if len(args) == len(p) else [[]])
            self.note(p, args)
            self.meanwhile()
            try:
                return self.run(prog, list(args), machine)
            finally:
                scribble(args)
        return f

    def inst(self, o):
        mod = self.sc['mods'][o['mod']]
        try:
            if self.alone:
                self.rt.imports = {}
            else:
                self.rt.imports.clear()
            for imp, r in [(e, e['r']) for e in o['env']] if 'env' in o else zip(mod['imports'], o['imps']):
                x = self.resolve(r)
                if x is not None:
                    self.rt.imports.setdefault(imp['m'], {})[imp['n']] = x
            if not self.alone:
                self.meanwhile()
            if o.get('src') == 'file':
                fd, path = tempfile.mkstemp()
                try:
                    os.write(fd, self.blob(o['mod']))
                    os.close(fd)
                    mi = self.rt.instance_from_file(path)
                finally:
                    os.unlink(path)
            else:
                mi = self.rt.instance(self.desc(o['mod'], o.get('src', 'same')))
        except cd.Hang:
            raise
        except Exception as e:
            self.ev('inst', ok=0, x=repr(e)[:40])
            self.hnd.append(None)
            return
        self.ev('inst', ok=1)
        self.hnd.append(mi)

    def call(self, o, f):
        on = o['on']
        mi = self.hnd[on['i']] if on['i'] < len(self.hnd) else None
        try:
            args = [self.pval(f, p) for p in o['a']]
            keep = list(args)
            rets = self.rt.invocate(mi, on['n'], args)
        except cd.Hang:
            raise
        except Exception as e:
            self.ev('trap', x=repr(e)[:40])
            if not o['catch']:
                raise
            return
        am = 0 if len(keep) == len(args) and all(a is b for a, b in zip(keep, args)) else 1
        ts = o['rt']
        ok = isinstance(rets, list) and len(rets) == len(ts)
        self.ev('ret', v=[from_py(t, x) for t, x in zip(ts, rets)] if ok else [[]] * (len(ts) + 1), am=am)
        if ok:
            f['last'] = [bytearray(x) if isinstance(x, bytearray) else x for x in rets]
            self.note(ts, rets)
            scribble(rets)
        scribble(keep)

    def obj(self, o, kind, f):
        on = o['on']
        if on['k'] == 'caller':         # as WASI calls find the memory they serve
            m = f['machine']
            return m.store.mems[m.stack.frame[-1].module.mems[0]]
        if on['k'] == 'exp':
            mi = self.hnd[on['i']] if on['i'] < len(self.hnd) else None
            return (self.rt.exported_memory if kind == 'mem' else self.rt.exported_global)(mi, on['n'])
        x = self.resolve(on)
        st = self.rt.machine.store
        assert x.kind == KIND[kind]
        return (st.mems if kind == 'mem' else st.glob)[x.data]

    def look(self, o, f):
        k = o['o']
        try:
            if k == 'mem':
                m = self.obj(o, 'mem', f)
                data = bytes(m.data)
                pg = len(data) // 65536 if len(data) == m.size * 65536 else -1
                z = bytes(64)
                ch = []
                if any(data):
                    for pgi in range(0, len(data), 4096):
                        if data.count(0, pgi, pgi + 4096) == len(data[pgi:pgi + 4096]):
                            continue
                        for a in range(pgi, min(pgi + 4096, len(data)), 64):
                            if data[a:a + 64] != z:
                                ch.append([a // 64, list(data[a:a + 64].ljust(64, b'\0'))])
                return self.ev('mem', pg=pg, ch=ch)
            if k == 'glob':
                g = self.obj(o, 'global', f)
                t = o['t']
                ok = g.data.type == vt(t)
                return self.ev('glob', v=[from_py(t, g.data.into_all()) if ok else []], mut=g.mut)
            if k == 'gset':
                g = self.obj(o, 'global', f)
                x = val_inst(o['t'], self.pval(f, o['v']))
                g.data = x
                return self.ev('ok')
            if k == 'mput':
                m = self.obj(o, 'mem', f)
                a = o['at']
                b = bytes(o['b'])
                w = o.get('w', '')
                if w:
                    n = int.from_bytes(b, 'little', signed=w[0] == 'i')
                    getattr(m, 'put_' + w)(a, n)
                else:
                    m.put(a, bytearray(b))
                return self.ev('ok')
            if k == 'mget':
                m = self.obj(o, 'mem', f)
                w = o.get('w', '')
                if w:
                    n = getattr(m, 'get_' + w)(o['at'])
                    return self.ev('bytes', b=list(n.to_bytes(o['len'], 'little', signed=w[0] == 'i')))
                return self.ev('bytes', b=list(m.get(o['at'], o['len'])))
            if k == 'mgrow':
                self.obj(o, 'mem', f).grow(o['len'])
                return self.ev('ok')
        except cd.Hang:
            raise
        except Exception as e:
            return self.ev('err', x=repr(e)[:40])
        raise AssertionError(k)

    def run(self, prog, args, machine=None):
        g = self.steps(prog, args, machine)
        try:
            while True:
                next(g)
        except StopIteration as e:
            return e.value

    def steps(self, prog, args, machine=None):
        f = {'args': args, 'last': [], 'machine': machine}
        pc = 0
        while pc < len(prog):
            o = prog[pc]
            pc += 1
            k = o['o']
            lim = lambda o: core.Limits(o['min'], 0 if o['max'] == -1 else o['max'])
            if k == 'inst':
                self.inst(o)
            elif k == 'call':
                self.call(o, f)
            elif k == 'hfunc':
                ft = core.FuncType([vt(t) for t in o['p']], [vt(t) for t in o['r']])
                self.ext.append(self.rt.allocate_func_host(ft, self.host(o['h'], o['p'], o['r'])))
            elif k == 'hmem':
                self.ext.append(self.rt.allocate_memory(core.MemType(lim(o))))
            elif k == 'htab':
                self.ext.append(self.rt.allocate_table(core.TableType(vt(o['et']), lim(o))))
            elif k == 'hglob':
                self.ext.append(self.rt.allocate_global(
                    core.GlobalType(vt(o['vt']), o['mut']), val_inst(o['vt'], self.pval(f, o['v']))))
            elif k == 'skipz':
                x = self.pval(f, o['v'])
                if x is None or x == 0:
                    pc += o['len']
            elif k == 'hret':
                return [self.pval(f, p) for p in o['a']]
            elif k == 'raise':
                raise RuntimeError('host says no')
            else:
                self.look(o, f)
            yield
        return []


def together(job):
    """Several runtimes in turns, also one within a host call of another."""
    rnd = random.Random(job['seed'])
    descs = {}
    rs = [Runner(sc, descs if job['share'] else None) for sc in job['together']]
    gs = [r.steps(r.sc['script'], []) for r in rs]
    busy, over = set(), set()

    def step(i):
        if i in busy or i in over:
            return
        busy.add(i)
        try:
            next(gs[i])
        except StopIteration:
            over.add(i)
        finally:
            busy.discard(i)

    def meanwhile():
        if rnd.random() < 0.6:
            for _ in range(rnd.randrange(3)):
                step(rnd.randrange(len(rs)))
    for r in rs:
        r.meanwhile = meanwhile
        r.alone = False

    def turns():
        while len(over) < len(rs):
            i = rnd.randrange(len(rs))
            for _ in range(rnd.choice([1, 1, 2, 5])):
                step(i)
    try:
        cd.guard(40, turns)
    except cd.Hang:
        rs[0].log.append({'e': 'hang'})
    except Exception as e:
        rs[0].log.append({'e': 'driver', 'x': repr(e)[:200]})
    return [r.log for r in rs]


def main():
    jobs = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], 'w')
    for sc in jobs:
        if 'together' in sc:
            out.write(json.dumps({'logs': together(sc)}) + '\n')
            out.flush()
            continue
        r = Runner(sc)
        try:
            cd.guard(sc.get('limit', 20), r.run, sc['script'], [])
        except cd.Hang:
            r.log.append({'e': 'hang'})
        except Exception as e:
            r.log.append({'e': 'driver', 'x': repr(e)[:200]})
        out.write(json.dumps({'log': r.log}) + '\n')
        out.flush()
    out.close()


if __name__ == "__main__":
    main()
