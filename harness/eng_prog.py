"""C39: whole WASI programs, run through the library and the command line.
Programs are trees of actions (see spec/Prog.tla), compiled to modules here."""
import os, random
import wasmenc
from families import B, LG, LS, CALL, BLOCK, LOOP, BRIF, BR, IF, i32, load, store, O, X

R_READ, R_WRITE = 2, 64
IOV, N, SZ, BUF, STR = 16, 32, 40, 131072, 4096


class Compile:
    def __init__(self, prog):
        self.b = b = B()
        self.subs = []
        imp = lambda n, p, r=('i32',): b.imp_func(p, list(r), m='wasi_snapshot_preview1', n=n)
        I, L = 'i32', 'i64'
        self.f = {'w': imp('fd_write', [I] * 4), 'r': imp('fd_read', [I] * 4), 'exit': imp('proc_exit', [I], ()), 'as': imp('args_sizes_get', [I, I]), 'ag': imp('args_get', [I, I]),
                  'es': imp('environ_sizes_get', [I, I]), 'eg': imp('environ_get', [I, I]), 'ps': imp('fd_prestat_get', [I, I]), 'pn': imp('fd_prestat_dir_name', [I, I, I]),
                  'open': imp('path_open', [I, I, I, I, I, L, L, I, I]), 'close': imp('fd_close', [I]), 'ren': imp('fd_renumber', [I, I])}
        self.back = b.imp_func([I], [], m='env', n='back') if uses(prog, 'back') else None
        self.spawn = b.imp_func([I], [], m='env', n='spawn') if uses(prog, 'spawn') else None
        self.at = STR
        self.t0 = b.ty([], [])
        self.bodies = []
        b.mem(4, 4, 'memory')
        b.table('funcref', 64, 64)
        ins = self.seq(prog)
        main = b.func([], [], ins, '_start', ['i32', 'i32'])
        b.elem([main], off=63)

    def done(self):
        return wasmenc.encode(self.b.done())

    def const(self, bs):
        a = self.at
        self.at += len(bs) + 3
        assert self.at < BUF
        if bs:
            self.b.data(bs, off=a)
        return a

    def write(self, fd, ptr, n):
        """ptr, n: instruction lists"""
        return [i32(IOV)] + ptr + [store('i32.store'), i32(IOV + 4)] + n + [store('i32.store'), i32(fd), i32(IOV), i32(1), i32(N), CALL(self.f['w']), O('drop')]

    def fn(self, prog):
        """A function of its own; its index and the number the host knows it by."""
        k = len(self.bodies)
        self.bodies.append(None)
        ins = self.seq(prog)
        f = self.b.func([], [], ins, 'f%d' % k, ['i32', 'i32'])
        self.b.elem([f], off=k)
        return f, k

    def seq(self, prog):
        out = []
        for i in prog:
            out += self.one(i)
        return out

    def one(self, i):
        o = i['o']
        call = lambda n, *a: list(a) + [CALL(self.f[n]), O('drop')]
        if o == 'w':
            return self.write(i['fd'], [i32(self.const(i['b']))], [i32(len(i['b']))])
        if o == 'r':
            return [i32(IOV), i32(BUF), store('i32.store'), i32(IOV + 4), i32(i['n']), store('i32.store')] + call('r', i32(0), i32(IOV), i32(1), i32(N)) \
                + self.write(1, [i32(BUF)], [i32(N), load('i32.load')])
        if o == 'exit':
            n = int.from_bytes(bytes(i['b']), 'little')
            return [i32(n), CALL(self.f['exit'])] + ([O('unreachable')] if i.get('u') else [])
        if o == 'trap':
            return {'u': [O('unreachable')], 'd': [i32(1), i32(0), O('i32.div_s'), O('drop')], 'm': [i32(-4), load('i32.load'), O('drop')], 'i': [i32(60), {'o': 'call_indirect', 'ty': self.t0, 'x': 0}]}[i['w']]
        if o == 'call':
            return [CALL(self.fn(i['is'])[0])]
        if o == 'ind':
            return [i32(self.fn(i['is'])[1]), {'o': 'call_indirect', 'ty': self.t0, 'x': 0}]
        if o == 'back':
            return [i32(self.fn(i['is'])[1]), CALL(self.back)]
        if o == 'shut':
            return call('close', i32(i['to']))
        if o == 'spawn':
            self.subs.append(i['run'])
            return [i32(len(self.subs) - 1), CALL(self.spawn)]
        if o == 'blk':
            if i['w'] == 'if':
                return [i32(1), IF(self.seq(i['is']), [O('unreachable')])]
            if i['w'] == 'br':
                return [BLOCK(self.seq(i['is']) + [BR(0), O('unreachable')])]
            return [BLOCK([i32(7)] + self.seq(i['is']) + [O('drop')])]
        if o == 'loop':
            c = i['c']
            return [i32(i['n']), LS(c), LOOP(self.seq(i['is']) + [LG(c), i32(1), O('i32.sub'), {'o': 'local.tee', 'x': c}, BRIF(0)])]
        if o == 'args':
            return call('as', i32(SZ), i32(SZ + 4)) + call('ag', i32(BUF), i32(BUF + 8192)) + self.write(1, [i32(BUF), load('i32.load')], [i32(SZ + 4), load('i32.load')])
        if o == 'env':
            return call('es', i32(SZ), i32(SZ + 4)) + call('eg', i32(BUF), i32(BUF + 8192)) + self.write(1, [i32(BUF + 8192)], [i32(SZ + 4), load('i32.load')])
        if o == 'argc':
            return call('as', i32(SZ), i32(SZ + 4)) + [i32(48), i32(SZ), load('i32.load'), store('i32.store8')] + call('es', i32(SZ), i32(SZ + 4)) \
                + [i32(49), i32(SZ), load('i32.load'), store('i32.store8')] + self.write(1, [i32(48)], [i32(2)])
        if o == 'pre':
            return call('ps', i32(i['fd']), i32(SZ)) + call('pn', i32(i['fd']), i32(BUF), i32(SZ + 4), load('i32.load')) + self.write(1, [i32(BUF)], [i32(SZ + 4), load('i32.load')])
        c64 = lambda n: {'o': 'const', 't': 'i64', 'v': list(n.to_bytes(8, 'little'))}
        if o in ('cat', 'put', 'redir'):
            p = self.const(i['f'])
            op = [i32(i['fd']), i32(1), i32(p), i32(len(i['f'])), i32(0 if o == 'cat' else 9), c64(R_READ if o == 'cat' else R_WRITE), c64(0), i32(0), i32(SZ), CALL(self.f['open'])]
            if o == 'redir':
                return op + [O('drop')] + call('ren', i32(SZ), load('i32.load'), i32(i['to']))
            if o == 'put':
                ptr = self.const(i['b'])
                return op + [O('drop'), i32(IOV), i32(ptr), store('i32.store'), i32(IOV + 4), i32(len(i['b'])), store('i32.store')] \
                    + [i32(SZ), load('i32.load'), i32(IOV), i32(1), i32(N), CALL(self.f['w']), O('drop'), i32(SZ), load('i32.load'), CALL(self.f['close']), O('drop')]
            q = self.const([63])
            return op + [IF(self.write(1, [i32(q)], [i32(1)]),
                            [i32(IOV), i32(BUF), store('i32.store'), i32(IOV + 4), i32(4096), store('i32.store'), i32(SZ), load('i32.load'), i32(IOV), i32(1), i32(N), CALL(self.f['r']), O('drop')]
                            + self.write(1, [i32(BUF)], [i32(N), load('i32.load')]) + [i32(SZ), load('i32.load'), CALL(self.f['close']), O('drop')])]
        raise ValueError(o)


def uses(prog, o):
    return any(i['o'] == o or i['o'] != 'spawn' and uses(i.get('is', []), o) for i in prog)


def plain(prog):
    """Without what only the driver needs."""
    return [dict({k: v for k, v in i.items() if k != 'run'}, **({'is': plain(i['is'])} if 'is' in i else {})) for i in prog]


def w(fd, b):
    return dict(o='w', fd=fd, b=list(b if isinstance(b, bytes) else b.encode()))


def ex(n, u=0):
    return dict(o='exit', b=list((n % (1 << 32)).to_bytes(4, 'little')), u=u)


def rnd(r, depth, nd, names, lib, loops=0, sub=None):
    """A random program; sub makes one that the embedder runs meanwhile."""
    out = []
    for _ in range(r.randrange(1, 5)):
        x = r.random()
        if x < 0.34:
            out.append(w(r.choice([1, 1, 2]), r.choice([b'', b'\n', b'\0', r.randbytes(r.randrange(1, 9)), 'é\n'.encode(), b'line\n', b'\r\n', b'x' * 300])))
        elif x < 0.44:
            out.append(dict(o='r', n=r.choice([0, 1, 3, 10, 100])))
        elif x < 0.50:
            out.append(dict(o=r.choice(['args', 'env', 'argc'])))
        elif x < 0.56 and nd:
            out.append(dict(o='pre', fd=3 + r.randrange(nd)))
        elif x < 0.62 and nd:
            out.append(dict(o='cat', fd=3 + r.randrange(nd), f=list(r.choice(names))))
        elif x < 0.68 and nd:
            out.append(dict(o='put', fd=3 + r.randrange(nd), f=list(r.choice(names)), b=list(r.randbytes(r.randrange(6)))))
        elif x < 0.69 and nd:
            out.append(dict(o='redir', fd=3 + r.randrange(nd), f=list(r.choice(names)), to=r.choice([1, 2])))
        elif x < 0.695:
            out.append(dict(o='shut', to=r.choice([1, 2])))
        elif x < 0.73 and sub and loops < 2:
            out.append(sub())
        elif x < 0.90 and depth:
            k = r.choice(['call', 'ind', 'blk', 'blk', 'loop', 'back'])
            if k == 'back' and not lib:
                k = 'call'
            if k == 'loop':
                if loops >= 2:
                    continue
                out.append(dict(o='loop', n=r.randrange(1, 4), c=loops, **{'is': rnd(r, depth - 1, nd, names, lib, loops + 1, sub)}))
            else:
                out.append(dict(o=k, w=r.choice(['if', 'br', 'val']), **{'is': rnd(r, depth - 1, nd, names, lib, loops if k == 'blk' else 0, sub)}))
        elif x < 0.95:
            out.append(ex(r.choice(CODES), r.randrange(2)))
        elif x < 0.97:
            out.append(dict(o='trap', w=r.choice('udmi')))
    return out


CODES = [0, 0, 1, 2, 3, 42, 100, 125, 126, 127, 128, 200, 254, 255, 256, 257, 511, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 2, (1 << 32) - 256]
STRS = ['', 'a', 'hello world', '-x', '--wasi-args', '=', 'a=b', 'é', '日本', '\U0001f600', ' lead', 'trail ', '"q"', "it's", '$HOME', '*', 'a\tb', 'new\nline', '\\', '-', '--', 'x' * 500, '%s', '{}', ':', 'a:b', '\udcff', 'a\udcc3=\udc80']
KEYS = ['A', 'B', 'PATH', 'K', 'a', 'Z_9', 'é', 'HOME', 'LONG']
FILES = [b'f', b'g', 'é'.encode(), b'data.bin', b'-']
GUESTS = ['.', '/', 'd', '/data', 'a/b', 'é', 'x y', '/d', ' d', 'd ', 'D', 'a=b']


class Session:
    def __init__(self, base, r, how):
        self.r, self.how, self.lib = r, how, how.startswith('lib')
        self.host = [r.choice(['h%d', 'h%d:x', 'h %d', '%d=', 'é%d', ':%d:', ' %d', '%d ']) % i for i in range(r.choice([0, 1, 1, 2, 3]))]
        self.files = [(d, n, r.randbytes(r.randrange(1, 20))) for d in self.host for n in FILES if r.random() < 0.4]
        self.job = dict(base=base, how=how, dirs=self.host, files=[[d, n.hex(), b.hex()] for d, n, b in self.files], runs=[])
        self.runs = []

    def add(self, *a, **k):
        run, conf, prog = self.make(*a, **k)
        self.job['runs'].append(run)
        self.runs.append(dict(is_=prog, conf=conf))
        return self

    def sub(self, *a, depth=1, here=None, **k):
        """A program the embedder runs, from beginning to end, when this action is reached."""
        run, conf, prog = self.make(*a, depth=depth, **k)
        run['here'] = self.r.random() < 0.6 if here is None else here
        return {'o': 'spawn', 'run': run, 'conf': conf, 'is': prog}

    def make(self, prog=None, args=None, envs=None, guests=None, inp=None, depth=0):
        r = self.r
        if guests is None:
            guests = {}
            for g in r.sample(GUESTS, r.randrange(len(GUESTS)) if r.random() < 0.2 else r.randrange(3)):
                if self.host:
                    guests[g] = r.choice(self.host)
        gs = sorted(guests.items())
        args = [r.choice(STRS) for _ in range(r.choice([0, 1, 2, 5]))] if args is None else args
        envs = {k: r.choice(STRS) for k in r.sample(KEYS, r.choice([0, 1, 3]))} if envs is None else envs
        inp = r.randbytes(r.choice([0, 4, 50])) if inp is None else inp
        prog = rnd(r, 3 - depth, len(gs), FILES, self.lib, 0, (lambda: self.sub(depth=depth + 1)) if self.lib and depth < 2 else None) if prog is None else prog
        h = lambda s: s.encode(errors='surrogateescape').hex()
        file = 'prog.wasm'
        full = [file] + args
        cli = [h('--wasi'), h('preview1')]
        mix = []
        for a in args:
            mix.append(['--wasi-args=' + a] if a[:1] == '-' or r.random() < 0.5 else ['--wasi-args', a])
        es, ds = [], []
        for k, v in envs.items():
            es.append(['--wasi-envs=%s=%s' % (k, v)] if r.random() < 0.5 else ['--wasi-envs', '%s=%s' % (k, v)])
        for g, d in guests.items():
            ds.append(['--wasi-dirs=%s:%s' % (g, d)] if r.random() < 0.5 else ['--wasi-dirs', '%s:%s' % (g, d)])
        groups = [mix, es, ds]
        r.shuffle(groups)
        cli += [h(x) for g in groups for o in g for x in o]
        cli.insert(r.choice([0, len(cli)]), h(file))
        b = lambda s: list(s.encode(errors='surrogateescape'))
        c = Compile(prog)
        run = dict(wasm=c.done().hex(), args=[h(a) for a in (full if self.lib else args)], envs=[[h(k), h(v)] for k, v in envs.items()],
                   dirs=[[h(g), d] for g, d in gs], **{'in': inp.hex()}, cli=cli, subs=c.subs, quit=self.lib and r.random() < 0.15, early=self.lib and r.random() < 0.4, moves=uses(prog, 'redir') or uses(prog, 'shut'))
        conf = dict(quit=run['quit'], args=[b(a) for a in full], envs=[[b(k), b(v)] for k, v in sorted(envs.items())], dirs=[dict(g=b(g), h=d) for g, d in gs],
                    files=[dict(d=d, n=list(n), b=list(x)) for d, n, x in self.files], **{'in': list(inp)})
        return run, conf, prog

    def seen(self, y):
        by = lambda s: list(bytes.fromhex(s))
        return dict(how='lib' if self.lib else 'cli', merged=self.how.endswith('both'), end=y['end'], code=y['code'], out=by(y.get('out', '')), err=by(y.get('err', '')),
                    files=y['files'], dead=y['dead'], std=y['std'], lost=y['lost'], left=y['left'], subs=[self.seen(z) for z in y.get('subs', [])])

    def trace(self, o):
        runs = []
        for k, x in enumerate(self.runs):
            if k >= len(o.get('runs', [])):
                if 'died' not in o:
                    raise RuntimeError('driver: ' + o.get('setup', '?'))
                y = {'end': 'died'}
            else:
                y = o['runs'][k]
            if y['end'] == 'died':
                y = dict(y, code=[], files=[], dead=[], std=[], lost=0, left=0)
            runs.append({'conf': x['conf'], 'is': plain(x['is_']), 'obs': self.seen(y)})
            if y['end'] in ('hang', 'died'):
                break
        return dict(runs=runs)


HOWS = ['lib-pipe', 'lib-host', 'lib-both', 'cli', 'cli-both']


def directed(mk, r):
    out = []
    ways = [lambda e: e, lambda e: [dict(o='call', **{'is': e})], lambda e: [dict(o='ind', **{'is': [w(2, 'in'), dict(o='call', **{'is': e}), w(1, 'never')]})],
            lambda e: [dict(o='loop', n=3, c=0, **{'is': [w(1, 'once'), dict(o='blk', w='val', **{'is': e})]})],
            lambda e: [dict(o='blk', w='if', **{'is': [dict(o='call', **{'is': [dict(o='blk', w='br', **{'is': e})]})]}), w(2, 'never')]]
    for how in HOWS:
        for i, c in enumerate(CODES if how in ('cli', 'lib-pipe') else CODES[::5]):
            s = mk(r, how)
            s.add([w(1, 'before'), w(2, 'err\n')] + ways[i % len(ways)]([ex(c, i % 2)]) + [w(1, 'after'), w(2, 'after')])
            out.append(s)
        for e in [[], [ex(7)], [dict(o='trap', w='u')], [dict(o='trap', w='d')]]:
            s = mk(r, how)
            s.add([w(1, b'a'), w(2, b'b'), w(1, b'c'), dict(o='r', n=3), w(2, b'd'), dict(o='r', n=9), dict(o='r', n=9)] + e, inp=b'01234567')
            s.add([w(1, b'second')] + e)
            s.add([w(1, b'third'), ex(3)])
            out.append(s)
        s = mk(r, how)
        s.add([dict(o='argc'), dict(o='args'), dict(o='env')], args=STRS, envs={k: v for k, v in zip(KEYS, STRS)})
        out.append(s)
        for a in STRS:
            if how in ('cli', 'lib-pipe'):
                s = mk(r, how)
                s.add([dict(o='args'), dict(o='env')], args=[a], envs={'K': a})
                out.append(s)
        for e in ([ex(5)], [dict(o='trap', w='m')], []):
            if how.startswith('lib'):
                s = mk(r, how)
                deep = [dict(o='back', **{'is': [w(1, '1'), dict(o='call', **{'is': [dict(o='back', **{'is': [w(2, '2')] + e + [w(1, '3')]})]}), w(1, '4')]}), w(1, '5')]
                for here in (True, False):
                    one = lambda: s.sub([w(1, 'inner'), dict(o='call', **{'is': [w(2, 'e'), dict(o='r', n=2)] + e}), w(1, 'end')], inp=b'xyz', here=here)
                    s.add([w(1, 'outer'), dict(o='blk', w='val', **{'is': [dict(o='loop', n=2, c=0, **{'is': [w(1, '+'), one(), w(1, '-')]})]}), dict(o='r', n=4), w(2, 'done'), ex(6)], inp=b'12345')
                    s.add([w(1, 'a'), dict(o='back', **{'is': [s.sub([s.sub([w(1, 'third')] + e, here=here), w(1, 'second')] + e, here=here), w(1, 'b')] + e}), w(1, 'c')])
                s.add(deep)
                s.add([w(1, 'next'), dict(o='call', **{'is': deep}), ex(9)])
                s.add([w(1, 'last')])
                out.append(s)
    for how in HOWS:                                         # more than any buffer on the way holds
        for fd in (1, 2):
            s = mk(r, how)
            s.add([w(fd, r.randbytes(50000)), w(3 - fd, b'other'), w(fd, r.randbytes(20000)), dict(o='r', n=100), ex(2)], args=[], envs={}, inp=b'i' * 90)
            out.append(s)
    for how in HOWS:
        for e in ([], [ex(4)], [dict(o='trap', w='u')]):
            for to in (1, 2):
                s = mk(r, how)
                if s.host:
                    g = {'d': s.host[0]}
                    f, f2 = list(FILES[0]), list(FILES[1])
                    s.add([w(1, 'a'), w(2, 'b'), dict(o='redir', fd=3, f=f, to=to), w(1, 'cc'), w(2, 'dd'), dict(o='put', fd=3, f=f, b=[9]), w(to, 'e')] + e, guests=g)
                    if s.lib:
                        s.add([w(1, 'x'), dict(o='redir', fd=3, f=f, to=1), dict(o='redir', fd=3, f=f2, to=1), dict(o='redir', fd=3, f=f, to=2), w(1, '1'), w(2, '2')] + e, guests=g)
                        s.add([w(to, 'x'), dict(o='shut', to=to), w(1, 'y'), w(2, 'z')] + e, guests=g)
                    out.append(s)
    return out


def judge(ctx, ss, tag='prog'):
    outs = ctx.drive('drv_prog.py', [s.job for s in ss])
    lines = [s.trace(o) for s, o in zip(ss, outs)]
    res = ctx.tlc('ProgTrace', env={'TRACE': ctx.ndjson(lines, tag + '.ndjson')})
    bad = []
    for p in res.prints('REJECT'):
        i, k, why = p.split(' ', 2)
        i, k = int(i) - 1, int(k) - 1
        bad.append((ss[i], k, outs[i]['runs'][k] if k < len(outs[i].get('runs', [])) else outs[i], why))
    ctx.traces += len(ss)
    ctx.evaluations += sum(len(l['runs']) for l in lines)
    for s in ss:
        ctx.cov[s.how] = ctx.cov.get(s.how, 0) + 1
    return bad


def maker(ctx):
    base = os.path.join(ctx.scratch, 'w')
    os.makedirs(base, exist_ok=True)
    os.chmod(base, 0o777)
    n = [0]

    def mk(r, how):
        n[0] += 1
        return Session('%s/s%d' % (base, n[0]), r, how)
    return mk


def report(ctx, bad):
    for s, j, o, why in bad[:12]:
        ctx.violation('%s/%s' % (s.how, why.split(':')[0]), '%s, program %d: %s (ended %s %s %s)' % (s.how, j + 1, why, o.get('end'), o.get('code'), str(o.get('e', ''))[-100:]),
                      dict(job=s.job, runs=s.runs, seen=o, at=j))


def apart(ctx):
    """C23: programs whose environments exist side by side."""
    mk, r = maker(ctx), random.Random('side%d' % ctx.seed)
    while True:
        ss = []
        for i in range(90):
            s = mk(r, HOWS[i % 3])
            s.host = s.host or ['h0']
            s.job['dirs'] = s.host
            for _ in range(3):
                g = {'d': s.host[0], 'e': s.host[-1]}
                prog = [dict(o='redir', fd=3, f=list(FILES[0]), to=r.choice([1, 2]))] if r.random() < 0.5 else []
                prog += rnd(r, 2, 2, FILES, True, 0, lambda: s.sub(depth=2)) + [dict(o='cat', fd=4, f=list(FILES[1]))]
                s.add(prog, guests=g, **({} if r.random() < 0.5 else {'args': [], 'envs': {}}))
            ss.append(s)
        report(ctx, judge(ctx, ss, 'side'))
        if ctx.violations or ctx.quick or ctx.left() < 300:
            break


def run(ctx):
    mk = maker(ctx)
    r = random.Random('prog%d' % ctx.seed)
    ss = directed(mk, r)
    k = 0
    while True:
        for i in range(240 if k else 600):
            s = mk(r, HOWS[i % 5] if i % 3 else r.choice(HOWS[:3]))
            for _ in range(r.choice([1, 1, 2, 3]) if s.lib else 1):
                s.add()
            ss.append(s)
        bad = judge(ctx, ss)
        report(ctx, bad)
        if k == 0:
            ctx.sample('directed: %s' % str(ss[3].runs[0]['is_'])[:300])
            ctx.sample('random: %s' % str(ss[-1].runs[0]['is_'])[:300])
        k += 1
        ss = []
        if bad or ctx.quick or ctx.left() < 200:
            break
