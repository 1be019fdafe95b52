"""Builds WASI histories: the calls to make on the real code, and what each
means to the specification Wasi.tla.  Nothing here predicts a result."""
import random

BIG = 10 ** 9
ALL_B = 0b00000111101111111111111000000000        # a preopened directory's own rights
ALL_I = 0b00001111111111111111111111111111        # and those it can pass on
ROOT_R = (ALL_B, ALL_I)
R = {n: 1 << i for i, n in enumerate(
    ['datasync', 'read', 'seek', 'setflags', 'sync', 'tell', 'write', 'advise', 'allocate', 'crdir', 'crfile', 'linksrc', 'linktgt', 'open',
     'readdir', 'readlink', 'rensrc', 'rentgt', 'pstat', 'psetsize', 'psettimes', 'fstat', 'fsetsize', 'fsettimes', 'symlink', 'rmdir', 'unlink', 'poll', 'shut', 'accept'])}
CREAT, DIRECTORY, EXCL, TRUNC = 1, 2, 4, 8
APPEND, DSYNC, NONBLOCK, RSYNC, SYNC = 1, 2, 4, 8, 16
DEFAULT = dict(fd=-1, fd2=-1, to=-1, out=-1, buf=-1, ptr=-1, len=0, off=0, wh=0, d=[], iov=[], lf=[], of=[], fl=[], rb=[], ri=[], ta=[], tm=[],
               hugetime=False, p=None, p2=None, t='', tc=[], tb=[], tbad=False, adv=0, id=0, sig=0, subs=[], evs=[], ck=[], lim=0, out2=-1, how=0, op='', peer=-1, late=[], by=0, hct=[])
NOPATH = {'c': [], 'bad': False, 'long': False}


def bits(n):
    return [i for i in range(64) if n >> i & 1]


def label(b):
    if all(33 <= c < 127 and c not in b'"\\' for c in b) and not b.startswith(b'hex:'):
        return b.decode()
    return 'hex:' + b.hex()


def le(n, w):
    return [(n >> (8 * i)) & 255 for i in range(w)]


def clip(n):
    return max(-BIG, min(BIG, n))


class Hist:
    def __init__(self, base, r, tree, dirs, args=(), envs=(), std=None, pages=1, stdmode='pipe', eof=True, socks=()):
        self.base, self.r, self.pages = base, r, pages
        self.size = pages * 65536
        self.calls = []
        self.names = {}
        self.snapall = True
        self.nodes = [dict(k='d', ents=[], data=[], t='', tc=[], tb=[])]
        self.path = {(): 1}
        jt = []
        for k, p, d in tree:
            p = p if isinstance(p, bytes) else p.encode()
            d = d if isinstance(d, bytes) else d.replace('BASE', base).encode() if isinstance(d, str) else bytes(d)
            jt.append([k, p.hex(), d.hex()])
            comps = p.split(b'/')
            up = self.path[tuple(comps[:-1])]
            lb = self.lab(comps[-1])
            if k == 'h':
                self.nodes[up - 1]['ents'].append([lb, self.path[tuple(d.split(b'/'))]])
                continue
            self.nodes.append(dict(k=k, ents=[], data=list(d) if k == 'f' else [], t='', tc=[self.lab(x) for x in d.split(b'/')] if k == 'l' else [],
                                   tb=list(d) if k == 'l' else []))
            self.path[tuple(comps)] = len(self.nodes)
            self.nodes[up - 1]['ents'].append([lb, len(self.nodes)])
        self.dirs = sorted(dirs.items())
        enc = lambda x: x.encode(errors='surrogateescape')      # what the system gave and could not decode
        self.args, self.envs = [enc(a) for a in args], sorted((enc(k), enc(v)) for k, v in dict(envs).items())
        std = std or {}
        self.fds = [dict(f=n, n=0, o=n, b=[27, 1] if n == 0 else [27, 6], i=[], t=2, pre='') for n in range(3)]
        self.pre = []
        for i, (g, d) in enumerate(self.dirs):
            self.fds.append(dict(f=3 + i, n=self.path[tuple(d.encode().split(b'/'))], o=0, b=bits(ALL_B), i=bits(ALL_I), t=3, pre='p%d' % i))
            self.pre.append(['p%d' % i, list(enc(g))])
        for x in self.fds:
            x['fl'] = []
        self.socks, self.pend = [], []
        for k, (ty, b, i, nb, *small) in enumerate(socks):
            self.nodes.append(dict(k='s', ents=[], data=[], t='', tc=[], tb=[]))
            self.fds.append(dict(f=len(self.fds), n=len(self.nodes), o=0, b=bits(b), i=bits(i), fl=[2] if nb else [], t=5 if ty == 'dgram' else 6, pre=''))
            self.socks.append(dict(n=len(self.nodes), ty=ty, p=1000 + k if ty == 'listen' else k, small=bool(small)))
        self.job = dict(base=base, tree=jt, dirs=self.dirs, args=[a.hex() for a in self.args], envs=[[k.hex(), v.hex()] for k, v in self.envs],
                        std={str(k): bytes(v).hex() for k, v in std.items()}, pages=pages, seed=r.getrandbits(32), stdmode=stdmode, eof=eof, socks=[list(x) for x in socks], calls=[])
        self.stdin = list(std.get(0, b''))
        self.quiet = stdmode == 'hpipe' and not eof
        self.edge = 0.03
        self.far = None
        self.oob = None                     # (n, how): the n-th buffer of each call is out of bounds

    def lab(self, b):
        x = label(b)
        self.names[x] = list(b)
        return x

    def distant(self, at, real):
        """From here on the offsets at and above stand for those from real on: a hole
        too long to be written out lies between."""
        self.far = self.job['far'] = [at, real]

    def o(self, off):
        return off if self.far is None or off is None or off < self.far[0] else off - self.far[0] + self.far[1]

    # ------------------------------------------------------------ one call
    def begin(self):
        self.used, self.mem, self.loc, self.watch, self.nth, self.hit = [], [], [], [], 0, False

    def alloc(self, n, watch=False, edge=True, soft=False):
        """An address for n bytes, clear of the others of this call."""
        r = self.r
        self.nth += 1
        if self.oob is not None and self.nth == self.oob[0]:
            a = {'end': self.size, 'last': self.size - n + 1 if n else self.size + 1, 'past': self.size + 8, 'neg': 2 ** 32 - max(n, 1), 'top': 2 ** 32 - 1,
                 'half': 2 ** 31}[self.oob[1]]
            self.loc.append([a, n, soft])
            self.hit = True
            return a
        for _ in range(200):
            x = r.random()
            if x < self.edge and edge:
                a = self.size - n
            elif x < 2 * self.edge and edge:
                a = 0
            else:
                a = r.randrange(0, max(1, self.size - n - 64))
            if all(a + n <= b or b + k <= a for b, k in self.used) and a >= 0:
                break
        else:
            raise RuntimeError('no room')
        self.used.append((a, max(n, 1)))
        self.loc.append([a, n, soft])
        if watch and n:
            if a + n <= self.size:
                self.watch.append([a, n])
        return a

    def put(self, b):
        b = bytes(b)
        a = self.alloc(len(b))
        if b and a < self.size:
            self.mem.append([a, b.hex()])
        return a

    def pth(self, b):
        if isinstance(b, str):
            b = b.replace('BASE', self.base).encode()
        bad = b'\0' in b
        try:
            b.decode()
        except UnicodeDecodeError:
            bad = True
        c = b.split(b'/')
        return self.put(b), len(b), {'c': [self.lab(x) for x in c], 'bad': bad, 'long': any(len(x) > 255 for x in c) or len(b) > 4000}

    def emit(self, f, a, snap=None, guard=None, **sem):
        """a: the arguments; sem: the fields the specification reads."""
        c = dict(f=f, a=list(a), mem=self.mem, watch=self.watch, snap=self.snapall if snap is None else snap)
        if guard:
            c['guard'] = guard
        if self.pend:
            c['late'] = [[op, p, bytes(d).hex(), k] for op, p, d, k in self.pend]
            sem = dict(sem, late=[self.peerop(*x) for x in self.pend], by=60 * len(self.pend))
            self.pend = []
        self.job['calls'].append(c)
        s = dict(DEFAULT, p=NOPATH, p2=NOPATH, f=f, loc=[[clip(a), clip(n), s] for a, n, s in self.loc])
        s.update(sem)
        self.calls.append(s)
        return len(self.calls) - 1

    def host(self, op, p, d=b'', snap=None):
        self.job['calls'].append({'host': [op, p.encode().hex(), bytes(d).hex()], 'snap': False})
        self.calls.append(None)

    def peer(self, op, p, d=b'', listener=None):
        """The other end p of a socket acts: connect, send, shut, close."""
        k = -1 if listener is None else listener
        self.job['calls'].append({'peer': [op, p, bytes(d).hex(), k], 'snap': False})
        self.calls.append(dict(DEFAULT, p=NOPATH, p2=NOPATH, f='peer', loc=[], **self.peerop(op, p, d, k)))

    def peerop(self, op, p, d, k):
        return dict(op=op, peer=p, d=list(d), to=-1 if k < 0 else self.socks[k]['n'])

    def late(self, op, p, d=b'', listener=None):
        """The same while the next call runs, 60 ms after it began or after the one before."""
        self.pend.append((op, p, bytes(d), -1 if listener is None else listener))

    # ---------------------------------------------------------- the calls
    def iovs(self, lens, datas=None):
        """Buffers in memory and the array that lists them."""
        es = []
        raw = b''
        many = self.alloc(8 * len(lens)) if len(lens) > 40 else None    # while there is room for all of it
        for i, n in enumerate(lens):
            if datas is not None:
                p = self.put(datas[i])
            else:
                p = self.alloc(n, watch=True, soft=True)
            es.append({'a': p, 'l': n})
            raw += bytes(le(p, 4) + le(n, 4))
        if many is not None:
            self.mem.append([many, raw.hex()])
            return many, es
        return self.put(raw), es

    def out4(self, n=4):
        return self.alloc(n, watch=True)

    def fd_write(self, fd, chunks, f='fd_write', off=None, **k):
        self.begin()
        ptr, es = self.iovs([len(x) for x in chunks], chunks)
        out = self.out4()
        a = [fd, ptr, len(chunks)] + ([self.o(off)] if f == 'fd_pwrite' else []) + [out]
        return self.emit(f, a, fd=fd, out=out, d=[x for c in chunks for x in c], off=clip(off or 0), **k)

    def fd_pwrite(self, fd, chunks, off, **k):
        return self.fd_write(fd, chunks, 'fd_pwrite', off, **k)

    def fd_read(self, fd, lens, f='fd_read', off=None, **k):
        self.begin()
        ptr, es = self.iovs(lens)
        out = self.out4()
        a = [fd, ptr, len(lens)] + ([self.o(off)] if f == 'fd_pread' else []) + [out]
        return self.emit(f, a, fd=fd, out=out, iov=es, off=clip(off or 0), **k)

    def fd_pread(self, fd, lens, off, **k):
        return self.fd_read(fd, lens, 'fd_pread', off, **k)

    def fd_seek(self, fd, off, wh, **k):
        self.begin()
        out = self.out4(8)
        return self.emit('fd_seek', [fd, self.o(off) if wh == 0 else off, wh, out], fd=fd, off=clip(off), wh=wh, out=out, **k)

    def fd_tell(self, fd, **k):
        self.begin()
        out = self.out4(8)
        return self.emit('fd_tell', [fd, out], fd=fd, out=out, **k)

    def fd_filestat_set_size(self, fd, n, **k):
        self.begin()
        return self.emit('fd_filestat_set_size', [fd, self.o(n)], fd=fd, off=clip(n), **k)

    def fd_allocate(self, fd, off, ln, **k):
        self.begin()
        return self.emit('fd_allocate', [fd, off, ln], fd=fd, off=clip(off), len=clip(ln), **k)

    def simple(self, f, fd, **k):
        self.begin()
        return self.emit(f, [fd], fd=fd, **k)

    def fd_close(self, fd, **k):
        return self.simple('fd_close', fd, **k)

    def fd_renumber(self, fd, to, **k):
        self.begin()
        return self.emit('fd_renumber', [fd, to], fd=fd, to=to, **k)

    def fd_fdstat_get(self, fd, **k):
        self.begin()
        out = self.out4(24)
        return self.emit('fd_fdstat_get', [fd, out], fd=fd, out=out, **k)

    def fd_fdstat_set_flags(self, fd, fl, **k):
        self.begin()
        return self.emit('fd_fdstat_set_flags', [fd, fl], fd=fd, fl=bits(fl), **k)

    def fd_fdstat_set_rights(self, fd, b, i, **k):
        self.begin()
        return self.emit('fd_fdstat_set_rights', [fd, b, i], fd=fd, rb=bits(b), ri=bits(i), **k)

    def fd_filestat_get(self, fd, **k):
        self.begin()
        out = self.out4(64)
        return self.emit('fd_filestat_get', [fd, out], fd=fd, out=out, **k)

    def fd_filestat_set_times(self, fd, at, mt, fl, **k):
        self.begin()
        return self.emit('fd_filestat_set_times', [fd, at, mt, fl], fd=fd, ta=le(at, 8), tm=le(mt, 8), fl=bits(fl),
                         hugetime=max(at, mt) >> 62 > 0, **k)

    def fd_advise(self, fd, off, ln, adv, **k):
        self.begin()
        return self.emit('fd_advise', [fd, self.o(off), ln, adv], fd=fd, off=clip(off), len=clip(ln), adv=clip(adv), **k)

    def fd_prestat_get(self, fd, **k):
        self.begin()
        out = self.out4(8)
        return self.emit('fd_prestat_get', [fd, out], fd=fd, out=out, **k)

    def fd_prestat_dir_name(self, fd, n, **k):
        self.begin()
        out = self.alloc(n, watch=True, soft=True)
        return self.emit('fd_prestat_dir_name', [fd, out, n], fd=fd, out=out, len=n, **k)

    def fd_readdir(self, fd, n, after=(-1, 0), raw=None, **k):
        self.begin()
        buf = self.alloc(n, watch=True, soft=True)
        out = self.out4()
        return self.emit('fd_readdir', [fd, buf, n, {'ck': list(after)} if raw is None else raw, out], fd=fd, buf=buf, len=n, out=out,
                         ck=[] if raw is None else le(raw, 8), **k)

    def onepath(self, f, fd, p, **k):
        self.begin()
        a, n, pp = self.pth(p)
        return self.emit(f, [fd, a, n], fd=fd, p=pp, **k)

    def path_create_directory(self, fd, p, **k):
        return self.onepath('path_create_directory', fd, p, **k)

    def path_unlink_file(self, fd, p, **k):
        return self.onepath('path_unlink_file', fd, p, **k)

    def path_remove_directory(self, fd, p, **k):
        return self.onepath('path_remove_directory', fd, p, **k)

    def path_rename(self, fd, p, fd2, q, **k):
        self.begin()
        a, n, pp = self.pth(p)
        b, m, qq = self.pth(q)
        return self.emit('path_rename', [fd, a, n, fd2, b, m], fd=fd, p=pp, fd2=fd2, p2=qq, **k)

    def path_link(self, fd, lf, p, fd2, q, **k):
        self.begin()
        a, n, pp = self.pth(p)
        b, m, qq = self.pth(q)
        return self.emit('path_link', [fd, lf, a, n, fd2, b, m], fd=fd, lf=bits(lf), p=pp, fd2=fd2, p2=qq, **k)

    def path_symlink(self, target, fd, p, **k):
        self.begin()
        if isinstance(target, str):
            target = target.replace('BASE', self.base).encode()
        # a link may name what no path can reach: that is not what is studied here
        target = b'/'.join(x[:200] for x in target.split(b'/'))
        t, tn, tp = self.pth(target)
        a, n, pp = self.pth(p)
        return self.emit('path_symlink', [t, tn, fd, a, n], fd=fd, p=pp, tc=tp['c'], tb=list(target), tbad=tp['bad'] or tp['long'], **k)

    def path_readlink(self, fd, p, n, **k):
        self.begin()
        a, z, pp = self.pth(p)
        buf = self.alloc(n, watch=True, soft=True)
        out = self.out4()
        return self.emit('path_readlink', [fd, a, z, buf, n, out], fd=fd, p=pp, buf=buf, len=n, out=out, **k)

    def path_filestat_get(self, fd, lf, p, **k):
        self.begin()
        a, n, pp = self.pth(p)
        out = self.out4(64)
        return self.emit('path_filestat_get', [fd, lf, a, n, out], fd=fd, lf=bits(lf), p=pp, out=out, **k)

    def path_filestat_set_times(self, fd, lf, p, at, mt, fl, **k):
        self.begin()
        a, n, pp = self.pth(p)
        return self.emit('path_filestat_set_times', [fd, lf, a, n, at, mt, fl], fd=fd, lf=bits(lf), p=pp, ta=le(at, 8), tm=le(mt, 8), fl=bits(fl),
                         hugetime=max(at, mt) >> 62 > 0, **k)

    def path_open(self, fd, p, of=0, rb=ALL_I, ri=ALL_I, fl=0, lf=1, **k):
        self.begin()
        a, n, pp = self.pth(p)
        out = self.out4()
        return self.emit('path_open', [fd, lf, a, n, of, rb, ri, fl, out], fd=fd, lf=bits(lf), p=pp, of=bits(of), rb=bits(rb), ri=bits(ri),
                         fl=bits(fl), out=out, **k)

    def strings(self, f, ss, **k):
        self.begin()
        if f.endswith('sizes_get'):
            p, b = self.out4(), self.out4()
        else:
            p, b = self.alloc(4 * len(ss), watch=True), self.alloc(sum(len(s) + 1 for s in ss), watch=True)
        return self.emit(f, [p, b], ptr=p, buf=b, **k)

    def env(self):
        return [k + b'=' + v for k, v in self.envs]

    def args_get(self, **k):
        return self.strings('args_get', self.args, **k)

    def args_sizes_get(self, **k):
        return self.strings('args_sizes_get', self.args, **k)

    def environ_get(self, **k):
        return self.strings('environ_get', self.env(), **k)

    def environ_sizes_get(self, **k):
        return self.strings('environ_sizes_get', self.env(), **k)

    def clock_res_get(self, i, **k):
        self.begin()
        out = self.out4(8)
        return self.emit('clock_res_get', [i, out], id=clip(i), out=out, **k)

    def clock_time_get(self, i, prec=0, **k):
        self.begin()
        out = self.out4(8)
        return self.emit('clock_time_get', [i, prec, out], id=clip(i), out=out, **k)

    def random_get(self, n, **k):
        self.begin()
        buf = self.alloc(n, watch=n < 300)
        return self.emit('random_get', [buf, n], buf=buf, len=n, **k)

    def sock_recv(self, fd, lens, fl=0, **k):
        self.begin()
        ptr, es = self.iovs(lens)
        out, out2 = self.out4(), self.out4(2)
        return self.emit('sock_recv', [fd, ptr, len(lens), fl, out, out2], fd=fd, out=out, out2=out2, iov=es, fl=bits(fl), **k)

    def sock_send(self, fd, chunks, fl=0, **k):
        self.begin()
        ptr, es = self.iovs([len(x) for x in chunks], chunks)
        out = self.out4()
        return self.emit('sock_send', [fd, ptr, len(chunks), fl, out], fd=fd, out=out, d=[x for c in chunks for x in c], fl=bits(fl), **k)

    def sock_shutdown(self, fd, how, **k):
        self.begin()
        return self.emit('sock_shutdown', [fd, how], fd=fd, how=clip(how), **k)

    def sock_accept(self, fd, fl=0, **k):
        self.begin()
        out = self.out4()
        return self.emit('sock_accept', [fd, fl, out], fd=fd, fl=bits(fl), out=out, **k)

    def sched_yield(self, **k):
        self.begin()
        return self.emit('sched_yield', [], **k)

    def proc_raise(self, s, **k):
        self.begin()
        return self.emit('proc_raise', [s], sig=clip(s), **k)

    def poll_oneoff(self, subs, lim=3000, **k):
        """subs: dicts ty, ud, and id/to/abs (clock: to in ns, relative to now if
        absolute) or fd."""
        self.begin()
        raw = b''
        r = self.r
        sem, dyn = [], []
        for i, s in enumerate(subs):
            if r.random() < 0.7 and s['ud'] < 256:       # user data is 64 bits wide
                s = dict(s, ud=s['ud'] | r.choice([1 << 63, 1 << 32, 1 << 31, r.getrandbits(56) << 8]))
            e = bytearray(r.randbytes(48))
            e[0:8] = bytes(le(s['ud'], 8))
            e[8] = s['ty']
            if s['ty'] == 0:
                e[16:20] = bytes(le(s['id'], 4))
                e[24:32] = bytes(le(s['to'], 8))
                e[40:42] = bytes(le(s.get('flags', 0), 2))
            elif s['ty'] in (1, 2):
                e[16:20] = bytes(le(s['fd'] if not isinstance(s['fd'], dict) else 0, 4))
            raw += bytes(e)
            sem.append(dict(ud=le(s['ud'], 8), ty=s['ty'], id=clip(s.get('id', 0)), to=clip(-(-s.get('to', 0) // 1000000)), fd=s.get('fd', -1),
                            fl=bits(s.get('flags', 0))))
            if s['ty'] == 0 and s.get('abs') is not None:
                dyn.append([i, 'abs', s['id'], s['abs']])
                sem[-1]['to'] = clip(s['abs'] // 1000000)
            if isinstance(s.get('fd'), dict):
                dyn.append([i, 'fd', s['fd']['fd']])
        p = self.put(raw)
        if subs:                                     # the padding at the end need not be read
            self.loc[-1][2] = True
            self.loc.append([p, 48 * len(subs) - (6 if subs[-1]['ty'] == 0 else 28), False])
        buf = self.alloc(32 * len(subs), watch=True, soft=True)
        out = self.out4()
        k2 = self.emit('poll_oneoff', [p, buf, len(subs), out], ptr=p, buf=buf, out=out, subs=sem, lim=lim, **k)
        if dyn:
            self.job['calls'][-1]['dyn'] = [p, dyn]
        return k2

    # --------------------------------------------------------- the trace
    def trace(self, out):
        """The line for WasiTrace.tla from what the driver saw."""
        cs = []
        for s, o in zip(self.calls, out['recs']):
            if s is None:
                continue
            c = dict(s)
            rf = o.get('rf', {})
            for k in ('fd', 'fd2', 'to'):
                if isinstance(c[k], dict):
                    c[k] = rf[str(c[k]['fd'])]
                c[k] = clip(c[k])
            c['subs'] = [dict(x, fd=rf.get(str(x['fd']['fd']), 4242) if isinstance(x['fd'], dict) else clip(x['fd'])) for x in c['subs']]
            c['r'], c['new'], c['ms'], c['took'] = o['r'], o.get('new', -1), o['ms'], min(o['took'], BIG)
            c['lo'], c['hi'], c['win'] = o['lo'], o['hi'], o['win']
            c['diff'] = [{'a': a, 'l': n} for a, n in o['diff']]
            c['loc'] = [{'a': a, 'l': n, 's': s} for a, n, s in c['loc']]
            c['post'] = [{'a': a, 'b': b} for a, b in o['post']]
            c['ck'] = o.get('ck', c['ck'])
            c['hct'] = o.get('hct', [])
            c['rx'] = [dict(p=p, d=list(b''.join(bytes.fromhex(x) for x in m)), m=[list(bytes.fromhex(x)) for x in m], eof=e) for p, m, e in o.get('rx', [])]
            c['snapped'] = 'snap' in o
            c['snap'] = self.entries(o['snap']) if 'snap' in o else []
            if c['f'] == 'poll_oneoff' and o['r'] == 0:
                c['evs'] = self.events(c, o)
            cs.append(c)
        return dict(nodes=self.nodes, fds=self.fds, input=self.stdin, args=[list(a) for a in self.args], envs=[list(e) for e in self.env()],
                    pre=self.pre, quiet=self.quiet, socks=self.socks, nb=[[k, v] for k, v in self.names.items()], calls=cs, ms=self.size,
                    so=[list(bytes.fromhex(out.get('std', {}).get(str(n), ''))) for n in (1, 2)], lost=len(out.get('lost', [])), held=out.get('held', -1), whole=len(cs) == sum(x is not None for x in self.calls))

    def entries(self, snap):
        return [[[self.lab(bytes.fromhex(x)) for x in p], k, list(bytes.fromhex(d)) if d != '?' else [-1], n] for p, k, d, n in snap]

    def events(self, c, o):
        post = {a: b for a, b in o['post']}
        n = int.from_bytes(bytes(post.get(c['out'], [0] * 4)), 'little')
        b = post.get(c['buf'], [])
        return [dict(ud=b[i:i + 8], er=b[i + 8] + 256 * b[i + 9], ty=b[i + 10]) for i in range(0, min(len(b), 32 * n), 32)]
