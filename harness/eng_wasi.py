"""WASI: histories of system calls on the real code, judged by Wasi.tla."""
import itertools, json, os, random
import wasimc
from wasigen import *

NOW = 1700000000 * 10 ** 9


# ------------------------------------------------------------------ worlds
def escape_world(r):
    """Preopened d and q; o and dd lie outside, dd having d as a prefix."""
    tree = [('d', 'd', ''), ('d', 'o', ''), ('d', 'dd', ''), ('d', 'q', ''), ('f', 'o/x', 'secret'), ('d', 'o/y', ''), ('f', 'o/y/a', 'deep'), ('f', 'dd/x', 'near'),
            ('f', 'd/a', 'alpha'), ('d', 'd/s', ''), ('f', 'd/s/b', 'beta'), ('d', 'd/s/t', ''), ('f', 'd/s/t/c', 'gamma'), ('d', 'd/e', ''),
            ('l', 'd/la', 'a'), ('l', 'd/ls', 's'), ('l', 'd/lt', 's/t/'), ('l', 'd/lx', '../o/x'), ('l', 'd/lo', '../o'), ('l', 'd/labs', 'BASE/o'), ('l', 'd/lfa', 'BASE/d/a'),
            ('l', 'd/ldd', '../dd/x'), ('l', 'd/lno', 'nope'), ('l', 'd/lnx', '../o/new'), ('l', 'd/loop', 'loop'), ('l', 'd/lp', 'lq'), ('l', 'd/lq', 'lp'),
            ('l', 'd/lup', '..'), ('l', 'd/lself', '.'), ('l', 'd/lin', 's/../a'), ('l', 'd/lio', 's/../../o/x'), ('l', 'd/s/up', '../a'), ('l', 'd/s/out', '../../o'), ('l', 'd/l2', 'lo/y'),
            ('l', 'd/lls', 'ls/t'), ('f', 'q/z', 'zeta'), ('l', 'q/l', '../d'), ('l', 'q/lz', 'z')]
    return tree, {'/': 'd', 'data': 'q'}


def plain_world(r):
    """One preopened directory, links inside it only."""
    tree = [('d', 'd', ''), ('f', 'd/a', bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 40])))), ('f', 'd/b', b'bravo'), ('d', 'd/s', ''), ('d', 'd/s/t', ''),
            ('f', 'd/s/c', b'charlie'), ('d', 'd/e', ''), ('l', 'd/l', 'a'), ('l', 'd/m', 's'), ('l', 'd/n', 'none'), ('l', 'd/s/k', '../b'), ('h', 'd/h', 'd/b')]
    return tree, {r.choice(['/', '.', 'host', 'a/b', 'é']): 'd'}


def file_world(r):
    tree = [('d', 'd', ''), ('f', 'd/a', b'0123456789abcdef'), ('f', 'd/b', b''), ('h', 'd/h', 'd/a'), ('l', 'd/l', 'a'), ('d', 'd/s', '')]
    return tree, {'/': 'd'}


ESC_NAMES = ['a', 's', 'e', 'la', 'ls', 'lt', 'lx', 'lo', 'labs', 'lfa', 'ldd', 'lno', 'lnx', 'loop', 'lp', 'lup', 'lself', 'lin', 'lio', 'l2', 'lls', 'new', 'b', 't', 'c', 'up',
             'out', 'x', 'y', 'z', 'l', 'lz']
ESC_PATHS = ['a', 's/b', 's/t/c', 'la', 'ls/b', 'lt/c', 'lls/c', 'lin', 's/up', 'lself/a', 'lself', './a', 's/../a', 's/./b', 's//b', 'a/', 's/', 'ls/', 'la/', 'e', 'e/', 'new', 'new/',
             's/new', 'ls/new', 'lno', 'lno/', 'lno/x', 'loop', 'loop/x', 'lp', 'a/x', 'a/../a', 'none/x', 'none/../a', 's/t/../../a', '.', './', 's/.', 's/t/..', '', '..', '../', '../o',
             '../o/x', '../o/new', '../d/a', '../dd/x', '../dd/new', 's/../../o/x', 's/../../d/a', '../../', 'lx', 'lo', 'lo/', 'lo/x', 'lo/new', 'lo/y/a', 'labs', 'labs/x', 'labs/new', 'lfa',
             'ldd', 'lnx', 'lnx/', 'lup', 'lup/', 'lup/o/x', 'lup/d/a', 'lup/new', 'lio', 'l2', 'l2/a', 'l2/new', 's/out', 's/out/x', 's/out/new', 'ls/out/x', 'BASE/o/x', 'BASE/d/a', 'BASE/dd/x',
             'BASE/o/new', '/a', '/', '//a', '/etc/passwd', '/new', 's/t/../../../o/x', 'lself/../a', 'lself/../o/x', 'lself/../../o/x', 'ls/../a', 'lt/../b', 'lt/../../a', 'lt/../../../o/x']
PLAIN_NAMES = ['a', 'b', 's', 'e', 'l', 'm', 'n', 'h', 't', 'c', 'k', 'new', 'x']


def rpath(r, names, weird=0.06):
    n = r.choice([1, 1, 1, 1, 2, 2, 2, 3])
    cs = []
    for _ in range(n):
        x = r.random()
        cs.append('..' if x < 0.09 else '.' if x < 0.12 else '' if x < 0.14 else r.choice(names))
    p = '/'.join(cs)
    if r.random() < 0.08:
        p += '/'
    x = r.random()
    if x < weird:
        p = r.choice(['', '/' + p, 'BASE/d/' + p, b'a\0b', b'\xff\xfe', 'x' * 300, p + '/.', p + '/..', '../d/' + p, './' + p, b'\xc3\xa9', ('s/../' * 900) + 'a', 'é', p + '\0'])
    return p


class World:
    """Random calls on one history."""

    def __init__(self, h, names, r, mix):
        self.h, self.names, self.r = h, names, r
        self.mix = mix
        self.files, self.dirs = [], []
        self.pre = [3 + i for i in range(len(h.dirs))]
        self.nums = [0, 1, 2] + self.pre

    def fd(self, want):
        r = self.r
        x = r.random()
        if x < 0.03:
            return r.choice([0, 1, 2, 3, 4, 5, 6, 7, 99, -1, 0x7fffffff, -0x80000000])
        files, dirs = self.files[-4:], self.dirs[-3:]
        if want == 'd':
            c = self.pre * (3 if not dirs else 1) + dirs * 2 + files[:1] * (r.random() < 0.15)
        elif want == 'f':
            c = files * 4 + dirs[:1] * (r.random() < 0.2) + self.pre[:1] * (r.random() < 0.15) or self.pre
        else:
            c = files + dirs + self.pre
        c = [x for x in c] or self.pre
        k = r.choice(c)
        return {'fd': k[0]} if isinstance(k, tuple) else k

    def path(self):
        r = self.r
        if self.mix.get('paths') and r.random() < 0.4:
            return r.choice(self.mix['paths'])
        return rpath(r, self.names, self.mix.get('weird', 0.06))

    def rights(self, full):
        r = self.r
        x = r.random()
        if x < self.mix.get('fullrights', 0.7):
            return full
        if x < 0.85:
            return full & ~(1 << r.randrange(30))
        if x < 0.95:
            return r.getrandbits(30)
        return r.choice([0, ALL_I, 1 << r.randrange(64), ALL_I | 1 << r.randrange(30, 64), R['read'], R['write'], R['read'] | R['write'] | R['seek']])

    def open(self):
        r, h = self.r, self.h
        of = r.choice([0, 0, 0, CREAT, CREAT, CREAT | EXCL, TRUNC, CREAT | TRUNC, DIRECTORY, DIRECTORY, r.randrange(16)])
        if r.random() < 0.02:
            of = r.choice([16, 32, 255, 1 << 15])
        fl = r.choice([0, 0, 0, 0, 0, APPEND, APPEND, NONBLOCK, r.randrange(32)])
        rb = self.rights(ALL_I if not of & DIRECTORY else ALL_B)
        if r.random() < 0.2:
            rb &= ~R['write']
        k = h.path_open(self.fd('d'), self.path(), of, rb, self.rights(ALL_I), fl, r.choice([0, 1, 1]))
        (self.dirs if of & DIRECTORY or r.random() < 0.1 else self.files).append((k,))

    def call(self):
        r, h = self.r, self.h
        ks = list(self.mix['w'])
        getattr(self, 'x_' + r.choices(ks, [self.mix['w'][k] for k in ks])[0])()

    x_open = lambda s: s.open()
    x_mkdir = lambda s: s.h.path_create_directory(s.fd('d'), s.path())
    x_rmdir = lambda s: s.h.path_remove_directory(s.fd('d'), s.path())
    x_unlink = lambda s: s.h.path_unlink_file(s.fd('d'), s.path())
    x_rename = lambda s: s.h.path_rename(s.fd('d'), s.path(), s.fd('d'), s.path())
    x_link = lambda s: s.h.path_link(s.fd('d'), s.r.choice([0, 0, 1]), s.path(), s.fd('d'), s.path())
    x_symlink = lambda s: s.h.path_symlink(s.path(), s.fd('d'), s.path())
    x_readlink = lambda s: s.h.path_readlink(s.fd('d'), s.path(), s.r.choice([0, 1, 2, 3, 64, 64, 200]))
    x_stat = lambda s: s.h.path_filestat_get(s.fd('d'), s.r.choice([0, 1]), s.path())

    def times(self):
        r = self.r
        t = lambda: r.choice([0, 1, 1000, NOW + r.randrange(10 ** 12), r.randrange(2 ** 60)])
        return t(), t(), r.choice([0, 1, 2, 4, 8, 5, 6, 9, 10, 10, r.randrange(16)])

    x_ptimes = lambda s: s.h.path_filestat_set_times(s.fd('d'), s.r.choice([0, 1]), s.path(), *s.times())
    x_ftimes = lambda s: s.h.fd_filestat_set_times(s.fd('f'), *s.times())
    x_fstat = lambda s: s.h.fd_filestat_get(s.fd('fd'))
    x_fdstat = lambda s: s.h.fd_fdstat_get(s.fd('fd'))

    def chunks(self):
        r = self.r
        return [bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13]))) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4]))]

    def lens(self):
        r = self.r
        return [r.choice([0, 1, 2, 3, 5, 8, 13, 40]) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4]))]

    def off(self, neg=True):
        r = self.r
        return r.choice([0, 0, 1, 2, 3, 5, 8, 16, 17, 20, 40] + ([-1, -5, -(2 ** 63)] if neg and r.random() < 0.3 else []))

    x_write = lambda s: s.h.fd_write(s.fd('f'), s.chunks())
    x_pwrite = lambda s: s.h.fd_pwrite(s.fd('f'), s.chunks(), s.off())
    x_read = lambda s: s.h.fd_read(s.fd('f'), s.lens())
    x_pread = lambda s: s.h.fd_pread(s.fd('f'), s.lens(), s.off())
    x_seek = lambda s: s.h.fd_seek(s.fd('f'), s.off(False) * s.r.choice([1, 1, -1]), s.r.choice([0, 0, 1, 1, 2, 2] + [3, 255] * (s.r.random() < 0.1)))
    x_tell = lambda s: s.h.fd_tell(s.fd('f'))
    x_size = lambda s: s.h.fd_filestat_set_size(s.fd('f'), s.off())
    x_alloc = lambda s: s.h.fd_allocate(s.fd('f'), s.off(), s.off())
    x_close = lambda s: s.h.fd_close(s.fd('fd'))
    x_renum = lambda s: s.h.fd_renumber(s.fd('fd'), s.fd('fd') if s.r.random() < 0.9 else s.r.choice([0, 1, 2, 3, 4, 5, 50]))
    x_flags = lambda s: s.h.fd_fdstat_set_flags(s.fd('f'), s.r.choice([0, 1, 1, 4, 5, 2, 8, 16, 31, 32, 0xffff]))

    def x_rights(self):
        r = self.r
        m = lambda: r.choice([ALL_I, ALL_I & ~R['poll'], ALL_B, ALL_I & ~(1 << r.randrange(29)), ALL_B & ~(1 << r.randrange(29)), r.getrandbits(29)])
        x = self.fd('fd')
        if r.random() < 0.35:
            b = r.choice([R['read'] | R['seek'] | R['tell'], R['write'] | R['seek'], 0])
        else:
            b = m() & ~sum(1 << k for k in [9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 25, 26]) if r.random() < 0.5 else m()
        self.h.fd_fdstat_set_rights(x, b, r.choice([0, m(), m()]))

    x_sync = lambda s: s.h.simple(s.r.choice(['fd_sync', 'fd_datasync']), s.fd('f'))
    x_advise = lambda s: s.h.fd_advise(s.fd('f'), s.off(), s.off(), s.r.choice([0, 1, 2, 3, 4, 5, 6, 255]))
    x_prestat = lambda s: s.h.fd_prestat_get(s.fd('fd'))
    x_prename = lambda s: s.h.fd_prestat_dir_name(s.fd('fd'), s.r.choice([0, 1, 2, 3, 4, 5, 10]))

    def x_readdir(self):
        r, h = self.r, self.h
        fd = self.fd('d')
        after, n = (-1, 0), r.choice([0, 10, 23, 24, 25, 26, 30, 50, 60, 100, 400, 2000])
        k = h.fd_readdir(fd, n, after)
        for _ in range(r.choice([0, 0, 1, 3])):
            k = h.fd_readdir(fd, r.choice([n, n, 30, 100, 1000]), (k, r.choice([-1, -1, -1, 0, 1])))

    x_stdout = lambda s: s.h.fd_write(s.r.choice([1, 2]), s.chunks())
    x_stdin = lambda s: s.h.fd_read(0, s.lens())
    x_args = lambda s: getattr(s.h, s.r.choice(['args_get', 'args_sizes_get', 'environ_get', 'environ_sizes_get']))()
    x_time = lambda s: s.h.clock_time_get(s.r.choice([0, 1, 2, 3]))


PATHW = dict(open=6, mkdir=2, rmdir=2, unlink=3, rename=4, link=2, symlink=3, readlink=1, stat=3, ptimes=1, write=1, read=1, close=0.5, readdir=0.5, fstat=0.5)
IOW = dict(open=3, write=5, pwrite=3, read=5, pread=3, seek=4, tell=2, size=2, alloc=1.5, fstat=2, flags=1, close=0.4, renum=0.3, sync=0.4, advise=0.3, stat=0.5, ftimes=0.3)
MIX = {
    'C30': ('escape', dict(w=PATHW, paths=ESC_PATHS, weird=0.05)),
    'C31': ('plain', dict(w=dict(PATHW, **IOW, rights=6, fdstat=3, readdir=1, prestat=0.3), fullrights=0.35, weird=0.0)),
    'C32': ('plain', dict(w=dict(open=6, close=5, renum=4, fdstat=3, prestat=2, prename=1, write=2, read=3, seek=2, tell=3, fstat=2, flags=1, rights=1, stdout=1, stdin=1), weird=0.0)),
    'C33': ('file', dict(w=IOW, weird=0.0, fullrights=0.9)),
    'C34': ('plain', dict(w=dict(PATHW, ptimes=2, ftimes=1, readdir=1), weird=0.05, fullrights=0.95)),
    'C35': ('plain', dict(w=dict(open=3, mkdir=2, rmdir=1, unlink=2, rename=1, link=1, symlink=1, readdir=8, stat=1), weird=0.0, fullrights=0.95)),
    'C37': ('plain', dict(w=dict(PATHW, **IOW, rights=2, fdstat=2, readdir=1, prestat=1, prename=1, args=2, stdout=1, stdin=1, time=1), weird=0.1, fullrights=0.8)),
}
WORLDS = {'escape': (escape_world, ESC_NAMES), 'plain': (plain_world, PLAIN_NAMES), 'file': (file_world, ['a', 'b', 'h', 'l', 'new', 's', 's/x'])}


class Make:
    """Histories in their own scratch directories."""

    def __init__(self, ctx):
        self.ctx, self.n, self.pid = ctx, 0, ctx.pid
        self.w = os.path.join(ctx.scratch, 'w')
        if not os.path.isdir(self.w):
            os.mkdir(self.w)
            os.chmod(self.w, 0o777)

    def hist(self, r, tree, dirs, **k):
        self.n += 1
        return Hist('%s/h%d/b' % (self.w, self.n), r, tree, dirs, **k)

    def random(self, seed, pid, n):
        r = random.Random(seed)
        world, mix = MIX[pid]
        mk, names = WORLDS[world]
        tree, dirs = mk(r)
        inp = bytes(r.randrange(256) for _ in range(r.choice([0, 5, 60])))
        h = self.hist(r, tree, dirs, std={0: inp}, args=['prog', 'x'], envs={'K': 'v'})
        w = World(h, names, r, mix)
        for _ in range(n):
            w.call()
        return h


def judge(ctx, hs, tag='wasi', groups=None):
    """Run histories and have TLC validate what was recorded; groups are lists of
    histories that run in turns in one process, otherwise each runs alone."""
    if groups is None:
        outs = ctx.drive('drv_wasi.py', [h.job for h in hs])
    else:
        hs = [h for g in groups for h in g]
        got = ctx.drive('drv_wasi.py', [dict(together=[h.job for h in g], seed=ctx.rng.getrandbits(32)) for g in groups])
        outs = [x for g, o in zip(groups, got) for x in (o['outs'] if 'outs' in o else [o] * len(g))]
    lines, bad = [], []
    for h, o in zip(hs, outs):
        if 'died' in o or 'setup' in o:
            o = dict(o, recs=o.get('recs', []))
            if not o['recs'] and 'died' not in o:
                raise RuntimeError('driver: ' + o['setup'])
        lines.append(h.trace(o))
    res = ctx.tlc('WasiTrace', env={'TRACE': ctx.ndjson(lines, tag + '.ndjson')})
    for p in res.prints('REJECT'):
        i, pos, why = p.split(' ', 2)
        i, pos = int(i) - 1, int(pos)
        h, line = hs[i], lines[i]
        c = line['calls'][pos - 1] if pos <= len(line['calls']) else {}
        o = outs[i]['recs'][pos - 1] if pos <= len(outs[i].get('recs', [])) else outs[i].get('died', '')
        bad.append((h, line, pos, c, o, why))
    ctx.traces += len(hs)
    ctx.evaluations += sum(len(l['calls']) for l in lines)
    ctx.cov['stopped'] = ctx.cov.get('stopped', 0) + len(res.prints('STOP'))
    for l in lines:
        for c in l['calls']:
            d = ctx.cov.setdefault('calls', {}).setdefault(c['f'], [0, 0])
            d[0 if c['r'] == 0 else 1] += 1
    return bad


def show(c):
    """The call in short."""
    s = c.get('f', 'end')
    for k in ('fd', 'to', 'fd2', 'off', 'wh', 'len', 'id', 'lf', 'of', 'fl', 'rb', 'ri'):
        if k in c and c[k] != DEFAULT[k]:
            s += ' %s=%s' % (k, str(c[k])[:60])
    for k in ('p', 'p2'):
        if c.get(k, {}).get('c'):
            s += ' %s=%s' % (k, '/'.join(c[k]['c'])[:60])
    return s


def report(ctx, kind, bad):
    for h, line, pos, c, o, why in bad[:20]:
        e = o.get('e', '') if isinstance(o, dict) else str(o)
        ctx.violation('%s/%s' % (kind, c.get('f', 'end')), '%s history, call %d: %s returned %s (%s): %s' % (kind, pos, show(c), c.get('r'), e[:100], why[:160]),
                      dict(line=line, job=h.job, call=pos))


FAM = {}


def fam(*ps):
    def d(f):
        for p in ps:
            FAM.setdefault(p, []).append(f)
        return f
    return d


# every path function, with its mode; the path is the one argument left open
PATHF = {
    'open': lambda h, d, p: h.path_open(d, p),
    'open ro': lambda h, d, p: h.path_open(d, p, 0, R['read']),
    'open nofollow': lambda h, d, p: h.path_open(d, p, lf=0),
    'open creat': lambda h, d, p: h.path_open(d, p, CREAT),
    'open creat nofollow': lambda h, d, p: h.path_open(d, p, CREAT, lf=0),
    'open excl': lambda h, d, p: h.path_open(d, p, CREAT | EXCL),
    'open trunc': lambda h, d, p: h.path_open(d, p, TRUNC),
    'open dir': lambda h, d, p: h.path_open(d, p, DIRECTORY, ALL_B),
    'open dir nofollow': lambda h, d, p: h.path_open(d, p, DIRECTORY, ALL_B, lf=0),
    'mkdir': lambda h, d, p: h.path_create_directory(d, p),
    'rmdir': lambda h, d, p: h.path_remove_directory(d, p),
    'unlink': lambda h, d, p: h.path_unlink_file(d, p),
    'rename from': lambda h, d, p: h.path_rename(d, p, d, 'moved'),
    'rename to': lambda h, d, p: h.path_rename(d, 's/b', d, p),
    'rename dir to': lambda h, d, p: h.path_rename(d, 'e', d, p),
    'link from': lambda h, d, p: h.path_link(d, 0, p, d, 'linked'),
    'link from follow': lambda h, d, p: h.path_link(d, 1, p, d, 'linked'),
    'link to': lambda h, d, p: h.path_link(d, 0, 'a', d, p),
    'symlink at': lambda h, d, p: h.path_symlink('a', d, p),
    'symlink to': lambda h, d, p: h.path_symlink(p, d, 'sym'),
    'symlink deep': lambda h, d, p: h.path_symlink(p, d, 's/t/sym'),
    'readlink': lambda h, d, p: h.path_readlink(d, p, 200),
    'stat': lambda h, d, p: h.path_filestat_get(d, 1, p),
    'lstat': lambda h, d, p: h.path_filestat_get(d, 0, p),
    'times': lambda h, d, p: h.path_filestat_set_times(d, 1, p, 5, NOW, 5),
    'ltimes': lambda h, d, p: h.path_filestat_set_times(d, 0, p, 7, 9, 5),
}


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


@fam('C30', 'C34')
def g_paths(m, r, deep):
    """Every path function on every kind of path."""
    hs = []
    paths = ESC_PATHS + ['x' * 255, 'x' * 256, b'a\0', b'\0', b'\xff', b's/\xed\xa0\x80', 's/t/c/', 's/t/c/.', 'e/..', 'lself/e', 'nope/', 'la/x', 'lp/x', 'é', 'new\n', ' ', '*', '...', '..a', 'a..',
                         '.new', '\\', 'd/a', 'q/z', '..d', 's/..new']
    for f in PATHF:
        ps = list(paths)
        r.shuffle(ps)
        for c in chunks(ps, 4 if f.startswith('re') or f == 'unlink' else 8):
            tree, dirs = escape_world(r)
            h = m.hist(r, tree, dirs)
            for p in c:
                PATHF[f](h, 3, p)
            hs.append(h)
    return hs


@fam('C30')
def g_moves(m, r, deep):
    """Links and directories that move, so that what was inside leads out."""
    hs = []

    def go(f):
        tree, dirs = escape_world(r)
        h = m.hist(r, tree, dirs)
        f(h)
        for p in ('k', 't/k', 'm/k', 's/k'):
            h.path_open(3, p)
            h.path_filestat_get(3, 1, p)
        h.path_open(3, 'k', CREAT | TRUNC)
        hs.append(h)

    def link_up(h):
        h.path_symlink('../a', 3, 's/k')
        h.path_rename(3, 's/k', 3, 'k')

    def dir_up(h):
        h.path_symlink('../../a', 3, 's/t/k')
        h.path_rename(3, 's/t', 3, 't')

    def dir_open(h):
        k = h.path_open(3, 's/t', DIRECTORY, ALL_B)
        h.path_symlink('../../../o/x', 3, 's/t/k')
        h.path_symlink('../c', {'fd': k}, 'k')
        h.path_open({'fd': k}, '../b')
        h.path_open({'fd': k}, '..')
        h.path_rename(3, 's/t', 3, 't')
        h.path_open({'fd': k}, 'c')
        h.path_open({'fd': k}, '../a')
        h.path_create_directory({'fd': k}, '../n')
        h.path_symlink('../a', {'fd': k}, 'k')
        h.path_open({'fd': k}, 'k')

    def across(h):
        h.path_rename(3, 's', 4, 's')
        h.path_open(4, 's/up')
        h.path_open(4, 's/out')
        h.path_open(4, 'l/a')
        h.path_rename(3, 'lx', 4, 'lx')
        h.path_open(4, 'lx')
        h.path_link(3, 0, 'lo', 4, 'lo')
        h.path_open(4, 'lo/x')
        h.path_create_directory(4, 'lo/n')

    def hard(h):
        h.path_link(3, 1, 'lx', 3, 'k')
        h.path_link(3, 0, 'lx', 3, 'k')
        h.path_link(3, 1, 's/out/x', 3, 'm')

    def two(h):
        h.path_symlink('s', 3, 'm')
        h.path_symlink('../..', 3, 'm/t/w')
        h.path_symlink('..', 3, 's/w')
        h.path_open(3, 's/w/a')
        h.path_open(3, 's/w/../a')
        h.path_open(3, 'm/w/../o/x')
        h.path_open(3, 'm/t/w/o/x')

    def gone(h):
        k = h.path_open(3, 'e', DIRECTORY, ALL_B)
        h.path_remove_directory(3, 'e')
        h.path_open({'fd': k}, 'x', CREAT)
        h.path_open({'fd': k}, '..')
        h.path_open({'fd': k}, '../a')
        h.path_create_directory({'fd': k}, 'y')
        h.path_symlink('a', {'fd': k}, 'z')
        h.fd_readdir({'fd': k}, 300)

    def swap(h):
        h.path_rename(3, 'a', 3, 'a0')
        h.path_symlink('lo', 3, 'a')
        h.path_open(3, 'a/x')
        h.path_unlink_file(3, 'a/x')
        h.path_rename(3, 'a0', 3, 'a/x')
        h.path_rename(3, 'a/x', 3, 'w')
        h.path_remove_directory(3, 'a/y')
        h.path_create_directory(3, 'a/y2')
        h.path_link(3, 0, 'a/x', 3, 'w')
        h.path_link(3, 0, 'a0', 3, 'a/w')
        h.path_readlink(3, 'a/../../d/la', 90)
        h.path_symlink('q', 3, 'a/w')
        h.path_filestat_set_times(3, 1, 'a/x', 1, 1, 5)
        h.path_filestat_set_times(3, 0, 'a/x', 1, 1, 5)
    for f in (link_up, dir_up, dir_open, across, hard, two, gone, swap):
        go(f)
    return hs


@fam('C30')
def g_chain(m, r, deep):
    """Links that lead to links, up to as many as may be followed and past them."""
    hs = []
    ns = [1, 2, 5, 8, 9, 16, 20, 31, 32, 33, 39, 40, 41, 42, 60]
    for kind in ('file', 'dir', 'out'):
        for c in chunks(ns, 5):
            tree, dirs = escape_world(r)
            tree = list(tree)
            for i in range(max(ns)):
                tree.append(('l', 'd/s/t/k%d' % i, 'k%d' % (i - 1) if i else {'file': 'c', 'dir': '../../s', 'out': '../../../o'}[kind]))
            h = m.hist(r, tree, dirs)
            h.snapall = False
            for n in c:
                p = 's/t/k%d' % (n - 1)
                q = p + {'file': '', 'dir': '/b', 'out': '/x'}[kind]
                h.path_open(3, q, 0, R['read'])
                h.path_filestat_get(3, 1, q)
                h.path_filestat_get(3, 0, q)
                h.path_filestat_get(3, 0, p)
                h.path_readlink(3, p, 30)
                if kind != 'file':
                    h.path_create_directory(3, p + '/n%d' % n)
                    h.path_open(3, p + '/m%d' % n, CREAT)
                    h.path_link(3, 0, q, 3, 'lk%d' % n, snap=True)
            hs.append(h)
    return hs


@fam('C30')
def g_swap(m, r, deep):
    """A name used as a directory inside, which later leads outside, for every function."""
    hs = []

    def away(h, a, b):
        h.path_rename(3, a, 3, b)

    turns = {
        'rename': lambda h: (away(h, 's', 'z'), away(h, 'lo', 's')),
        'symlink': lambda h: (away(h, 's', 'z'), h.path_symlink('../o', 3, 's')),
        'rmdir': lambda h: (away(h, 's/b', 'sb'), away(h, 's/t', 'st'), h.path_unlink_file(3, 's/up'), h.path_unlink_file(3, 's/out'), h.path_remove_directory(3, 's'),
                            h.path_symlink('lo', 3, 's')),
        'other': lambda h: (h.path_rename(3, 's', 4, 's'), away(h, 'lo', 's')),
        'deep': lambda h: (away(h, 's/t', 's/z'), away(h, 's/out', 's/t')),
    }
    for t in turns:
        for f in PATHF:
            if 'symlink to' in f or not deep and t in ('symlink', 'other') and r.random() < 0.5:
                continue
            tree, dirs = escape_world(r)
            h = m.hist(r, tree, dirs)
            d = 's/t/' if t == 'deep' else 's/'
            for p in ('c', 'b', 'y'):                        # it has been used, and not only once
                h.path_filestat_get(3, 1, d + p, snap=False)
                h.path_open(3, d + p, 0, R['read'], snap=False)
            h.path_filestat_get(4, 1, 'l/' + d + 'b', snap=False)
            PATHF[f](h, 3, d + r.choice(['b', 'c', 'fresh']))
            turns[t](h)
            for p in ('x', 'y/a', 'fresh2'):
                PATHF[f](h, 3, d + p)
            hs.append(h)
    return hs


NAMED_CALLS = {
    'write': lambda h, f: h.fd_write(f, [b'abc']), 'pwrite': lambda h, f: h.fd_pwrite(f, [b'XY'], 2), 'read': lambda h, f: h.fd_read(f, [3]),
    'pread': lambda h, f: h.fd_pread(f, [3], 1), 'seek': lambda h, f: h.fd_seek(f, 2, 0), 'seek0': lambda h, f: h.fd_seek(f, 0, 1), 'tell': lambda h, f: h.fd_tell(f),
    'size': lambda h, f: h.fd_filestat_set_size(f, 9), 'allocate': lambda h, f: h.fd_allocate(f, 0, 30), 'times': lambda h, f: h.fd_filestat_set_times(f, 3, 4, 5),
    'stat': lambda h, f: h.fd_filestat_get(f), 'flags': lambda h, f: h.fd_fdstat_set_flags(f, 1), 'sync': lambda h, f: h.simple('fd_sync', f),
    'datasync': lambda h, f: h.simple('fd_datasync', f), 'advise': lambda h, f: h.fd_advise(f, 0, 3, 1), 'fdstat': lambda h, f: h.fd_fdstat_get(f),
    'prestat': lambda h, f: h.fd_prestat_get(f), 'prename': lambda h, f: h.fd_prestat_dir_name(f, 4), 'readdir': lambda h, f: h.fd_readdir(f, 200),
    'mkdir': lambda h, f: h.path_create_directory(f, 'mk'), 'pstat': lambda h, f: h.path_filestat_get(f, 1, 'a'), 'ptimes': lambda h, f: h.path_filestat_set_times(f, 1, 'a', 1, 2, 5),
    'link': lambda h, f: h.path_link(f, 0, 'a', 3, 'lnk'), 'link2': lambda h, f: h.path_link(3, 0, 'a', f, 'lnk2'), 'open': lambda h, f: h.path_open(f, 'a'),
    'creat': lambda h, f: h.path_open(f, 'cr', CREAT), 'creat old': lambda h, f: h.path_open(f, 'a', CREAT), 'trunc': lambda h, f: h.path_open(f, 'b', TRUNC),
    'readlink': lambda h, f: h.path_readlink(f, 'l', 50), 'rename': lambda h, f: h.path_rename(f, 's/c', 3, 'cc'),
    'rename2': lambda h, f: h.path_rename(3, 'h', f, 'hh'), 'symlink': lambda h, f: h.path_symlink('a', f, 'sl'), 'unlink': lambda h, f: h.path_unlink_file(f, 'n'),
    'rmdir': lambda h, f: h.path_remove_directory(f, 'e'), 'poll': lambda h, f: h.poll_oneoff([dict(ty=1, ud=5, fd=f), dict(ty=0, ud=6, id=1, to=0)]),
    'renumber': lambda h, f: h.fd_renumber(f, 60), 'renumber2': lambda h, f: h.fd_renumber(60, f), 'rights': lambda h, f: h.fd_fdstat_set_rights(f, 0, 0),
    'close': lambda h, f: h.fd_close(f),
}


def pair_world(r):
    """Two directories with the same names in them, below a third."""
    one = lambda d, x: [('d', d, ''), ('f', d + '/a', b'first ' + x), ('f', d + '/b', b'second' + x), ('d', d + '/s', ''), ('f', d + '/s/c', x), ('f', d + '/s/b', b'sb' + x),
                        ('d', d + '/e', ''), ('l', d + '/l', 'a'), ('l', d + '/m', 's'), ('h', d + '/h', d + '/b'), ('f', d + '/n', b'')]
    return [('d', 'd', ''), ('d', 'd/o', '')] + one('d/o/p', b'P') + one('d/o/q', b'QQ'), {'/': 'd'}


@fam('C30', 'C32', 'C34', 'C35')
def g_decoy(m, r, deep):
    """Descriptors whose file or directory was moved and replaced by another."""
    hs = []
    moves = {'swap': lambda h: (h.path_rename(3, 'o/p', 3, 'z'), h.path_rename(3, 'o/q', 3, 'o/p')),
             'link': lambda h: (h.path_rename(3, 'o/p', 3, 'z'), h.path_symlink('q', 3, 'o/p')),
             'up': lambda h: (h.path_rename(3, 'o', 3, 'w'), h.path_create_directory(3, 'o'), h.path_rename(3, 'w/q', 3, 'o/p')),
             'new': lambda h: (h.path_rename(3, 'o/p', 3, 'z'), h.path_create_directory(3, 'o/p'), h.path_open(3, 'o/p/a', CREAT))}
    calls = {'n ' + k: f for k, f in NAMED_CALLS.items()}
    for k in PATHF:
        for q in ('a', 's/c', 'fresh', 's', 'e', 'l', '.'):
            calls['p %s %s' % (k, q)] = lambda h, f, k=k, q=q: PATHF[k](h, f, q)
    if m.pid == 'C35':
        calls = {'list %d' % n: lambda h, f, n=n: (h.fd_readdir(f, n), h.fd_readdir(f, 300)) for n in (30, 100, 300, 1000)}
    names = list(calls)
    r.shuffle(names)
    for i, k in enumerate(names):
        for mv in moves if deep or m.pid == 'C35' else [list(moves)[i % 4]]:
            h = m.hist(r, *pair_world(r))
            f = {'fd': h.path_open(3, 'o/p', DIRECTORY, ALL_B)}
            moves[mv](h)
            calls[k](h, f)
            h.fd_filestat_get(f)
            h.path_open(f, 'a', 0, R['read'])
            hs.append(h)
    if m.pid == 'C35':
        return hs
    for i, k in enumerate(NAMED_CALLS):
        for j in range(2):
            h = m.hist(r, *pair_world(r))
            f = {'fd': h.path_open(3, 'o/p/a')}
            h.path_rename(3, 'o/p/a', 3, 'z')
            [lambda: h.path_rename(3, 'o/q/a', 3, 'o/p/a'), lambda: (h.path_open(3, 'o/p/a', CREAT), h.path_rename(3, 'o/p', 3, 'o/y'), h.path_rename(3, 'o/q', 3, 'o/p'))][j]()
            NAMED_CALLS[k](h, f)
            h.fd_filestat_get(f)
            hs.append(h)
    return hs


@fam('C31')
def g_rights(m, r, deep):
    """Every call on descriptors that lack, or have only, each right."""
    hs = []
    for dirp in (0, 1):
        for k in range(30):
            for only, via in ((0, 'open'), (0, 'set'), (1, r.choice(['open', 'set', 'dir'])), (0, 'dir'))[:3 + (deep or k % 3 == 0)]:
                tree, dirs = plain_world(r)
                h = m.hist(r, tree, dirs)
                mask = (1 << k if only else ALL_I & ~(1 << k))
                if via == 'open':
                    f = {'fd': h.path_open(3, 's/..' if dirp else 'a', DIRECTORY if dirp else 0, mask & ~(R['write'] if dirp else 0), ALL_I)}
                elif via == 'dir':
                    d = h.path_open(3, '.', DIRECTORY, ALL_B, mask)
                    f = {'fd': h.path_open({'fd': d}, '.' if dirp else 'a', DIRECTORY if dirp else 0, (ALL_B if dirp else ALL_I) & r.choice([mask, ALL_I]), ALL_I)}
                else:
                    f = {'fd': h.path_open(3, '.' if dirp else 'a', DIRECTORY if dirp else 0, ALL_B if dirp else ALL_I, ALL_I)}
                    h.fd_fdstat_get(f)
                    g = mask & (ALL_B if dirp else ALL_I) & ~(0 if dirp else sum(1 << j for j in list(range(9, 14)) + list(range(15, 21)) + [24, 25, 26])) & ~(R['seek'] if dirp else 0)
                    h.fd_fdstat_set_rights(f, g, r.choice([0, g & ~R['seek']] if only or not dirp else [ALL_I & ~R['seek']]))
                h.fd_fdstat_get(f)
                for n in NAMED_CALLS:
                    if n in ('renumber', 'renumber2', 'rights', 'close'):
                        continue
                    if n in ('open', 'creat', 'creat old', 'trunc'):
                        q = NAMED_CALLS[n](h, f)
                        h.fd_fdstat_get({'fd': q}, snap=False)
                    else:
                        NAMED_CALLS[n](h, f)
                hs.append(h)
    return hs


@fam('C31')
def g_inherit(m, r, deep):
    """Chains of directories that pass on fewer and fewer rights, and attempts to regain them."""
    hs = []
    for i in range(300 if deep else 60):
        tree, dirs = plain_world(r)
        h = m.hist(r, tree, dirs)
        h.snapall = False
        f, full = 3, ALL_I
        for j in range(4):
            b, i = [r.choice([ALL_I, full, r.getrandbits(30), full & ~(1 << r.randrange(28)), full & r.getrandbits(30), 2 ** 63 | r.getrandbits(30), 2 ** 64 - 1])
                    for _ in (0, 1)]
            k = h.path_open(f, r.choice(['.', './', 's/..']), DIRECTORY, (b | R['open']) & ~R['write'], i)
            f = {'fd': k}
            h.fd_fdstat_get(f)
            full &= i
            x = r.random()
            if x < 0.5:
                h.fd_fdstat_set_rights(f, r.choice([ALL_B, ALL_I, b & ~R['seek'] & ALL_I, b & i & ALL_I, 2 ** 64 - 1, 1 << 28]), r.choice([full, full & i, ALL_I, 0, 1 << 40]))
                h.fd_fdstat_get(f)
            if r.random() < 0.4:                             # the rights move along with the descriptor
                v = {'fd': h.path_open(3, r.choice(['.', 's', 'a']), 0, ALL_I & ~R['write'] & ~(1 << r.randrange(28)) | R['open'], r.choice([ALL_I, r.getrandbits(30), 0]))}
                h.fd_renumber(f, v)
                f = v
                h.fd_fdstat_get(f)
            k = h.path_open(f, 'a', 0, ALL_I, ALL_I)
            h.fd_fdstat_get({'fd': k})
            h.fd_write({'fd': k}, [b'zz'])
            h.fd_read({'fd': k}, [4])
        h.snapall = True
        h.path_open(f, 'zz', CREAT, ALL_I)
        hs.append(h)
    return hs


@fam('C32', 'C37')
def g_dead(m, r, deep):
    """Every call on descriptors that are closed, were never open, or are of another kind."""
    hs = []
    for kind in ('closed', 'closed std', 'moved', 'large', 'negative', 'dir', 'file', 'std'):
        for c in chunks(sorted(NAMED_CALLS), 10):
            tree, dirs = plain_world(r)
            h = m.hist(r, tree, dirs)
            k1, k2 = {'fd': h.path_open(3, 'a')}, {'fd': h.path_open(3, 's', DIRECTORY, ALL_B)}
            if kind == 'closed':
                h.fd_close(k1)
                f = k1
            elif kind == 'closed std':
                h.fd_close(1)
                f = 1
            elif kind == 'moved':
                h.fd_renumber(k1, k2)
                f = k1
            else:
                f = {'large': r.choice([6, 99, 2 ** 30]), 'negative': r.choice([-1, -2, -(2 ** 31)]), 'dir': k2, 'file': k1, 'std': 0}[kind]
            for n in c:
                NAMED_CALLS[n](h, f)
            h.fd_fdstat_get(k2)
            hs.append(h)
    return hs


@fam('C32')
def g_numbers(m, r, deep):
    """Offsets, flags and rights of descriptors that are moved onto each other."""
    hs = []
    for i in range(300 if deep else 80):
        tree, dirs = plain_world(r)
        dirs = dict(dirs, zz='e') if r.random() < 0.4 else dirs
        dirs = {k: 'd/e' if v == 'e' else v for k, v in dirs.items()}
        h = m.hist(r, tree, dirs, std={0: b'0123456789' * 3})
        h.snapall = False
        pool = [0, 1, 2] + list(range(3, 3 + len(h.dirs)))
        for j in range(r.choice([2, 3, 4])):
            k = h.path_open(3, r.choice(['b', 'b', 'h', 'a', 's/c']), 0, ALL_I & ~r.choice([0, 0, R['write'], R['tell']]), 0, r.choice([0, 0, APPEND]))
            pool.append({'fd': k})
        if r.random() < 0.5:
            pool.append({'fd': h.path_open(3, 's', DIRECTORY, ALL_B)})
        for j in range(16):
            f, g = r.choice(pool), r.choice(pool)
            x = r.random()
            if x < 0.18:
                h.fd_renumber(f, g)
            elif x < 0.28:
                h.fd_close(f)
            elif x < 0.4:
                h.fd_read(f, [r.choice([1, 2, 3])])
            elif x < 0.5:
                h.fd_write(f, [bytes([65 + j])])
            elif x < 0.58:
                h.fd_seek(f, r.choice([0, 1, 2]), r.choice([0, 1]))
            elif x < 0.68:
                h.fd_tell(f)
            elif x < 0.76:
                h.fd_fdstat_get(f)
            elif x < 0.84:
                h.fd_prestat_get(f)
            elif x < 0.88:
                h.fd_prestat_dir_name(f, 4)
            elif x < 0.92:
                h.fd_fdstat_set_flags(f, r.choice([0, 1]))
            elif x < 0.96:
                h.fd_filestat_get(f)
            else:
                pool.append({'fd': h.path_open(f, 'a')})
        h.snapall = True
        h.sched_yield()
        hs.append(h)
    return hs


@fam('C33')
def g_iov(m, r, deep):
    """Buffer lists of every shape, at every offset, in every mode."""
    hs = []
    shapes = [[], [0], [0, 0], [0, 3], [3, 0], [0, 2, 0, 2, 0], [1] * 5, [16], [17], [20], [0, 16], [5, 11], [5, 12], [5, 0, 11, 1], [2, 3, 4, 5, 6], [100, 1], [0, 0, 0, 40]]
    for fl in (0, APPEND):
        for c in chunks(shapes, 3):
            tree, dirs = file_world(r)
            h = m.hist(r, tree, dirs)
            k, g = {'fd': h.path_open(3, 'a', 0, ALL_I, 0, fl)}, {'fd': h.path_open(3, 'h', 0, ALL_I, 0, fl)}
            for s in c:
                for off in (0, 3, 16, 30):
                    h.fd_seek(k, off, 0)
                    h.fd_read(k, s)
                    h.fd_tell(k)
                    h.fd_pread(g, s, off)
                    h.fd_tell(g)
            hs.append(h)
            h = m.hist(r, tree, dirs)
            k, g = {'fd': h.path_open(3, 'a', 0, ALL_I, 0, fl)}, {'fd': h.path_open(3, 'h', 0, ALL_I, 0, fl)}
            for s in c:
                for off in (0, 5, 25):
                    h.fd_seek(k, off, 0)
                    h.fd_write(k, [r.randbytes(x) for x in s])
                    h.fd_tell(k)
                    if fl == 0:
                        h.fd_pwrite(g, [r.randbytes(x) for x in s], off)
                    h.fd_tell(g)
                    h.fd_pread(k, [60], 0)
            hs.append(h)
    # whence, sizes, and files that grow past their end
    for i in range(120 if deep else 30):
        tree, dirs = file_world(r)
        h = m.hist(r, tree, dirs)
        k, g = {'fd': h.path_open(3, 'a', 0, ALL_I, 0, r.choice([0, 0, APPEND]))}, {'fd': h.path_open(3, r.choice(['a', 'h', 'b']), r.choice([0, 0, TRUNC]), ALL_I, 0)}
        for j in range(6):
            f = r.choice([k, g])
            h.fd_seek(f, r.choice([0, 1, 5, -1, -3, -17, 20, 2 ** 40, 2 ** 62, -(2 ** 62)]), r.choice([0, 1, 2]), snap=False)
            h.fd_tell(f, snap=False)
            x = r.random()
            if x < 0.4:
                h.fd_write(f, [r.randbytes(r.choice([0, 1, 4]))] * r.choice([1, 2]), snap=False) if h.calls[-2]['off'] < 100 else h.fd_read(f, [3], snap=False)
            elif x < 0.6:
                h.fd_filestat_set_size(f, r.choice([0, 1, 5, 16, 50, -1, -(2 ** 63)]))
            elif x < 0.8:
                h.fd_allocate(f, r.choice([0, 3, 16, 40, -1]), r.choice([0, 1, 5, 40, -1, -(2 ** 63)]))
            h.fd_filestat_get(f, snap=False)
            h.fd_pread(f, [30, 40], 0)
        hs.append(h)
    # flags changed while files are open
    for i in range(60 if deep else 16):
        tree, dirs = file_world(r)
        h = m.hist(r, tree, dirs)
        k, g = {'fd': h.path_open(3, 'a', 0, ALL_I, 0, r.choice([0, APPEND]))}, {'fd': h.path_open(3, 'h', 0, ALL_I, 0)}
        for j in range(5):
            h.fd_fdstat_set_flags(r.choice([k, g]), r.choice([0, 1, 4, 5, 1, 0, 2, 16]))
            h.fd_fdstat_get(k, snap=False)
            f = r.choice([k, g])
            h.fd_seek(f, r.choice([0, 2]), 0, snap=False)
            h.fd_write(f, [r.randbytes(2)])
            h.fd_tell(f, snap=False)
            h.fd_read(f, [2], snap=False)
        hs.append(h)
    return hs


@fam('C33')
def g_large(m, r, deep):
    """More than a page, more than a host buffer."""
    hs = []
    for n in (4096, 8192, 8193, 65536, 70001) + ((131072, 300000) if deep else ()):
        body = r.randbytes(n)
        tree = [('d', 'd', ''), ('f', 'd/a', body)]
        h = m.hist(r, tree, {'/': 'd'}, pages=8)
        h.snapall = False
        k = {'fd': h.path_open(3, 'a')}
        h.fd_read(k, [n // 2, n])
        h.fd_tell(k)
        h.fd_pread(k, [n + 10], 7)
        h.fd_filestat_get(k)
        w = {'fd': h.path_open(3, 'w', CREAT)}
        h.fd_write(w, [r.randbytes(n // 3), b'', r.randbytes(n - n // 3)])
        h.fd_pread(w, [n], 0)
        h.fd_pwrite(w, [r.randbytes(5000)], n - 100)
        h.fd_filestat_get(w, snap=True)
        hs.append(h)
    return hs


@fam('C33')
def g_far(m, r, deep):
    """Files longer than 32 bits can say, most of them a hole."""
    hs = []
    for real in (2 ** 31 - 3, 2 ** 31, 2 ** 32 - 3, 2 ** 32, 2 ** 32 + 50, 2 ** 33 - 3, 2 ** 40 + 7) * (2 if deep else 1):
        for fl in (0, APPEND):
            tree, dirs = file_world(r)
            h = m.hist(r, tree, dirs)
            h.distant(200, real)
            k, g = {'fd': h.path_open(3, 'a', 0, ALL_I, 0, fl)}, {'fd': h.path_open(3, 'h', 0, ALL_I, 0)}
            h.fd_pwrite(g, [b'far', b'away'], 200 + r.randrange(9))
            for j in range(10):
                f = r.choice([k, g])
                off = 200 + r.choice([0, 1, 2, 3, 4, 5, 8, 12, 30])
                x = r.randrange(9)
                if x == 0:
                    h.fd_pwrite(g, [r.randbytes(r.choice([1, 4, 9]))], r.choice([off, off, 3, 50]))
                elif x == 1:
                    h.fd_pread(f, [3, r.randrange(20)], r.choice([off, off, 1, 40]))
                elif x == 2:
                    h.fd_seek(f, off, 0)
                    h.fd_write(f, [r.randbytes(2), r.randbytes(r.randrange(5))])
                    h.fd_tell(f)
                elif x == 3:
                    h.fd_seek(f, off, 0)
                    h.fd_read(f, [r.randrange(6), 7])
                    h.fd_tell(f)
                elif x == 4:
                    h.fd_seek(f, off, 0)
                    h.fd_seek(f, r.choice([0, 1, 5]), 1)
                    h.fd_seek(f, r.choice([0, 3, 40]), 2)
                    h.fd_tell(f)
                elif x == 5:
                    h.fd_filestat_set_size(f, r.choice([off, off, 30]))
                    h.fd_pwrite(g, [b'end'], 200 + r.randrange(9))
                elif x == 6:
                    h.fd_seek(f, r.choice([0, 4, 90]), 0)
                    h.fd_read(f, [5, 6])
                    h.fd_tell(f)
                elif x == 7:
                    h.fd_advise(f, off, r.choice([0, 1, 100]), r.randrange(6))
                    h.fd_fdstat_set_flags(k, r.choice([0, APPEND]))
                else:
                    h.path_filestat_get(3, 1, 'a')
                h.fd_filestat_get(f)
            hs.append(h)
    return hs


@fam('C33', 'C37')
def g_many(m, r, deep):
    """Lists of many buffers, more than the host takes at once."""
    hs = []
    for n in (15, 16, 17, 32, 33, 64, 65, 100, 255, 256, 257, 1023, 1024, 1025) + ((1100, 2000) if deep else ()):
        for how in ('read', 'pread', 'write', 'pwrite'):
            if n > 300 and how[0] == 'p' and not deep:
                continue
            tree = [('d', 'd', ''), ('f', 'd/a', r.randbytes(300))]
            h = m.hist(r, tree, {'/': 'd'}, pages=4)
            k = {'fd': h.path_open(3, 'a', 0, ALL_I, 0, r.choice([0, APPEND]) if how == 'write' else 0, snap=False)}
            ls = [r.choice([0, 1, 1, 2]) for _ in range(n)]
            ls[-1] = 3
            if how == 'read':
                h.fd_seek(k, r.choice([0, 7]), 0, snap=False)
                h.fd_read(k, ls, snap=False)
            elif how == 'pread':
                h.fd_pread(k, ls, 5, snap=False)
            elif how == 'write':
                h.fd_write(k, [r.randbytes(x) for x in ls])
            else:
                h.fd_pwrite(k, [r.randbytes(x) for x in ls], 290)
            h.fd_tell(k, snap=False)
            h.fd_filestat_get(k)
            hs.append(h)
    return hs


@fam('C34')
def g_errors(m, r, deep):
    """Each tree operation on each pair of kinds of things."""
    hs = []
    kinds = ['a', 'b', 'h', 's', 'e', 's/t', 'l', 'm', 'n', 's/k', 'new', 'a/x', 'new/x', 's/c', 'e/', 'a/', 's/', 'm/', 'l/', 'new/', 'e/.', '.', 's/t/..', 's/new', 'm/c', 'm/t']
    pairs = [(f, x, y) for f in ('rename', 'link', 'linkf') for x in kinds for y in kinds]
    r.shuffle(pairs)
    if not deep:
        pairs = pairs[:900]
    for c in chunks(pairs, 6):
        tree, dirs = plain_world(r)
        h = m.hist(r, tree, dirs)
        for f, x, y in c:
            if f == 'rename':
                h.path_rename(3, x, 3, y)
            else:
                h.path_link(3, int(f == 'linkf'), x, 3, y)
        hs.append(h)
    for n in range(16):
        for c in chunks(kinds, 7):
            tree, dirs = plain_world(r)
            h = m.hist(r, tree, dirs)
            for x in c:
                k = h.path_open(3, x, n, r.choice([ALL_I, ALL_B, R['read']]), ALL_I, 0, r.choice([0, 1]))
                h.fd_filestat_get({'fd': k}, snap=False)
            hs.append(h)
    names = ['é', 'a b', 'x' * 255, 'né' * 85, '\U0001f600', '\\', '"q"', '.h', '...', '*', '\t', '~', 'A', 'ａ', 'e\u0301', '-', '\x7f', '%41']
    for c in chunks(names, 6):
        tree, dirs = plain_world(r)
        h = m.hist(r, tree, dirs)
        for n in c:
            h.path_open(3, n, CREAT)
            h.path_filestat_get(3, 1, n)
            h.path_create_directory(3, n)
            h.path_rename(3, n, 3, 's/' + n)
            h.path_symlink(n, 3, n)
            h.path_readlink(3, n, 600)
            h.path_readlink(3, n, 3)
            h.path_unlink_file(3, 's/' + n)
            h.path_open(3, n, CREAT, lf=1)
        hs.append(h)
    for c in chunks(['a/', 's/', 's//', './a', 's/.', './', '.', 's/../a', 'none//', 's//c', ' ', 'a ', 'b\n', 's/./c/', 'l/', 'e/../s/t/'], 4):
        tree, dirs = plain_world(r)                          # the text of a link is kept as it is
        h = m.hist(r, tree, dirs)
        for i, t in enumerate(c):
            h.path_symlink(t, 3, 'L%d' % i)
            h.path_readlink(3, 'L%d' % i, 60)
            h.path_filestat_get(3, 0, 'L%d' % i)
            h.path_filestat_get(3, 1, 'L%d' % i)
            h.path_open(3, 'L%d' % i)
            h.path_rename(3, 'L%d' % i, 3, 'e/M%d' % i)
            h.path_readlink(3, 'e/M%d' % i, 60)
        hs.append(h)
    # files whose name goes away while they are open
    for i in range(20):
        tree, dirs = plain_world(r)
        h = m.hist(r, tree, dirs)
        k = {'fd': h.path_open(3, r.choice(['a', 'b', 's/c', 's', 'e']), 0, ALL_I & ~R['write'] if r.random() < 0.5 else ALL_I)}
        for j in range(7):
            x = r.choice(['stat', 'read', 'write', 'size', 'times', 'unlink', 'rename', 'rename over', 'again', 'sync'])
            p = r.choice(['a', 'b', 's/c', 's', 'e', 'h'])
            if x == 'unlink':
                h.path_unlink_file(3, p)
                h.path_remove_directory(3, p)
            elif x == 'rename':
                h.path_rename(3, p, 3, r.choice(['w', 's/w', 'e/w']))
            elif x == 'rename over':
                h.path_rename(3, r.choice(['a', 'b', 'h']), 3, p)
            elif x == 'again':
                h.path_open(3, p, CREAT)
            else:
                NAMED_CALLS[x](h, k)
            h.fd_filestat_get(k)
        hs.append(h)
    return hs


@fam('C34')
def g_times(m, r, deep):
    hs = []
    for fl in range(16):
        for how in ('fd', 'path', 'link', 'dir'):
            tree, dirs = plain_world(r)
            h = m.hist(r, tree, dirs)
            k = {'fd': h.path_open(3, 'a')}
            for a, b in ((0, 0), (NOW, NOW + 123456789), (1, 999999999), (10 ** 18 + 7, 5), (r.randrange(2 ** 60), r.randrange(2 ** 60))):
                # times from before, of every precision, which flags may leave alone
                q = r.choice([1, 1, 10 ** 3, 10 ** 9])
                h.path_filestat_set_times(3, 1 if how != 'link' else 0, {'fd': 'a', 'path': 'a', 'link': 'l', 'dir': 's'}[how], r.randrange(2 ** 60) // q * q, r.randrange(2 ** 60) // q * q, 5)
                if how == 'fd':
                    h.fd_filestat_set_times(k, a, b, fl)
                else:
                    h.path_filestat_set_times(3, r.choice([0, 1]) if how != 'link' else 0, {'path': 'a', 'link': 'l', 'dir': 's'}[how], a, b, fl)
                h.path_filestat_get(3, 0, 'l', snap=False)
                h.path_filestat_get(3, 0, 's', snap=False)
                h.path_filestat_get(3, 1, 'l', snap=False)
                h.fd_filestat_get(k, snap=False)
            for c in h.job['calls']:
                c['ct'] = True
            hs.append(h)
    return hs


@fam('C35')
def g_list(m, r, deep):
    """Listings of directories of every size with every size of buffer."""
    hs = []
    sizes = [24, 25, 26, 27, 28, 30, 48, 49, 50, 51, 52, 53, 60, 75, 76, 77, 78, 79, 100, 101, 128, 200, 279, 280, 300, 512, 1000, 4096]
    for i in range(240 if deep else 70):
        n = r.choice([0, 0, 1, 2, 3, 4, 5, 8, 13, 20])
        names = set()
        while len(names) < n:
            x = r.random()
            if x < 0.5:
                names.add(bytes(r.choice(b'abcXYZ019._-') for _ in range(r.choice([1, 1, 2, 3, 5, 8]))))
            elif x < 0.6:
                names.add('é'.encode() * r.choice([1, 2, 5]))
            elif x < 0.7:
                names.add(b'n' * r.choice([100, 254, 255]))
            elif x < 0.8:
                names.add(bytes([r.choice([0x80, 0xff, 0xc3]), 0x41 + len(names)]))
            else:
                names.add('日本語'.encode() + bytes([0x41 + len(names)]))
        names -= {b'.', b'..'}
        tree = [('d', 'd', ''), ('d', 'd/w', '')]
        for x in sorted(names):
            k = r.choice('ffdll')
            tree.append((k, b'd/w/' + x, b'' if k == 'd' else r.choice([b'zz', b'w', b'.', b'../..'])))
        h = m.hist(r, tree, {'/': 'd'})
        k = {'fd': h.path_open(3, 'w', DIRECTORY, ALL_B)}
        if r.random() < 0.5:
            for x in sorted(names)[:3]:
                try:
                    h.path_filestat_get(3, 0, b'w/' + x, snap=False)
                except UnicodeDecodeError:
                    pass
        size = r.choice(sizes)
        total = sum(24 + len(x) for x in names) + 51
        need = max([len(x) for x in names] + [2]) + 24
        j = (-1, 0)
        for _ in range(min(60, 3 + (total // max(1, size - need) if size > need else n + 3))):
            j = (h.fd_readdir(k, size if r.random() < 0.9 else r.choice(sizes + [0, 1, 7, 23]), j, snap=False), -1 if r.random() < 0.85 else r.randrange(3))
            if r.random() < 0.04:
                j = (-1, 0)
        h.fd_readdir(k, 4096, j)
        for raw in (2, n + 2, n + 3, 2 ** 31, 2 ** 63, 2 ** 64 - 1):
            h.fd_readdir(k, 300, raw=raw, snap=False)
        hs.append(h)
    # the directory changes between two listings
    for i in range(60 if deep else 20):
        tree, dirs = plain_world(r)
        h = m.hist(r, tree, dirs)
        for j in range(4):
            k = h.fd_readdir(3, r.choice([60, 80, 400]))
            h.fd_readdir(3, 400, (k, r.choice([-1, 0, 1])))
            x = r.choice(['b', 'a', 'x', 'y', 's/c'])
            r.choice([lambda: h.path_unlink_file(3, x), lambda: h.path_open(3, x, CREAT), lambda: h.path_create_directory(3, x), lambda: h.path_rename(3, x, 3, 'y'),
                      lambda: h.path_symlink('q', 3, x)])()
            h.fd_readdir(3, 500, (k, r.choice([-1, 0, 1])))
        h.fd_readdir(3, 1000)
        hs.append(h)
    # more entries than fit a byte
    for n, size in [(300, 2400)] + [(300, 1000), (600, 4000)] * deep:
        h = m.hist(r, [('d', 'd', ''), ('d', 'd/w', '')] + [('f', b'd/w/%x' % i, b'') for i in range(n)], {'/': 'd'})
        k = {'fd': h.path_open(3, 'w', DIRECTORY, ALL_B)}
        j = (-1, 0)
        for _ in range(n * 27 // size + 3):
            j = (h.fd_readdir(k, size, j, snap=False), -1)
        hs.append(h)
    # a directory emptied, filled or changed while it is being listed, from any entry delivered
    for i in range(160 if deep else 50):
        names = r.sample([b'a', b'bb', b'c', b'd.txt', b'e', b'f', 'gé'.encode(), b'h' * 40, b'i', b'j', b'k', b'.l'], r.randrange(2, 10))
        tree = [('d', 'd', ''), ('d', 'd/w', '')] + [(r.choice('ffdl'), b'd/w/' + x, b'') for x in names]
        tree = [(k, x, b'zz' if k == 'l' else y) for k, x, y in tree]
        kind = {x[4:]: k for k, x, _ in tree[2:]}
        h = m.hist(r, tree, {'/': 'd'})
        k = {'fd': h.path_open(3, 'w', DIRECTORY, ALL_B)}
        size = r.choice([26, 30, 52, 64, 64, 80, 128, 200])
        left, j, how = sorted(names), (-1, 0), r.choice(['rm', 'rm', 'rename', 'create', 'any', 'back'])
        if r.random() < 0.3:
            left.reverse()
        for step in range(14):
            j = (h.fd_readdir(k, size, j, snap=False), -1 if r.random() < 0.8 else 0)
            if r.random() < 0.15:
                other = {'fd': h.path_open(3, 'w', DIRECTORY, ALL_B)}
                h.fd_readdir(other, 300)
                if r.random() < 0.5:
                    h.fd_renumber(k, other)
                    k = other
            x, w = None, how if how != 'any' else r.choice(['rm', 'rename', 'create', 'back', ''])
            if w in ('rm', 'rename', 'back') and left:
                x = left.pop(0) if r.random() < 0.8 else left.pop()
            if w in ('rm', 'back') and x:
                (h.path_remove_directory if kind[x] == 'd' else h.path_unlink_file)(3, b'w/' + x)
                if w == 'back' and r.random() < 0.6:
                    h.path_create_directory(3, b'w/' + x)
            elif w == 'rename' and x:
                h.path_rename(3, b'w/' + x, 3, b'w/' + r.choice([b'zzz%d' % step, b'A%d' % step]))
            elif w == 'create':
                h.path_open(3, 'w/%s%d' % (r.choice('Az.'), step), CREAT)
            if r.random() < 0.08:
                j = (-1, 0)
        h.fd_readdir(k, 600, j)
        h.fd_readdir(k, 600)
        hs.append(h)
    return hs


@fam('C36', 'C37')
def g_strings(m, r, deep):
    """Arguments and environments of every shape."""
    hs = []
    strs = ['', 'a', 'prog', 'x y', 'é', '日本語', '\U0001f600', 'a=b', '--k=v', '\n', 'x' * 1000, 'é' * 300, '"', '\x7f', '\udcff\udc80', 'a\udcc3']
    for i in range(200 if deep else 70):
        args = [r.choice(strs) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 20]))]
        envs = {r.choice(['K', 'PATH', 'é', 'a', 'b', 'Z%d' % j, '日', 'K\udcff']): r.choice(strs) for j in range(r.choice([0, 0, 1, 2, 5, 12]))}
        tree, dirs = plain_world(r)
        h = m.hist(r, tree, dirs, args=args, envs=envs)
        h.edge = 0.15
        for j in range(5):
            f = r.choice(['args_get', 'environ_get', 'args_sizes_get', 'environ_sizes_get'])
            getattr(h, f)(snap=False)
        h.args_get(snap=False)
        h.environ_get(snap=False)
        h.args_sizes_get(snap=False)
        h.environ_sizes_get(snap=False)
        hs.append(h)
    for n in (255, 256, 257, 300, 1030) if deep else (256, 300):     # many of them, and long ones
        for long in (0, 1):
            tree, dirs = plain_world(r)
            mk = lambda i: '%d' % i + ('x' * r.randrange(40) if long else '')
            h = m.hist(r, tree, dirs, args=[mk(i) for i in range(n)], envs={mk(i): mk(i) for i in range(n)}, pages=4)
            for f in ('args_sizes_get', 'args_get', 'environ_sizes_get', 'environ_get'):
                getattr(h, f)(snap=False)
            hs.append(h)
    tree, dirs = plain_world(r)
    h = m.hist(r, tree, dirs, args=['x' * 65535, 'y' * 65536, 'z' * 66000], envs={'L': 'q' * 65534, 'M': ''}, pages=8)
    for f in ('args_sizes_get', 'args_get', 'environ_sizes_get', 'environ_get'):
        getattr(h, f)(snap=False)
    hs.append(h)
    return hs


@fam('C36')
def g_preopens(m, r, deep):
    """The directories the embedder gave, by number, name and content."""
    hs = []
    for i in range(80 if deep else 30):
        tree = [('d', 'd%d' % k, '') for k in range(4)] + [('f', 'd%d/f%d' % (k, k), b'%d' % k) for k in range(4)]
        names = r.sample(['/', 'a', 'b', 'a/b', '/tmp', '/tmp/x', 'é', '日本', 'x' * 200, 'data', '.', 'z y', 'q\udcff'], r.choice([1, 2, 3, 4]))
        dirs = {n: 'd%d' % k for k, n in enumerate(names)}
        h = m.hist(r, tree, dirs)
        for f in range(3 + len(names) + 1):
            h.fd_prestat_get(f, snap=False)
            for n in (0, 1, 2, 3, 4, 6, 199, 200, 201):
                h.fd_prestat_dir_name(f, n, snap=False)
            h.fd_readdir(f, 200, snap=False)
        hs.append(h)
    return hs


EVERY = dict(NAMED_CALLS, args=lambda h, f: h.args_get(), args2=lambda h, f: h.args_sizes_get(), env=lambda h, f: h.environ_get(), env2=lambda h, f: h.environ_sizes_get(),
             time=lambda h, f: h.clock_time_get(1), res=lambda h, f: h.clock_res_get(1), random=lambda h, f: h.random_get(40), read2=lambda h, f: h.fd_read(f, [2, 0, 3]),
             write2=lambda h, f: h.fd_write(f, [b'ab', b'', b'c']), stdout=lambda h, f: h.fd_write(1, [b'ab', b'c']), stdin=lambda h, f: h.fd_read(0, [2, 3]),
             poll2=lambda h, f: h.poll_oneoff([dict(ty=0, ud=1, id=1, to=0), dict(ty=0, ud=2, id=0, to=0)]))


@fam('C33', 'C37')
def g_oob(m, r, deep):
    """Every buffer of every call outside memory, in several ways."""
    hs = []
    for n in EVERY:
        for kind in (('dir', 'file') if n in ('fdstat', 'times', 'stat') else ('dir',) if n in PATHY else ('file',)):
            probe = m.hist(r, *plain_world(r), args=['p', 'q'], envs={'A': 'b'})
            EVERY[n](probe, 3)
            for k in range(1, probe.nth + 1):
                for how in ('end', 'last', 'past', 'neg', 'top', 'half'):
                    h = m.hist(r, *plain_world(r), args=['p', 'q'], envs={'A': 'b'}, std={0: b'hello'})
                    f = {'fd': h.path_open(3, '.' if kind == 'dir' else 'a', DIRECTORY if kind == 'dir' else 0, ALL_B if kind == 'dir' else ALL_I)}
                    h.oob = (k, how)
                    EVERY[n](h, f)
                    h.oob = None
                    if kind == 'file':
                        h.fd_tell(f)
                        h.fd_read(f, [3])
                        h.fd_pread(f, [9], 0)
                    h.fd_read(0, [9])
                    hs.append(h)
    return hs


PATHY = ('prestat', 'prename', 'readdir', 'mkdir', 'pstat', 'ptimes', 'link', 'link2', 'open', 'creat', 'creat old', 'trunc', 'readlink', 'rename', 'rename2', 'symlink', 'unlink',
         'rmdir')
HUGE = [0xffffffff, 0x80000000, 0x7fffffff, 0x20000000, 0x10001]


@fam('C37')
def g_huge(m, r, deep):
    """Counts and lengths far beyond memory."""
    hs = []

    def add(f, a, loc, **sem):
        h = m.hist(r, *plain_world(r), args=['p'], std={0: b'hello'})
        k = {'fd': h.path_open(3, 'a')}
        h.begin()
        h.loc = [[x, y, s] for x, y, s in loc]
        h.emit(f, [k if x == 'fd' else x for x in a], guard=20, **dict(sem, **({'fd': k} if 'fd' in a else {})))
        h.fd_tell(k)
        h.fd_pread(k, [9], 0)
        hs.append(h)
    for n in HUGE:
        add('fd_read', ['fd', 8, n, 600], [(8, 8 * n, False), (600, 4, False)], out=600)
        add('fd_write', ['fd', 8, n, 600], [(8, 8 * n, False), (600, 4, False)], out=600)
        add('fd_pread', ['fd', 8, n, 0, 600], [(8, 8 * n, False), (600, 4, False)], out=600)
        add('fd_pwrite', ['fd', 8, n, 0, 600], [(8, 8 * n, False), (600, 4, False)], out=600)
        add('random_get', [8, n], [(8, n, False)], buf=8, len=clip(n))
        add('path_create_directory', [3, 8, n], [(8, n, False)], fd=3)
        add('path_open', [3, 1, 8, n, 0, 2, 2, 0, 600], [(8, n, False), (600, 4, False)], fd=3)
        add('path_unlink_file', [3, 8, n], [(8, n, False)], fd=3)
        add('path_symlink', [8, n, 3, 9, 1], [(8, n, False), (9, 1, False)], fd=3)
        add('path_rename', [3, 8, n, 3, 9, 1], [(8, n, False), (9, 1, False)], fd=3, fd2=3)
        add('poll_oneoff', [8, 600, n, 700], [(8, 48 * n, False), (600, 32 * n, True), (700, 4, False)])
        add('fd_readdir', [3, 8, n, 0, 60000], [(8, n, True), (60000, 4, False)], fd=3)
        add('fd_prestat_dir_name', [3, 8, n], [(8, n, True)], fd=3)
        add('path_readlink', [3, 8, 1, 600, n, 700], [(8, 1, False), (600, n, True), (700, 4, False)], fd=3)
    return hs


@fam('C37')
def g_random(m, r, deep):
    """Random bytes: as many as asked, wherever they are asked for."""
    hs = []
    for c in chunks(list(range(0, 34)) + [63, 64, 65, 127, 128, 255, 256, 257, 299], 6):
        tree, dirs = file_world(r)
        h = m.hist(r, tree, dirs)
        h.snapall = False
        for edge in (0.0, 0.5):                              # anywhere; at the first or the last byte
            h.edge = edge
            for n in c:
                h.random_get(n)
        hs.append(h)
    return hs


@fam('C37')
def g_values(m, r, deep):
    """Flags, clocks, whences and modes outside their definition: an error code, never an abort."""
    hs = []
    odd = [4, 5, 6, 7, 8, 16, 31, 32, 64, 127, 128, 255, 256, 65535, 65536, -1, -(2 ** 31), 2 ** 31 - 1]
    for v in odd:
        h = m.hist(r, *plain_world(r))
        k = {'fd': h.path_open(3, 'a')}
        h.clock_time_get(v)
        h.clock_res_get(v)
        h.fd_seek(k, 0, v)
        h.fd_advise(k, 0, 0, v)
        h.proc_raise(v)
        h.fd_close(v) if v > 4 else None
        h.fd_renumber(v, v) if v > 4 else None
        if v > 15:
            h.path_open(3, 'a', v & 0xffff if v > 0 else v)
            h.path_open(3, 'n2', (v & 0xffff if v > 0 else v))
        h.path_open(3, 'a', 0, fl=v) if v > 31 else None
        h.fd_fdstat_set_flags(k, v & 0xffff)
        h.fd_filestat_set_times(k, 1, 2, v & 15)
        h.path_filestat_set_times(3, 1, 'a', 1, 2, v & 15)
        h.poll_oneoff([dict(ty=0, ud=3, id=v & 0xffffffff, to=0)])
        h.poll_oneoff([dict(ty=v & 255, ud=3, fd=0)]) if v & 255 > 2 else None
        h.fd_fdstat_get(k)
        hs.append(h)
    return hs


MS = 1000000


def clk(ms, id=1, ud=7, **k):
    return dict(ty=0, ud=ud, id=id, to=int(ms * MS), **k)


def at(ms, id=1, ud=7):
    """An absolute timeout, so many milliseconds from now (or ago)."""
    return dict(ty=0, ud=ud, id=id, to=0, abs=int(ms * MS), flags=1)


FAR = 20000


@fam('C38')
def g_poll(m, r, deep):
    """Timeouts, relative and absolute, and descriptors that are ready or not."""
    hs = []
    T = [0, 0.001, 1, 12, 30]
    sets = [[clk(t, c)] for t in T for c in (0, 1)] + [[at(t, c)] for t in [-FAR, -1, -0.001, 0, 5, 25] for c in (0, 1)]
    sets += [[clk(a, 1, 2), clk(b, 0, 1 << 63)] for a, b in [(0, FAR), (FAR, 0), (10, FAR), (FAR, 10), (0, 0), (5, 15), (15, 5)]]
    sets += [[at(a, c, 2), clk(b, d, 3)] for a, b, c, d in [(-5, FAR, 0, 1), (-5, FAR, 1, 0), (FAR, 8, 0, 1), (FAR, 8, 1, 1), (8, FAR, 0, 0), (8, FAR, 1, 0), (-FAR, 0, 1, 1), (-3, 9, 0, 0)]]
    sets += [[at(a, c, 2), at(b, 1 - c, 3)] for a, b in [(-5, 9), (9, -5), (6, FAR), (FAR, 6), (-2, -8)] for c in (0, 1)]
    sets += [[clk(0, i & 1, 1000 + i) for i in range(n)] for n in (3, 8, 40)]
    sets += [[clk(0 if i == k else FAR, i & 1, (1000 + i) << 40) for i in range(5)] for k in range(5)]
    sets += [[at(-(1 << 40), 0, 5)], [dict(ty=0, ud=9, id=1, to=0, flags=1)], [dict(ty=0, ud=9, id=0, to=1, flags=1), clk(FAR)], [clk(3, 1, 0)], [clk(3, 1, (1 << 64) - 1)]]
    sets += [[dict(ty=0, ud=9, id=c, to=(1 << 64) - 1), clk(4, 1 - c, 8)] for c in (0, 1)] + [[dict(ty=0, ud=9, id=c, to=1 << 63, flags=1), clk(4, 1 - c, 8)] for c in (0, 1)]
    for s in sets:
        h = m.hist(r, *plain_world(r))
        h.poll_oneoff(s)
        h.clock_time_get(1)
        hs.append(h)
    # descriptors
    rd, wr = (lambda f, ud=21: dict(ty=1, ud=ud, fd=f)), (lambda f, ud=22: dict(ty=2, ud=ud, fd=f))
    for mode, inp, eof in [('pipe', b'xyz', True), ('pipe', b'', True), ('host', b'xyz', True), ('host', b'', True), ('hpipe', b'xyz', True), ('hpipe', b'', True), ('hpipe', b'xyz', False),
                           ('hpipe', b'', False)]:
        quiet = mode == 'hpipe' and not eof
        for order in (0, 1):
            h = m.hist(r, *plain_world(r), std={0: inp}, stdmode=mode, eof=eof)
            h.fd_fdstat_get(0)
            a, d = {'fd': h.path_open(3, 'a')}, {'fd': h.path_open(3, 's', DIRECTORY, ALL_B)}
            n = {'fd': h.path_open(3, 'b', 0, ALL_I & ~R['poll'])}

            def go(*s):
                h.poll_oneoff(list(s) if order == 0 else list(s)[::-1])
            go(rd(a), clk(FAR))
            go(wr(a), clk(FAR, 0))
            go(rd(a), wr(a))
            go(rd(a), wr(a, 77), rd(a, 78), at(FAR, 0))
            go(rd(a), wr(a, 77), rd(d, 78), wr(a, 79))
            for _ in range(3):
                subs = [rd(a), rd(a), rd(d), wr(a), wr(1), wr(2), clk(0), clk(FAR), at(-3), at(FAR, 0)] + ([rd(0)] if inp else [])
                subs = [dict(x, ud=30 + i) for i, x in enumerate(r.choice(subs) for _ in range(r.randrange(2, 9)))]
                if any(x['ty'] or x['to'] == 0 or 'abs' in x for x in subs):
                    go(*subs)
            go(rd(0), clk(FAR if inp else 9))
            go(wr(1), clk(FAR))
            go(wr(2, 5), wr(1, 6))
            go(rd(0), wr(1), rd(a, 30), clk(0))
            go(rd(0), clk(6))
            go(rd(0), at(-6))
            go(rd(n), clk(0))
            go(wr(n), rd(a))
            go(rd(99), clk(0))
            go(wr(99), clk(0))
            go(rd(a), clk(0, 2))
            go(rd(a), dict(ty=3, ud=1))
            go(rd(a), dict(ty=255, ud=1))
            go(rd(d), clk(0))
            if inp:
                h.fd_read(0, [2])
                go(rd(0), clk(FAR))
                h.fd_read(0, [9])
                go(rd(0), clk(11))
                if eof:
                    h.fd_read(0, [9])
                    go(rd(0), clk(11))
            h.fd_close(a)
            go(rd(a), clk(FAR))
            go(clk(0), wr(a))
            q1, q2 = {'fd': h.path_open(3, 'a')}, {'fd': h.path_open(3, 'a')}
            h.fd_renumber(1, q1)
            go(wr(q1), clk(FAR))
            go(wr(1), clk(FAR))
            h.fd_write(q1, [b'out'])
            h.fd_renumber(0, q2)
            go(rd(q2), clk(8))
            go(rd(0), clk(FAR))
            hs.append(h)
    # a subscription that cannot be: the others do not hide it
    for good in ([], [clk(0, 1, 1)], [rd('f', 2)], [wr(1, 3), clk(0, 0, 4)]):
        for bad in [clk(t, c, 50) for c in (2, 3, 4, 255, 1 << 16, 0xffffffff) for t in (0, 1, 5)] + [at(t, c, 50) for c in (2, 3) for t in (-5, 5)] + [dict(ty=t, ud=50) for t in (3, 4, 128, 255)]:
            if r.random() < (1 if deep else 0.5):
                h = m.hist(r, *plain_world(r))
                f = {'fd': h.path_open(3, 'a')}
                x = [dict(y, fd=f) if y.get('fd') == 'f' else y for y in good]
                k = r.randrange(len(x) + 1)
                h.poll_oneoff(x[:k] + [bad] + x[k:])
                hs.append(h)
    h = m.hist(r, *plain_world(r))
    h.poll_oneoff([])
    h.fd_fdstat_set_rights(0, 2, 0)
    h.poll_oneoff([rd(0), clk(FAR)])
    h.poll_oneoff([clk(FAR), wr(0)])
    hs.append(h)
    return hs


@fam('C38')
def g_clocks(m, r, deep):
    """Clock queries of every identifier; time goes on."""
    hs = []
    for k in range(6):
        h = m.hist(r, *plain_world(r))
        for _ in range(12):
            i = r.choice([0, 1, 0, 1, 2, 3])
            h.clock_time_get(i)
            if r.random() < 0.4:
                h.clock_res_get(i)
            if r.random() < 0.2:
                h.poll_oneoff([clk(r.choice([0, 1, 3]), r.randrange(2))])
            if r.random() < 0.2:
                h.sched_yield()
        hs.append(h)
    for i in list(range(8)) + [255, 256, 1 << 16, 1 << 24, -1, -2, -(1 << 31), (1 << 31) - 1]:
        h = m.hist(r, *plain_world(r))
        h.clock_time_get(i)
        h.clock_res_get(i)
        h.poll_oneoff([dict(ty=0, ud=1, id=i & 0xffffffff, to=0)])
        h.poll_oneoff([clk(0), dict(ty=0, ud=1, id=i & 0xffffffff, to=0, flags=1)])
        hs.append(h)
    return hs


SOCK_R = R['read'] | R['write'] | R['poll'] | R['setflags'] | R['shut'] | R['accept'] | R['fstat']


class Socks:
    """A history over sockets that never waits for what does not come: it keeps a
    lower bound of what has arrived."""

    def __init__(self, h, r, socks):
        self.h, self.r = h, r
        self.s = {}                          # descriptor as the history names it -> state
        base = 3 + len(h.dirs)
        for k, (ty, b, i, nb) in enumerate(socks):
            self.s[base + k] = dict(ty=ty, p=k, low=0, eof=False, nb=nb, alive=True, peer=True, q=0, sent=False)
        self.np = 100

    def pick(self, ty=None):
        xs = [f for f, x in self.s.items() if x['alive'] and (ty is None or x['ty'] in ty)]
        return self.r.choice(xs) if xs else None

    def feed(self, f, n=None):
        x, r = self.s[f], self.r
        n = r.choice([1, 2, 3, 5, 9, 40, 300]) if n is None else n
        if x['peer'] and not x['eof']:
            self.h.peer('send', x['p'], r.randbytes(n))
            x['low'] += 1 if x['ty'] == 'dgram' else n
            return True
        return False

    def recv(self, f, lens=None, fl=None, read=False):
        x, r = self.s[f], self.r
        lens = [r.choice([0, 1, 2, 4, 8, 50]) for _ in range(r.choice([1, 1, 2, 3]))] if lens is None else lens
        fl = (r.choice([0, 0, 0, 1, 2, 2, 3]) if fl is None else fl) if not read else 0
        want = sum(lens)
        if want == 0 and (read or x['ty'] != 'dgram' or not x['nb']):
            lens, want = [4], 4
        if not x['nb']:
            need = want if fl & 2 and x['ty'] == 'stream' else 1
            if not x['eof'] or x['ty'] == 'dgram':
                while x['low'] < need:
                    if not self.feed(f):
                        return
        if read:
            self.h.fd_read(f, lens)
        else:
            self.h.sock_recv(f, lens, fl)
        if not fl & 1:
            x['low'] = max(0, x['low'] - (1 if x['ty'] == 'dgram' else want))

    def send(self, f, write=False):
        r = self.r
        ch = [r.randbytes(r.choice([0, 1, 3, 10, 200])) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        (self.h.fd_write if write else self.h.sock_send)(f, ch)

    def accept(self, f, fl=None):
        x, r = self.s[f], self.r
        if not x['nb'] and x['q'] <= 0:
            self.connect(f)
        fl = r.choice([0, 4]) if fl is None else fl
        k = self.h.sock_accept(f, fl)
        if x['q'] > 0:
            x['q'] -= 1
            p, pre = x['queue'].pop(0)
            self.s[Ref(k)] = dict(ty='stream', p=p, low=pre, eof=False, nb=bool(fl), alive=True, peer=True, q=0, sent=False)
            return Ref(k)

    def connect(self, f):
        x = self.s[f]
        self.np += 1
        self.h.peer('connect', self.np, listener=x['p'])
        x['q'] += 1
        pre = 0
        if self.r.random() < 0.4:
            d = self.r.randbytes(self.r.choice([1, 4, 20]))
            self.h.peer('send', self.np, d)
            pre = len(d)
        x.setdefault('queue', []).append((self.np, pre))

    def step(self):
        h, r = self.h, self.r
        x = r.random()
        data = ('stream', 'dgram')
        f = self.pick(data)
        l = self.pick(('listen',))
        if x < 0.16 and f is not None:
            self.feed(f)
        elif x < 0.42 and f is not None:
            self.recv(f)
        elif x < 0.50 and f is not None:
            self.recv(f, read=True)
        elif x < 0.64 and f is not None:
            self.send(f, r.random() < 0.3)
        elif x < 0.69 and f is not None and self.s[f]['ty'] == 'stream':
            how = r.choice([1, 2, 2, 3, 0, 4, 255])
            if how in (1, 3):
                self.s[f].update(alive=False)
            h.sock_shutdown(f, how)
        elif x < 0.72 and f is not None and self.s[f]['ty'] == 'stream' and self.s[f]['peer']:
            if r.random() < 0.6:
                if not self.s[f]['eof']:
                    h.peer('shut', self.s[f]['p'])
            else:
                h.peer('close', self.s[f]['p'])
                self.s[f]['peer'] = False
            self.s[f]['eof'] = True
        elif x < 0.76 and l is not None:
            self.connect(l)
        elif x < 0.84 and l is not None:
            self.accept(l)
        elif x < 0.87 and f is not None:
            h.fd_close(f)
            self.s[f]['alive'] = False
        elif x < 0.89 and f is not None:
            g = self.pick(data)
            if g is not f:
                h.fd_renumber(f, g)
                self.s[g], self.s[f] = dict(self.s[f]), dict(self.s[f], alive=False)
        elif x < 0.91 and f is not None:
            nb = r.random() < 0.5
            h.fd_fdstat_set_flags(f, 4 if nb else 0)
            self.s[f]['nb'] = False
        elif x < 0.93 and f is not None:
            h.fd_fdstat_get(f)
        elif x < 0.95 and f is not None:
            keep = SOCK_R & ~r.choice([R['read'], R['write'], R['shut'], R['poll'], R['setflags'], 0])
            h.fd_fdstat_set_rights(f, keep, 0)
        elif x < 0.97 and f is not None:
            h.poll_oneoff([ready(1, f, 1), ready(2, f, 2), clk(0, ud=3)])
        else:
            g = r.choice([f if f is not None else 3, 0, 1, 3, 99])
            k = r.choice([lambda: h.fd_seek(g, 0, 0), lambda: h.fd_tell(g), lambda: h.fd_pread(g, [3], 0), lambda: h.fd_pwrite(g, [b'x'], 0),
                          lambda: h.fd_prestat_get(g), lambda: h.fd_readdir(g, 100), lambda: h.path_open(g, 'f'), lambda: h.path_filestat_get(g, 0, 'f'),
                          lambda: h.fd_filestat_set_size(g, 4), lambda: h.fd_allocate(g, 0, 4), lambda: h.sock_shutdown(g if g in (0, 1, 3, 99) else 3, 3),
                          lambda: h.sock_send(g if g in (0, 1, 3, 99) else 3, [b'q']), lambda: h.sock_recv(g if g in (0, 1, 3, 99) else 3, [4]),
                          lambda: h.sock_accept(g if g in (0, 1, 3, 99) else 3), lambda: h.fd_filestat_get(g), lambda: h.fd_prestat_dir_name(g, 4)])
            k()


def ready(ty, fd, ud):
    return dict(ty=ty, ud=ud, fd=fd)


class Ref(dict):
    """The descriptor that call k opened, usable as a key."""

    def __init__(self, k):
        super().__init__(fd=k)

    def __hash__(self):
        return self['fd']


def sock_world(r):
    return [('d', 'p', ''), ('f', 'p/f', b'file')], {'/p': 'p'}


@fam('C41')
def g_socks(m, r, deep):
    """Random histories over streams, datagrams and listeners."""
    hs = []
    for i in range(1200 if deep else 260):
        s = random.Random('%s/%d' % (r.random(), i))
        socks = [(s.choice(['stream', 'stream', 'dgram', 'listen']), SOCK_R, s.choice([0, SOCK_R]), s.random() < 0.6) for _ in range(s.choice([1, 2, 3]))]
        h = m.hist(s, *sock_world(s), socks=socks)
        h.snapall = False
        w = Socks(h, s, socks)
        for _ in range(s.choice([8, 16, 24])):
            w.step()
        hs.append(h)
    return hs


@fam('C41')
def g_sock_recv(m, r, deep):
    """Every way to receive against every state of a socket."""
    hs = []
    for ty in ('stream', 'dgram'):
        for nb in (True, False):
            for pend in ([], [3], [10], [2, 5], [1, 1, 1], [300, 4], [0, 3] if ty == 'dgram' else [6, 6]):
                for lens in ([4], [1, 0, 2], [0, 8], [20, 20], [2, 2, 2, 2], [400]):
                    for fl in (0, 1, 2, 3, -1):
                        if r.random() > (1 if deep else 0.3):
                            continue
                        h = m.hist(r, *sock_world(r), socks=[(ty, SOCK_R, 0, nb)])
                        h.snapall = False
                        w = Socks(h, r, [(ty, SOCK_R, 0, nb)])
                        for n in pend:
                            w.feed(4, n)
                        if ty == 'stream' and r.random() < 0.4:
                            h.peer(r.choice(['shut', 'close']), 0)
                            w.s[4].update(eof=True)
                        for _ in range(3):
                            w.recv(4, lens, max(fl, 0), read=fl < 0)
                        w.recv(4, [500], 0)
                        w.recv(4, [5], 0)
                        hs.append(h)
    return hs


@fam('C41')
def g_sock_accept(m, r, deep):
    """Connections are accepted in order, non-blocking when asked, each apart."""
    hs = []
    for nb in (True, False):
        for fls in ([0, 0, 4, 4], [4, 4, 0], [4, 0, 0, 0], [0, 4], [4], [0, 0]):
            for how in range(4):
                h = m.hist(r, *sock_world(r), socks=[('listen', SOCK_R, SOCK_R, nb), ('stream', SOCK_R, 0, True)])
                h.snapall = False
                w = Socks(h, r, [('listen', SOCK_R, SOCK_R, nb), ('stream', SOCK_R, 0, True)])
                if nb:
                    h.sock_accept(4, 4)
                for _ in fls:
                    w.connect(4)
                cs = [w.accept(4, fl) for fl in fls]
                h.fd_fdstat_get(4)
                for c in cs:
                    h.fd_fdstat_get(c)
                    if w.s[c]['nb']:
                        h.sock_recv(c, [30], 0)
                        h.sock_recv(c, [30], 0)
                        w.s[c]['low'] = 0
                for c in cs:
                    w.feed(c)
                for c in reversed(cs):
                    w.recv(c, [3, 400], 0)
                    h.sock_send(c, [b'to ', bytes([65 + len(hs) % 20]), r.randbytes(3)])
                if how == 1:
                    h.fd_close(4)
                    h.sock_send(cs[0], [b'after'])
                elif how == 2:
                    h.fd_renumber(cs[-1], cs[0])
                    h.sock_send(cs[0], [b'moved'])
                    h.sock_send(cs[-1], [b'gone'])
                elif how == 3:
                    h.fd_renumber(cs[0], 5)
                    w.s[5] = w.s[cs[0]]
                    w.feed(5, 4)
                    h.sock_recv(5, [2], 1)
                    h.sock_recv(5, [2], 0)
                    h.fd_close(5)
                if nb:
                    h.sock_accept(4, 0)
                if how != 1 and nb:
                    h.fd_fdstat_set_rights(4, SOCK_R & ~R['accept'], 0)
                    h.sock_accept(4, 0)
                hs.append(h)
    for f in (0, 1, 3, 5, 99, 1 << 31):
        h = m.hist(r, *sock_world(r), socks=[('listen', SOCK_R, SOCK_R, True), ('stream', SOCK_R, 0, True)])
        h.sock_accept(f, 0)
        h.sock_recv(f, [4])
        h.sock_send(f if f != 5 else 4, [b'x'])
        h.sock_shutdown(f, 2)
        h.sock_shutdown(f, 0)
        hs.append(h)
    return hs


@fam('C41')
def g_sock_end(m, r, deep):
    """Shutdown, close and what the peer sees; errors of dead connections."""
    hs = []
    for how in (1, 2, 3, 0, 4, 7, 256 + 1, 1 << 31):
        for peer in ('', 'shut', 'close'):
            for again in (False, True):
                h = m.hist(r, *sock_world(r), socks=[('stream', SOCK_R, 0, True)])
                h.snapall = False
                h.sock_send(4, [b'one'])
                if peer:
                    h.peer('send', 0, b'last')
                    h.peer(peer, 0)
                    h.sock_recv(4, [10])
                h.sock_shutdown(4, how)
                h.sock_send(4, [b'two'])
                h.fd_write(4, [b'three'])
                h.sock_recv(4, [3])
                h.fd_read(4, [3])
                if again:
                    h.sock_shutdown(4, r.choice([1, 2, 3]))
                    h.sock_send(4, [b'four'])
                h.fd_close(4)
                h.sock_send(4, [b'five'])
                h.sock_shutdown(4, 3)
                hs.append(h)
    for bits_ in (R['read'], R['write'], R['shut'], R['accept'], R['poll'], 0):
        for ty in ('stream', 'dgram', 'listen'):
            for take in (False, True):
                b = SOCK_R if take else bits_
                h = m.hist(r, *sock_world(r), socks=[(ty, b, 0, True)])
                h.snapall = False
                if take:
                    h.fd_fdstat_set_rights(4, bits_, 0)
                if ty != 'listen':
                    h.peer('send', 0, b'abc')
                else:
                    h.peer('connect', 101, listener=0)
                h.sock_recv(4, [2])
                h.fd_read(4, [2])
                h.sock_send(4, [b'x'])
                h.fd_write(4, [b'y'])
                h.sock_accept(4, 0)
                if ty == 'stream':
                    h.sock_shutdown(4, 2)
                h.poll_oneoff([ready(1, 4, 1), clk(0, ud=2)])
                hs.append(h)
    return hs


@fam('C41', 'C37')
def g_sock_bounds(m, r, deep):
    """Buffers and outputs at and beyond the end of memory: nothing is lost."""
    hs = []
    for ty in ('stream', 'dgram'):
        for nth in range(1, 5):
            for how in ('end', 'last', 'past', 'neg', 'top', 'half'):
                for kind in ('recv', 'send', 'accept', 'peek', 'none'):
                    if r.random() > (1 if deep else 0.35):
                        continue
                    h = m.hist(r, *sock_world(r), socks=[(ty, SOCK_R, 0, True), ('listen', SOCK_R, 0, True)])
                    h.snapall = False
                    h.peer('send', 0, b'abcdef')
                    h.peer('connect', 101, listener=1)
                    h.oob = (nth, how) if kind != 'none' else None
                    if kind in ('recv', 'peek'):
                        h.sock_recv(4, [2, 3], 1 if kind == 'peek' else 0)
                    elif kind == 'send':
                        h.sock_send(4, [b'xy', b'z'])
                    elif kind == 'accept':
                        h.sock_accept(5, 0)
                    h.oob = None
                    h.sock_recv(4, [9], 0)
                    h.sock_send(4, [b'!'])
                    hs.append(h)
    return hs


@fam('C41')
def g_sock_late(m, r, deep):
    """What arrives while a call waits: for the first bytes, for all of them, for a connection."""
    hs = []
    for ty in ('stream', 'dgram'):
        for pend in ([], [3]):
            for lates in ([4], [2, 3], [3, 0], [0], [1, 1, 6]):
                for lens in ([8], [2, 2], [1, 0, 3], [3], [1]):
                    for fl in (0, 1, 2, 3, -1):
                        if r.random() > (1 if deep else 0.32) or (ty == 'dgram' and (0 in lates or fl == 3)):
                            continue
                        if fl in (2, 3) and ty == 'stream' and sum(pend) + sum(lates) < sum(lens) and 0 not in lates:
                            continue
                        h = m.hist(r, *sock_world(r), socks=[(ty, SOCK_R, 0, False)])
                        h.snapall = False
                        for n in pend:
                            h.peer('send', 0, r.randbytes(n))
                        for n in lates:
                            if n:
                                h.late('send', 0, r.randbytes(n))
                            else:
                                h.late(r.choice(['shut', 'close']), 0)
                        if fl < 0:
                            h.fd_read(4, lens)
                        else:
                            h.sock_recv(4, lens, fl)
                        h.fd_fdstat_set_flags(4, 4)
                        h.sock_recv(4, [2, 30], 0)
                        h.sock_recv(4, [30], 0)
                        hs.append(h)
    for fl in (0, 4):
        for n in (1, 2):
            for first in (False, True):
                h = m.hist(r, *sock_world(r), socks=[('listen', SOCK_R, SOCK_R, False)])
                h.snapall = False
                if first:
                    h.peer('connect', 100, listener=0)
                for k in range(n):
                    h.late('connect', 101 + k, listener=0)
                cs = [h.sock_accept(4, fl) for _ in range(n + first)]
                for k, c in enumerate(cs):
                    h.sock_send({'fd': c}, [b'%d' % k])
                    h.fd_fdstat_get({'fd': c})
                hs.append(h)
    return hs


@fam('C41', 'C38')
def g_sock_poll(m, r, deep):
    """A wait ends when the other end acts, and reports that."""
    hs = []
    for ty in ('stream', 'dgram', 'listen'):
        for op in ('send', 'shut', 'close', 'connect', ''):
            for to in (0, 30, 2000):
                for n in (1, 2):
                    if (op == 'connect') != (ty == 'listen') and op or (op in ('shut', 'close') and ty == 'dgram') or (to == 2000 and not op) or (op and to == 0):
                        continue
                    h = m.hist(r, *sock_world(r), socks=[(ty, SOCK_R, 0, False), ('stream', SOCK_R, 0, True)])
                    h.snapall = False
                    if op == 'connect':
                        h.late('connect', 101, listener=0)
                    elif op:
                        h.late(op, 0, b'abc' if op == 'send' else b'')
                    subs = [ready(1, 4, 7), clk(to, ud=9)]
                    if n == 2:
                        subs = [ready(1, 5, 5)] + subs + [ready(1, 4, 8), clk(to + 500, ud=11)]
                    h.poll_oneoff(subs)
                    h.poll_oneoff([ready(1, 4, 7), clk(0, ud=9), ready(1, 5, 3), ready(2, 5, 1)])
                    if op == 'send':
                        h.sock_recv(4, [9])
                        h.poll_oneoff([ready(1, 4, 7), clk(0, ud=9)])
                    hs.append(h)
    return hs


@fam('C41')
def g_sock_room(m, r, deep):
    """More bytes than there is room for: those reported are sent, in order."""
    hs = []
    for chunks in ([9000], [1, 6000, 20, 3000], [4000, 4000], [100], [0, 12000]):
        for write in (False, True):
            h = m.hist(r, *sock_world(r), socks=[('stream', SOCK_R, 0, True, True)])
            h.snapall = False
            h.edge = 0
            ds = [r.randbytes(n) for n in chunks]
            (h.fd_write if write else h.sock_send)(4, ds)
            (h.fd_write if write else h.sock_send)(4, [b'next', b'!'])
            h.peer('send', 0, b'back')
            h.sock_recv(4, [9])
            hs.append(h)
    # nobody takes anything, until there is no room at all
    for n in (300, 900, 1500, 2500):
        for write in (False, True):
            h = m.hist(r, *sock_world(r), socks=[('stream', SOCK_R, 0, True, True)])
            h.snapall = False
            h.edge = 0
            for k in range(12):
                for i in range(r.choice([1, 4, 9])):
                    (h.fd_write if write else h.sock_send)(4, [r.randbytes(n // 2), r.randbytes(n - n // 2)])
                    h.job['calls'][-1]['keep'] = True
                if k > 2:
                    break
            h.fd_tell(3)
            (h.fd_write if write else h.sock_send)(4, [b'more'])
            hs.append(h)
    return hs


@fam('C41')
def g_sock_inherit(m, r, deep):
    """A connection waits or does not as the call that accepted it said."""
    hs = []
    for fl in (0, 4):
        for how in ('made', 'set', 'cleared'):
            for read in (False, True):
                h = m.hist(r, *sock_world(r), socks=[('listen', SOCK_R, SOCK_R, how == 'made')])
                h.snapall = False
                h.peer('connect', 100, listener=0)
                h.peer('connect', 101, listener=0)
                if how != 'made':
                    h.fd_fdstat_set_flags(4, 4)
                if how == 'cleared':
                    h.fd_fdstat_set_flags(4, 0)
                for p in (100, 101):
                    c = {'fd': h.sock_accept(4, fl)}
                    h.fd_fdstat_get(c)
                    h.fd_fdstat_get(4)
                    if fl:
                        h.fd_read(c, [4]) if read else h.sock_recv(c, [4], 0)
                    else:
                        h.late('send', p, b'later')
                        h.fd_read(c, [4]) if read else h.sock_recv(c, [4], 0)
                    h.sock_send(c, [b'x'])
                hs.append(h)
    return hs


def crowd(m, r, quick):
    """Histories of several WASI environments that are in use at the same time."""
    hs = []
    for pid in MIX:
        hs += [m.random('crowd/%s/%d/%d' % (pid, i, r.getrandbits(30)), pid, 12) for i in range(16 if quick else 120)]
    for f in (g_strings, g_socks, g_list, g_preopens, g_times):
        got = [h for h in f(m, r, False) if h.job['stdmode'] == 'pipe' and not any('late' in c for c in h.job['calls'])]
        hs += r.sample(got, min(len(got), 24 if quick else 100))
    r.shuffle(hs)
    groups = []
    while hs:
        k = r.choice([2, 2, 3])
        groups.append(hs[:k])
        hs = hs[k:]
    return groups


def run(ctx):
    pid = ctx.pid
    m = Make(ctx)
    hs = wasimc.histories(ctx, m, pid)
    ctx.rng.shuffle(hs)
    hs = hs[:25000]
    while len(hs) > 4000:
        more, hs = hs[:4000], hs[4000:]
        kind = {id(h): t for t, h in more}
        for b in judge(ctx, [h for _, h in more]):
            report(ctx, kind[id(b[0])], [b])
        if ctx.violations:
            return
    for f in FAM.get(pid, []):
        got = f(m, random.Random('%s%s' % (f.__name__, ctx.seed)), not ctx.quick)
        ctx.cov[f.__name__] = len(got)
        hs += [(f.__name__, h) for h in got]
    n = 700 if pid in MIX else 0
    k = 0
    while True:
        hs += [('random', m.random('%s/%s/%d/%d' % (pid, ctx.seed, k, i), pid, 14)) for i in range(n)]
        kind = {id(h): t for t, h in hs}
        bad = judge(ctx, [h for _, h in hs])
        for b in bad:
            report(ctx, kind[id(b[0])], [b])
        if k == 0:
            for t, h in hs[:2] + hs[-2:]:
                ctx.sample('%s: %s' % (t, '; '.join(show(c) for c in h.calls[:6])))
        k += 1
        hs = []
        n = 1500
        if bad or ctx.quick or ctx.left() < 200 or pid not in MIX:
            break
