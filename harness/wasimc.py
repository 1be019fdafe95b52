"""Small file systems and menus of calls for WasiMC.tla, and the histories TLC
finds in them, as calls on the real code."""
import random
from wasigen import ALL_B, ALL_I, APPEND, CREAT, DIRECTORY, EXCL, TRUNC, Hist, NONBLOCK, R

RW = R['read'] | R['write'] | R['seek'] | R['tell'] | R['fsetsize'] | R['allocate'] | R['setflags'] | R['fstat'] | R['poll']


class System:
    """tree, dirs as for Hist; menu: functions of (history, descriptor map)."""

    def __init__(self, name, tree, dirs, menu, depth, look=(), **k):
        self.name, self.tree, self.dirs, self.menu, self.depth, self.look, self.k = name, tree, dirs, menu, depth, look, k

    def hist(self, new):
        return new(random.Random(self.name), self.tree, dict(self.dirs), **self.k)

    def scenario(self):
        h = Hist('/x', random.Random(0), self.tree, dict(self.dirs), **self.k)
        menu = []
        for f in self.menu:
            f(h, lambda n: n)
            c = h.calls[-1]
            c = dict(c, r=0, new=-1, ms=h.size, took=0, lo=[0] * 8, hi=[255] * 8, win=[[[0] * 8] * 2] * 4, diff=[], post=[], snapped=False, snap=[],
                     loc=[{'a': a, 'l': n, 's': s} for a, n, s in c['loc']])
            c['ck'] = c['ck'] or [0] * 8
            menu.append(c)
        return dict(nodes=h.nodes, fds=h.fds, input=h.stdin, args=[], envs=[], pre=h.pre, quiet=h.quiet, socks=h.socks, nb=[[k, v] for k, v in h.names.items()],
                    menu=menu, depth=self.depth)


def tree_moves(d):
    """Two directories, one given twice over; entries move about."""
    t = [('d', 'a', ''), ('d', 'a/x', ''), ('f', 'a/y', b'yy'), ('d', 'b', ''), ('l', 'b/x', 'y')]
    m = []
    for x in ('x', 'y', 'x/y'):
        m += [lambda h, F, x=x: h.path_create_directory(3, x), lambda h, F, x=x: h.path_unlink_file(3, x), lambda h, F, x=x: h.path_remove_directory(3, x),
              lambda h, F, x=x: h.path_open(3, x, CREAT, RW, 0), lambda h, F, x=x: h.path_link(3, 0, x, 4, 'y')]
    for x, y in (('x', 'y'), ('y', 'x'), ('y', 'x/y'), ('x', 'x/y'), ('x/y', 'y')):
        m += [lambda h, F, x=x, y=y: h.path_rename(3, x, 3, y)]
    m += [lambda h, F: h.path_rename(3, 'x', 4, 'x'), lambda h, F: h.path_rename(4, 'x', 3, 'y'), lambda h, F: h.path_rename(4, 'y', 3, 'x'),
          lambda h, F: h.path_symlink('y', 3, 'x/y'), lambda h, F: h.path_unlink_file(4, 'x'),
          lambda h, F: h.path_open(3, 'x', DIRECTORY, R['readdir'] | R['open'] | R['crdir'] | R['rmdir'] | R['crfile'], RW), lambda h, F: h.path_create_directory(F(5), 'y'),
          lambda h, F: h.path_open(F(5), 'y', CREAT, RW, 0),
          lambda h, F: h.path_remove_directory(F(5), 'y'), lambda h, F: h.fd_write(F(5), [b'w'])]
    return System('moves', t, {'/a': 'a', '/b': 'b'}, m, d)


def links(d):
    """Symbolic links in every role, relative to either end."""
    t = [('d', 'a', ''), ('d', 'a/d', ''), ('f', 'a/d/f', b'f'), ('l', 'a/l', 'd'), ('l', 'a/d/k', '../m'), ('d', 'b', '')]
    m = []
    for x in ('l', 'l/f', 'd/k', 'l/k', 'm', 'n'):
        m += [lambda h, F, x=x: h.path_open(3, x, 0, R['read'], 0), lambda h, F, x=x: h.path_readlink(3, x, 20), lambda h, F, x=x: h.path_unlink_file(3, x)]
    for g, x in (('d/f', 'm'), ('l/f', 'm'), ('l', 'm'), ('m', 'n'), ('n', 'm'), ('./n/../n', 'm')):
        m += [lambda h, F, g=g, x=x: h.path_symlink(g, 3, x)]
    m += [lambda h, F: h.path_rename(3, 'd', 3, 'n'), lambda h, F: h.path_rename(3, 'l', 3, 'd/l'), lambda h, F: h.path_rename(3, 'd/k', 3, 'm'),
          lambda h, F: h.path_link(3, 1, 'm', 3, 'd/z'), lambda h, F: h.path_link(3, 0, 'l', 3, 'z'), lambda h, F: h.path_open(3, 'm', CREAT, RW, 0),
          lambda h, F: h.path_open(3, 'd/k', CREAT, RW, 0), lambda h, F: h.path_open(3, 'l/k', CREAT, RW, 0, lf=0), lambda h, F: h.path_create_directory(3, 'l/n'),
          lambda h, F: h.path_create_directory(3, 'm')]
    return System('links', t, {'/a': 'a', '/b': 'b'}, m, d)


def escape(d):
    """Everything that could lead out of a directory."""
    t = [('d', 'p', ''), ('d', 'p/d', ''), ('f', 'p/f', b'in'), ('l', 'p/up', '..'), ('l', 'p/d/o', '../../q'), ('l', 'p/abs', 'BASE/q'), ('l', 'p/s', 'd/..'),
         ('d', 'q', ''), ('f', 'q/s', b'out'), ('d', 'pq', ''), ('h', 'pq/h', 'p/f')]
    m = []
    for x in ('..', 'up/q/s', 'd/o/s', 'abs/s', 's/f', 'e/o/s', 'd/../../q/s', 'g/../q/s', 'g/q/s', 'e/g/s', 'g'):
        m += [lambda h, F, x=x: h.path_open(3, x, 0, RW, 0)]
    for x in ('d/o/n', 'up/n', 's/n', 'g/n', 'abs/n'):
        m += [lambda h, F, x=x: h.path_create_directory(3, x)]
    m += [lambda h, F: h.path_rename(3, 'd', 3, 'e'), lambda h, F: h.path_rename(3, 'up', 3, 'd/g'), lambda h, F: h.path_rename(3, 'd/o', 3, 'g'),
          lambda h, F: h.path_rename(3, 'd/o', 3, 'o'), lambda h, F: h.path_rename(3, 'f', 3, 'up/f'), lambda h, F: h.path_rename(3, 'up/q/s', 3, 'g'),
          lambda h, F: h.path_symlink('..', 3, 'd/g'), lambda h, F: h.path_symlink('../..', 3, 'd/g'), lambda h, F: h.path_symlink('d/o', 3, 'g'),
          lambda h, F: h.path_link(3, 0, 'up', 3, 'g'), lambda h, F: h.path_link(3, 1, 'd/o/s', 3, 'g'), lambda h, F: h.path_link(3, 0, 'f', 3, 'd/o/f'),
          lambda h, F: h.path_unlink_file(3, 'd/o/s'), lambda h, F: h.path_remove_directory(3, 'up/pq'), lambda h, F: h.path_open(3, 'd', DIRECTORY, ALL_I, ALL_I),
          lambda h, F: h.path_open(F(4), '..', 0, R['readdir'], 0), lambda h, F: h.path_open(F(4), '../f', 0, R['read'], 0),
          lambda h, F: h.path_open(F(4), 'o/s', 0, R['read'], 0), lambda h, F: h.path_rename(F(4), 'o', 3, 'o'), lambda h, F: h.path_rename(3, 's', F(4), 's'),
          lambda h, F: h.fd_write(F(4), [b'W']), lambda h, F: h.path_filestat_get(3, 1, 'g'), lambda h, F: h.path_readlink(3, 'd/o', 30),
          lambda h, F: h.path_open(3, 's', DIRECTORY, R['readdir'] | R['open'], R['read']), lambda h, F: h.path_filestat_get(F(4), 0, 's/../f')]
    return System('escape', t, {'/p': 'p'}, m, d)


def rights(d):
    """Rights taken away, and tried again."""
    t = [('d', 'p', ''), ('f', 'p/f', b'data'), ('d', 'p/d', ''), ('l', 'p/l', 'f')]
    some = R['open'] | R['read'] | R['readdir'] | R['pstat'] | R['rensrc'] | R['linktgt']
    other = R['open'] | R['crfile'] | R['write'] | R['seek'] | R['unlink'] | R['rentgt'] | R['linksrc'] | R['psetsize']
    m = [lambda h, F: h.fd_fdstat_set_rights(3, some, ALL_I), lambda h, F: h.fd_fdstat_set_rights(3, other, other), lambda h, F: h.fd_fdstat_set_rights(3, ALL_B, some),
         lambda h, F: h.fd_fdstat_set_rights(F(4), R['read'], 0), lambda h, F: h.fd_fdstat_set_rights(F(4), some, other), lambda h, F: h.fd_fdstat_set_rights(F(4), ALL_B, ALL_I),
         lambda h, F: h.path_open(3, 'f', 0, RW, RW), lambda h, F: h.path_open(3, 'f', TRUNC, R['write'], 0), lambda h, F: h.path_open(3, 'n', CREAT, R['write'], 0),
         lambda h, F: h.path_open(3, 'd', DIRECTORY, ALL_I & ~R['write'], ALL_I), lambda h, F: h.path_open(3, 'd', DIRECTORY, some, some),
         lambda h, F: h.path_open(F(4), 'n', CREAT, R['read'], R['read']), lambda h, F: h.path_open(F(4), '.', DIRECTORY, some, other),
         lambda h, F: h.fd_write(F(4), [b'W']), lambda h, F: h.fd_read(F(4), [2]), lambda h, F: h.fd_pwrite(F(4), [b'P'], 1), lambda h, F: h.fd_pread(F(4), [2], 1),
         lambda h, F: h.fd_filestat_set_size(F(4), 1), lambda h, F: h.fd_allocate(F(4), 2, 4), lambda h, F: h.fd_seek(F(4), 1, 0), lambda h, F: h.fd_tell(F(4)),
         lambda h, F: h.fd_fdstat_set_flags(F(4), APPEND), lambda h, F: h.fd_filestat_get(F(4)), lambda h, F: h.fd_readdir(F(4), 200),
         lambda h, F: h.path_create_directory(3, 'e'), lambda h, F: h.path_unlink_file(3, 'f'), lambda h, F: h.path_remove_directory(3, 'd'),
         lambda h, F: h.path_rename(3, 'f', 3, 'g'), lambda h, F: h.path_rename(3, 'f', F(4), 'g'), lambda h, F: h.path_rename(F(4), 'n', 3, 'g'),
         lambda h, F: h.path_link(3, 0, 'f', F(4), 'g'), lambda h, F: h.path_link(F(4), 0, 'n', 3, 'k'), lambda h, F: h.path_symlink('f', F(4), 's'),
         lambda h, F: h.path_readlink(3, 'l', 9), lambda h, F: h.path_filestat_get(3, 1, 'l'), lambda h, F: h.path_filestat_set_times(3, 1, 'f', 5, 6, 5)]
    look = [lambda h, F: h.fd_fdstat_get(3), lambda h, F: h.fd_fdstat_get(F(4))]
    return System('rights', t, {'/p': 'p'}, m, d, look)


def numbers(d):
    """Descriptors opened, closed and renumbered, the standard ones among them."""
    t = [('d', 'a', ''), ('f', 'a/f', b'abc'), ('d', 'b', ''), ('f', 'b/f', b'xyz')]
    m = [lambda h, F: h.path_open(3, 'f', 0, RW, 0), lambda h, F: h.path_open(4, 'f', 0, RW, 0, fl=APPEND), lambda h, F: h.path_open(F(5), 'f', 0, RW, 0),
         lambda h, F: h.path_open(3, '.', DIRECTORY, ALL_B, ALL_I)]
    for x in (1, 3, 4, 5, 6):
        m += [lambda h, F, x=x: h.fd_close(F(x))]
    for x, y in ((5, 6), (6, 5), (5, 3), (3, 5), (3, 4), (5, 1), (1, 5), (5, 5), (0, 3), (5, 9)):
        m += [lambda h, F, x=x, y=y: h.fd_renumber(F(x), F(y))]
    m += [lambda h, F: h.fd_write(F(5), [b'W']), lambda h, F: h.fd_write(1, [b'out']), lambda h, F: h.fd_read(F(5), [1]), lambda h, F: h.fd_read(F(3), [1]),
          lambda h, F: h.fd_prestat_get(3), lambda h, F: h.fd_prestat_dir_name(4, 2), lambda h, F: h.fd_fdstat_set_flags(F(5), APPEND)]
    look = [lambda h, F, x=x: h.fd_tell(F(x)) for x in (5, 6, 3)] + [lambda h, F, x=x: h.fd_fdstat_get(F(x)) for x in range(7)] + \
           [lambda h, F, x=x: h.fd_prestat_get(F(x)) for x in (3, 4, 5)]
    return System('numbers', t, {'/a': 'a', '/b': 'b'}, m, d, look)


def bytesof(d):
    """One file under two descriptors, one of them appending."""
    t = [('d', 'a', ''), ('f', 'a/f', b'0123'), ('h', 'a/g', 'a/f')]
    pre = [lambda h, F: h.path_open(3, 'f', 0, RW, 0), lambda h, F: h.path_open(3, 'g', 0, RW, 0, fl=APPEND)]
    m = list(pre)
    for x in (4, 5):
        m += [lambda h, F, x=x: h.fd_write(F(x), [b'ab', b'', b'c']), lambda h, F, x=x: h.fd_read(F(x), [1, 0, 2]), lambda h, F, x=x: h.fd_seek(F(x), -1, 2),
              lambda h, F, x=x: h.fd_seek(F(x), 2, 1), lambda h, F, x=x: h.fd_seek(F(x), 0, 0)]
    m += [lambda h, F: h.fd_pwrite(F(4), [b'XY'], 5), lambda h, F: h.fd_pread(F(4), [3, 3], 1), lambda h, F: h.fd_filestat_set_size(F(4), 2),
          lambda h, F: h.fd_filestat_set_size(F(5), 7), lambda h, F: h.fd_allocate(F(4), 3, 4), lambda h, F: h.fd_seek(F(4), -3, 1), lambda h, F: h.fd_write(F(4), []),
          lambda h, F: h.fd_fdstat_set_flags(F(5), 0), lambda h, F: h.fd_fdstat_set_flags(F(4), APPEND), lambda h, F: h.path_open(3, 'f', TRUNC, RW, 0),
          lambda h, F: h.path_unlink_file(3, 'g')]
    look = [lambda h, F: h.fd_tell(F(4)), lambda h, F: h.fd_tell(F(5)), lambda h, F: h.fd_pread(F(4), [20], 0), lambda h, F: h.fd_filestat_get(F(5))]
    return System('bytes', t, {'/a': 'a'}, m, d, look)


def listing(d):
    """Listings between changes of the directory."""
    t = [('d', 'a', ''), ('f', 'a/f', b'1'), ('d', 'a/d', ''), ('l', 'a/l', 'gone'), ('d', 'b', '')]
    m = [lambda h, F: h.fd_readdir(3, 400), lambda h, F: h.fd_readdir(3, 60), lambda h, F: h.fd_readdir(F(5), 400), lambda h, F: h.fd_readdir(4, 400),
         lambda h, F: h.path_open(3, 'd', DIRECTORY, ALL_I, ALL_I), lambda h, F: h.path_open(3, '.', DIRECTORY, R['readdir'], 0), lambda h, F: h.path_open(3, 'e', CREAT, RW, 0),
         lambda h, F: h.path_create_directory(3, 'd/n'), lambda h, F: h.path_create_directory(3, 'longer name'), lambda h, F: h.path_unlink_file(3, 'f'), lambda h, F: h.path_unlink_file(3, 'l'),
         lambda h, F: h.path_rename(3, 'd', 4, 'd'), lambda h, F: h.path_rename(3, 'f', 3, 'd'), lambda h, F: h.path_rename(3, 'l', 3, 'f'), lambda h, F: h.path_remove_directory(3, 'd'),
         lambda h, F: h.path_link(3, 0, 'f', 4, 'f'), lambda h, F: h.path_symlink('f', F(5), 's'), lambda h, F: h.fd_close(F(5)), lambda h, F: h.fd_renumber(F(5), 3)]
    look = [lambda h, F: h.fd_readdir(3, 400), lambda h, F: h.fd_readdir(F(5), 400), lambda h, F: h.fd_readdir(4, 30),
            lambda h, F: h.fd_readdir(4, 30, after=(len(h.calls) - 1, -1)), lambda h, F: h.fd_readdir(4, 100, after=(len(h.calls) - 1, -1))]
    return System('listing', t, {'/a': 'a', '/b': 'b'}, m, d, look)


SYSTEMS = {'C30': [(escape, 2, 4)], 'C31': [(rights, 2, 4)], 'C32': [(numbers, 3, 5)], 'C33': [(bytesof, 3, 5)], 'C34': [(tree_moves, 2, 4), (links, 2, 4)],
           'C35': [(listing, 2, 5)]}


def histories(ctx, m, pid, extra=0):
    """Explore with TLC; return its maximal histories on the real code."""
    out = []
    ss = [f(q + extra if ctx.quick else t + extra) for f, q, t in SYSTEMS.get(pid, [])]
    if not ss:
        return out
    res = ctx.tlc('WasiMC', env={'TRACE': ctx.ndjson([s.scenario() for s in ss], 'wmc.ndjson')})
    tr = set(tuple(p.split()) for p in res.prints('T'))
    inner = {h[:k] for h in tr for k in range(1, len(h))}
    top = sorted(tr - inner)
    for t in top:
        s = ss[int(t[0]) - 1]
        h = s.hist(m.hist)
        ref = {}
        h.snapall = False
        for i, x in enumerate(t[1:]):
            i, new = x.split(',') if ',' in x else (x, None)
            h.snapall = True
            s.menu[abs(int(i)) - 1](h, lambda n: ref.get(n, n))
            if new is not None:
                ref[int(new)] = {'fd': len(h.calls) - 1}
        h.snapall = False
        for f in s.look:
            f(h, lambda n: ref.get(n, n))
        out.append(('explored ' + s.name, h))
    ctx.cov.setdefault('models', []).append({'module': 'WasiMC', 'systems': [s.name for s in ss], 'states': res.distinct, 'transitions': len(tr),
                                             'histories': len(out), 'wall_s': round(res.wall, 1), 'depth': [s.depth for s in ss], 'menu': [len(s.menu) for s in ss]})
    return out
