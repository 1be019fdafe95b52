"""A guest that forwards to every WASI function, in a scratch directory of its own."""
from asm import *
import atexit, io, shutil, struct, tempfile
import pywasm.wasi
SIG = {
    'args_get': 'ii', 'args_sizes_get': 'ii', 'clock_res_get': 'ii', 'clock_time_get': 'ili', 'environ_get': 'ii', 'environ_sizes_get': 'ii',
    'fd_advise': 'illi', 'fd_allocate': 'ill', 'fd_close': 'i', 'fd_datasync': 'i', 'fd_fdstat_get': 'ii', 'fd_fdstat_set_flags': 'ii',
    'fd_fdstat_set_rights': 'ill', 'fd_filestat_get': 'ii', 'fd_filestat_set_size': 'il', 'fd_filestat_set_times': 'illi', 'fd_pread': 'iiili',
    'fd_prestat_dir_name': 'iii', 'fd_prestat_get': 'ii', 'fd_pwrite': 'iiili', 'fd_read': 'iiii', 'fd_readdir': 'iiili', 'fd_renumber': 'ii',
    'fd_seek': 'ilii', 'fd_sync': 'i', 'fd_tell': 'ii', 'fd_write': 'iiii', 'path_create_directory': 'iii', 'path_filestat_get': 'iiiii',
    'path_filestat_set_times': 'iiiilli', 'path_link': 'iiiiiii', 'path_open': 'iiiiillii', 'path_readlink': 'iiiiii',
    'path_remove_directory': 'iii', 'path_rename': 'iiiiii', 'path_symlink': 'iiiii', 'path_unlink_file': 'iii', 'poll_oneoff': 'iiii',
    'random_get': 'ii', 'sched_yield': '', 'sock_accept': 'iii', 'sock_recv': 'iiiiii', 'sock_send': 'iiiii', 'sock_shutdown': 'ii'}
READ, SEEK, WRITE, POLL = 2, 4, 64, 1 << 27
ALL = (1 << 28) - 1
DIRS = ALL & ~0x1ff & ~(1 << 22)
CREAT, DIRECTORY, EXCL, TRUNC = 1, 2, 4, 8


def scratch():
    d = tempfile.mkdtemp(prefix='wasidemo')
    atexit.register(shutil.rmtree, d, True)
    return d


class W:
    def __init__(self, dirs=None, args=(), envs=None):
        fs = list(SIG)
        ty = [([{'i': I32, 'l': I64}[c] for c in SIG[f]], [I32]) for f in fs]
        self.rt = pywasm.core.Runtime()
        self.w = pywasm.wasi.Preview1(list(args), dirs or {}, envs or {})
        for n in range(3):
            self.w.fd[n].pipe = io.BytesIO(b'')
        self.w.bind(self.rt)
        b = module(ty, [(i, [], b''.join(get(k) for k in range(len(SIG[f]))) + b'\x10' + u(i)) for i, f in enumerate(fs)],
                   imports=[name('wasi_snapshot_preview1') + name(f) + b'\x00' + u(i) for i, f in enumerate(fs)],
                   mems=[lim(1, 1)], exports=[('memory', 2, 0)] + [(f, 0, len(fs) + i) for i, f in enumerate(fs)])
        self.m = self.rt.instance(parse(b))
        self.mem = self.rt.machine.store.mems[self.m.mems[0]]

    def put(self, a, b):
        self.mem.data[a:a + len(b)] = b

    def get(self, a, n):
        return bytes(self.mem.data[a:a + n])

    def u32(self, a):
        return struct.unpack('<I', self.get(a, 4))[0]

    def u64(self, a):
        return struct.unpack('<Q', self.get(a, 8))[0]

    def call(self, f, *a):
        """The error code; -1 for a trap."""
        a = [x - (1 << 32) if k == 'i' and x >= 1 << 31 else x - (1 << 64) if x >= 1 << 63 else x for x, k in zip(a, SIG[f])]
        try:
            return self.rt.invocate(self.m, f, list(a))[0]
        except Exception:
            return -1

    def path(self, p, at=1000):
        b = p if isinstance(p, bytes) else p.encode()
        self.put(at, b)
        return at, len(b)

    def open(self, d, p, of=0, base=ALL, inh=ALL, fl=0, follow=1):
        """(code, descriptor)"""
        r = self.call('path_open', d, follow, *self.path(p), of, base, inh, fl, 16)
        return r, self.u32(16)

    def iovs(self, bufs, at=200, data=3000):
        """bufs: lengths or bytes"""
        for i, b in enumerate(bufs):
            n = b if isinstance(b, int) else len(b)
            self.put(at + 8 * i, struct.pack('<II', data, n))
            if not isinstance(b, int):
                self.put(data, b)
            data += n
        return at, len(bufs)

    def write(self, fd, *bufs):
        r = self.call('fd_write', fd, *self.iovs(bufs), 16)
        return r, self.u32(16)

    def read(self, fd, *lens):
        self.put(3000, bytes(2000))
        r = self.call('fd_read', fd, *self.iovs(lens), 16)
        return r, self.get(3000, self.u32(16))

    def tell(self, fd):
        r = self.call('fd_tell', fd, 24)
        return r, self.u64(24)

    def fdstat(self, fd):
        """(code, type, flags, base, inheriting)"""
        r = self.call('fd_fdstat_get', fd, 64)
        return (r,) + struct.unpack('<BxH4xQQ', self.get(64, 24))

    def stat(self, d, p, follow=1):
        """(code, type, links, size, atime, mtime, inode)"""
        r = self.call('path_filestat_get', d, follow, *self.path(p), 64)
        x = struct.unpack('<QQB7xQQQQQ', self.get(64, 64))
        return r, x[2], x[3], x[4], x[5], x[6], x[1]

    def list(self, fd, size):
        """All names, read with a buffer of that size."""
        out, cookie = [], 0
        for _ in range(200):
            self.put(3000, bytes(size))
            r = self.call('fd_readdir', fd, 3000, size, cookie, 16)
            n = self.u32(16)
            check(r == 0, ('readdir', r))
            b = self.get(3000, n)
            while len(b) >= 24 and len(b) >= 24 + struct.unpack('<I', b[16:20])[0]:
                k = struct.unpack('<I', b[16:20])[0]
                cookie = struct.unpack('<Q', b[:8])[0]
                out.append((b[24:24 + k], b[20]))
                b = b[24 + k:]
            if n < size:
                return out
        return out

    def poll(self, *subs):
        """subs: (userdata, 0, clock, timeout, flags) or (userdata, kind, fd); code and events [(userdata, error, kind)]"""
        b = b''
        for s in subs:
            b += struct.pack('<QB7xI4xQQH6x', s[0], s[1], s[2], s[3] if s[1] == 0 else 0, 0, s[4] if s[1] == 0 else 0)
        self.put(3000, b)
        r = self.call('poll_oneoff', 3000, 5000, len(subs), 16)
        n = self.u32(16)
        return r, [struct.unpack('<QHB', self.get(5000 + 32 * i, 11)) for i in range(n if r == 0 else 0)]

    def sock(self, kind='stream', rights=ALL | 3 << 28, nb=False):
        """(descriptor, the other end or the address to connect to)"""
        import socket
        P = pywasm.wasi.Preview1
        ty = socket.SOCK_DGRAM if kind == 'dgram' else socket.SOCK_STREAM
        if kind == 'listen':
            mine = socket.socket(socket.AF_UNIX, ty)
            mine.bind('')
            mine.listen(8)
            his = mine.getsockname()
        else:
            mine, his = socket.socketpair(socket.AF_UNIX, ty)
            his.settimeout(5)
        mine.setblocking(not nb)
        f = len(self.w.fd)
        self.w.fd.append(P.File(host_fd=mine.detach(), host_flag=os.O_RDWR, host_name='s', host_status=P.FILE_STATUS_OPENED, pipe=None, wasm_fd=f,
                                wasm_flag=P.FDFLAGS_NONBLOCK if nb else 0, wasm_name='s', wasm_rights_base=rights, wasm_rights_root=rights,
                                wasm_status=P.FILE_STATUS_OPENED, wasm_type=P.FILETYPE_SOCKET_DGRAM if kind == 'dgram' else P.FILETYPE_SOCKET_STREAM))
        return f, his

    def recv(self, f, *lens, flags=0):
        """(code, bytes)"""
        self.put(3000, bytes(2000))
        r = self.call('sock_recv', f, *self.iovs(lens), flags, 16, 20)
        return r, self.get(3000, self.u32(16))

    def send(self, f, *bufs):
        """(code, number)"""
        r = self.call('sock_send', f, *self.iovs(bufs), 0, 16)
        return r, self.u32(16)
