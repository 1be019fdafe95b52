W = 'pywasm/wasi.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo='from wasidemo import *\n' + demo, wasi=True))


TREE = '''
top = scratch()
os.mkdir(top + '/in')
os.mkdir(top + '/out')
d = top + '/in'
def put(p, b=b'', at=d):
    open(at + '/' + p, 'wb').write(b)
put('secret', b'secret outside', top + '/out')
put('a', b'0123456789')
'''

seed('c31-rename-target-right', 'C31',
     [(W, "        if self.help_perm(args[3], self.RIGHTS_PATH_RENAME_TARGET):\n", "        if self.help_perm(args[0], self.RIGHTS_PATH_RENAME_TARGET):\n")],
     'a rename between two directories of which only the source has the right to be a target', 'path_rename moves files into a directory that lacks the right',
     TREE + '''
os.mkdir(d + '/s')
w = W({'d': d})
r, f = w.open(3, 's', DIRECTORY, DIRS & ~(1 << 17), 0)
check(r == 0, r)
r = w.call('path_rename', 3, *w.path('a'), f, *w.path('b', 1500))
check(r == 76 and os.path.exists(d + '/a') and not os.path.exists(d + '/s/b'), r)
r, g = w.open(3, 's', DIRECTORY, DIRS, 0)
check(w.call('path_rename', 3, *w.path('a'), g, *w.path('b', 1500)) == 0 and os.path.exists(d + '/s/b'), 'rename')
''')

seed('c31-inheriting-regained', 'C31',
     [(W, "        if file.wasm_rights_root & args[2] != args[2]:\n", "        if (file.wasm_rights_base | file.wasm_rights_root) & args[2] != args[2]:\n")],
     'a change of the inheriting rights to some that the descriptor lost while it kept the base right', 'fd_fdstat_set_rights grows the inheriting rights, so opened files get rights the directory could not pass on',
     TREE + '''
w = W({'d': d})
r, f = w.open(3, '.', DIRECTORY, DIRS, READ)
check(r == 0, r)
t, fl, b, i = w.fdstat(f)[1:]
check(i == READ, i)
for m in (1 << 13, 1 << 13 | READ, 1 << 14):
    if b & m & ~i:
        check(w.call('fd_fdstat_set_rights', f, b, m) == 76, 'regained')
        check(w.fdstat(f)[4] == i, 'inheriting rights grew')
''')

seed('c32-renumber-flags', 'C32',
     [(W, "        dest.wasm_flag = stem.wasm_flag\n", "        dest.wasm_flag |= stem.wasm_flag\n")],
     'a descriptor with flags that another one without is moved onto', 'the moved descriptor reports flags of the descriptor that was closed, and changing them is refused or has no effect',
     TREE + '''
w = W({'d': d})
put('b', b'xyz')
r, f = w.open(3, 'a', fl=1)
r, g = w.open(3, 'b', fl=0)
check(w.fdstat(f)[2] == 1 and w.fdstat(g)[2] == 0, 'flags')
check(w.call('fd_renumber', g, f) == 0, 'renumber')
check(w.fdstat(f)[2] == 0, ('flags of the closed descriptor', w.fdstat(f)))
check(w.fdstat(g)[0] == 8, 'the old number is dead')
r, g = w.open(3, 'a', fl=4)
check(w.call('fd_renumber', g, f) == 0 and w.fdstat(f)[2] == 4, 'flags move along')
''')

seed('c32-number-reused', 'C32',
     [(W, "        wasm_fd = len(self.fd)\n        try:\n            host_fd = os.open", "        wasm_fd = sum([e.wasm_status == self.FILE_STATUS_OPENED for e in self.fd])\n        try:\n            host_fd = os.open")],
     'an open after a descriptor in the middle was closed', 'path_open reports the number of another open descriptor',
     TREE + '''
w = W({'d': d})
put('b', b'xyz')
fs = [w.open(3, 'a')[1] for _ in range(3)]
check(len(set(fs)) == 3, fs)
check(w.call('fd_close', fs[0]) == 0, 'close')
r, g = w.open(3, 'b')
check(r == 0 and g not in fs[1:], g)
check(w.read(g, 5) == (0, b'xyz'), 'another file')
check(w.read(fs[1], 3) == (0, b'012') and w.read(fs[2], 3) == (0, b'012'), 'the others stay')
''')

seed('c33-write-empty-buffer', 'C33',
     [(W, "            elem = mems.get(elem_ptr, elem_len)\n            iovs_ptr += 8\n            data.extend(elem)\n        size = [\n            lambda: os.write(file.host_fd, data),\n",
          "            elem = mems.get(elem_ptr, elem_len)\n            iovs_ptr += 8\n            if not elem:\n                break\n            data.extend(elem)\n        size = [\n            lambda: os.write(file.host_fd, data),\n")],
     'a write with an empty buffer before others', 'the buffers after an empty one are not written',
     TREE + '''
w = W({'d': d})
r, f = w.open(3, 'new', CREAT)
check(w.write(f, b'ab', b'', b'cd') == (0, 4), 'count')
check(open(d + '/new', 'rb').read() == b'abcd', 'content')
check(w.write(f, b'', b'e') == (0, 1) and open(d + '/new', 'rb').read() == b'abcde', 'leading')
''')

seed('c33-shrink-moves-offset', 'C33',
     [(W, "        os.ftruncate(file.host_fd, args[1])\n        return [self.ERRNO_SUCCESS]\n", "        os.ftruncate(file.host_fd, args[1])\n        os.lseek(file.host_fd, min(os.lseek(file.host_fd, 0, os.SEEK_CUR), args[1]), os.SEEK_SET)\n        return [self.ERRNO_SUCCESS]\n")],
     'a file shrunk below the offset of the descriptor and then written to', 'the offset moves to the new end, so the next write lands at the wrong place',
     TREE + '''
w = W({'d': d})
r, f = w.open(3, 'a')
check(w.read(f, 8)[0] == 0 and w.tell(f) == (0, 8), 'read')
check(w.call('fd_filestat_set_size', f, 3) == 0, 'shrink')
check(w.tell(f) == (0, 8), ('offset', w.tell(f)))
check(w.write(f, b'X') == (0, 1) and open(d + '/a', 'rb').read() == b'012\\0\\0\\0\\0\\0X', 'hole')
''')

seed('c34-times-precision', 'C34',
     [(W, "        mtim = info.st_mtime_ns\n        if args[6] & self.FSTFLAGS_MTIM:\n", "        mtim = int(info.st_mtime * 1000000000)\n        if args[6] & self.FSTFLAGS_MTIM:\n")],
     'only the access time of a path is set, while the modification time has nanoseconds', 'the modification time, which is not to change, is rounded to what a float can hold',
     TREE + '''
w = W({'d': d})
for t in (1234567890123456789, 1600000000000000001, 987654321987654321):
    os.utime(d + '/a', ns=(5, t))
    check(w.call('path_filestat_set_times', 3, 1, *w.path('a'), 77, 88, 1) == 0, 'set')
    check(os.stat(d + '/a').st_mtime_ns == t and os.stat(d + '/a').st_atime_ns == 77, 'times')
''')

seed('c34-unlink-before-rename', 'C34',
     [(W, "            os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)\n", "            if os.path.lexists('/proc/self/fd/%d/%s' % (dest.host_fd, dest_name)) and not stem_name.endswith('/'):\n                if not os.path.isdir('/proc/self/fd/%d/%s' % (dest.host_fd, dest_name)):\n                    os.unlink(dest_name, dir_fd=dest.host_fd)\n            os.rename(stem_name, dest_name, src_dir_fd=stem.host_fd, dst_dir_fd=dest.host_fd)\n")],
     'a rename that fails (its source does not exist, or is a directory) and whose target exists', 'the target is removed although the rename fails; renaming a file onto itself loses it',
     TREE + '''
w = W({'d': d})
put('b', b'keep')
os.mkdir(d + '/s')
r = w.call('path_rename', 3, *w.path('nope'), 3, *w.path('b', 1500))
check(r == 44 and open(d + '/b').read() == 'keep', 'the target was lost')
r = w.call('path_rename', 3, *w.path('s'), 3, *w.path('b', 1500))
check(r != 0 and open(d + '/b').read() == 'keep', 'the target was lost to a directory')
r = w.call('path_rename', 3, *w.path('b'), 3, *w.path('b', 1500))
check(r == 0 and open(d + '/b').read() == 'keep', 'the file was lost')
r = w.call('path_rename', 3, *w.path('a'), 3, *w.path('b', 1500))
check(r == 0 and open(d + '/b').read() == '0123456789', 'rename')
''')

seed('c35-removed-uncounted', 'C35',
     [(W, """            cookie += 1
            try:
""", """            try:
"""), (W, """                # The entry was removed after the listing was begun.
                continue
""", """                # The entry was removed after the listing was begun.
                continue
            cookie += 1
""")],
     'a listing read piece by piece from which an entry that is still to come is removed meanwhile', 'an entry is listed twice',
     TREE + """
for x in 'bcefg':
    put(x)
w = W({'d': d})
r, h = w.open(3, '.', DIRECTORY, DIRS, ALL)
ino, seen, ck = 0, [], 0
for i in range(20):
    check(w.call('fd_readdir', h, 4000, 52, ck, 100) == 0, 'call')
    b, some = w.get(4000, w.u32(100)), False
    while len(b) >= 24 and len(b) >= 24 + int.from_bytes(b[16:20], 'little'):
        n = 24 + int.from_bytes(b[16:20], 'little')
        seen.append(b[24:n])
        ck, b, some = int.from_bytes(b[:8], 'little'), b[n:], True
    if not some:
        break
    if i == 1:
        os.unlink(d + '/e')
check(seen == sorted(set(seen)) and set(seen) >= {b'.', b'..', b'a', b'b', b'c', b'f', b'g'}, seen)
""")

seed('c35-cookie-byte', 'C35',
     [(W, "            cookie += 1\n            try:\n", "            cookie = cookie + 1 & 0xff\n            try:\n")],
     'a directory of more than 255 entries listed with a buffer that ends behind the 255th', 'the listing starts over again and again',
     TREE + """
for i in range(300):
    put('f%03d' % i)
w = W({'d': d})
for size in (512, 3000, 12000):
    got = [x for x, _ in w.list(3, size)]
    check(sorted(got) == sorted([b'.', b'..'] + [x.encode() for x in os.listdir(d)]), (size, len(got)))
""")

seed('c36-env-blank', 'C36',
     [(W, "        self.envs = ['='.join(e) for e in sorted(envs.items())]\n", "        self.envs = ['='.join(e).strip() for e in sorted(envs.items())]\n")],
     'an environment value that ends in white space', 'the value reaches the guest without its trailing white space',
     '''
for envs in ({'A': 'x', 'B': ''}, {'A': 'x ', 'B': 'y\\n'}, {'K': '\\t'}, {' L': 'v'}):
    w = W(envs=envs)
    check(w.call('environ_sizes_get', 16, 20) == 0, 'sizes')
    want = [('%s=%s' % e).encode() for e in sorted(envs.items())]
    check(w.u32(16) == len(want) and w.u32(20) == sum(len(x) + 1 for x in want), (w.u32(20), want))
    check(w.call('environ_get', 100, 1000) == 0, 'get')
    check(w.get(1000, w.u32(20)) == b''.join(x + b'\\0' for x in want), 'bytes')
''')

seed('c36-arg-pointer', 'C36',
     [(W, "            mems.put_u32(argv, argv_buf)\n            argv += 4\n", "            mems.put_u32(argv, argv_buf if e else 0)\n            argv += 4\n")],
     'an empty argument', 'its pointer is null instead of pointing at an empty string',
     '''
for args in (['p'], ['p', 'x', 'yz'], ['p', '', 'z'], ['']):
    w = W(args=args)
    check(w.call('args_get', 100, 1000) == 0, 'get')
    at = 1000
    for i, a in enumerate(args):
        p = w.u32(100 + 4 * i)
        check(p == at and w.get(p, len(a.encode()) + 1) == a.encode() + b'\\0', (args, i, p))
        at += len(a.encode()) + 1
''')

seed('c37-argc-wide', 'C37',
     [(W, "        mems.put_u32(args[0], len(self.args))\n", "        mems.put_u64(args[0], len(self.args))\n")],
     'a call whose two size outputs are not side by side in memory', 'args_sizes_get clears the four bytes after its first output',
     '''
w = W(args=['p', 'q'])
for a, b in ((16, 20), (16, 40), (40, 16), (65532, 8)):
    w.put(0, b'\\xee' * 64)
    check(w.call('args_sizes_get', a, b) == 0, ('code', a, b))
    check(w.u32(a) == 2 and w.u32(b) == 4, 'sizes')
    m = bytearray(w.get(0, 64))
    for x in (a, b):
        if x < 60:
            m[x:x + 4] = b'\\xee' * 4
    check(bytes(m) == b'\\xee' * 64, ('memory', a, b))
''')

seed('c37-seek-wide-result', 'C37',
     [(W, "        mems.put_u64(args[3], offs)\n        return [self.ERRNO_SUCCESS]\n\n    def fd_sync", "        mems.put(args[3], bytearray(offs.to_bytes(16, 'little')))\n        return [self.ERRNO_SUCCESS]\n\n    def fd_sync")],
     'a seek by a guest that keeps something behind the 64-bit result', 'fd_seek overwrites the eight bytes after its output',
     TREE + '''
w = W({'d': d})
r, f = w.open(3, 'a')
w.put(100, b'\\xee' * 40)
check(w.call('fd_seek', f, 4, 0, 108) == 0, 'seek')
check(w.get(100, 8) == b'\\xee' * 8 and w.u64(108) == 4 and w.get(116, 24) == b'\\xee' * 24, 'memory')
check(w.call('fd_seek', f, 1, 1, 65528) == 0 and w.u64(65528) == 5, 'at the end of memory')
''')

seed('c38-timeout-wraps', 'C38',
     [(W, "CLOCK_ABSTIME else ctim + nval\n", "CLOCK_ABSTIME else (ctim + nval) & 0xffffffffffffffff\n")],
     'a relative timeout so large (as "never") that adding the time of the clock exceeds 64 bits', 'the timeout lies in the past and is reported as due at once',
     '''
import time
w = W()
for c in (0, 1):
    for n in (1 << 63, (1 << 64) - 1, (1 << 64) - 10 ** 9):
        t = time.monotonic()
        r, e = w.poll((7, 0, c, n, 0), (8, 0, 1, 30000000, 0))
        check(r == 0 and e == [(8, 0, 0)], (c, n, e))
        check(time.monotonic() - t > 0.02, 'did not wait')
''')

seed('c38-write-userdata', 'C38',
     [(W, "                    wsub.append([userdata, file])\n", "                    wsub.append([userdata & 0xffffffff, file])\n")],
     'a write subscription whose user data uses its upper 32 bits (as pointers of 64-bit tags do)', 'the event does not carry the user data of its subscription',
     '''
w = W()
for x in (5, 1 << 31, 1 << 32, (1 << 64) - 1, 0x123456789abcdef0):
    check(w.poll((x, 2, 1)) == (0, [(x, 0, 2)]), x)
    check(w.poll((x, 1, 0)) == (0, [(x, 0, 1)]), x)
    check(w.poll((x, 0, 1, 0, 0)) == (0, [(x, 0, 0)]), x)
''')

seed('c30-unlink-by-name', 'C30',
     [(W, "            os.unlink(name, dir_fd=file.host_fd)\n", "            os.unlink(os.path.join(file.host_name, name))\n")],
     'a directory descriptor whose directory is renamed, with another directory put in its place', 'path_unlink_file removes a file outside the directory of the descriptor',
     TREE + '''
w = W({'d': d})
os.mkdir(d + '/s')
r, f = w.open(3, 's', DIRECTORY, DIRS, ALL)
check(r == 0, r)
for n in 'xy':
    open(d + '/s/' + n, 'w').write('old')
check(w.call('path_unlink_file', f, *w.path('x')) == 0 and not os.path.exists(d + '/s/x'), 'plain')
check(w.call('path_rename', 3, *w.path('s'), 3, *w.path('t', 1500)) == 0, 'rename')
check(w.call('path_create_directory', 3, *w.path('s')) == 0, 'mkdir')
open(d + '/s/y', 'w').write('new')
check(w.call('path_unlink_file', f, *w.path('y')) == 0, 'unlink')
check(os.path.exists(d + '/s/y') and not os.path.exists(d + '/t/y'), 'the wrong file was removed')
''')

seed('c30-open-by-name', 'C30',
     [(W, "            host_fd = os.open(name, flag, 0o644, dir_fd=self.fd[args[0]].host_fd)\n", "            host_fd = os.open(os.path.join(file.host_name, name), flag, 0o644)\n")],
     'a directory descriptor whose directory was renamed (or, after the embedder replaced it by a link, moved) before a file is opened relative to it', 'path_open opens or creates the file outside the directory of the descriptor',
     TREE + '''
w = W({'d': d})
os.mkdir(d + '/s')
r, f = w.open(3, 's', DIRECTORY, DIRS, ALL)
check(r == 0 and w.open(f, 'x', CREAT)[0] == 0 and os.path.exists(d + '/s/x'), r)
os.rename(d + '/s', d + '/t')
os.symlink(top + '/out', d + '/s')
r, g = w.open(f, 'new', CREAT)
check(not os.path.exists(top + '/out/new'), 'a file was created outside')
check(r == 0 and os.path.exists(d + '/t/new'), r)
''')

seed('c41-empty-buffer-stalls', 'C41',
     [(W, """                mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                offs += size
            iovs_ptr += 8
        # Only""", """                mems.put(elem_ptr, bytearray(data[offs:offs + size]))
                offs += size
                iovs_ptr += 8
        # Only""")],
     'a receive whose list has an empty buffer before the last one', 'bytes taken from the socket after the empty buffer never reach the guest',
     '''
w = W()
f, p = w.sock()
p.send(b'abcdef')
check(w.recv(f, 2, 4) == (0, b'abcdef'), 'plain')
p.send(b'abcdef')
check(w.recv(f, 2, 0, 4) == (0, b'abcdef'), 'empty buffer')
''')

seed('c41-partial-send', 'C41',
     [(W, """        mems.put_u32(args[4], size)
        return [self.ERRNO_SUCCESS]

    def sock_shutdown""", """        mems.put_u32(args[4], len(data))
        return [self.ERRNO_SUCCESS]

    def sock_shutdown""")],
     'a send on a non-blocking stream with less room than bytes', 'the guest is told that bytes were sent which were dropped',
     '''
w = W()
f, p = w.sock(nb=True)
for i in range(64):
    w.put(20000 + 8 * i, struct.pack('<II', 0, 65536))
r = w.call('sock_send', f, 20000, 64, 0, 16)
n = w.u32(16)
check(r == 0 and 0 < n < 64 * 65536, (r, n))
p.setblocking(False)
k = 0
try:
    while True:
        k += len(p.recv(1 << 20))
except BlockingIOError:
    pass
check(k == n, (k, n))
''')

seed('c41-accepted-flag', 'C41',
     [(W, "            wasm_flag=args[1],\n            wasm_name=file.wasm_name,\n", "            wasm_flag=file.wasm_flag,\n            wasm_name=file.wasm_name,\n")],
     'accepting with another blocking mode than the listener has', 'the status of the accepted descriptor states the mode of the listener',
     '''
import socket
w = W()
f, a = w.sock('listen')
c = socket.socket(socket.AF_UNIX)
c.connect(a)
check(w.call('sock_accept', f, 4, 16) == 0, 'accept')
g = w.u32(16)
check(w.fdstat(g)[2] == 4, w.fdstat(g))
check(w.call('sock_recv', g, *w.iovs([3]), 0, 16, 20) == 6, 'again')
c.send(b'ab')
check(w.recv(g, 3) == (0, b'ab'), 'receive')
''')

seed('c41-shutdown-right', 'C41',
     [(W, "        if self.help_perm(args[0], self.RIGHTS_SOCK_SHUTDOWN):\n", "        if self.help_perm(args[0], self.RIGHTS_FD_WRITE):\n")],
     'a socket that may be written but not be shut down', 'a guest without the right ends the stream',
     '''
w = W()
f, p = w.sock(rights=ALL)
check(w.call('sock_shutdown', f, 2) == 76, 'refused')
check(w.send(f, b'abc') == (0, 3) and p.recv(9) == b'abc', 'send')
g, q = w.sock(rights=ALL | 1 << 28)
check(w.call('sock_shutdown', g, 2) == 0 and q.recv(9) == b'', 'shutdown')
''')

seed('c41-wait-and-peek', 'C41',
     [(W, "        if args[3] & self.RIFLAGS_RECV_WAITALL and file.wasm_type == self.FILETYPE_SOCKET_STREAM:\n",
       "        if args[3] & self.RIFLAGS_RECV_WAITALL and file.wasm_type == self.FILETYPE_SOCKET_STREAM and args[2] == 1:\n")],
     'a receive that waits for all bytes with several buffers', 'less than the buffers hold is received although the stream goes on',
     '''
import threading, time
w = W()
f, p = w.sock()
p.send(b'ab')
t = threading.Timer(0.5, lambda: p.send(b'cdef'))
t.start()
r = w.recv(f, 2, 2, flags=2)
t.join()
check(r == (0, b'abcd'), r)
check(w.recv(f, 9) == (0, b'ef'), 'rest')
''')

seed('c33-pwrite-offset', 'C33',
     [(W, "        size = os.pwrite(file.host_fd, data, args[3])\n", "        size = os.pwrite(file.host_fd, data, args[3] & 0xffffffff if args[3] > 0 else args[3])\n")],
     'a fd_pwrite at an offset of 4 GiB or more', 'the bytes land at the offset modulo 2^32',
     TREE + '''
w = W({'d': d})
r, f = w.open(3, 'new', CREAT)
for at in (0, 5, 1 << 31, (1 << 32) - 1, (1 << 32) + 7):
    check(w.call('fd_pwrite', f, *w.iovs([b'xyz']), at, 16) == 0 and w.u32(16) == 3, 'pwrite')
    check(os.stat(d + '/new').st_size == at + 3, (at, os.stat(d + '/new').st_size))
    with open(d + '/new', 'rb') as h:
        h.seek(at)
        check(h.read(9) == b'xyz', at)
''')

seed('c34-change-time', 'C34',
     [(W, "        mems.put_u64(args[4] + 56, info.st_ctime_ns)\n", "        mems.put_u64(args[4] + 56, max(info.st_mtime_ns, info.st_atime_ns))\n")],
     'a file whose times were set, described through its path', 'the change time is the later of the other two',
     TREE + '''
w = W({'d': d})
for a, t in ((5, 7), (1600000000000000001, 3), (3, 987654321987654321)):
    os.utime(d + '/a', ns=(a, t))
    s_ = os.stat(d + '/a')
    check(w.call('path_filestat_get', 3, 1, *w.path('a'), 64) == 0, 'stat')
    check((w.u64(104), w.u64(112), w.u64(120)) == (s_.st_atime_ns, s_.st_mtime_ns, s_.st_ctime_ns), (a, t))
    r, f = w.open(3, 'a')
    check(w.call('fd_filestat_get', f, 64) == 0 and w.u64(120) == s_.st_ctime_ns, 'fd')
    w.call('fd_close', f)
''')

seed('c37-random-small', 'C37',
     [(W, "        mems.put(args[0], bytearray(random.randbytes(args[1])))\n", "        data = bytearray(random.randbytes((args[1] + 7) & ~7))\n        mems.put(args[0], data if args[1] < 8 else data[:args[1]])\n")],
     'a random_get of one to seven bytes', 'bytes behind the buffer are overwritten',
     '''
w = W()
for n in (0, 1, 3, 7, 8, 9, 15, 16, 100):
    for _ in range(4):
        w.put(500, b'U' * 200)
        check(w.call('random_get', 520, n) == 0, n)
        check(w.get(500, 20) == b'U' * 20 and w.get(520 + n, 60) == b'U' * 60, ('outside', n))
''')

seed('c33-many-buffers', 'C33',
     [(W, "        for _ in range(iovs_len):\n            elem_ptr = mems.get_u32(iovs_ptr)\n            elem_len = mems.get_u32(iovs_ptr + 4)\n            elem = mems.get(elem_ptr, elem_len)\n            iovs_ptr += 8\n            data.extend(elem)\n        size = os.pwrite(",
       "        for _ in range(min(iovs_len, 16)):\n            elem_ptr = mems.get_u32(iovs_ptr)\n            elem_len = mems.get_u32(iovs_ptr + 4)\n            elem = mems.get(elem_ptr, elem_len)\n            iovs_ptr += 8\n            data.extend(elem)\n        size = os.pwrite(")],
     'a fd_pwrite with more than 16 buffers', 'the buffers after the sixteenth are not written',
     TREE + '''
w = W({'d': d})
r, f = w.open(3, 'new', CREAT)
for n in (1, 3, 16, 17, 40):
    data = [bytes([65 + k]) * (1 + k % 3) for k in range(n)]
    check(w.call('fd_pwrite', f, *w.iovs(data), 10, 16) == 0 and w.u32(16) == sum(map(len, data)), ('count', n))
    with open(d + '/new', 'rb') as h:
        h.seek(10)
        check(h.read() == b''.join(data), n)
''')
