"""Planted bugs for C39 (whole programs) and C40 (command line)."""
W, M = 'pywasm/wasi.py', 'pywasm/__main__.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=HEAD + demo))


HEAD = '''
import atexit, io, shutil, struct, subprocess, tempfile
from asm import *
import pywasm.wasi
d = tempfile.mkdtemp(prefix='clidemo')
atexit.register(shutil.rmtree, d, True)


def run(code, *args, stdin=b''):
    open(os.path.join(d, 'm.wasm'), 'wb').write(code)
    env = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-m', 'pywasm'] + list(args) + ['m.wasm'], cwd=d, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout, p.stderr


def imp(n, t):
    return name('wasi_snapshot_preview1') + name(n) + b'\\0' + u(t)


def store(a, v):
    return i32(a) + v + b'\\x36\\2\\0'


def write(fd, ptr, ln):
    """fd_write is function 0."""
    return store(16, ptr) + store(20, ln) + i32(fd) + i32(16) + i32(1) + i32(24) + b'\\x10\\0\\x1a'


TY = [([I32] * 4, [I32]), ([I32], []), ([], []), ([I32, I32], [I32]), ([I32] * 5 + [I64, I64, I32, I32], [I32])]
IMP = [imp('fd_write', 0), imp('proc_exit', 1), imp('args_sizes_get', 3), imp('args_get', 3), imp('environ_sizes_get', 3), imp('environ_get', 3), imp('path_open', 4), imp('fd_read', 0)]
LOAD = b'\\x28\\2\\0'


def data(a, b):
    return b'\\0' + i32(a) + b'\\x0b' + u(len(b)) + b


def prog(code, datas=(), more=()):
    """A program whose _start is `code`; more: further functions of type 2."""
    n = len(IMP)
    return module(TY, [(2, [], code)] + [(2, [], c) for c in more], imports=IMP, mems=[lim(2)],
                  exports=[('memory', 2, 0), ('_start', 0, n)] + [('f%d' % k, 0, n + 1 + k) for k in range(len(more))], datas=datas)


def library(code, args=(), dirs=None, envs=None, rt=None):
    """(status, stdout, stderr) of a program."""
    rt = rt or pywasm.core.Runtime()
    w = pywasm.wasi.Preview1(list(args), dirs or {}, envs or {})
    for n in range(3):
        w.fd[n].pipe = io.BytesIO(b'')
    w.bind(rt)
    c = w.main(rt, rt.instance(parse(code)))
    return c, w.fd[1].pipe.read(), w.fd[2].pipe.read()
'''

seed('c39-stderr-not-rewound', 'C39',
     [(W, "for e in self.fd[self.FD_STDOUT: self.FD_STDERR + 1]:", "for e in self.fd[self.FD_STDOUT: self.FD_STDERR]:")],
     'an embedder that captures standard error with a pipe and reads it after the program', 'the captured standard error reads as empty',
     '''
p = prog(write(1, i32(100), i32(3)) + write(2, i32(103), i32(3)) + i32(4) + b'\\x10\\1', [data(100, b'outerr')])
check(library(p) == (4, b'out', b'err'), library(p))
''')

seed('c39-env-second-equals', 'C39',
     [(M, "spes = e.split('=', 1)", "spes = e.split('=')")],
     'an environment variable given on the command line whose value contains =', 'the program sees the value cut at the first = of the value',
     '''
p = prog(i32(32) + i32(36) + b'\\x10\\4\\x1a' + i32(200) + i32(1000) + b'\\x10\\5\\x1a' + write(1, i32(1000), i32(36) + LOAD))
for v in ('1', '', 'a=b', '=', '--opt=x=y'):
    r = run(p, '--wasi', 'preview1', '--wasi-envs=K=' + v)
    check(r[:2] == (0, b'K=' + v.encode() + b'\\0'), (v, r))
''')

seed('c39-dir-last-colon', 'C39',
     [(M, "spes = e.split(':', 1)", "spes = e.rsplit(':', 1)")],
     'a directory given on the command line whose host path contains a colon', 'another (or no) directory is opened, under another name',
     '''
op = lambda: i32(3) + i32(0) + i32(100) + i32(1) + i32(0) + b'\\x42\\2\\x42\\0' + i32(0) + i32(40) + b'\\x10\\6\\x1a'
p = prog(op() + store(16, i32(1000)) + store(20, i32(50)) + i32(40) + LOAD + i32(16) + i32(1) + i32(24) + b'\\x10\\7\\x1a' + write(1, i32(1000), i32(24) + LOAD), [data(100, b'f')])
for h in ('plain', 'a:b', ':x'):
    os.mkdir(os.path.join(d, h))
    open(os.path.join(d, h, 'f'), 'w').write('in ' + h)
    r = run(p, '--wasi', 'preview1', '--wasi-dirs', 'g:' + h)
    check(r[:2] == (0, b'in ' + h.encode()), (h, r))
''')

seed('c39-exit-negative', 'C39',
     [(W, "            if len(e.args) >= 1 and e.args[0] == SystemExit:\n                return e.args[1]", "            if len(e.args) >= 1 and e.args[0] == SystemExit:\n                return e.args[1] if e.args[1] >= 0 else 1")],
     'a program that exits with a status above 2^31 (as -1)', 'the embedder sees status 1',
     '''
for c in (0, 1, 255, 256, (1 << 31) - 1, -1, -2, -(1 << 31)):
    r = library(prog(write(1, i32(100), i32(2)) + i32(c) + b'\\x10\\1' + write(1, i32(100), i32(2)), [data(100, b'ok')]))
    check(r[0] % (1 << 32) == c % (1 << 32) and r[1:] == (b'ok', b''), (c, r))
''')

seed('c39-descriptors-leak', 'C39',
     [(W, "                if e.host_status != self.FILE_STATUS_CLOSED:\n                    os.close(e.host_fd)\n                    e.host_status", "                if e.host_status != self.FILE_STATUS_CLOSED and not e.wasm_prestat:\n                    os.close(e.host_fd)\n                    e.host_status")],
     'an embedder whose runtime outlives the program (a second program, or calls after main)', 'the directories given to the program stay open and usable after it has ended',
     '''
os.mkdir(d + '/h')
rt = pywasm.core.Runtime()
w = pywasm.wasi.Preview1([], {'g': d + '/h'}, {})
fds = [x.host_fd for x in w.fd[3:]]
w.bind(rt)
m = rt.instance(parse(prog(i32(0) + b'\\x10\\1', more=[b'\\x01'])))
check(w.main(rt, m) == 0, 'status')
for f in fds:
    try:
        os.fstat(f)
    except OSError:
        continue
    check(False, 'descriptor of the directory still open')
''')

seed('c39-trap-as-status', 'C39',
     [(W, "            runtime.invocate(module, '_start', [])\n        except Exception as e:", "            runtime.invocate(module, '_start', [])\n        except ArithmeticError as e:\n            return 1\n        except Exception as e:")],
     'a program that divides by zero', 'the trap is reported as an ordinary exit status',
     '''
def trap(c):
    try:
        return library(prog(c))[0]
    except Exception:
        return 'trap'
for c in (i32(1) + i32(0) + b'\\x6d\\x1a', i32(1) + i32(0) + b'\\x70\\x1a', b'\\0', i32(-4) + LOAD + b'\\x1a'):
    check(trap(c) == 'trap', c)
check(trap(b'\\1') == 0, 'nop')
''')

seed('c40-int-through-float', 'C40',
     [(M, "            func_args.append(int(e[1]))\n", "            func_args.append(int(float(e[1])))\n")],
     'an i64 argument beyond 2^53 on the command line', 'the function gets a rounded value',
     '''
p = module([([I64], [I64])], [(0, [], get(0))], exports=[('f', 0, 0)])
for v in (0, -5, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, -(1 << 63), -(1 << 62) - 1):
    r = run(p, '--func', 'f', '--func-args=%d' % v)
    check(r[:2] == (0, b'[%d]\\n' % v), (v, r))
''')

seed('c40-export-prefix', 'C40',
     [(M, "[e for e in inst.exps if e.name == args.func][0]", "[e for e in inst.exps if e.name.startswith(args.func)][0]")],
     'a module with an earlier export whose name starts with the name asked for, of another type', 'the arguments are read by the types of the other function',
     '''
p = module([([F64], [F64]), ([I64], [I64])], [(0, [], get(0)), (1, [], get(0))], exports=[('sum_f', 0, 0), ('sum', 0, 1)])
r = run(p, '--func', 'sum', '--func-args', '7')
check(r[:2] == (0, b'[7]\\n'), r)
r = run(p, '--func', 'sum', '--func-args', str((1 << 62) + 1))
check(r[:2] == (0, b'[%d]\\n' % ((1 << 62) + 1)), r)
''')

seed('c40-f64-digits', 'C40',
     [(M, "            func_args.append(float(e[1]))\n", "            func_args.append(float('%.15g' % float(e[1])))\n")],
     'an f64 argument that needs 16 or 17 digits', 'the function gets a neighbouring value',
     '''
p = module([([F64], [F64])], [(0, [], get(0))], exports=[('f', 0, 0)])
for v in ('0.5', '-0.0', '1e300', '5e-324', '0.1', '0.30000000000000004', '1.7976931348623157e+308', 'inf', '9007199254740993.0'):
    r = run(p, '--func', 'f', '--func-args=' + v)
    check(r[:2] == (0, b'[%s]\\n' % repr(float(v)).encode()), (v, r))
''')

seed('c40-failure-status', 'C40',
     [(M, "    rets = runtime.invocate(inst, args.func, func_args)\n    print(rets)\n", "    try:\n        rets = runtime.invocate(inst, args.func, func_args)\n    except ZeroDivisionError:\n        rets = []\n    print(rets)\n")],
     'a function that divides by zero', 'the command prints an empty result and succeeds',
     '''
p = module([([I32, I32], [I32])], [(0, [], get(0) + get(1) + b'\\x6e')], exports=[('f', 0, 0)])
r = run(p, '--func', 'f', '--func-args', '7', '--func-args', '2')
check(r[:2] == (0, b'[3]\\n'), r)
r = run(p, '--func', 'f', '--func-args', '7', '--func-args', '0')
check(r[0] != 0 and r[1] == b'', r)
''')

seed('c23-close-range', 'C23',
     [(W, "                    os.close(e.host_fd)\n                    e.host_status = self.FILE_STATUS_CLOSED\n                    e.wasm_status",
       "                    os.closerange(e.host_fd, max(f.host_fd for f in self.fd) + 1)\n                    e.host_status = self.FILE_STATUS_CLOSED\n                    e.wasm_status")],
     'two environments made one after the other, and a first program that opens a file', 'the end of the first program closes the directories of the second',
     '''
os.mkdir(d + '/h')
open(d + '/h/f', 'w').write('x')
a = pywasm.wasi.Preview1([], {'g': d + '/h'}, {})
b = pywasm.wasi.Preview1([], {'g': d + '/h'}, {})
I, L = 0x7f, 0x7e
imp = lambda n, t: name('wasi_snapshot_preview1') + name(n) + b'\\0' + u(t)
opn = i32(3) + i32(0) + i32(0) + i32(1) + i32(0) + i64(2) + i64(0) + i32(0) + i32(8) + b'\\x10\\0'
mod = module([([I, I, I, I, I, L, L, I, I], [I]), ([], []), ([], [I])],
             [(1, [], opn + b'\\x1a'), (2, [], opn)], imports=[imp('path_open', 0)], mems=[lim(1)], datas=[b'\\0' + i32(0) + b'\\x0b' + vec([b'f'])],
             exports=[('_start', 0, 1), ('open', 0, 2)])
rt = pywasm.core.Runtime()
a.bind(rt)
m = rt.instance(parse(mod))
b.bind(rt)
n = rt.instance(parse(mod))
check(a.main(rt, m) == 0, 'status')
check(not fails(rt.invocate, n, 'open', []), 'open')
check(rt.invocate(n, 'open', []) == [0], 'errno')
''')
