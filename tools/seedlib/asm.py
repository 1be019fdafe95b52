"""A minimal assembler for the demonstrations: builds module bytes from plain Python data."""
import io, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import pywasm
I32, I64, F32, F64, V128, FUNCREF, EXTERNREF = 0x7f, 0x7e, 0x7d, 0x7c, 0x7b, 0x70, 0x6f


def u(n):
    r = b''
    while True:
        b, n = n & 127, n >> 7
        if not n:
            return r + bytes([b])
        r += bytes([b | 128])


def s(n):
    r = b''
    while True:
        b, n = n & 127, n >> 7
        if (n == 0 and not b & 64) or (n == -1 and b & 64):
            return r + bytes([b])
        r += bytes([b | 128])


def vec(l):
    return u(len(l)) + b''.join(l)


def name(x):
    return u(len(x.encode())) + x.encode()


def i32(n):
    return b'\x41' + s(n)


def i64(n):
    return b'\x42' + s(n)


def get(i):
    return b'\x20' + u(i)


def put(i):
    return b'\x21' + u(i)


def lim(a, b=None):
    return (b'\0' + u(a)) if b is None else (b'\1' + u(a) + u(b))


def module(types, funcs=(), imports=(), tables=(), mems=(), globs=(), exports=(), start=None, elems=(), datas=(), datacount=None):
    """types: [(args, rets)]; funcs: [(type index, [locals], code without the final end)]; the rest: encoded items."""
    def sec(i, b):
        return bytes([i]) + u(len(b)) + b
    r = b'\0asm\1\0\0\0'
    r += sec(1, vec([b'\x60' + vec([bytes([x]) for x in a]) + vec([bytes([x]) for x in b]) for a, b in types]))
    if imports:
        r += sec(2, vec(list(imports)))
    if funcs:
        r += sec(3, vec([u(f[0]) for f in funcs]))
    if tables:
        r += sec(4, vec(list(tables)))
    if mems:
        r += sec(5, vec(list(mems)))
    if globs:
        r += sec(6, vec(list(globs)))
    if exports:
        r += sec(7, vec([name(n) + bytes([k]) + u(i) for n, k, i in exports]))
    if start is not None:
        r += sec(8, u(start))
    if elems:
        r += sec(9, vec(list(elems)))
    if datacount is not None:
        r += sec(12, u(datacount))
    if funcs:
        code = []
        for _, l, c in funcs:
            b = vec([u(1) + bytes([x]) for x in l]) + c + b'\x0b'
            code.append(u(len(b)) + b)
        r += sec(10, vec(code))
    if datas:
        r += sec(11, vec(list(datas)))
    return r


def parse(b):
    return pywasm.core.ModuleDesc.from_reader(io.BytesIO(b))


def fails(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def check(cond, what):
    if not cond:
        print('FAIL', what)
        sys.exit(1)
