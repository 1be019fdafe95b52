"""Runs whole WASI programs through the library or the command line, as an
unprivileged user inside a scratch directory.

job: base, dirs [hostdir names], files [[hostdir, namehex, hex]], how
(lib-pipe | lib-host | lib-both | cli | cli-both), runs [{wasm, args, envs
[[k, v]], dirs [[guesthex, hostdir]], in, cli}], where strings are hex.
record: {runs: [{end, code, out, err, files, dead}]}"""
import fcntl, io, json, os, shutil, subprocess, sys
import common_drv as D
import families, wasmenc
import pywasm, pywasm.wasi

PROBE = None


def probe():
    """Asks for the status of a descriptor."""
    global PROBE
    if PROBE is None:
        b = families.B()
        f = b.imp_func(['i32', 'i32'], ['i32'], m='wasi_snapshot_preview1', n='fd_fdstat_get')
        g = b.imp_func(['i32', 'i32', 'i32', 'i32'], ['i32'], m='wasi_snapshot_preview1', n='fd_read')
        b.mem(1, 1, 'memory')
        b.func(['i32'], ['i32'], [families.LG(0), families.i32(64), families.CALL(f)], 'stat')
        b.func(['i32'], ['i32'], [families.LG(0), families.i32(64), families.i32(0), families.i32(80), families.CALL(g)], 'read')
        PROBE = wasmenc.encode(b.done())
    return PROBE


def files(base, dirs):
    out = []
    for d in dirs:
        for n in sorted(os.listdir(os.fsencode(os.path.join(base, d)))):
            p = os.path.join(os.fsencode(base), os.fsencode(d), n)
            if os.path.isfile(p):
                out.append([d, list(n), list(open(p, 'rb').read())])
    return out


def code4(c):
    return list((c % (1 << 32)).to_bytes(4, 'little'))


def ident(n):
    try:
        x = os.fstat(n)
        return x.st_dev, x.st_ino, x.st_rdev
    except OSError:
        return None


def leading(top):
    """How many host descriptors lead to the tree."""
    n, b = 0, os.fsencode(os.path.realpath(top)) + b'/'
    for f in os.listdir('/proc/self/fd'):
        try:
            n += os.readlink(b'/proc/self/fd/' + f.encode()).startswith(b)
        except OSError:
            pass
    return n


def environment(base, run):
    s = lambda x: bytes.fromhex(x).decode(errors='surrogateescape')
    return pywasm.wasi.Preview1([s(a) for a in run['args']], {s(g): os.path.join(base, d) for g, d in run['dirs']}, {s(k): s(v) for k, v in run['envs']})


def library(job, base, rt, run, held, depth=0, w=None):
    rec = {'dead': [], 'subs': [], 'std': [], 'lost': 0, 'left': 0}
    top = base
    base += '.%d' % depth if depth else ''
    both = job['how'] == 'lib-both'
    host = job['how'] == 'lib-host'
    save, paths = {}, {}
    canary = os.open('/dev/null', os.O_RDONLY)
    own = ident(canary)
    inp = bytes.fromhex(run['in'])
    if host:
        for n in range(3):
            save[n] = fcntl.fcntl(n, fcntl.F_DUPFD, 200)
            p = base + '.std%d' % n
            open(p, 'wb').write(inp if n == 0 else b'')
            h = os.open(p, os.O_RDONLY if n == 0 else os.O_WRONLY | os.O_APPEND)
            os.dup2(h, n)
            os.close(h)
            paths[n] = p
    pipes = {}
    try:
        w = w or environment(top, run)
        if not host:
            pipes = {0: io.BytesIO(inp), 1: io.BytesIO(), 2: io.BytesIO()}
            if both:
                pipes[2] = pipes[1]
            for n in range(3):
                w.fd[n].pipe = pipes[n]
        if run['quit']:
            w.return_on_exit = 0
        w.bind(rt)
        box = []
        ft = pywasm.core.FuncType([pywasm.core.ValType.i32()], [])

        def back(m, args):
            rt.invocate(box[0], 'f%d' % args[0], [])
            return []

        def spawn(m, args):
            p = run['subs'][args[0]]
            x = library(job, top, rt if p['here'] else pywasm.core.Runtime(), p, held, depth + 1)
            x['files'] = files(top, job['dirs'])
            rec['subs'] += x.pop('subs') + [x]
            return []
        rt.imports['env'] = {'back': rt.allocate_func_host(ft, back), 'spawn': rt.allocate_func_host(ft, spawn)}
        mi = rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(bytes.fromhex(run['wasm']))))
        box.append(mi)
        had = leading(top) - len(run['dirs'])
        try:
            c = w.main(rt, mi) if depth else D.guard(10, w.main, rt, mi)
            if type(c) is int:
                rec['end'], rec['code'] = 'exit', code4(c)
            else:
                rec['end'] = 'value ' + repr(c)[:30]
        except D.Hang:
            if depth:
                raise
            rec['end'] = 'hang'
        except SystemExit as e:                              # how an embedder may ask to be told of an exit
            rec['end'] = 'quit' if run['quit'] else 'SystemExit'
            rec['code'] = code4(e.code) if type(e.code) is int else []
        except Exception as e:
            rec['end'] = 'raise'
            rec['e'] = repr(e)[:100]
        rec['left'] = leading(top) - had
        if not host:
            # Once the program has replaced a stream, its pipe may not be rewound.
            all = (lambda p: p.getvalue()) if run['moves'] else (lambda p: p.read())
            rec['out'] = all(pipes[1]).hex()
            rec['err'] = all(pipes[2]).hex() if not both else ''
        # afterwards: the descriptors the program had, while the host opens files of its own
        mine = [os.open(base + '.own', os.O_RDWR | os.O_CREAT) for _ in range(4)]
        os.write(mine[0], b'own')
        try:
            w.bind(rt)
            po = rt.instance(pywasm.core.ModuleDesc.from_reader(io.BytesIO(probe())))
            for f in range(3, 3 + len(run['dirs'])):
                for k in ('stat', 'read'):
                    try:
                        r = rt.invocate(po, k, [f]) if depth else D.guard(5, rt.invocate, po, k, [f])
                        rec['dead'].append(r[0])
                    except Exception as e:
                        rec['dead'].append(-1)
                        rec['e'] = repr(e)[:100]
            rec['std'] = [rt.invocate(po, 'stat', [f])[0] for f in (1, 2)]
        finally:
            for x in mine:
                os.close(x)
        held.append((w, mi))
        rec['lost'] = int(ident(canary) != own)
    finally:
        if ident(canary) == own:
            os.close(canary)
        for n, h in save.items():
            os.dup2(h, n)
            os.close(h)
        if host:
            rec['out'] = open(paths[1], 'rb').read().hex()
            rec['err'] = open(paths[2], 'rb').read().hex()
        for p in list(paths.values()) + [base + '.own']:
            if os.path.exists(p):
                os.unlink(p)
    rec.setdefault('code', [])
    return rec


def command(job, base, run):
    both = job['how'] == 'cli-both'
    f = os.path.join(base, 'prog.wasm')
    open(f, 'wb').write(bytes.fromhex(run['wasm']))
    env = {'PYTHONPATH': D.REPO, 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': os.environ.get('PATH', ''), 'LANG': 'C.UTF-8', 'PYTHONUTF8': '1', 'UNRELATED': 'x'}
    ip, op, ep = base + '.in', base + '.out', base + '.err'
    open(ip, 'wb').write(bytes.fromhex(run['in']))
    with open(ip, 'rb') as i, open(op, 'wb') as o, open(ep, 'wb') as e:
        try:
            p = subprocess.run([sys.executable, '-m', 'pywasm'] + [os.fsdecode(bytes.fromhex(x)) for x in run['cli']], cwd=base, env=env, stdin=i, stdout=o,
                               stderr=o if both else e, timeout=30)
            rec = {'code': [p.returncode & 255], 'rc': p.returncode}
        except subprocess.TimeoutExpired:
            rec = {'end': 'hang'}
    rec['out'] = open(op, 'rb').read().hex()
    err = open(ep, 'rb').read()
    rec['err'] = err.hex()
    if 'rc' in rec:
        failed = rec['rc'] < 0 or b'Traceback (most recent call last)' in (bytes.fromhex(rec['out']) if both else err)
        rec['end'] = 'failed' if failed else 'exit'
        rec['e'] = err[-160:].decode(errors='replace') if failed else ''
    for x in (ip, op, ep, f):
        os.unlink(x)
    rec['dead'] = []
    rec['subs'] = []
    rec['std'] = []
    rec['lost'] = rec['left'] = 0
    return rec


def run(job):
    base = job['base']
    out = {'runs': []}
    try:
        os.makedirs(base)
        for d in job['dirs']:
            os.makedirs(os.path.join(base, d))
        for d, n, b in job['files']:
            open(os.path.join(os.fsencode(base), os.fsencode(d), bytes.fromhex(n)), 'wb').write(bytes.fromhex(b))
        rt = pywasm.core.Runtime()
        held = []
        early = {}
        for k, r in enumerate(job['runs']):
            for j in range(k, len(job['runs'])):             # environments made long before they are used
                if job['runs'][j]['early'] and j not in early:
                    early[j] = environment(base, job['runs'][j])
            try:
                rec = command(job, base, r) if job['how'].startswith('cli') else library(job, base, rt, r, held, 0, early.get(k))
            except Exception as e:
                if k == 0:
                    raise
                rec = {'end': 'died', 'e': repr(e)[:100]}    # what ran before left the process in this state
                out['runs'].append(rec)
                break
            rec.setdefault('code', [])
            rec['files'] = files(base, job['dirs'])
            out['runs'].append(rec)
    except Exception as e:
        import traceback
        out['setup'] = repr(e)[:200] + traceback.format_exc()[-600:]
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return out


def main():
    jobs = json.load(open(sys.argv[1]))
    with open(sys.argv[2], 'w') as f, os.fdopen(fcntl.fcntl(f.fileno(), fcntl.F_DUPFD, 300), 'w') as o:
        if os.getuid() == 0:
            os.setgroups([])
            os.setresgid(65534, 65534, 65534)
            os.setresuid(65534, 65534, 65534)
        os.umask(0o022)
        for j in jobs:
            o.write(json.dumps(run(j), separators=(',', ':')) + '\n')
            o.flush()


main()
