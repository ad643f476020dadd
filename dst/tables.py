"""C15: the generators of the tabulated terms on a simulated disk.

The scripts run unmodified (runpy) in a scratch directory.  Every file
operation below that directory goes through the simulated disk: it counts as a
point where a fault, a process crash or a power failure can strike, and it is
journalled so that a power failure can lose whatever was not synced.  sympy
(not installed here) is replaced by a stand-in whose expressions are opaque.
"""
import builtins
import errno
import io
import os
import random
import runpy
import shutil
import sys
import tempfile
import threading
import types
import zlib

from . import kernel

REAL = {k: getattr(os, k) for k in ('open', 'write', 'fsync', 'fdatasync', 'ftruncate', 'truncate', 'rename', 'replace',
                                    'unlink', 'remove', 'link', 'close', 'sendfile', 'symlink', 'getpid')}
_open = io.open


class Crash(BaseException):
    pass


class Proc:
    """one process using the disk"""

    def __init__(self, plan=None):
        self.plan = plan or {}
        self.n = 0
        self.dead = False
        self.full = False
        self.err = None


def _mine(k):
    return property(lambda d: getattr(d.proc(), k), lambda d, v: setattr(d.proc(), k, v))


class Disk:
    plan, n, dead, full = _mine('plan'), _mine('n'), _mine('dead'), _mine('full')

    def __init__(self, root, plan=None, chunk=0, seed=0):
        self.root = os.path.realpath(root)
        self.only = Proc(plan)
        self.procs = {}          # thread -> Proc, when several processes use the disk
        self.turn = None         # called before each file operation: lets another process go first
        self.chunk = chunk
        self.fired = {}
        self.points = []
        self.r = random.Random(seed)
        self.names = {}          # name -> id, as of the start
        self.data = {}           # id -> bytes at the start (durable)
        self.ops = {}            # id -> [('w', off, bytes) | ('t', size)]
        self.synced = {}         # id -> number of ops known durable
        self.meta = []           # ('add', name, id) | ('del', name) | ('mv', src, dst, id)
        self.ino = {}
        self.next = 0
        for f in os.listdir(root):
            p = os.path.join(root, f)
            if os.path.isfile(p):
                i = self.new(os.stat(p).st_ino)
                self.names[f] = i
                with _open(p, 'rb') as h:
                    self.data[i] = h.read()

    def proc(self):
        return self.procs.get(threading.get_ident(), self.only)

    def new(self, ino):
        i = self.next
        self.next += 1
        self.ino[ino] = i
        self.data[i] = b''
        self.ops[i] = []
        self.synced[i] = 0
        return i

    def inside(self, p):
        try:
            p = os.path.realpath(os.path.dirname(os.path.abspath(os.fspath(p))) or '.')
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root

    def name(self, p):
        return os.path.basename(os.fsdecode(os.fspath(p)))

    def hit(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def point(self, what):
        """returns an exception to raise part-way through a write, or None"""
        if self.turn:
            self.turn()
        if self.dead:
            raise Crash()
        self.n += 1
        self.points.append(what)
        p = self.plan
        k = p.get('kind')
        if k in ('crash', 'power') and self.n == p['at']:
            self.dead = True
            if k == 'power':
                for q in self.procs.values():
                    q.dead = True
            self.hit('disk:' + k)
            return Crash()
        if k == 'interrupt' and self.n == p['at']:
            self.hit('disk:interrupt')
            return KeyboardInterrupt('injected')
        if k == 'error' and (self.n == p['at'] or (self.full and what in ('write', 'open', 'fsync'))):
            self.full = bool(p.get('sticky'))
            self.hit('disk:' + p['exc'])
            return OSError(getattr(errno, p['exc']), 'injected ' + p['exc'])
        if k == 'openfail' and what == 'open' and not self.fired:
            self.hit('disk:open refused')
            return PermissionError(errno.EACCES, 'injected: permission denied')
        return None

    def do(self, what):
        e = self.point(what)
        if e is not None:
            raise e

    def fd_id(self, fd):
        try:
            return self.ino.get(os.fstat(fd).st_ino)
        except OSError:
            return None

    # ---- after a power failure
    def power_loss(self, seed):
        r = random.Random(seed)
        names = dict(self.names)
        n = len(self.meta)
        for m in self.meta[:r.choice([r.randint(0, n), n, n])]:
            if m[0] == 'add':
                names[m[1]] = m[2]
            else:
                names.pop(m[1], None)
                if m[0] == 'mv':
                    names[m[2]] = m[3]
        out = {}
        cont = {}
        for f, i in names.items():
            if i not in cont:
                b = bytearray(self.data[i])
                ops = self.ops[i]
                s = self.synced[i]
                k = r.choice([s, r.randint(s, len(ops)), len(ops)])
                for j, o in enumerate(ops[:k]):
                    d = o[2] if o[0] == 'w' else None
                    if d is not None:
                        if j == k - 1 and j >= s and r.random() < .5:
                            d = d[:r.randint(0, len(d))]
                        if len(b) < o[1]:
                            b.extend(b'\0' * (o[1] - len(b)))
                        b[o[1]:o[1] + len(d)] = d
                    elif o[1] <= len(b):
                        del b[o[1]:]
                    else:
                        b.extend(b'\0' * (o[1] - len(b)))
                cont[i] = bytes(b)
            out[f] = cont[i]
        for f in os.listdir(self.root):
            p = os.path.join(self.root, f)
            if os.path.isfile(p) or os.path.islink(p):
                REAL['unlink'](p)
        for f, b in out.items():
            with _open(os.path.join(self.root, f), 'wb') as h:
                h.write(b)


DISK = None


class SimFileIO(io.FileIO):
    def __init__(self, file, mode='r', closefd=True, opener=None):
        d = DISK
        wr = any(c in mode for c in 'wax+')
        self._id = None
        if isinstance(file, int) or not wr:
            super().__init__(file, mode, closefd, opener)
            self._id = d.fd_id(self.fileno())
            return
        existed = os.path.lexists(file)
        d.do('open')
        super().__init__(file, mode, closefd, opener)
        d_ino = os.fstat(self.fileno()).st_ino
        if existed or d.ino.get(d_ino) is not None and opener is not None:
            self._id = d.ino.get(d_ino)
        else:
            self._id = d.new(d_ino)
            d.meta.append(('add', d.name(file), self._id))
        if 'w' in mode and self._id is not None:
            d.ops[self._id].append(('t', 0))

    def write(self, b):
        d = DISK
        if self._id is None:
            return super().write(b)
        b = bytes(b)
        if d.chunk and len(b) > d.chunk:
            b = b[:d.r.randint(1, d.chunk)]
            d.hit('disk:short write')
        e = d.point('write')
        if e is not None:
            b = b[:d.r.randint(0, len(b))]
            if isinstance(e, KeyboardInterrupt) or (d.full and d.r.random() < .7):
                b = b''
        if b:
            off = self.tell() if 'a' not in self.mode else os.fstat(self.fileno()).st_size
            n = super().write(b)
            d.ops[self._id].append(('w', off, b[:n]))
        else:
            n = 0
        if e is not None:
            raise e
        return n

    def truncate(self, size=None):
        if self._id is not None:
            DISK.do('truncate')
            DISK.ops[self._id].append(('t', self.tell() if size is None else size))
        return super().truncate(size)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = DISK
    if d is None or d.dead and not isinstance(file, int) and not d.inside(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if d.fd_id(file) is None:
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    elif not d.inside(file):
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if d.dead:
        raise Crash()
    raw = SimFileIO(file, mode.replace('b', '').replace('t', ''), closefd, opener)
    if 'b' in mode and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in mode for c in 'wax'):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if 'b' in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    t.mode = mode
    return t


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = DISK
    if d is None or dir_fd is not None or not d.inside(path) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        if d is not None and d.dead:
            raise Crash()
        return REAL['open'](path, flags, mode, dir_fd=dir_fd)
    existed = os.path.lexists(path)
    d.do('open')
    fd = REAL['open'](path, flags, mode)
    ino = os.fstat(fd).st_ino
    if not existed:
        d.meta.append(('add', d.name(path), d.new(ino)))
    elif flags & os.O_TRUNC and ino in d.ino:
        d.ops[d.ino[ino]].append(('t', 0))
    return fd


def _os_write(fd, b):
    d = DISK
    i = d.fd_id(fd) if d is not None else None
    if i is None:
        return REAL['write'](fd, b)
    e = d.point('write')
    b = bytes(b)
    if e is not None:
        b = b[:d.r.randint(0, len(b))]
    elif d.chunk and len(b) > d.chunk:
        b = b[:d.r.randint(1, d.chunk)]
        d.hit('disk:short write')
    off = os.lseek(fd, 0, 1)
    n = REAL['write'](fd, b) if b else 0
    d.ops[i].append(('w', off, b[:n]))
    if e is not None:
        raise e
    return n


def _sync(fd):
    d = DISK
    f = fd if isinstance(fd, int) else fd.fileno()
    i = d.fd_id(f) if d is not None else None
    if i is None:
        if d is not None and d.dead:
            raise Crash()
        return None
    d.do('fsync')
    d.synced[i] = len(d.ops[i])


def _move(real):
    def f(src, dst, **k):
        d = DISK
        if d is None or not (d.inside(src) or d.inside(dst)):
            return real(src, dst, **k)
        d.do('rename')
        i = d.ino.get(os.stat(src).st_ino)
        real(src, dst, **k)
        d.meta.append(('mv', d.name(src), d.name(dst), i))
    return f


def _del(path, *, dir_fd=None):
    d = DISK
    if d is None or dir_fd is not None or not d.inside(path):
        return REAL['unlink'](path, dir_fd=dir_fd)
    d.do('unlink')
    REAL['unlink'](path)
    d.meta.append(('del', d.name(path)))


def _link(src, dst, **k):
    d = DISK
    if d is None or not d.inside(dst):
        return REAL['link'](src, dst, **k)
    d.do('link')
    REAL['link'](src, dst, **k)
    d.meta.append(('add', d.name(dst), d.ino.get(os.stat(src).st_ino)))


def _truncate(path, length):
    d = DISK
    if d is None or (isinstance(path, int) and d.fd_id(path) is None) or (not isinstance(path, int) and not d.inside(path)):
        return REAL['truncate'](path, length)
    d.do('truncate')
    i = d.fd_id(path) if isinstance(path, int) else d.ino.get(os.stat(path).st_ino)
    REAL['truncate'](path, length)
    d.ops[i].append(('t', length))


def _nosend(*a):
    raise OSError(errno.EINVAL, 'not supported by the simulated disk')


class Stub:
    """sympy stand-in: opaque expressions"""
    calls = 0
    fail_at = None
    exc = None


class E:
    __slots__ = ('h',)

    def __init__(self, h):
        Stub.calls += 1
        if Stub.calls == Stub.fail_at:
            raise Stub.exc('injected')
        self.h = h & 0xffffffff

    def _op(self, tag, o):
        return E(zlib.crc32(b'%d,%d,%d' % (tag, self.h, o.h if isinstance(o, E) else zlib.crc32(repr(o).encode()))))

    def __add__(self, o): return self._op(1, o)
    def __radd__(self, o): return self._op(2, o)
    def __sub__(self, o): return self._op(3, o)
    def __rsub__(self, o): return self._op(4, o)
    def __mul__(self, o): return self._op(5, o)
    def __rmul__(self, o): return self._op(6, o)
    def __truediv__(self, o): return self._op(7, o)
    def __rtruediv__(self, o): return self._op(8, o)
    def __pow__(self, o): return self._op(9, o)
    def __neg__(self): return self._op(10, 0)
    def __pos__(self): return self
    def __eq__(self, o): return isinstance(o, E) and o.h == self.h
    def __hash__(self): return self.h
    def __str__(self): return f'{self.h}*xi/7 + {self.h % 97}'
    __repr__ = __str__
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: E(zlib.crc32(repr((n, self.h, str(a))).encode()))


def _sympy():
    m = types.ModuleType('sympy')

    def symbols(names, **k):
        if isinstance(names, str):
            names = names.replace(',', ' ').split()
        s = [E(zlib.crc32(n.encode())) for n in names]
        return s if len(s) > 1 else s[0]

    def fn(name):
        return lambda *a, **k: E(zlib.crc32(repr((name, [str(x) for x in a])).encode()))
    m.symbols = symbols
    m.Symbol = lambda n, **k: symbols(n)
    m.integrate = lambda e, *a, **k: E(zlib.crc32(b'I%d' % getattr(e, 'h', 0)))
    m.sympify = lambda e, **k: e if isinstance(e, E) else E(zlib.crc32(repr(e).encode()))
    m.__getattr__ = fn
    return m


def _pids(disk):
    def getpid():
        t = threading.get_ident()
        return 40000 + list(disk.procs).index(t) if t in disk.procs else REAL_PID()
    return getpid


REAL_PID = os.getpid


def _together(disk, procs, execs, seed, watch):
    """several executions of the generator at once, one file operation at a time in a seeded order"""
    r = random.Random(seed)
    sems = [threading.Semaphore(0) for _ in procs]
    live = list(range(len(procs)))
    done = threading.Semaphore(0)
    order = []

    def go(i):
        order.append(i)
        sems[i].release()

    def turn():
        i = next((j for j, q in enumerate(procs) if q is disk.proc()), None)
        if i is None:
            return
        watch()
        j = r.choice(live)
        if j != i:
            go(j)
            sems[i].acquire()

    def body(i):
        disk.procs[threading.get_ident()] = procs[i]
        ready.release()
        sems[i].acquire()
        try:
            execs[i]()
        except BaseException as e:
            e.__traceback__ = e.__context__ = None
            procs[i].err = e
        watch()
        live.remove(i)
        if live:
            go(r.choice(live))
        else:
            done.release()
    ready = threading.Semaphore(0)
    ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(procs))]
    for t in ts:
        t.start()
        ready.acquire()
    disk.turn = turn
    go(r.choice(live))
    done.acquire()
    disk.turn = None
    for t in ts:
        t.join()
    return order


def _attempt(root, script, disk, stub=None, stdout=None, pair=None):
    """one execution of the generator (or several at once); returns the exception that ended it, or None"""
    global DISK
    Stub.calls, Stub.fail_at, Stub.exc = 0, None, None
    if stub:
        Stub.fail_at, Stub.exc = stub
    keep = {'open': builtins.open, 'io': io.open, 'out': sys.stdout, 'err': sys.stderr, 'cwd': os.getcwd(), 'argv': sys.argv}
    patched = dict(open=_os_open, write=_os_write, fsync=_sync, fdatasync=_sync, ftruncate=_truncate, truncate=_truncate,
                   rename=_move(REAL['rename']), replace=_move(REAL['replace']), unlink=_del, remove=_del, link=_link, sendfile=_nosend)
    sys.modules['sympy'] = _sympy()
    err = None
    code = compile(_open(os.path.join(root, script + '.py')).read(), os.path.join(root, script + '.py'), 'exec')

    def execute():
        glob = {'__name__': '__main__', '__file__': os.path.join(root, script + '.py'), '__builtins__': builtins}
        try:
            exec(code, glob)
        finally:
            glob.clear()
    patched['getpid'] = _pids(disk)
    try:
        sys.stdout = stdout or io.StringIO()
        sys.stderr = io.StringIO()
        os.chdir(root)
        sys.argv = [script + '.py']
        DISK = disk
        builtins.open = io.open = sim_open
        for k, v in patched.items():
            setattr(os, k, v)
        shutil._USE_CP_SENDFILE = False
        try:
            if pair:
                err = _together(disk, pair[0], [execute] * len(pair[0]), *pair[1:])
            else:
                execute()
        except BaseException as e:
            err = e
            e.__traceback__ = None
    finally:
        disk.dead_before = disk.dead
        DISK = None
        for k, v in patched.items():
            setattr(os, k, REAL[k])
        builtins.open, io.open = keep['open'], keep['io']
        sys.stdout, sys.argv = keep['out'], keep['argv']
        os.chdir(keep['cwd'])
        sys.stderr = keep['err']
        sys.modules.pop('sympy', None)
    return err


def _read(p):
    try:
        with _open(p, 'rb') as h:
            return h.read()
    except FileNotFoundError:
        return None


SPEC = {'write_pre_integrated_terms': ('_ii_F.py', ['ii_FF', 'ii_FXI_F', 'ii_FXI_FXI', 'ii_FXIXI_F', 'ii_FXIXI_FXI', 'ii_FXIXI_FXIXI'],
                                       [(i, k) for i in range(50) for k in range(50)]),
        'write_shape_function': ('_S.py', ['FXI', 'S'], None)}


def complete(script, text):
    """why the regenerated table is not a complete one, or None"""
    _, tabs, keys = SPEC[script]
    g = {}
    try:
        exec(compile(text, 'table', 'exec'), g)
    except Exception as e:
        return f'the table is not importable: {type(e).__name__}: {e}'
    for t in tabs:
        want = keys or (list(range(50)) if t == 'FXI' else [(i, k) for i in range(50) for k in range(50)])
        d = g.get(t)
        if not isinstance(d, dict) or len(d) != len(want) or any(not isinstance(d.get(x), str) or not d[x] for x in want):
            return f'{t} does not hold its {len(want)} entries'
        if t not in g.get('__all__', []):
            return f'{t} is not exported'
    return None


class BadOut(io.StringIO):
    def __init__(self, disk):
        super().__init__()
        self.disk = disk

    def write(self, s):
        self.disk.hit('stdout:BrokenPipeError')
        raise BrokenPipeError(32, 'injected broken pipe')


def _pair(sc, a, j, root, script, path, old, golden, total, bad, fired, log):
    """two regenerations at once: at every instant the table is a complete one"""
    plan = dict(a, kind=a['sub'], at=1 + min(total - 1, int(a['frac'] * total)))
    if sc['chunk']:
        plan['at'] = 1 + int(a['frac'] * (total + len(golden) // max(1, sc['chunk'] // 2)))
    d = Disk(root, None, sc['chunk'], sc['loss'] + j)
    procs = [Proc(plan if i == a['who'] else None) for i in range(a['n'])]
    seen = []

    def watch():
        if seen:
            return
        now = _read(path)
        if now != old and now != golden:
            seen.append((len(d.points), 'missing' if now is None else ('empty' if not now else f'{len(now)} bytes')))
    order = _attempt(root, script, d, None, None, (procs, a['sched'], watch))
    for f, n in d.fired.items():
        fired[f] = fired.get(f, 0) + n
    fired['disk:another process regenerating'] = fired.get('disk:another process regenerating', 0) + 1
    ends = [type(p.err).__name__ if p.err else 'completed' for p in procs]
    log.append(('pair', len(d.points), 'NoneType' if ends.count('completed') == len(ends) else ','.join(ends), sorted(d.fired), zlib.crc32(bytes(order))))
    desc = f"{a['n']} regenerations at once, {a['sub']} in number {a['who']} at file operation {plan['at']} ({', '.join(ends)})"
    if isinstance(order, BaseException):
        raise order
    if 'disk:power' in d.fired:
        d.power_loss(sc['loss'] + 31 * j)
    now = _read(path)
    table = os.path.basename(path)
    if seen:
        bad('table-damaged', f'{desc}: after {seen[0][0]} file operations {table} was {seen[0][1]}, neither the previous table nor the complete new one')
    elif now != old and now != golden:
        bad('table-damaged', f'{desc}: {table} is neither the previous table nor the complete new one')
    elif 'completed' in ends and now != golden and 'disk:power' not in d.fired:
        bad('not-replaced', f'{desc}: a regeneration reported success but {table} is not the new table')
    for i, p in enumerate(procs):
        hurt = any(not f.startswith('disk:short') for f in d.fired) and i == a['who']
        if p.err is not None and not hurt and 'disk:power' not in d.fired:
            bad('unexpected-error', f'{desc}: number {i} raised {type(p.err).__name__}: {p.err} although no fault was injected into it')
    return now


def run(sc):
    root = tempfile.mkdtemp(prefix='dst-tables-')
    viol = []
    fired = {}
    points = []
    log = []
    try:
        src = os.path.join(kernel.REPO, 'composipy', 'pre_integrated_component')
        script = sc['script']
        shutil.copy(os.path.join(src, script + '.py'), root)
        table = SPEC[script][0]
        path = os.path.join(root, table)
        other = os.path.join(root, '_S.py' if table == '_ii_F.py' else '_ii_F.py')
        bystander = b'# the other table\n'

        def bad(cls, msg):
            viol.append({'cls': cls, 'kind': 'generate', 'q': script, 'uid': 0, 'msg': msg})

        # what a fault-free execution produces
        d = Disk(root)
        e = _attempt(root, script, d)
        if e is not None:
            bad('unexpected-error', f'a fault-free execution raised {type(e).__name__}: {e}')
            return _out(viol, fired, points, log, sc)
        golden = _read(path)
        total = len(d.points)
        points += d.points
        calls = Stub.calls
        why = complete(script, golden or b'')
        if why:
            bad('incomplete', 'a fault-free execution: ' + why)
            return _out(viol, fired, points, log, sc)
        for f in os.listdir(root):
            if f != script + '.py':
                REAL['unlink'](os.path.join(root, f))
        with _open(other, 'wb') as h:
            h.write(bystander)
        old = None
        if sc['old'] == 'present':
            old = b"# previous table\n__all__ = ['ii_FF']\nii_FF = {(0, 0): '26/35'}\n" * 50
            with _open(path, 'wb') as h:
                h.write(old)
        for j, a in enumerate(sc['attempts']):
            k = a['kind']
            if k == 'pair':
                old = _pair(sc, a, j, root, script, path, old, golden, total, bad, fired, log)
                if _read(other) != bystander:
                    bad('other-file', f'after two regenerations at once: {os.path.basename(other)} changed')
                if viol:
                    break
                continue
            plan = dict(a, at=1 + min(total - 1, int(a['frac'] * total)))
            if sc['chunk'] and k != 'compute':
                plan['at'] = 1 + int(a['frac'] * (total + len(golden) // max(1, sc['chunk'] // 2)))
            d = Disk(root, plan, sc['chunk'] if k != 'short' else (sc['chunk'] or 70000), sc['loss'] + j)
            stub = None
            if k == 'compute':
                stub = (1 + int(a['frac'] * (calls - 1)), {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt}[a['exc']])
                d.hit('compute:' + a['exc'])
            out = BadOut(d) if a['kind'] == 'short' and a['frac'] < .3 else None
            e = _attempt(root, script, d, stub, out)
            for f, n in d.fired.items():
                fired[f] = fired.get(f, 0) + n
            log.append((k, len(d.points), type(e).__name__, sorted(d.fired)))
            if k == 'power' and d.dead or k == 'power-after':
                if k == 'power-after':
                    fired['disk:power after completion'] = fired.get('disk:power after completion', 0) + 1
                d.power_loss(sc['loss'] + 31 * j)
            now = _read(path)
            desc = f"after {k} at file operation {d.n} of {total} ({type(e).__name__ if e else 'completed'})"
            real_fault = any(not f.startswith('disk:short') for f in d.fired)
            if e is not None and not real_fault:
                bad('unexpected-error', f'{desc}: raised {type(e).__name__}: {e} although no fault was injected')
            if now != old and now != golden:
                what = 'missing' if now is None else ('empty' if not now else f'{len(now)} bytes, neither the previous table nor the complete new one ({len(golden)} bytes)')
                bad('table-damaged', f'{desc}: {table} is {what}')
            elif e is None and now != golden and k != 'power-after':
                bad('not-replaced', f'{desc}: reported success but {table} is not the new table')
            old = now
            if _read(other) != bystander:
                bad('other-file', f'{desc}: {os.path.basename(other)} changed')
            if viol:
                break
        if not viol:
            d = Disk(root)
            e = _attempt(root, script, d)
            if e is not None:
                bad('unexpected-error', f'execution without faults after {log} raised {type(e).__name__}: {e}')
            elif _read(path) != golden:
                bad('incomplete', f'execution without faults after {log} did not produce the complete table')
        return _out(viol, fired, points, log, sc)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _out(viol, fired, points, log, sc):
    return {'viol': viol, 'crc': zlib.crc32(repr((sc['script'], sc['old'], sc['chunk'], log)).encode()), 'steps': sum(l[1] for l in log),
            'switches': [], 'simtime': 0.0, 'faults': fired, 'probes': {}, 'kinds': {'generate': len(log) + 2}, 'oplen': {},
            'completed': sum(1 for l in log if l[2] == 'NoneType') + 2, 'aborted': sum(1 for l in log if l[2] != 'NoneType'),
            'clock_reads': 0, 'entropy_draws': 0}
