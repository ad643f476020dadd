"""Deterministic simulation kernel.

One process, one simulator: every caller thread of the library is a real Python
thread that runs only while it holds the baton; the baton moves only at points
the simulator owns (each source line executed inside the composipy package, each
seam call, each lock operation).  One integer decides every switch and fault.
"""
import ctypes
import dis
import gc
import hashlib
import os
import random as _random
import sys
import threading as _threading
import types
import zlib

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(os.path.realpath(REPO), 'composipy') + os.sep

_RealLock = _threading.Lock
_RealRLock = _threading.RLock
_get_ident = _threading.get_ident

MON = sys.monitoring
TOOL = 4


class SimAbort(BaseException):
    """Unwinds simulated threads when a run is stopped."""


class StepLimit(BaseException):
    """A call did not finish within the step budget."""


class InjectedBase(BaseException):
    """Stand-in for an asynchronous exception no library may absorb."""


ACTIVE = None          # the running Sim
STEP_CAP = 3_000_000
_libc = ctypes.CDLL(None)


def _in_child():
    """a forked process has no simulator (before any handler of the library runs in it), and
    does not outlive the one that waits for it"""
    global ACTIVE
    ACTIVE = None
    _libc.prctl(1, 9)


os.register_at_fork(after_in_child=_in_child)


def _mk(exc):
    if exc == 'KeyboardInterrupt':
        return KeyboardInterrupt('injected')
    if exc == 'MemoryError':
        return MemoryError('injected: failed allocation')
    if exc == 'SystemExit':
        return SystemExit('injected')
    if exc == 'InjectedBase':
        return InjectedBase('injected')
    if exc == 'FloatingPointError':
        return FloatingPointError('injected')
    if exc == 'OSError':
        return OSError(5, 'injected I/O error')
    if exc == 'BrokenPipeError':
        return BrokenPipeError(32, 'injected broken pipe')
    if exc == 'ENOSPC':
        return OSError(28, 'injected: no space left on device')
    if exc == 'RecursionError':
        return RecursionError('injected')
    if exc == 'RuntimeError':
        return RuntimeError('Factor is exactly singular')
    if exc == 'ZeroDivisionError':
        return ZeroDivisionError('injected')
    if exc == 'LinAlgError':
        import numpy
        return numpy.linalg.LinAlgError('injected')
    if exc == 'ArpackNoConvergence':
        import numpy
        from scipy.sparse.linalg import ArpackNoConvergence
        return ArpackNoConvergence('injected: no convergence', numpy.zeros(0), numpy.zeros((0, 0)))
    if exc == 'ArpackError':
        from scipy.sparse.linalg import ArpackError
        return ArpackError(-9999)
    raise ValueError(exc)


class Thread:
    __slots__ = ('tid', 'sem', 'ident', 'active', 'done', 'blocked', 'opstep', 'uid',
                 'fault', 'fired', 'seam_calls', 'out', 'body', 'error', 'fault_loc', 'suspend', 'drawn', 'before', 'hot', 'lines')

    def __init__(self, tid, body):
        self.tid = tid
        self.body = body
        self.sem = _RealLock()
        self.sem.acquire()
        self.ident = None
        self.active = False       # inside an operation on the system
        self.done = False
        self.blocked = None
        self.opstep = 0
        self.uid = -1
        self.fault = None
        self.fired = []
        self.seam_calls = {}
        self.out = None
        self.error = None
        self.fault_loc = None
        self.suspend = 0
        self.drawn = []
        self.before = None
        self.hot = False          # has just stored something others may see
        self.lines = {}           # code -> line executed last


class Sim:
    """One simulated run."""

    def __init__(self, schedule=None, entropy=0, clock=None, step_cap=STEP_CAP):
        # schedule: {'switches': [[tid, uid, opstep, to], ...]} (replay)
        #        or {'gen': {'seed':, 'mode':, ...}} (search; switches get recorded)
        schedule = schedule or {}
        self.replay = None
        self.rng = None
        self.switches = []
        if 'switches' in schedule:
            self.replay = {(t, u, s): to for t, u, s, to in schedule['switches']}
        elif 'gen' in schedule:
            g = schedule['gen']
            self.rng = _random.Random(g['seed'])
            self.mode = g['mode']
            self.gap = g.get('gap', 20)
            self.left = g.get('count', 10 ** 9)
            self.next_switch = self._draw() if self.mode != 'hot' else 0
        self.record = None        # call -> its hot steps
        self.hotness = self.rng is not None and self.mode == 'hot'
        self.steps = 0
        self.cap = step_cap
        self.threads = []
        self.by_ident = {}
        self.multi = False
        self.aborting = False
        self.verdicts = []          # kernel-level violations (deadlock, no progress)
        self.crc = 0
        self.faults_fired = {}
        self.probes = {}
        self.erng = _random.Random(entropy)
        self.entropy_draws = 0
        self.clock = dict(clock or {})
        self.crng = _random.Random(self.clock.get('seed', 0))
        self.now = float(self.clock.get('start', 1.0e9))
        self.clock_reads = 0
        self.simtime = 0.0
        self.handler = None

    # ---- schedule -------------------------------------------------------
    def _draw(self):
        if self.left <= 0:
            return 1 << 60
        self.left -= 1
        if self.mode == 'uniform':           # PCT-like: few switch points over a horizon
            return getattr(self, 'steps', 0) + 1 + self.rng.randrange(max(1, self.gap))
        return getattr(self, 'steps', 0) + 1 + int(self.rng.expovariate(1.0 / self.gap))

    def _runnable(self, but=None):
        return [t for t in self.threads if not t.done and t is not but
                and (t.blocked is None or t.blocked.free_for(t))]

    def _log(self, *ev):
        self.crc = zlib.crc32(repr(ev).encode(), self.crc)

    def recording(self):
        self.record = {}
        self.hotness = True
        return self

    def point(self, th, name, line, hot=True):
        """A place where the scheduler may act; called on th with the baton held.
        hot: next to a store into an object, a container or a global"""
        self.steps += 1
        th.opstep += 1
        if hot and self.record is not None:
            l = self.record.setdefault(th.uid, [])
            if len(l) < 3000:
                l.append(th.opstep)
        if self.steps > self.cap:
            raise StepLimit()
        f = th.fault
        if f is not None and f.get('at') in ('line', 'handler') and th.opstep == f['n'] and not f.get('_fired'):
            f['_fired'] = True
            th.fault_loc = (name, line)
            if f['at'] == 'handler':
                self._log('H', th.tid, th.uid, th.opstep)
                self.faults_fired['handler'] = self.faults_fired.get('handler', 0) + 1
                self.interrupt(th, f['ops'])
                return
            self.fired(th, 'line:' + f['exc'])
            self._log('F', th.tid, th.uid, th.opstep, f['exc'])
            raise _mk(f['exc'])
        if not self.multi:
            return
        if self.aborting:
            raise SimAbort()
        if self.rng is not None:
            if self.mode == 'hot':
                if not hot or self.left <= 0 or self.rng.random() >= self.gap:
                    return
                self.left -= 1
            else:
                if self.steps < self.next_switch:
                    return
                self.next_switch = self._draw()
            c = self._runnable(th)
            if not c:
                return
            to = c[self.rng.randrange(len(c))]
        else:
            if self.replay is None:
                return
            k = self.replay.get((th.tid, th.uid, th.opstep))
            if k is None:
                return
            to = next((t for t in self._runnable(th) if t.tid == k), None)
            if to is None:
                return
        self.switches.append([th.tid, th.uid, th.opstep, to.tid])
        self._log('S', th.tid, th.uid, name, th.opstep, to.tid)
        self.handoff(th, to)

    def fired(self, th, kind):
        self.faults_fired[kind] = self.faults_fired.get(kind, 0) + 1
        th.fired.append(kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def handoff(self, th, to):
        if to is th:
            return
        to.sem.release()
        th.sem.acquire()
        if self.aborting:
            raise SimAbort()

    # ---- seams ----------------------------------------------------------
    def seam(self, th, name):
        """A call crossing a seam (solver, stdout, display, ...)."""
        n = th.seam_calls.get(name, 0) + 1
        th.seam_calls[name] = n
        self._log('M', th.tid, th.uid, name, n)
        f = th.fault
        if f is not None and f.get('at') == name and (n >= f['calls']['from'] if isinstance(f['calls'], dict) else n in f['calls']):
            self.fired(th, name + ':' + f['exc'])
            f['_fired'] = True
            raise _mk(f['exc'])
        lim = th.fault.get('limit') if th.fault else None
        if lim and n > lim.get(name, 1 << 60):
            raise StepLimit()
        if self.multi and not th.suspend:
            self.point(th, '<' + name + '>', n)

    # ---- running --------------------------------------------------------
    def run(self, bodies):
        global ACTIVE
        self.threads = [Thread(i, b) for i, b in enumerate(bodies)]
        self.multi = len(bodies) > 1
        if self.multi:                     # started before the simulation owns any lock, so that starting them is not part of it
            self.main_sem = _RealLock()
            self.main_sem.acquire()
            real = [_threading.Thread(target=self._main, args=(t,), daemon=True) for t in self.threads]
            for r in real:
                r.start()
        ACTIVE = self
        try:
            if not self.multi:
                th = self.threads[0]
                th.ident = _get_ident()
                self.by_ident[th.ident] = th
                try:
                    th.body(th)
                except StepLimit:
                    self.verdicts.append(('no-progress', 'step budget exhausted'))
                except SimAbort:
                    pass
                th.active = False
                th.done = True
                self.by_ident.pop(th.ident, None)
            else:
                self.threads[0].sem.release()
                self.main_sem.acquire()
                for r in real:
                    r.join()
                for t in self.threads:
                    if t.error is not None:
                        raise t.error
        finally:
            ACTIVE = None

    def _main(self, th):
        th.sem.acquire()
        th.ident = _get_ident()
        self.by_ident[th.ident] = th
        try:
            if not self.aborting:
                th.body(th)
        except SimAbort:
            pass
        except StepLimit:
            self.verdicts.append(('no-progress', 'step budget exhausted'))
            self.aborting = True
        except BaseException as e:      # harness bug: surfaced by run()
            th.error = e
            self.aborting = True
        th.active = False
        th.done = True
        self._log('E', th.tid)
        self.by_ident.pop(th.ident, None)
        self.next_after(th)

    def next_after(self, th):
        if self.aborting:
            rest = [t for t in self.threads if not t.done]
        else:
            rest = self._runnable()
            if not rest and any(not t.done for t in self.threads):
                self.verdicts.append(('deadlock', 'every unfinished caller waits for a lock'))
                self.aborting = True
                rest = [t for t in self.threads if not t.done]
        if rest:
            rest[0].sem.release()
        else:
            self.main_sem.release()

    def block(self, th, lock):
        """th cannot take lock now: let somebody else run until it is free."""
        self.probe('lock-contended')
        th.blocked = lock
        c = self._runnable()
        if not c:
            if not self.multi or all(t.done for t in self.threads if t is not th):
                pass
            self.verdicts.append(('deadlock', 'every unfinished caller waits for a lock'))
            self.aborting = True
            th.blocked = None
            raise SimAbort()
        to = c[0] if self.rng is None else c[self.rng.randrange(len(c))]
        self._log('B', th.tid, to.tid)
        self.handoff(th, to)
        th.blocked = None

    def interrupt(self, th, ops):
        """an interrupt handler (or finaliser) of the caller runs here, on the same thread, and uses the library"""
        keep = {k: getattr(th, k) for k in ('uid', 'opstep', 'fault', 'fired', 'fault_loc', 'seam_calls', 'drawn', 'active', 'out', 'before')}
        try:
            for op in ops:
                self.handler(self, th, op)
        finally:
            for k, v in keep.items():
                setattr(th, k, v)

    def begin_op(self, th, uid, fault=None):
        th.uid = uid
        th.opstep = 0
        th.fault = fault
        th.fired = []
        th.fault_loc = None
        th.seam_calls = {}
        th.drawn = []
        th.hot = False
        th.lines = {}
        th.active = True

    def end_op(self, th):
        th.active = False
        th.fault = None


def current():
    s = ACTIVE
    if s is None:
        return None, None
    th = s.by_ident.get(_get_ident())
    if th is None or not th.active:
        return None, None
    return s, th


# ---- cooperative locks (library code that takes locks must not stall the baton)
class SimLock:
    def __init__(self):
        self._l = _RealLock()
        self._owner = None
        self._n = 0
        self._re = False

    def free_for(self, th):
        return self._owner is None or (self._re and self._owner is th)

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        th = s.by_ident.get(_get_ident()) if s is not None else None
        if th is None:
            me = _get_ident()
            if self._re and self._owner == me:
                self._n += 1
                return True
            ok = self._l.acquire(blocking, timeout)
            if ok:
                self._owner, self._n = me, 1
            return ok
        while not self.free_for(th):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            s.block(th, self)
        if self._owner is None:
            self._l.acquire(False)
        self._owner = th
        self._n += 1
        return True

    def release(self):
        if self._n <= 0:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None
            self._l.release()

    def locked(self):
        return self._n > 0

    def _at_fork_reinit(self):
        # the standard library resets ITS OWN locks in a forked child; a lock
        # of the library under test, held by a thread that is gone, stays held
        self._l = _RealLock()
        self._owner = None
        self._n = 0

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def _is_owned(self):
        return self._n > 0

    def _release_save(self):
        st = (self._n, self._owner)
        self._n = 0
        self._owner = None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._n = st[0]


def _lock():
    return SimLock()


def _rlock():
    l = SimLock()
    l._re = True
    return l


# ---- monitoring of the package's own code --------------------------------
_skip_codes = {}


def _on_line(code, line):
    s = ACTIVE
    if s is None:
        return None
    th = s.by_ident.get(_get_ident())
    if th is None or not th.active or th.suspend:
        return None
    tails, heads = _simple(code)
    if tails and th.lines.get(code) in tails and line in heads:
        if heads[line]:
            th.lines[code] = line
        return None                   # nothing can come between two plain stores
    th.lines[code] = line
    hot = False
    if s.hotness:
        h = line in _stores(code)[0]
        hot = h or th.hot
        th.hot = h
    s.point(th, code.co_name, line, hot)
    return None


_PLAIN = ('LOAD_FAST', 'LOAD_CONST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR', 'COPY', 'SWAP', 'NOP', 'CACHE', 'BUILD_TUPLE',
          'UNPACK_SEQUENCE', 'LOAD_DEREF', 'RETURN_CONST', 'STORE_FAST', 'POP_TOP', 'PUSH_NULL', 'EXTENDED_ARG')
_simples = {}


def _simple(code):
    """Lines that end with a store, and lines that reach a store by plain loads only.  CPython neither switches threads nor
    delivers a signal nor can fail between two such stores, be they written on one line or on two."""
    o = _simples.get(code)
    if o is None:
        tails, heads, by = set(), {}, {}
        for i in dis.get_instructions(code):
            if i.positions.lineno is not None:
                by.setdefault(i.positions.lineno, []).append(i.opname)
        for line, ops in by.items():
            rest = [k for k in ops if k not in _PLAIN]
            if rest and rest[-1] == 'STORE_ATTR':
                tails.add(line)
            if not rest or rest[0] == 'STORE_ATTR':
                heads[line] = bool(rest)
        o = _simples[code] = (tails, heads) if tails and heads else (None, None)
    return o


_STORES = ('STORE_ATTR', 'STORE_SUBSCR', 'STORE_GLOBAL', 'STORE_DEREF', 'STORE_SLICE', 'DELETE_ATTR', 'DELETE_SUBSCR')
_stored = {}


def _stores(code):
    """lines that store, and switch offsets next to a store"""
    o = _stored.get(code)
    if o is None:
        at = _switch_offsets(code)
        lines, offs, since, last = set(), set(), False, None
        for i in dis.get_instructions(code):
            if i.offset in at:
                if since:
                    offs.add(i.offset)
                since, last = False, i.offset
            if i.opname in _STORES:
                lines.add(i.positions.lineno)
                since = True
                if last is not None:
                    offs.add(last)
        o = _stored[code] = (lines, offs)
    return o


_offsets = {}


def _switch_offsets(code):
    """Where CPython itself may switch threads or deliver a signal inside a line: after a call, and at a loop's end."""
    o = _offsets.get(code)
    if o is None:
        o = set()
        after = False
        for i in dis.get_instructions(code):
            if after:
                o.add(i.offset)
            after = i.opname.startswith(('CALL', 'JUMP_BACKWARD')) and not i.opname.startswith('CALL_INTRINSIC')
            if i.opname.startswith('JUMP_BACKWARD'):
                o.add(i.offset)
        _offsets[code] = o
    return o


def _on_instr(code, offset):
    s = ACTIVE
    if s is None:
        return None
    if offset not in _switch_offsets(code):
        return MON.DISABLE
    th = s.by_ident.get(_get_ident())
    if th is None or not th.active or th.suspend:
        return None
    s.point(th, code.co_name, -offset, s.hotness and offset in _stores(code)[1])
    return None


def _codes_of(code, acc):
    if code in acc:
        return
    acc.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _codes_of(c, acc)


def package_codes():
    acc = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and 'composipy' in o.__code__.co_filename \
                and os.path.realpath(o.__code__.co_filename).startswith(PKG):
            _codes_of(o.__code__, acc)
    return acc


_HOT = ('pre_integrated_component',)
_state = {'codes': None, 'set': None}


def instrument(full=False, fine=False):
    """Line events for the package's code; full=False leaves out the integral-table lookups, full=None everything;
    fine adds the places inside a line where CPython may switch threads or deliver a signal."""
    if _state['codes'] is None:
        MON.use_tool_id(TOOL, 'dst')
        MON.register_callback(TOOL, MON.events.LINE, _on_line)
        MON.register_callback(TOOL, MON.events.INSTRUCTION, _on_instr)
        _state['codes'] = {c: any(h in c.co_filename for h in _HOT) for c in package_codes()}
        _state['set'] = (None, False)

    def mask(hot, full, fine):
        on = full is not None and (full or not hot)
        return (MON.events.LINE | (MON.events.INSTRUCTION if fine else 0)) if on else 0
    was = _state['set']
    _state['set'] = (full, fine)
    for c, hot in _state['codes'].items():
        m = mask(hot, full, fine)
        if m != mask(hot, *was):
            MON.set_local_events(TOOL, c, m)


def derive(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest(), 'big') >> 1
