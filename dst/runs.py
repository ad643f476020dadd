"""Executing one scenario: a pure function of the scenario and the code under test."""
import gc
import json
import os
import pickle
import select
import signal
import sys
import time as _time
import traceback

from . import kernel, seams

_now = _time.monotonic


def _body(world, sim, ops):
    def body(th):
        for op in ops:
            world.do(sim, th, op)
    return body


def _all_ops(sc):
    return [o for t in sc['threads'] for o in t] + sc['final']


def resolve(sc):
    """Turn relative fault positions into line numbers by a fault-free dry run."""
    need = [o for o in _all_ops(sc) if o.get('fault') and ('frac' in o['fault'] or 'cfrac' in o['fault'])]
    if not need:
        return sc
    dry = json.loads(json.dumps(sc))
    for o in _all_ops(dry):
        o.pop('fault', None)
    dry['threads'] = [[o for t in dry['threads'] for o in t]]
    dry.pop('schedule', None)
    dry['dry'] = True
    st, res = forked(lambda: execute(dry), 120)
    if st != 'ok':
        raise RuntimeError(f'dry run: {st} {res}')
    ln = res['oplen']
    for o in need:
        f = o['fault']
        if 'cfrac' in f:                  # a relative position among the calls of a seam
            n = max(1, res['seamlen'].get(o['u'], {}).get(f['at'], 1))
            f['calls'] = [1 + min(n - 1, int(f.pop('cfrac') * n))]
            continue
        fr = f.pop('frac')
        hot = res.get('hot', {}).get(o['u'])
        if hot and kernel.derive(sc['entropy'], o['u'], 'hot') % 3 == 0:
            f['n'] = hot[min(len(hot) - 1, int(fr * len(hot)))]
            continue
        n = max(1, ln.get(o['u'], 1))
        f['n'] = 1 + min(n - 1, int(fr * n))
    return sc


def restart(sc):
    """one process works and saves, and is gone; another, started afresh, loads and goes on"""
    from . import twin
    st, a = forked(lambda: run_world(dict(sc, final=[])), 50)
    if st == 'hang':
        return unbuilt(RuntimeError('the first process does not end'))
    if st != 'ok':
        raise RuntimeError(f'first process: {st} {a}')
    if a['viol']:
        return a
    b = twin.server(1).ask(dict(sc, restart=a.pop('saved')), None)
    for k in ('viol', 'steps', 'simtime', 'completed', 'aborted', 'clock_reads', 'entropy_draws'):
        a[k] += b[k]
    for k in ('faults', 'probes', 'kinds'):
        for x, n in b[k].items():
            a[k][x] = a[k].get(x, 0) + n
    a['faults']['process restart'] = 1
    a['crc'] = kernel.derive(a['crc'], b['crc']) & 0xffffffff
    return a


def second(sc):
    from . import world
    kernel.instrument(None)
    seams.quiet_world(sc['entropy'] + 3)
    w = world.World({'prop': sc['prop']})
    w.load(sc['restart'])
    sim = kernel.Sim(None, entropy=sc['entropy'] + 3, clock=sc.get('clock'))
    sim.run([_body(w, sim, sc['final'])])
    return {'viol': w.violations + [{'cls': c, 'kind': '', 'q': '', 'uid': 0, 'msg': m} for c, m in sim.verdicts], 'crc': sim.crc,
            'steps': sim.steps, 'simtime': sim.simtime, 'faults': {}, 'probes': sim.probes, 'kinds': w.kinds,
            'completed': w.completed, 'aborted': w.aborted, 'clock_reads': sim.clock_reads, 'entropy_draws': sim.entropy_draws}


def run_world(sc):
    from . import world
    files = ()
    if len(sc['threads']) == 1 and sc['prop'] in ('C08', 'C09'):
        kernel.instrument(None)           # every fault of these runs is at the solver seam
    else:
        kernel.instrument(full=bool(sc.get('full')), fine=bool(sc.get('fine')))
    seams.quiet_world(sc['entropy'])
    if sc['prop'] == 'C28':
        gc.collect()
        gc.freeze()                       # only what the run makes is looked at
        files = set(os.listdir('/proc/self/fd'))
    try:
        w = world.World(sc)
    except Exception as e:
        return unbuilt(e)
    # an optimisation's progress is judged by its number of solver calls
    cap = 10 ** 12 if sc['prop'] in ('C08', 'C09') else kernel.STEP_CAP
    sim = kernel.Sim(sc.get('schedule'), entropy=sc['entropy'], clock=sc.get('clock'), step_cap=cap)
    sim.handler = w.do
    if sc.get('dry'):
        sim.recording()
    sim.run([_body(w, sim, t) for t in sc['threads']] or [lambda th: None])
    verdicts = list(sim.verdicts)
    steps, mid = sim.steps, len(sim.switches)
    if not verdicts and sc['final']:
        if w.concurrent:
            w.settle()
        w.concurrent = False
        fin = kernel.Sim(None, entropy=sc['entropy'] + 1, clock=sc.get('clock'), step_cap=cap)
        fin.run([_body(w, fin, sc['final'])])
        verdicts += fin.verdicts
        steps += fin.steps
        sim.simtime += fin.simtime
        for k, v in fin.faults_fired.items():
            sim.faults_fired[k] = sim.faults_fired.get(k, 0) + v
    if sc['prop'] == 'C26' and not verdicts:
        w.ask_names()
    if sc['prop'] in ('C10', 'C11', 'C19', 'C26'):
        names(w)
    for d in w.saved.values():         # a name learned after the saving is the same name
        for o, n, _ in w.extra.get('names', []):
            if o in d['spec']:
                d['names'].setdefault(o, n)
    viol = list(w.violations) if sc['prop'] != 'C28' else []       # other properties judge the answers
    for cls, msg in verdicts:
        viol.append({'cls': cls, 'kind': '', 'q': '', 'uid': 0, 'msg': msg})
    res = {'viol': viol, 'crc': sim.crc, 'steps': steps, 'switches': sim.switches, 'simtime': sim.simtime,
           'faults': sim.faults_fired, 'probes': sim.probes, 'kinds': w.kinds, 'oplen': w.oplen, 'seamlen': w.seamlen,
           'completed': w.completed, 'aborted': w.aborted, 'clock_reads': sim.clock_reads, 'entropy_draws': sim.entropy_draws,
           **({'saved': w.saved} if w.saved else {}), **({'hot': sim.record} if sim.record else {})}
    if sc['prop'] == 'C28' and not verdicts and not sc.get('dry'):
        objs = dict(w.obj)
        for x in (sim, w):
            x.__dict__.clear()
        released(sc, objs, viol, files)
    return res


def _alive(kinds):
    gc.collect()
    return [x for x in gc.get_objects() if any(c.__module__.split('.')[0] == 'composipy' and c.__name__ in kinds for c in type(x).__mro__)]


def released(sc, objs, viol, files):
    """the caller lets go of everything, the outermost first"""
    def bad(cls, msg):
        viol.append({'cls': cls, 'kind': 'drop', 'q': '', 'uid': 0, 'msg': msg})

    for kinds in (('PlateStructure', 'LaminateStrength'), ('LaminateProperty',), ('OrthotropicMaterial', 'IsotropicMaterial')):
        for n in [n for n, x in objs.items() if type(x).__name__ in kinds]:
            del objs[n]
        left = _alive(kinds)
        if left:
            gc.unfreeze()
            x = left[0]
            who = [str(type(q).__name__) + (' ' + str(sorted(map(str, q))[:6]) if isinstance(q, dict) else '') for q in gc.get_referrers(x) if q is not left]
            bad('kept-alive', f'{len(left)} of type {sorted({type(q).__name__ for q in left})} dropped by the caller stay alive; referred to by {who[:4]}')
            return
    import threading
    ts = [t.name for t in threading.enumerate() if t is not threading.main_thread() and not t.name.startswith('sim')]
    if ts:
        bad('thread-left', f'threads left behind: {ts}')
    now = set(os.listdir('/proc/self/fd')) - files
    now = [os.readlink('/proc/self/fd/' + f) for f in now if os.path.lexists('/proc/self/fd/' + f)]
    now = [f for f in now if not f.startswith((sys.prefix, '/usr/', '/proc/'))]       # fonts of matplotlib
    if now:
        bad('file-left', f'files left open: {now}')


def unbuilt(e):
    return {'viol': [{'cls': 'construction-failed', 'kind': '', 'q': '', 'uid': 0,
                      'msg': f'building the objects of the run raised {type(e).__name__}: {e}'}],
            'crc': 0, 'steps': 0, 'switches': [], 'simtime': 0.0, 'faults': {}, 'probes': {}, 'kinds': {}, 'oplen': {},
            'completed': 0, 'aborted': 0, 'clock_reads': 0, 'entropy_draws': 0}


def names(w):
    seen = {}
    first = {}
    for o, n, m in w.extra.get('names', []):
        o, copied = w.root.get(o, o), o in w.root
        if o in first and first[o] != n:
            w.violations.append({'cls': 'name-changed', 'kind': 'mq', 'q': 'name', 'uid': 0,
                                 'msg': f'the name of {o} {"and its copies" if copied else ""} changed from {first[o]!r} to {n!r}'})
        first[o] = n
        if m.get('name') is not None:
            if n != m['name']:
                w.violations.append({'cls': 'name-lost', 'kind': 'mq', 'q': 'name', 'uid': 0,
                                     'msg': f'{o} was named {m["name"]!r} and answers {n!r}'})
            continue
        if not isinstance(n, str) or not n:
            w.violations.append({'cls': 'name-empty', 'kind': 'mq', 'q': 'name', 'uid': 0, 'msg': f'{o} has name {n!r}'})
        other = seen.setdefault((m['kind'], n), o)
        if other != o:
            w.violations.append({'cls': 'name-duplicate', 'kind': 'mq', 'q': 'name', 'uid': 0,
                                 'msg': f'{other} and {o} share the automatic name {n!r}'})


def execute(sc):
    p = sc['prop']
    if p in ('C07',):
        from . import twin
        return twin.run(sc)
    if p == 'C13':
        from . import ambient
        return ambient.run(sc)
    if p == 'C15':
        from . import tables
        return tables.run(sc)
    if p == 'C27':
        return restart(sc)
    if p == 'C16':
        from . import imports
        return imports.run(sc)
    return run_world(sc)


# ---- process isolation ---------------------------------------------------

def forked(fn, timeout):
    """Run fn() in a forked child; ('ok', value) | ('error', text) | ('hang', None) | ('died', status)."""
    r, w = os.pipe()
    sys.__stdout__.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            try:
                out = pickle.dumps(('ok', fn()))
            except BaseException:
                out = pickle.dumps(('error', traceback.format_exc()))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = _now() + timeout
    hung = False
    while True:
        left = end - _now()
        if left <= 0:
            hung = True
            break
        ok, _, _ = select.select([r], [], [], left)
        if not ok:
            hung = True
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        buf.append(d)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return 'hang', None
    _, st = os.waitpid(pid, 0)
    if not buf:
        return 'died', st
    return pickle.loads(b''.join(buf))
