"""Batch driver: seeded search, minimisation, replay, evidence.

  check ID                     the search (tier from VERIF_TIER, seed from VERIF_SEED)
  check replay FILE            re-executes a replay file; exit 1 and the VIOLATION line if it fails the same way
  check determinism ID [N]     N seeds executed twice in processes with different hash seeds; logs compared
"""
import json
import os
import pickle
import random
import re
import select
import signal
import sys
import time as _time
import traceback

_now = _time.monotonic
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(HERE, 'out')

# runs per tier; the quick figures take about 45 s each on 8 idle cores
QUICK = {'C01': 5600, 'C02': 2800, 'C03': 4900, 'C04': 1750, 'C05': 700, 'C06': 1050, 'C07': 320, 'C08': 320, 'C09': 180,
         'C10': 5600, 'C11': 2100, 'C12': 1750, 'C13': 880, 'C14': 880, 'C15': 630, 'C16': 700, 'C17': 190, 'C18': 2800, 'C19': 1400, 'C26': 1750, 'C27': 1400, 'C28': 420}
THOROUGH_FACTOR = 60
QUICK_CAP = 420          # seconds; a batch on a loaded machine stops here and says so
LEAST = 0.1              # fraction of the planned runs below which the batch is no answer
RUN_TIMEOUT = 60
HANG_TIMEOUT = 180


def scenario(prop, seed, i, tier):
    from . import kernel, props
    return props.GEN[prop](random.Random(kernel.derive(seed, prop, i)), tier)


def one(prop, seed, i, tier):
    from . import runs
    sc = scenario(prop, seed, i, tier)
    if sc is None:
        return None, None
    runs.resolve(sc)
    return sc, runs.execute(sc)


# ---------------------------------------------------------------- known findings

def known():
    out = []
    try:
        with open(os.path.join(HERE, 'known_findings.jsonl')) as f:
            for l in f:
                if l.startswith('{'):
                    out.append(json.loads(l))
    except FileNotFoundError:
        pass
    return out


def match(k, prop, v):
    if k['property'] != prop:
        return False
    for f, want in k['match'].items():
        got = v.get(f)
        if isinstance(want, list):
            if got not in want:
                return False
        elif got != want:
            return False
    return True


def split(prop, viol, kn):
    new, old = [], {}
    for v in viol:
        for j, k in enumerate(kn):
            if match(k, prop, v):
                old[j] = old.get(j, 0) + 1
                break
        else:
            new.append(v)
    return new, old


# ---------------------------------------------------------------- workers

def signature(sc, res):
    """what was executed: operations with their faults, and the order of events"""
    from . import kernel
    ops = [[(o['k'], o.get('q') or o.get('which') or o.get('mod'), o.get('o'), (o.get('fault') or {}).get('exc'), (o.get('fault') or {}).get('n'))
            for o in t] for t in sc['threads'] + [sc['final']]]
    objs = [sc.get(k) for k in ('mats', 'lams', 'strs', 'plates', 'attempts', 'script')]
    return kernel.derive(ops, res['crc'], json.dumps(objs, sort_keys=True, default=str), [o.get('args') for t in sc['threads'] for o in t])


def nontrivial(sc, res):
    if sc['prop'] == 'C15':
        return bool(res['faults'])
    return res['completed'] > 0 and (bool(res['faults']) or bool(res['switches']) or res['completed'] > 1)


def brief(sc, res):
    def o1(o):
        s = o['k'] + (':' + str(o.get('q') or o.get('which')) if o.get('q') or o.get('which') else '') + ('(' + o['o'] + ')' if o.get('o') else '')
        f = o.get('fault')
        if f and f.get('exc'):
            s += f" !{f['exc']}@{f['at']}{f.get('n', f.get('calls', ''))}"
        if f and f.get('at') == 'handler':
            s += f" !handler@{f.get('n')}[{', '.join(o1(x) for x in f['ops'])}]"
        if 'ops' in o:
            s += '[' + ', '.join(o1(x) for x in o['ops']) + ']'
        if 'mod' in o:
            s += ' ' + o['mod']
        return s
    d = {'threads': [[o1(o) for o in t] for t in sc['threads']], 'final': [o1(o) for o in sc['final']][:12],
         'switches': len(res['switches']), 'first_switches': res['switches'][:6], 'steps': res['steps'], 'faults_fired': res['faults']}
    if sc.get('attempts'):
        d['script'], d['attempts'] = sc['script'], sc['attempts']
    return d


class Stats:
    def __init__(self):
        self.d = dict(runs=0, skipped=0, completed=0, aborted=0, steps=0, switches=0, simtime=0.0, clock_reads=0, entropy_draws=0,
                      multi=0, nontrivial=0)
        self.faults, self.probes, self.kinds = {}, {}, {}
        self.sigs, self.inter = set(), set()
        self.known = {}
        self.samples = []
        self.viol = []
        self.rerun = []
        self.flaky = []
        self.errors = []
        self.hashes = {}

    def add(self, i, sc, res, kn):
        d = self.d
        d['runs'] += 1
        for k in ('completed', 'aborted', 'steps', 'simtime', 'clock_reads', 'entropy_draws'):
            d[k] += res[k]
        d['switches'] += len(res['switches'])
        for a, b in ((self.faults, res['faults']), (self.probes, res['probes']), (self.kinds, res['kinds'])):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        s = signature(sc, res)
        if nontrivial(sc, res):
            d['nontrivial'] += 1
            self.sigs.add(s)
        if len(sc['threads']) > 1:
            d['multi'] += 1
            self.inter.add((s, res['crc']))
        new, old = split(sc['prop'], res['viol'], kn)
        for j, n in old.items():
            self.known[j] = self.known.get(j, 0) + n
        if new:
            self.viol.append((i, new[0]['cls']))
        if len(self.samples) < 2 and (res['faults'] or res['switches'] or len(self.samples) == 0):
            self.samples.append(dict(brief(sc, res), run=i))
        return bool(new)

    def merge(self, o):
        for k, v in o.d.items():
            self.d[k] += v
        for a, b in ((self.faults, o.faults), (self.probes, o.probes), (self.kinds, o.kinds), (self.known, o.known)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.sigs |= o.sigs
        self.inter |= o.inter
        self.samples += o.samples
        self.viol += o.viol
        self.rerun += o.rerun
        self.flaky += o.flaky
        self.errors += o.errors
        self.hashes.update(o.hashes)


def fingerprint(res):
    from . import kernel
    return kernel.derive(res['crc'], res['steps'], res['switches'], sorted(res['faults'].items()), res['completed'], res['aborted'],
                         [(v['cls'], v['msg']) for v in res['viol']])


def worker(prop, seed, tier, idx, deadline, stop_r, out_fd):
    from . import runs
    st = Stats()
    kn = known()
    limit = 1 << 60
    from . import twin
    twin.ready(prop)
    for i in idx:
        while select.select([stop_r], [], [], 0)[0]:           # a violation was found: finish the runs before it
            b = os.read(stop_r, 8)
            if not b:
                return
            limit = min(limit, int.from_bytes(b, 'big'))
        if i > limit or _now() > deadline:
            break
        s, res = runs.forked(lambda: one(prop, seed, i, tier), RUN_TIMEOUT)
        if s == 'ok':
            sc, r = res
            if sc is None:
                st.d['skipped'] += 1
                continue
            if i % 101 == 0:
                st.hashes[i] = fingerprint(r)
            if split(sc['prop'], r['viol'], kn)[0]:          # a failure has to repeat: one that does not is the machine's, not the seed's
                for _ in range(3):
                    s, res = runs.forked(lambda: one(prop, seed, i, tier), RUN_TIMEOUT)
                    if s == 'ok' and split(sc['prop'], res[1]['viol'], kn)[0]:
                        sc, r = res
                        break
                else:
                    st.flaky.append((i, split(sc['prop'], r['viol'], kn)[0][0]['msg'][:300]))
                    r['viol'] = []
            if st.add(i, sc, r, kn):
                os.write(out_fd, b'V' + i.to_bytes(8, 'big'))
                break
        elif s == 'error':
            st.flaky.append((i, res[-600:]))
            s2, res2 = runs.forked(lambda: one(prop, seed, i, tier), RUN_TIMEOUT)
            if s2 == 'ok' and not (res2[0] and split(res2[0]['prop'], res2[1]['viol'], kn)[0]):
                continue
            st.errors.append((i, res))
            os.write(out_fd, b'V' + i.to_bytes(8, 'big'))
            break
        else:
            st.rerun.append((i, s))
            twin.close()
            twin.ready(prop)
            if len(st.rerun) > 2:
                os.write(out_fd, b'V' + i.to_bytes(8, 'big'))
                break
    twin.close()
    d = pickle.dumps(st)
    os.write(out_fd, b'D' + len(d).to_bytes(8, 'big'))
    while d:
        d = d[os.write(out_fd, d[:1 << 16]):]


def batch(prop, seed, tier, n, cap, workers=None, base=0):
    workers = workers or min(8, os.cpu_count() or 1)
    deadline = _now() + cap
    procs = []
    for w in range(workers):
        sr, sw = os.pipe()
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                for p in procs:
                    os.close(p['stop'])
                    os.close(p['r'])
                os.close(sw)
                os.close(r)
                worker(prop, seed, tier, range(base + w, base + n, workers), deadline, sr, wr)
                os._exit(0)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
                os._exit(3)
        os.close(sr)
        os.close(wr)
        procs.append({'pid': pid, 'stop': sw, 'r': r, 'buf': b'', 'done': False})
    total = Stats()
    low = None
    live = list(procs)
    while live:
        ready, _, _ = select.select([p['r'] for p in live], [], [], 5)
        for p in list(live):
            if p['r'] not in ready:
                continue
            b = os.read(p['r'], 1 << 20)
            if not b:
                live.remove(p)
                continue
            p['buf'] += b
            while p['buf']:
                if p['buf'][:1] == b'V':
                    if len(p['buf']) < 9:
                        break
                    i = int.from_bytes(p['buf'][1:9], 'big')
                    p['buf'] = p['buf'][9:]
                    if low is None or i < low:
                        low = i
                        for q in procs:
                            try:
                                os.write(q['stop'], i.to_bytes(8, 'big'))
                            except OSError:
                                pass
                else:
                    if len(p['buf']) < 9:
                        break
                    ln = int.from_bytes(p['buf'][1:9], 'big')
                    if len(p['buf']) < 9 + ln:
                        break
                    total.merge(pickle.loads(p['buf'][9:9 + ln]))
                    p['done'] = True
                    p['buf'] = p['buf'][9 + ln:]
            if p['done']:                # a process left behind by a run may hold the pipe open
                live.remove(p)
        if _now() > deadline + 4 * RUN_TIMEOUT:
            break
    lost = 0
    for p in procs:
        if not p['done']:
            try:
                os.killpg(p['pid'], signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(p['pid'], 0)
        try:
            os.killpg(p['pid'], signal.SIGKILL)
        except OSError:
            pass
        lost += not p['done']
    return total, lost


# ---------------------------------------------------------------- minimisation

def _run(sc, timeout=RUN_TIMEOUT):
    from . import runs
    st, res = runs.forked(lambda: runs.execute(json.loads(json.dumps(sc))), timeout)
    return res if st == 'ok' else None


def fails(sc, prop, cls, kn):
    r = _run(sc)
    if r is None:
        return None
    new, _ = split(prop, r['viol'], kn)
    if any(v['cls'] == cls for v in new):
        return r
    return None


def minimise(sc, cls, budget):
    prop, kn, end = sc['prop'], known(), _now() + budget
    tried = 0
    best = fails(sc, prop, cls, kn)
    if best is None:
        return sc, None, 0
    if len(sc['threads']) > 1 and 'switches' not in sc.get('schedule', {}):
        c = json.loads(json.dumps(sc))
        c['schedule'] = {'switches': best['switches']}
        r = fails(c, prop, cls, kn)
        if r is not None:
            sc, best = c, r

    def attempt(c):
        nonlocal sc, best, tried
        if _now() > end:
            return False
        tried += 1
        try:
            r = fails(c, prop, cls, kn)
        except Exception:
            return False
        if r is None:
            return False
        sc, best = c, r
        return True

    def cut(get, put):
        """drop chunks of a list, halving the chunk size"""
        n = max(1, len(get(sc)) // 2)
        while n >= 1 and _now() < end:
            i = 0
            while i < len(get(sc)):
                c = json.loads(json.dumps(sc))
                l = get(c)
                put(c, l[:i] + l[i + n:])
                if not attempt(c):
                    i += n
            n //= 2

    before = None
    while before != json.dumps(sc, sort_keys=True) and _now() < end:
        before = json.dumps(sc, sort_keys=True)
        cut(lambda c: c['final'], lambda c, v: c.__setitem__('final', v))
        for t in reversed(range(len(sc['threads']))):
            cut(lambda c, t=t: c['threads'][t], lambda c, v, t=t: c['threads'].__setitem__(t, v))
        if 'switches' in sc.get('schedule', {}):
            cut(lambda c: c['schedule']['switches'], lambda c, v: c['schedule'].__setitem__('switches', v))
        for t in range(len(sc['threads'])):           # workers' and handlers' operations
            for j in range(len(sc['threads'][t])):
                if 'ops' in sc['threads'][t][j]:
                    cut(lambda c, t=t, j=j: c['threads'][t][j]['ops'], lambda c, v, t=t, j=j: c['threads'][t][j].__setitem__('ops', v))
                if 'ops' in sc['threads'][t][j].get('fault', {}):
                    cut(lambda c, t=t, j=j: c['threads'][t][j]['fault']['ops'],
                        lambda c, v, t=t, j=j: c['threads'][t][j]['fault'].__setitem__('ops', v))
        if 'attempts' in sc:
            cut(lambda c: c['attempts'], lambda c, v: c.__setitem__('attempts', v))
        for t in range(len(sc['threads'])):
            for j in range(len(sc['threads'][t])):
                if sc['threads'][t][j].get('fault', {}).get('exc') or sc['threads'][t][j].get('fault', {}).get('at') == 'handler':
                    c = json.loads(json.dumps(sc))
                    del c['threads'][t][j]['fault']
                    attempt(c)
        if not any(sc['threads'][1:]) or len(sc['threads']) > 1 and not all(sc['threads']):
            c = json.loads(json.dumps(sc))
            if not any(c['threads'][1:]):           # one caller is enough
                c['threads'] = c['threads'][:1]
                c.pop('schedule', None)
                attempt(c)
        for group in ('plates', 'strs', 'lams', 'mats'):
            for n in sorted(sc.get(group, {})):
                if len(sc.get('threads', [])) and n in sc[group]:
                    c = json.loads(json.dumps(sc))
                    del c[group][n]
                    if not _refers(c, n):
                        attempt(c)
        for n in sorted(sc.get('lams', {})):
            l = sc['lams'][n]
            if 'stack' in l:
                j = 0
                while j < len(sc['lams'][n]['stack']) and len(sc['lams'][n]['stack']) > 1:
                    c = json.loads(json.dumps(sc))
                    del c['lams'][n]['stack'][j]
                    del c['lams'][n]['mats'][j]
                    if not attempt(c):
                        j += 1
        for n in sorted(sc.get('strs', {})):
            for j in range(6):
                if sc['strs'][n]['loads'][j]:
                    c = json.loads(json.dumps(sc))
                    c['strs'][n]['loads'][j] = 0
                    attempt(c)
        if sc.get('clock', {}).get('kind') not in (None, 'steady'):
            c = json.loads(json.dumps(sc))
            c['clock'] = {'kind': 'steady'}
            attempt(c)
    return sc, best, tried


def _refers(sc, n):
    for g in ('lams', 'strs', 'plates'):
        for x in sc.get(g, {}).values():
            if x.get('lam') == n or x.get('mat') == n or n in x.get('mats', ()):
                return True
    for t in sc['threads'] + [sc['final']]:
        inner = [x for o in t for x in o.get('ops', []) + (o.get('fault') or {}).get('ops', [])]
        for o in t + inner:
            if n in (o.get('o'), o.get('lam'), o.get('other')):
                return True
            for k in ('p', 's', 'l'):
                d = o.get(k)
                if isinstance(d, dict) and (d.get('lam') == n or d.get('mat') == n or n in (d.get('mats') or ())):
                    return True
    return False


# ---------------------------------------------------------------- reporting

def write_replay(prop, seed, i, tier, sc, res, v, tried):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f'replay-{prop}-{seed}-{i}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'run': i, 'tier': tier, 'violation': v,
                   'fingerprint': fingerprint(res) if res else None,
                   'schedule': sc.get('schedule', {}), 'switches_taken': res['switches'] if res else None,
                   'faults_fired': res['faults'] if res else None, 'minimisation_attempts': tried, 'scenario': sc}, f, indent=1)
    return path


def replay(path, quiet=False):
    """0 not reproduced, 1 reproduced exactly, 3 fails differently"""
    with open(path) as f:
        d = json.load(f)
    from . import runs, twin
    prop = d['property']
    if d['violation']['cls'] in ('hang', 'died'):
        st, _ = runs.forked(lambda: runs.execute(d['scenario']), HANG_TIMEOUT)
        code = 1 if st == d['violation']['cls'] else 0
    else:
        st, res = runs.forked(lambda: runs.execute(d['scenario']), HANG_TIMEOUT)
        if st != 'ok':
            print(f'replay: {st}\n{res}', file=sys.__stderr__)
            return 3
        new, _ = split(prop, res['viol'], known())
        if not any(v['cls'] == d['violation']['cls'] for v in new):
            code = 0
        else:
            code = 1 if fingerprint(res) == d['fingerprint'] else 3
        if not quiet:
            for v in new[:5]:
                print(f"  {v['cls']}: {v['msg'][:600]}", file=sys.__stdout__)
    twin.close()
    if code == 1 and not quiet:
        print(f'VIOLATION property={prop} replay={path}', file=sys.__stdout__)
    elif not quiet:
        print('not reproduced' if code == 0 else 'the run fails, but not exactly as recorded', file=sys.__stdout__)
    return code


REALSTUB = {
    'real': ['composipy (all of the property-relevant package code, unmodified, imported from /repo)', 'numpy', 'scipy (ARPACK, SLSQP)', 'pandas', 'matplotlib (Agg)'],
    'simulated': ['which caller thread runs (baton, every source line of the package is a switch point)', 'wall clock (time.time/perf_counter)',
                  'OS entropy (os.urandom, numpy default_rng seeding)', 'standard output', 'plt.show / figure / plot_surface entry points (record, then real)',
                  'eigensolver boundary (fault, then real eigsh)', 'threading.Lock/RLock (cooperative)'],
}


def evidence(prop, tier, seed, st, n, wall, violations, extra):
    d = st.d
    cov = {
        'evaluations': d['runs'],
        'distinct_nontrivial': len(st.sigs),
        'rule': 'one case is one simulated run (scenario, schedule and fault plan all drawn from one seed); non-trivial: the run completed library '
                'operations and had at least one fired fault, one context switch or a history of two or more operations (C15: at least one fired '
                'disk/process fault); distinct: different (operations, fault placements, event-log checksum)',
        'samples': st.samples[:4],
        'planned_runs': n, 'skipped_degenerate_scenarios': d['skipped'],
        'seeds': d['runs'], 'runs_per_hour': round(d['runs'] / wall * 3600) if wall else 0,
        'operations_completed': d['completed'], 'operations_aborted_by_faults': d['aborted'],
        'scheduler_steps': d['steps'], 'context_switches': d['switches'], 'multi_caller_runs': d['multi'],
        'distinct_interleavings': len(st.inter), 'distinct_interleavings_measure': 'distinct event-log checksums (switch, fault, seam and end events in order) of the multi-caller runs',
        'simulated_seconds': round(d['simtime'], 1), 'clock_reads': d['clock_reads'], 'entropy_draws_intercepted': d['entropy_draws'],
        'faults_fired': dict(sorted(st.faults.items())), 'operations_by_kind': dict(sorted(st.kinds.items())),
        'probes': st.probes, 'components': extra.pop('components', REALSTUB),
    }
    cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': ['the reference model in dst/model.py states classical lamination theory and the Ritz buckling problem correctly',
                          'switches and asynchronous exceptions strike between source lines or (about half of the multi-caller runs) bytecode instructions of the package, not inside C code',
                          'seeded sampling: schedules and fault sequences not drawn are not covered'],
          'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)


def recheck(prop, seed, tier, hashes):
    """a sample of the runs again, in this process's children: the logs have to be the same"""
    from . import runs, twin
    diff = []
    n = 0
    twin.ready(prop)
    end = _now() + 25
    for i in sorted(hashes):
        if _now() > end:
            break
        s, res = runs.forked(lambda: one(prop, seed, i, tier), RUN_TIMEOUT)
        if s != 'ok':
            continue
        n += 1
        if fingerprint(res[1]) != hashes[i]:
            diff.append(i)
    twin.close()
    return n, diff


def search(prop, seed, tier, n=None):
    t0 = _now()
    say = lambda *a: print(*a, file=sys.__stdout__, flush=True)
    planned = n or QUICK[prop] * (1 if tier == 'quick' else THOROUGH_FACTOR)
    cap = QUICK_CAP if tier == 'quick' else 6 * 3600
    say(f'{prop}: seed {seed}, tier {tier}, {planned} runs')
    st, lost = batch(prop, seed, tier, planned, cap)
    kn = known()
    found = None
    errors = list(st.errors)
    from . import runs
    if st.viol or st.rerun:
        from . import twin
        twin.ready(prop)
    # violations first, in the order of the runs
    for i, cls in sorted(st.viol):
        sc = json.loads(json.dumps(_scenario(prop, seed, i, tier)))
        sc2, res, tried = minimise(sc, cls, 60 if tier == 'quick' else 300)
        if res is None:
            errors.append((i, 'the failing run did not fail again'))
            continue
        new, _ = split(prop, res['viol'], kn)
        v = [x for x in new if x['cls'] == cls][0]
        found = (i, v, write_replay(prop, seed, i, tier, sc2, res, v, tried))
        break
    if found is None:
        for i, how in sorted(st.rerun)[:4]:
            s, res = runs.forked(lambda: one(prop, seed, i, tier), HANG_TIMEOUT)
            if s in ('hang', 'died'):
                v = {'cls': s, 'kind': '', 'q': '', 'uid': 0,
                     'msg': 'the run does not end' if s == 'hang' else f'the process died (status {res})'}
                if s == 'died' and os.WIFSIGNALED(res) and os.WTERMSIG(res) == signal.SIGKILL:
                    errors.append((i, 'run ended by SIGKILL'))
                    continue
                sc = scenario(prop, seed, i, tier)
                try:
                    runs.resolve(sc)
                except RuntimeError:
                    for o in runs._all_ops(sc):
                        if 'frac' in (o.get('fault') or {}):
                            del o['fault']
                found = (i, v, write_replay(prop, seed, i, tier, sc, None, v, 0))
                break
            elif s == 'ok' and res[0] is not None and split(prop, res[1]['viol'], kn)[0]:
                v = split(prop, res[1]['viol'], kn)[0][0]
                found = (i, v, write_replay(prop, seed, i, tier, res[0], res[1], v, 0))
                break
            elif s == 'error':
                errors.append((i, res))
    again, diff = recheck(prop, seed, tier, st.hashes) if found is None else (0, [])
    wall = _now() - t0
    comp = None
    if prop == 'C15':
        comp = {'real': ['write_pre_integrated_terms.py and write_shape_function.py, run unmodified', 'Python file objects and a scratch directory'],
                'simulated': ['the disk below the scratch directory (journalled writes, metadata, sync, power loss, errors)', 'process crash', 'sympy (opaque stand-in: not installed)']}
    if prop == 'C16':
        comp = {'real': ['composipy modules, imported from source by the real import system', 'numpy', 'scipy', 'pandas', 'matplotlib (Agg)'],
                'simulated': ['reading of module files (io.open_code)', 'compilation of modules', 'interrupts at module lines', 'warning filters and settings']}
    extra = {'determinism_sample': {'runs_repeated': again, 'differing': len(diff)}}
    if comp:
        extra['components'] = comp
    if st.flaky:
        extra['not_repeated'] = st.flaky[:10]
        print(f'warning: {len(st.flaky)} runs failed once and not again: {st.flaky[:2]}', file=sys.__stderr__)
    if st.known:
        extra['known_findings_seen'] = {kn[j]['id']: c for j, c in st.known.items()}
    evidence(prop, tier, seed, st, planned, wall, 1 if found else 0, extra)
    for j in sorted(st.known):
        say(f"KNOWN-FINDING: property={prop} {kn[j]['what']}")
    d = st.d
    say(f"{prop}: {d['runs']} runs in {wall:.0f} s, {len(st.sigs)} distinct non-trivial, {d['switches']} switches, "
        f"{sum(st.faults.values())} faults fired, {d['completed']} operations completed, {d['aborted']} aborted; "
        f"{again} runs repeated, {len(diff)} differed")
    if found:
        i, v, path = found
        say(f"run {i}: {v['cls']}: {v['msg'][:800]}")
        say(f'VIOLATION property={prop} replay={path}')
        return 1
    if errors:
        for i, e in errors[:3]:
            print(f'run {i}: harness error\n{e}', file=sys.__stderr__)
        return 2
    if len(st.flaky) > 5:
        return 2
    if lost:
        print(f'{lost} workers ended early', file=sys.__stderr__)
        return 2
    if d['runs'] + d['skipped'] < planned:
        say(f"{prop}: stopped by the time cap after {d['runs']} of {planned} runs")
        if d['runs'] < LEAST * planned:
            return 2
    if diff:
        print(f'warning: runs {diff[:5]} were not repeatable', file=sys.__stderr__)
    return 0


def _scenario(prop, seed, i, tier):
    """the scenario of a run with fault positions resolved"""
    from . import runs

    def f():
        sc = scenario(prop, seed, i, tier)
        runs.resolve(sc)
        return sc
    s, sc = runs.forked(f, HANG_TIMEOUT)
    if s != 'ok':
        raise RuntimeError(f'run {i}: {s} {sc}')
    return sc


def hashes(prop, seed, n):
    from . import runs, twin
    out = {}
    for i in range(n):
        s, res = runs.forked(lambda: one(prop, seed, i, 'quick'), RUN_TIMEOUT)
        out[i] = s if s != 'ok' else (fingerprint(res[1]) if res[1] else None)
    twin.close()
    return out


def main(argv):
    from . import boot
    boot.prepare()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    if argv and argv[0] == 'replay':
        return replay(argv[1])
    if argv and argv[0] == 'hashes':
        print(json.dumps(hashes(argv[1], seed, int(argv[2]))), file=sys.__stdout__)
        return 0
    n = int(argv[1]) if len(argv) > 1 else None
    return search(argv[0], seed, tier, n)
