"""C07: the same inputs executed in two processes whose environments differ."""
import hashlib
import json
import os
import random
import subprocess
import sys
import threading

import numpy as np

from . import kernel, seams

_servers = {}


def digest(v, out):
    if isinstance(v, np.ndarray):
        out.append(('a', str(v.dtype), v.shape, np.ascontiguousarray(v).tobytes()))
    elif isinstance(v, (list, tuple)):
        for x in v:
            digest(x, out)
    elif hasattr(v, 'columns'):
        out.append(('c', tuple(v.columns)))
        for c in v.columns:
            digest(v[c].to_numpy(), out) if v[c].dtype.kind in 'fi' else out.append(('s', tuple(map(str, v[c]))))
    elif isinstance(v, dict):              # optimisation results
        for k in sorted(v):
            if k in ('x', 'fun', 'jac', 'nit', 'nfev', 'njev', 'success', 'status', 'multipliers'):
                out.append(k)
                digest(np.asarray(v[k]), out)
    else:
        out.append(repr(v))


def single(sc, env):
    """One execution in this process; returns the digests of every result."""
    from . import ambient, runs, world, props
    kernel.instrument(None)
    if 'settings' in env:
        ambient.cosmetic(env['settings'])
    junk = []
    for i in range(env['junk']):
        junk.append(np.ones(1000 + 77 * i))
    random.seed(env['rng'])
    np.random.seed(env['rng'])
    sys.setswitchinterval(env['threadswitch'])
    out = {}
    viol = []

    class W(world.World):
        def judge(self, sim, th, op, val, exc):
            if exc is not None:
                out[op['u']] = ('raised', type(exc).__name__)
                self.aborted += 1
                return
            self.completed += 1
            acc = []
            if op['k'] == 'touch':                # a description shows the automatic name, which counts the materials made before
                pass
            elif op['k'] != 'newmat':
                digest(val, acc)
            else:
                self.obj[op['as']] = val
            nums = [np.frombuffer(a[3], a[1])[:8].tolist() for a in acc if a[0] == 'a' and a[1] != 'object'][:3]
            out[op['u']] = (hashlib.sha256(repr(acc).encode()).hexdigest(), str(nums)[:200])

    # unrelated prior work
    pr = random.Random(env['prior_seed'])
    sim = kernel.Sim(None, entropy=env['entropy'], clock=env['clock'])
    if env['prior']:
        b = props.B(pr, 'C07')
        b.mats(1, kind='ortho')
        b.lams(1, hi=4)
        ops = props._mixed(b, pr, env['prior'], opt=.05)
        for o in sc['threads'][0]:            # similar optimisations among it
            if o['k'] == 'opt' and pr.random() < .5:
                a = props._opt_sib(pr, o['which'], o['args'])
                a.pop('plot', None)
                a.pop('points_to_plot', None)
                ops.append(dict(b.op('opt', which=o['which'], args=a), fault={'at': 'none', 'limit': {'solver': 6000}}))
        p = W(b.sc)
        s0 = kernel.Sim(None, entropy=env['entropy'] + 7, clock=env['clock'])
        s0.run([runs._body(p, s0, ops)])
        out.clear()
        random.seed(env['rng'])
        np.random.seed(env['rng'])
    st = (repr(random.getstate()), repr(np.random.get_state()))
    w = W(sc)
    sim.run([runs._body(w, sim, sc['threads'][0])])
    if env.get('repeat'):                     # the same operations once more, after all the others
        first, again = dict(out), [o for o in sc['threads'][0] if o['k'] != 'newmat']
        sim2 = kernel.Sim(None, entropy=env['entropy'] + 13, clock=env['clock'])
        sim2.run([runs._body(w, sim2, again)])
        for o in again:
            if out[o['u']] != first[o['u']]:
                viol.append({'cls': 'repeat-differs', 'kind': o['k'], 'q': o.get('q') or o.get('which'), 'uid': o['u'],
                             'msg': f"{o['k']}{':' + str(o.get('q')) if o.get('q') else ''} gave {first[o['u']]} and, repeated, {out[o['u']]}"})
                break
        out.clear()
        out.update(first)
    if (repr(random.getstate()), repr(np.random.get_state())) != st:
        viol.append({'cls': 'random-state-disturbed', 'kind': '', 'q': '', 'uid': 0,
                     'msg': "the caller's seeded global random-number state changed"})
    return {'out': out, 'viol': viol, 'steps': sim.steps, 'simtime': sim.simtime, 'kinds': w.kinds, 'oplen': w.oplen,
            'completed': w.completed, 'aborted': w.aborted, 'clock_reads': sim.clock_reads, 'entropy_draws': sim.entropy_draws,
            'faults': sim.faults_fired, 'crc': sim.crc}


class Server:
    """A template process with its own hash seed; forks a child for every execution."""

    def __init__(self, hashseed, extra):
        e = dict(os.environ, PYTHONHASHSEED=str(hashseed), **extra)
        self.p = subprocess.Popen([sys.executable, '-m', 'dst.twin'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=e)
        self.hashseed = hashseed

    def ask(self, sc, env):
        self.p.stdin.write(json.dumps([sc, env]).encode() + b'\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError('twin server ended')
        st, res = json.loads(l)
        if st != 'ok':
            raise RuntimeError(f'twin execution: {st} {res}')
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(2)
        except Exception:
            self.p.kill()
            self.p.wait()


ENVS = [(0, {}), (12345, {'TZ': 'Asia/Tokyo', 'COLUMNS': '40', 'PYTHONOPTIMIZE': '1', 'LC_ALL': 'C'})]


def server(i):
    if i not in _servers:
        _servers[i] = Server(*ENVS[i])
    return _servers[i]


def servers():
    return server(0), server(1)


def ready(prop):
    """processes shared by the runs of this one"""
    if prop == 'C07':
        servers()
    elif prop == 'C27':
        server(1)


def close():
    for s in _servers.values():
        s.close()
    _servers.clear()


def run(sc):
    a, b = servers()
    e0, e1 = sc['envs']
    x, y = a.ask(sc, e0), b.ask(sc, e1)
    viol = x['viol'] + y['viol']
    bad = [u for u in x['out'] if x['out'][u] != y['out'].get(u)]
    if bad:
        x2, y2 = a.ask(sc, e0), b.ask(sc, e1)
        stable = x2['out'] == x['out'] and y2['out'] == y['out']
        ops = {o['u']: o for o in sc['threads'][0]}
        for u in bad[:3]:
            o = ops[int(u)]
            viol.append({'cls': 'differs' if stable else 'nondeterministic', 'kind': o['k'], 'q': o.get('q') or o.get('which'), 'uid': int(u),
                         'msg': f"{o['k']}{':' + str(o.get('q')) if o.get('q') else ''} gave {x['out'][u]} and, in another environment, {y['out'].get(u)}"})
    tot = lambda k: x[k] + y[k]
    f = dict(x['faults'])
    for k, v in y['faults'].items():
        f[k] = f.get(k, 0) + v
    f['environment: entropy, global random state, clock, hash seed, display and numeric settings, prior work'] = 1
    return {'viol': viol, 'crc': kernel.derive(sorted(x['out'].items()), x['crc'], y['crc']) & 0xffffffff,
            'steps': tot('steps'), 'switches': [], 'simtime': tot('simtime'), 'faults': f, 'probes': {},
            'kinds': x['kinds'], 'oplen': {}, 'completed': tot('completed'), 'aborted': tot('aborted'),
            'clock_reads': tot('clock_reads'), 'entropy_draws': tot('entropy_draws')}


def main():
    from . import boot, runs
    boot.prepare()
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    for l in sys.stdin.buffer:
        sc, env = json.loads(l)
        st, res = runs.forked(lambda: runs.second(sc) if 'restart' in sc else single(sc, env), 300)
        out.write(json.dumps([st, res]).encode() + b'\n')
        out.flush()


if __name__ == '__main__':
    main()
