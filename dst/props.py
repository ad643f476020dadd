"""Scenario generators, one per property.  gen(prop, r, tier) -> JSON-able scenario."""
import json
import math

import numpy as np

from . import gen as G
from . import model, optcheck

LQ = ['z', 'Q_layup', 'T_layup', 'A', 'B', 'D', 'ABD', 'xiA', 'xiD']
SQ = ['eps0', 'strain', 'stress', 'margin']


class B:
    def __init__(self, r, prop):
        self.r = r
        self.u = 0
        self.sc = {'prop': prop, 'mats': {}, 'lams': {}, 'strs': {}, 'plates': {}, 'threads': [], 'final': [],
                   'entropy': r.getrandbits(40), 'full': False}

    def op(self, k, o=None, **kw):
        self.u += 1
        d = {'u': self.u, 'k': k}
        if o is not None:
            d['o'] = o
        d.update(kw)
        return d

    def mats(self, n, kind=None, psi=None):
        psi = psi or self.r.choice([1.0, 1e3, 1e6])
        same = self.r.random() < .25            # users may give different plies one name
        for i in range(n):
            if i and self.r.random() < .4:
                self.sc['mats'][f'm{i}'] = G.sib_mat(self.r, self.sc['mats'][f'm{i - 1}'])
                continue
            self.sc['mats'][f'm{i}'] = G.mat(self.r, kind, psi)
            if same:
                self.sc['mats'][f'm{i}']['name'] = 'carbon'

    def lams(self, n, **kw):
        for i in range(n):
            if i and self.r.random() < .4:
                self.sc['lams'][f'l{i}'] = G.sib_lam(self.r, self.sc['lams'][f'l{i - 1}'], self.sc['mats'])
                continue
            self.sc['lams'][f'l{i}'] = G.lam(self.r, self.sc['mats'], **kw)

    def str_(self, name, lam):
        r, old = self.r, sorted(self.sc['strs'])
        if old and r.random() < .4:
            loads = G.sib_loads(r, self.sc['strs'][r.choice(old)]['loads'])
        else:
            loads = G.loads6(r, self.lspec(lam))
        self.sc['strs'][name] = {'lam': lam, 'loads': loads}

    def lspec(self, name):
        return lamspec(self.sc, name)

    def lqs(self, name):
        l = self.sc['lams'][name]
        if 'lp' in l:
            q = ['A', 'B', 'D', 'ABD', 'xiD']
            if l['lp'].get('xiA') is not None:
                q.append('xiA')
            return q
        return LQ

    def mqs(self, name):
        return ['Q_0', 'Q_0', 'Invariants'] if self.sc['mats'][name]['kind'] == 'ortho' else ['Q_0']

    def touch(self, more=()):
        r = self.r
        q = r.choice(['repr', 'repr', 'eq', 'eq', 'attrs', 'pcomp'])
        o = r.choice(sorted(self.sc['mats']) + sorted(self.sc['lams']) * 2 + sorted(more))
        x = self.op('touch', o, q=q)
        if q == 'eq':
            x['other'] = r.choice(sorted(self.sc['mats']) if o in self.sc['mats'] else sorted(self.sc['lams']) or [o])
        return x

    def query(self, p_mat=.12, **kw):
        r = self.r
        if not kw and r.random() < .07:
            return self.touch()
        if r.random() < p_mat or not self.sc['lams']:
            o = r.choice(sorted(self.sc['mats']))
            return self.op('mq', o, q=r.choice(self.mqs(o)), **kw)
        o = r.choice(sorted(self.sc['lams']))
        return self.op('lq', o, q=r.choice(self.lqs(o)), **kw)

    def final_all(self):
        f = []
        for o in sorted(self.sc['mats']):
            for q in sorted(set(self.mqs(o))):
                f.append(self.op('mq', o, q=q))
        for o in sorted(self.sc['lams']):
            for q in self.lqs(o):
                f.append(self.op('lq', o, q=q))
        self.r.shuffle(f)
        return f


def lamspec(sc, name):
    l = sc['lams'][name]
    if 'lp' in l:
        return {'lp': l['lp'], 'ply': sc['mats'][l['mat']]}
    return {'stack': list(l['stack']), 'plies': [sc['mats'][m] for m in l['mats']]}


def churn(b, r, what):
    """short-lived objects, one after the other, that may take each other's place in memory"""
    sc, ops = b.sc, []
    spec = None
    for _ in range(r.choice([2, 2, 3])):
        k = f'd{b.u}'
        if what == 'lam':
            spec = G.sib_lam(r, spec, sc['mats']) if spec and r.random() < .7 else G.lam(r, sc['mats'], hi=4)
            ops.append(b.op('newlam', l=spec, **{'as': k}))
            q = LQ if 'stack' in spec else ['A', 'B', 'D', 'xiD']
            ops += [b.op('lq', k, q=r.choice(q)) for _ in range(r.choice([1, 2]))]
        elif what == 'str':
            st = [n for n in sorted(sc['lams']) if 'lp' not in sc['lams'][n]]
            l = r.choice(st)
            if spec is None or r.random() < .3:
                spec = G.loads6(r, b.lspec(l))
            elif r.random() < .5:
                spec = G.sib_loads(r, spec)
            ops += [b.op('newstr', s={'lam': l, 'loads': list(spec)}, **{'as': k}), b.op('sq', k, q=r.choice(SQ))]
        elif what == 'plate':
            p = dict(r.choice([sc['plates'][n] for n in sorted(sc['plates'])]))
            p.pop('bcsrc', None)
            x = G.sib_plate(r, p, sorted(sc['lams']))
            p = x if _posed(b, x, 2) else p
            ops += [b.op('newplate', p=p, **{'as': k}), b.op('buck', k, num=r.choice([1, 2, 5]))]
        else:
            ops += [b.op('newmat', m=G.mat(r, r.choice(['ortho', 'ortho', 'iso'])), **{'as': k}), b.op('mq', k, q='name')]
        ops.append(b.op('drop', k))
    return ops


# ---------------------------------------------------------------- laminates

def c01(r, tier):
    b = B(r, 'C01')
    b.mats(r.randint(1, 3))
    b.lams(r.randint(1, 2), hi=6)
    nt = r.choice([2, 2, 2, 3, 3, 4])
    focus = None
    if r.random() < .5:
        o = r.choice(sorted(b.sc['lams']))
        focus = (o, [r.choice(b.lqs(o)) for _ in range(2)])
    for t in range(nt):
        ops = []
        for _ in range(r.randint(1, 4)):
            if focus and r.random() < .7:
                ops.append(b.op('lq', focus[0], q=r.choice(focus[1])))
            else:
                ops.append(b.query())
        b.sc['threads'].append(ops)
    b.sc['final'] = b.final_all()
    b.sc['schedule'] = G.schedule(r)
    b.sc['full'] = True
    b.sc['fine'] = r.random() < .5
    return b.sc


def _with_faults(b, r, mk, n, p_fault, p_retry, excs=None):
    """n operations, some aborted at a line, retried or not"""
    ops = []
    for _ in range(n):
        o = mk()
        if r.random() < p_fault:
            o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(excs or G.EXCS)}
            ops.append(o)
            if r.random() < p_retry:
                b.u += 1
                c = {k: v for k, v in o.items() if k != 'fault'}
                c['u'] = b.u
                if r.random() < .15:
                    c['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(excs or G.EXCS)}
                ops.append(c)
        else:
            ops.append(o)
    return ops


def _frac(r):
    c = r.random()
    return round(r.random() if c < .6 else (r.random() ** 3 if c < .8 else 1 - r.random() ** 3), 4)


def c02(r, tier):
    b = B(r, 'C02')
    b.mats(r.randint(1, 3), kind='ortho')
    b.lams(r.randint(1, 2), hi=5)
    st = [n for n in sorted(b.sc['lams']) if 'lp' not in b.sc['lams'][n]]
    strength = st and r.random() < .5
    if strength:
        b.str_('s0', r.choice(st))

    def mk():
        if strength and r.random() < .4:
            return b.op('sq', 's0', q=r.choice(SQ))
        return b.query()
    nt = 1 if r.random() < .75 else 2
    for _ in range(nt):
        b.sc['threads'].append(_with_faults(b, r, mk, r.randint(1, 4), .6, .7))
    b.sc['final'] = b.final_all()
    if strength:
        for q in SQ:
            b.sc['final'].append(b.op('sq', 's0', q=q))
    if nt > 1:
        b.sc['schedule'] = G.schedule(r)
    b.sc['fine'] = r.random() < .4
    return b.sc


def c03(r, tier):
    b = B(r, 'C03')
    b.mats(r.randint(1, 3))
    b.lams(r.randint(1, 3), hi=6)
    if r.random() < .2:                      # several callers, each editing what it was handed
        b.lams(1, hi=3)
        o = r.choice(sorted(b.sc['lams']))
        q = r.choice(b.lqs(o)) if r.random() < .6 else None
        for _ in range(r.choice([2, 2, 3])):
            ops, kept = [], []
            for _ in range(r.randint(2, 5)):
                if kept and r.random() < .45:
                    ops.append(b.op('edit', of=r.choice(kept[-2:]), how=r.choice(['zero', 'scale', 'poke'])))
                else:
                    x = b.op('lq', o, q=q, keep=True) if q and r.random() < .8 else b.query(.15, keep=True)
                    kept.append(x['u'])
                    ops.append(x)
            b.sc['threads'].append(ops)
        b.sc['final'] = b.final_all()
        b.sc['schedule'] = G.schedule(r)
        b.sc['fine'] = r.random() < .5
        return b.sc
    ops = []
    kept = []
    for _ in range(r.randint(3, 14)):
        if kept and r.random() < .35:
            ops.append(b.op('edit', of=r.choice(kept[-4:]), how=r.choice(['zero', 'scale', 'poke'])))
        elif r.random() < .06:
            n = f'l{len(b.sc["lams"])}x{b.u}'
            ops.append(b.op('newlam', **{'as': n, 'l': G.lam(r, b.sc['mats'], hi=5)}))
        elif r.random() < .05:
            ops += churn(b, r, 'lam')
        elif r.random() < .05:
            ops.append(b.touch())
        else:
            o = b.query(.2, keep=True)
            kept.append(o['u'])
            ops.append(o)
    b.sc['threads'] = [ops]
    b.sc['final'] = b.final_all()
    return b.sc


def c04(r, tier):
    b = B(r, 'C04')
    b.mats(r.randint(1, 3), kind='ortho')
    b.lams(r.randint(1, 2), hi=5, p_lp=0)
    mode = r.choice(['hist', 'hist', 'conc', 'abort'])
    ns = r.randint(1, 3)
    lams = sorted(b.sc['lams'])
    for i in range(ns):
        b.str_(f's{i}', r.choice(lams))
    strs = sorted(b.sc['strs'])

    def mk(own=None):
        c = r.random()
        o = own or r.choice(strs)
        if c < .25:
            if r.random() < .25:                  # a little more of the same
                return b.op('setload', o, i=r.randrange(6), times=r.choice([1.000001, 1.0001, 1.01, -1, 2]))
            return b.op('setload', o, i=r.randrange(6), v=r.choice([0, 0.0, round(r.uniform(-1e3, 1e3), 2), r.randint(-500, 500),
                                                                    r.choice([-1, -2, 1, 1.0])]))
        if c < .35:
            return b.op('setlam', o, lam=r.choice(lams))
        if c < .5:
            return b.query(.1)
        return b.op('sq', o, q=r.choice(SQ))
    if mode == 'conc':
        nt = min(ns, 3) if ns > 1 else 2
        while len(strs) < nt:
            b.str_(f's{len(strs)}', lams[0])
            strs = sorted(b.sc['strs'])
        for t in range(nt):
            b.sc['threads'].append([mk(strs[t]) for _ in range(r.randint(1, 3))] + [b.op('sq', strs[t], q=r.choice(SQ))])
        if r.random() < .4:           # several callers querying one analysis object
            s = strs[0]
            b.sc['threads'].append([b.op('sq', s, q=r.choice(SQ)) for _ in range(2)])
            b.sc['threads'][0] = [b.op('sq', s, q=r.choice(SQ)) for _ in range(2)]
        b.sc['schedule'] = G.schedule(r)
    elif mode == 'abort':
        ops = _with_faults(b, r, mk, r.randint(2, 6), 0, 0)
        out = []
        for o in ops:
            if o['k'] in ('sq', 'lq') and r.random() < .5:
                o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(G.EXCS)}
            out.append(o)
        b.sc['threads'] = [out]
    else:
        b.sc['threads'] = [[mk() for _ in range(r.randint(2, 8))]]
        if r.random() < .25:
            b.sc['threads'][0] += churn(b, r, 'str')
    for s in sorted(b.sc['strs']):
        for q in SQ:
            b.sc['final'].append(b.op('sq', s, q=q))
    b.sc['fine'] = mode != 'hist' and r.random() < .4
    return b.sc


# ---------------------------------------------------------------- plates

def _plates(b, r, n, lo=2, hi=5, need=1, level=None, share_bc=.0):
    lams = sorted(b.sc['lams'])
    k = 0
    for _ in range(n * 3):
        if k and r.random() < .45:
            p = G.sib_plate(r, b.sc['plates'][f'p{k - 1}'], lams)
            if not _posed(b, p, need):
                continue
        else:
            l = r.choice(lams)
            p = G.plate(r, b.lspec(l), lo, hi, level, need)
            if p is None:
                continue
            p['lam'] = l
        b.sc['plates'][f'p{k}'] = p
        k += 1
        if k == n:
            break
    return sorted(b.sc['plates'])


def _new_edges(b, r, name, need=2):
    p = b.sc['plates'][name]
    if isinstance(p['bc'], str):
        return None
    named = p['bc'] is not None and isinstance(p['bc']['x0'], str)
    for _ in range(20):
        n = {k: G.edge_spec(r, 'name' if named else 'list') for k in ('x0', 'xa', 'y0', 'yb')}
        if _posed(b, dict(p, bc=n), need):
            return n
    return None


def _posed2(b, l, p):
    b.sc['lams']['tmp'] = l
    ok = _posed(b, dict(p, lam='tmp'))
    del b.sc['lams']['tmp']
    return ok


def _posed(b, p, need=1):
    if p['m'] * p['n'] < 5:
        return False
    try:
        P = model.Plate(b.lspec(p['lam']), p)
    except (np.linalg.LinAlgError, ValueError):
        return False
    return P.cond <= 1e9 and len(P.pos) >= need


def _num(r, p=None):
    return r.choice([1, 2, 3, 5, 5, 4, 8])


def _clock(r):
    return {'kind': r.choice(['steady', 'jumps', 'frozen']), 'seed': r.getrandbits(30), 'start': r.choice([0.0, 1e9, -5.0])}


def c05(r, tier):
    b = B(r, 'C05')
    b.mats(r.randint(1, 2), kind='ortho' if r.random() < .8 else None)
    b.lams(r.randint(1, 2), hi=5, p_lp=.3)
    c = r.random()
    lo, hi = (2, 5) if c > .12 else (5, 8) if c > (.012 if tier == 'quick' else .05) else (7, 10)
    big = hi > 5
    ps = _plates(b, r, 1 if big else r.choice([1, 1, 2, 3]), lo, hi)
    if hi == 10:
        for p in ps:
            if r.random() < .5:
                b.sc['plates'][p]['m'] = b.sc['plates'][p]['n'] = 10        # the default size
                if not _posed(b, b.sc['plates'][p]):
                    return None
    if not ps:
        return None
    ops = []
    for _ in range(r.choice([1, 2, 3, 5]) if hi < 10 else 1):
        c = r.random()
        if c < .75:
            o = b.op('buck', r.choice(ps))
            if r.random() < .7:
                o['num'] = _num(r)
            if r.random() < .3:
                o['silent'] = r.random() < .5
            ops.append(o)
        elif c < .85:
            ops.append(b.op('kd', r.choice(ps)))
        elif c < .9:
            ops += churn(b, r, 'plate')
        elif c < .95 and not big:
            o = r.choice(ps)
            n = _new_edges(b, r, o, 1)
            if n:
                ops.append(b.op('reedge', o, bc=n))
        else:
            ops.append(b.query())
    b.sc['threads'] = [ops]
    b.sc['final'] = [b.op('buck', p, num=_num(r)) for p in ps]
    b.sc['clock'] = _clock(r)
    return b.sc


SOLVER_EXC = ['ArpackNoConvergence', 'ArpackError', 'MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'LinAlgError', 'ZeroDivisionError']
OUT_EXC = ['BrokenPipeError', 'ENOSPC', 'KeyboardInterrupt', 'OSError']


def _buck_fault(r):
    c = r.random()
    if c < .4:
        return {'at': 'solver', 'calls': [1], 'exc': r.choice(SOLVER_EXC)}, None
    if c < .6:
        return {'at': 'stdout', 'calls': [r.randint(1, 6)], 'exc': r.choice(OUT_EXC)}, False
    if c < .7:
        return {'at': 'solved', 'calls': [1], 'exc': r.choice(SOLVER_EXC)}, None
    return {'at': 'line', 'frac': _frac(r), 'exc': r.choice(G.EXCS)}, None


def c06(r, tier):
    b = B(r, 'C06')
    b.mats(1, kind='ortho')
    b.lams(r.choice([1, 1, 2]), hi=4, p_lp=.3)
    ps = _plates(b, r, r.choice([1, 2, 2, 3]), 2, 4)
    if not ps:
        return None
    conc = r.random() < .4

    def ops_for(own, n, p_fault):
        ops = []
        for _ in range(n):
            o = b.op('buck', r.choice(own))
            if r.random() < .6:
                o['num'] = _num(r)
            if r.random() < p_fault:
                f, silent = _buck_fault(r)
                o['fault'] = f
                if silent is not None:
                    o['silent'] = silent
            if 'silent' not in o and r.random() < .2:
                o['silent'] = False
            ops.append(o)
            if r.random() < .1:
                ops.append(b.op('plot', own[0], nth=0, gx=3, gy=3))
            if not conc and r.random() < .1:
                p = r.choice(own)
                n = _new_edges(b, r, p, 1)
                if n:
                    ops.append(b.op('reedge', p, bc=n))
        return ops
    if conc:
        nt = r.choice([2, 2, 3])
        for t in range(nt):
            own = ps if r.random() < .5 else [r.choice(ps)]
            ops = ops_for(own, r.choice([1, 1, 2]), .25)
            b.sc['threads'].append([o for o in ops if o['k'] != 'plot'])
        b.sc['schedule'] = G.schedule(r, gap=r.choice([8, 20, 60, 200, 800]))
        b.sc['full'] = r.random() < .2
    else:
        b.sc['threads'] = [ops_for(ps, r.choice([1, 2, 3, 4]), .6)]
        if r.random() < .15:
            b.sc['threads'][0] += churn(b, r, 'plate')
        b.sc['full'] = r.random() < .2
    b.sc['fine'] = r.random() < .25
    b.sc['final'] = [b.op('buck', p, **({'num': _num(r)} if r.random() < .5 else {})) for p in ps]
    b.sc['clock'] = _clock(r)
    return b.sc


def _opt_ok(args):
    """no rigid motion, positive factor over the domain"""
    try:
        for x1, x3 in ((0, 0), (1, 1), (-1, 1), (0, -1), (.5, 0), (-.5, 0)):
            pl, mx = optcheck._plate(args)
            P = model.Plate({'lp': {'xiD': [x1, 0, x3, 0], 'T': args.get('T', 1.0)},
                             'ply': dict(kind='ortho', e1=args['E1'], e2=args['E2'], v12=args['v12'], g12=args['G12'])}, pl)
            if P.cond > 1e7 or len(P.pos) < 1 or P.pos[0] > 30 * abs(-1 / P.mu).min():
                return False
    except (np.linalg.LinAlgError, ValueError):
        return False
    return True


def _opt_sib(r, which, a):
    """the same optimisation with one argument changed"""
    for _ in range(6):
        n = json.loads(json.dumps(a))
        c = r.randrange(11)
        if c == 0:
            n['a'] = float(f"{a['a'] * r.choice([.6, 1.6, 1.001]):.8g}")
        elif c == 7:
            f = r.choice([.7, 1.3])
            n['a'], n['b'] = a['a'] * f, a['b'] / r.choice([f, 1 / f])
        elif c == 8:
            v = [a.get(k, 0) for k in ('Nxx', 'Nyy', 'Nxy')]
            r.shuffle(v)
            n.update(zip(('Nxx', 'Nyy', 'Nxy'), v))
        elif c == 9 and a.get('m', 7) < 5:
            n['m'], n['n'] = a['n'], a['m']
        elif c == 10 and isinstance(a.get('panel_constraint'), dict):
            k = ['x0', 'xa', 'y0', 'yb']
            r.shuffle(k)
            n['panel_constraint'] = dict(zip(('x0', 'xa', 'y0', 'yb'), [a['panel_constraint'][x] for x in k]))
        elif c == 1:
            k = r.choice(['E1', 'G12'])
            n[k] = float(f'{a[k] * 1.3:.5g}')
        elif c == 2:
            f = max(abs(a.get(k, 0)) for k in ('Nxx', 'Nyy', 'Nxy'))
            for k, v in zip(('Nxx', 'Nyy', 'Nxy'), G.ratio_loads(r)):
                n[k] = float(f'{v * f:.6g}')
        elif c == 3:
            n['panel_constraint'] = r.choice(['PINNED', 'CLAMPED'])
        elif c == 4 and which == 'max':
            n['penalty'] = not a.get('penalty', True)
        elif c == 5 and which == 'max':
            n['T'] = float(f"{a['T'] * 1.5:.5g}")
        elif c == 6 and n.get('m', 7) < 5:
            n['m'] += 1
        if n != a and _opt_ok(n):
            return n
    return json.loads(json.dumps(a))


def _opt_args(r, which, size=None):
    while True:
        e1 = G.logu(r, 5, 300) * r.choice([1.0, 1e3])
        e2 = float(f'{e1 * G.logu(r, .05, 1):.5g}')
        g = float(f'{e2 * G.logu(r, .2, .6):.5g}')
        v = round(r.uniform(.05, .4), 3)
        a = G.logu(r, 100, 1500)
        args = dict(a=a, b=float(f'{a * G.logu(r, .5, 2):.5g}'), E1=e1, E2=e2, v12=v, G12=g)
        args['m'], args['n'] = r.choice([(3, 3), (3, 3), (3, 2), (2, 3), (4, 3), (3, 4)])
        if size:
            args['m'], args['n'] = size
        elif r.random() < .02:
            args['m'] = args['n'] = 7                     # the default size, by default
            args['options'] = {'maxiter': 3}
        L = G.ratio_loads(r)
        if which == 'max':
            args['T'] = G.logu(r, 1, 20)
            if r.random() < .5:
                args['penalty'] = r.random() < .5
        sc = 1.0 if r.random() < .5 else G.logu(r, .1, 1e3)
        for k, v_ in zip(('Nxx', 'Nyy', 'Nxy'), L):
            if v_ or r.random() < .3:
                args[k] = float(f'{v_ * sc:.6g}')
        bc = G.bc(r)
        if bc is not None:
            args['panel_constraint'] = bc
        if 'options' not in args and r.random() < .35:
            args['options'] = {'maxiter': r.choice([1, 3, 10, 100])}
        if r.random() < .1:
            args['tol'] = r.choice([1e-6, 1e-8])
        if not _opt_ok(args):
            continue
        if which == 'min':
            # loads that ask for a thickness in a sensible range
            t = G.logu(r, .5, 30)
            l1 = optcheck.factor(args, 0.0, 0.0, 1.0) * t ** 3       # normalised factor at thickness t
            mx = optcheck._plate(args)[1]
            for k in ('Nxx', 'Nyy', 'Nxy'):
                if k in args:
                    args[k] = float(f'{args[k] * l1 / mx:.6g}')
        if args['m'] == args['n'] == 7 and r.random() < .8:
            del args['m'], args['n']
        return args


def _opt_fault(r, handled):
    calls = sorted(set(r.choice([1, 2, 3, 4, r.randint(1, 12), r.randint(1, 40)]) for _ in range(r.randint(1, 4))))
    c = r.random()
    if c < .03:
        calls = {'from': 1}
    elif c < .1:
        calls = list(range(calls[0], calls[0] + 12))
    elif c < .4:                                   # from some trial on, every one fails
        calls = {'from': r.randint(2, 16)}
    return {'at': 'solver', 'calls': calls, 'limit': {'solver': 6000},
            'exc': r.choice(['ArpackError', 'ArpackNoConvergence'] if handled else
                            ['KeyboardInterrupt', 'MemoryError', 'RuntimeError', 'InjectedBase', 'LinAlgError'])}


def _opt(prop, which, r):
    b = B(r, prop)
    nt = 2 if r.random() < .12 else 1
    for t in range(nt):
        ops = []
        for _ in range(r.choice([1, 1, 2])):
            sib = ops and 'options' not in ops[-1]['args'] and r.random() < .5
            o = b.op('opt', which=which, args=_opt_sib(r, which, ops[-1]['args']) if sib else _opt_args(r, which))
            c = r.random()
            if c < .4:
                o['fault'] = _opt_fault(r, True)
                if isinstance(o['fault']['calls'], dict) and which == 'min' and r.random() < .85:
                    o['args'].setdefault('options', {'maxiter': r.choice([6, 12, 20])})
            elif c < .55:
                o['fault'] = _opt_fault(r, False)
            else:
                o['fault'] = {'at': 'none', 'limit': {'solver': 6000}}
            ops.append(o)
        b.sc['threads'].append(ops)
    if nt > 1:
        b.sc['schedule'] = G.schedule(r, gap=r.choice([200, 2000, 5000]))
        for t in b.sc['threads']:             # every line is a switch point here: keep them short
            for o in t:
                c = (o.get('fault') or {}).get('calls')
                if isinstance(c, dict):
                    o['args'].setdefault('options', {'maxiter': 15})
    if r.random() < .3 and nt == 1:
        o = b.op('opt', which=which, args=b.sc['threads'][0][0]['args'])
        o['fault'] = {'at': 'none', 'limit': {'solver': 6000}}
        b.sc['final'] = [o]
    return b.sc


def c08(r, tier):
    return _opt('C08', 'max', r)


def c09(r, tier):
    return _opt('C09', 'min', r)


# ---------------------------------------------------------------- names

def c10(r, tier):
    b = B(r, 'C10')
    nt = r.choice([1, 2, 2, 3, 4])
    bad = [-1, 'x', None, [1], 'inf-not-number', -1e9]
    live = []
    b.mats(r.choice([0, 1, 1, 2]))                # materials every caller may ask
    for m in b.sc['mats'].values():
        m.pop('name', None)
    shared = sorted(b.sc['mats'])
    kinds = {k: m['kind'] for k, m in b.sc['mats'].items()}
    for t in range(nt):
        ops = []
        mine = []
        for _ in range(r.randint(2, 6)):
            c = r.random()
            if mine + shared and r.random() < .08:
                k = r.choice(mine + shared)
                alike = [x for x in mine + shared if kinds[x] == kinds[k]]
                ops.append(b.op('touch', k, q='eq', other=r.choice(alike)) if r.random() < .6 else b.op('touch', k, q=r.choice(['repr', 'attrs'])))
            elif shared and r.random() < .3:
                o = b.op('mq', r.choice(shared), q='name')
                if r.random() < .1:
                    o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(G.EXCS)}
                ops.append(o)
            elif c < .6 or not mine:
                m = G.mat(r, r.choice(['ortho', 'ortho', 'iso']))
                if r.random() < .15:
                    m['name'] = r.choice(['carbon', 'ply_1', '', 'ply_2', 'glass'])
                n = f'x{t}_{b.u}'
                kinds[n] = m['kind']
                o = b.op('newmat', **{'as': n, 'm': m})
                if r.random() < .15:
                    o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(ASYNC)}
                else:
                    mine.append(n)
                ops.append(o)
            elif c < .64:
                ops += churn(b, r, 'mat')
            elif c < .75:
                ops.append(b.op('badmat', kind=r.choice(['ortho', 'iso']), i=r.randrange(10), v=r.choice(bad)))
            else:
                o = b.op('mq', r.choice(mine), q=r.choice(['name', 'name', 'name', 'Q_0']))
                if r.random() < .15:
                    o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(G.EXCS)}
                ops.append(o)
        live += mine
        b.sc['threads'].append(ops)
    live += shared
    for n in live:
        b.sc['final'].append(b.op('mq', n, q='name'))
    for i in range(r.randint(0, 2)):
        b.sc['final'].append(b.op('newmat', **{'as': f'z{i}', 'm': G.mat(r)}))
        b.sc['final'].append(b.op('mq', f'z{i}', q='name'))
    r.shuffle(live)
    for n in live[:4]:
        b.sc['final'].append(b.op('mq', n, q='name'))
    if nt > 1:
        # creation is short: dense switching
        b.sc['schedule'] = G.schedule(r, gap=r.choice([2, 4, 8, 20, 60]))
    b.sc['fine'] = r.random() < .5
    return b.sc


# ---------------------------------------------------------------- copies

def c11(r, tier):
    b = B(r, 'C11')
    b.mats(r.randint(1, 2), kind='ortho')
    if r.random() < .2:
        b.sc['mats'][r.choice(sorted(b.sc['mats']))]['name'] = r.choice(['ply_1', 'T300', 'ply_2'])
    b.lams(r.randint(1, 2), hi=5, p_lp=.2)
    if r.random() < .3:
        b.sc['mats']['mi'] = G.mat(r, 'iso')
    st = [n for n in sorted(b.sc['lams']) if 'lp' not in b.sc['lams'][n]]
    if st and r.random() < .6:
        b.str_('s0', r.choice(st))
    if r.random() < .35:
        _plates(b, r, 1, 2, 3)
    ncopy = [0]
    made = []          # (copy name, original name, kind)

    def q_on(o, root):
        if r.random() < .06 and root not in b.sc['strs'] and root not in b.sc['plates']:
            like = [c for c, x in made + [(root, root)] if x == root] + [n for n in roots if _kind(b, n) == _kind(b, root)]
            return b.op('touch', o, q='eq', other=r.choice(like))
        if root in b.sc['lams']:
            return b.op('lq', o, q=r.choice(b.lqs(root)))
        if root in b.sc['mats']:
            return b.op('mq', o, q=r.choice(b.mqs(root) + ['name']))
        if root in b.sc['strs']:
            if r.random() < .15:
                return b.op('setload', o, i=r.randrange(6), v=round(r.uniform(-1e3, 1e3), 2))
            return b.op('sq', o, q=r.choice(SQ))
        return b.op('buck', o, num=_num(r)) if r.random() < .6 else b.op('kd', o)

    roots = sorted(b.sc['mats']) + sorted(b.sc['lams']) * 3 + sorted(b.sc['strs']) * 2 + sorted(b.sc['plates']) * 2
    conc = r.random() < .5

    def stream(n, p_copy, p_fault, objs):
        ops, deep = [], []
        for _ in range(n):
            if r.random() < p_copy:
                root = r.choice(roots)
                src = r.choice([root] + [c for c, o in objs if o == root])
                ncopy[0] += 1
                c = f'c{ncopy[0]}'
                ops.append(b.op('copy', src, q=r.choice(['copy', 'deepcopy', 'deepcopy', 'pickle2', 'pickle5']), **{'as': c}))
                objs.append((c, root))
                if ops[-1]['q'] != 'copy' and _kind(b, root) != root and root in b.sc['lams']:
                    deep.append((c, root))
            elif deep and not conc and r.random() < .12:          # what a deep copy shows belongs to the copy
                o, root = r.choice(deep)
                ops.append(b.op('editattr', o, q=r.choice(['layup', 'stacking', 'plies']), how=r.randrange(6),
                                other=r.choice([n for n in sorted(b.sc['mats']) if b.sc['mats'][n]['kind'] == 'ortho'])))
            else:
                o, root = r.choice([(x, x) for x in roots] + objs * 2)
                x = q_on(o, root)
                if x['k'] in ('lq', 'mq', 'sq') and r.random() < p_fault:
                    x['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(G.EXCS)}
                ops.append(x)
        return ops
    if conc:
        for t in range(2):
            objs = []
            ops = stream(r.randint(2, 4), .5 if t else .15, .1, objs)
            # no attribute changes while other callers work on the object
            b.sc['threads'].append([o for o in ops if o['k'] != 'setload'])
            made += objs
        b.sc['schedule'] = G.schedule(r, gap=r.choice([2, 4, 8, 20, 60]))
    else:
        objs = []
        b.sc['threads'] = [stream(r.randint(3, 8), .35, .3, objs)]
        made += objs
    for o, root in made:
        if root in b.sc['mats'] or root in b.sc['lams']:
            b.sc['final'].append(b.op('touch', o, q='eq', other=root))
    for o, root in made + [(x, x) for x in sorted(set(roots))]:
        if root in b.sc['lams']:
            for q in b.lqs(root):
                b.sc['final'].append(b.op('lq', o, q=q))
        elif root in b.sc['mats']:
            b.sc['final'] += [b.op('mq', o, q='Q_0'), b.op('mq', o, q='name')]
        elif root in b.sc['strs']:
            for q in SQ:
                b.sc['final'].append(b.op('sq', o, q=q))
        else:
            b.sc['final'].append(b.op('buck', o))
    r.shuffle(b.sc['final'])
    b.sc['fine'] = r.random() < .4
    return b.sc


def _kind(b, n):
    if n in b.sc['lams']:
        return 'lp' if 'lp' in b.sc['lams'][n] else 'lam'
    return b.sc['mats'][n]['kind'] if n in b.sc['mats'] else n


# ---------------------------------------------------------------- isolation

def c12(r, tier):
    b = B(r, 'C12')
    b.mats(r.randint(1, 3), kind='ortho')
    b.lams(r.randint(1, 2), hi=5, p_lp=.3)
    for l in b.sc['lams'].values():
        if 'stack' in l and r.random() < .5:
            l['container'] = 'list'
    ps = _plates(b, r, r.choice([0, 1, 2, 3, 3]), 2, 3)
    for p in ps:
        if r.random() < .4:
            q = b.sc['plates'][p]
            old = q['bc']
            q['bc'] = None
            try:
                P = model.Plate(b.lspec(q['lam']), q)
                if P.cond > 1e9 or not len(P.pos):
                    q['bc'] = old
            except (np.linalg.LinAlgError, ValueError):
                q['bc'] = old
    if len(ps) > 1 and r.random() < .5 and b.sc['plates'][ps[0]]['bc'] == b.sc['plates'][ps[1]]['bc']:
        b.sc['plates'][ps[0]]['bcsrc'] = b.sc['plates'][ps[1]]['bcsrc'] = 'B0'
    if ps and r.random() < .5:
        n = len(ps)
        q = dict(b.sc['plates'][ps[0]])
        b.sc['plates'][f'p{n}'] = q
        if isinstance(q['bc'], dict) and r.random() < .6:
            q['bcsrc'] = b.sc['plates'][ps[0]]['bcsrc'] = 'B1'
        ps.append(f'p{n}')
    st = [n for n in sorted(b.sc['lams']) if 'lp' not in b.sc['lams'][n]]
    if st and r.random() < .4:
        b.str_('s0', r.choice(st))
        b.str_('s1', r.choice(st))
    mats = sorted(b.sc['mats'])
    objs = sorted(b.sc['lams']) + sorted(b.sc['plates'])
    strs = sorted(b.sc['strs'])
    ops = []
    n = 0
    for _ in range(r.randint(2, 9)):
        c = r.random()
        if c < .4:
            ops.append(b.op('editsrc', r.choice(objs), what=r.choice(['stack', 'stack', 'plies']), how=r.randrange(5), other=r.choice(mats)))
        elif c < .47 and ps:
            ops.append(b.op('editcons', r.choice(ps), how=r.randrange(5)))
        elif c < .5:
            ops.append(b.op('editattr', r.choice(sorted(b.sc['lams'])), q=r.choice(['stacking', 'plies', 'layup']), how=r.randrange(5),
                            other=r.choice(mats)))
        elif c < .62 and ps:
            q = dict(b.sc['plates'][r.choice(ps)])
            q.pop('bcsrc', None)
            if r.random() < .5:
                s = G.sib_plate(r, q, sorted(b.sc['lams']))
                q = s if _posed(b, s) else q
            n += 1
            ops.append(b.op('newplate', p=q, **{'as': f'n{n}'}))
        elif c < .66:
            ops.append(b.op('newlam', l=G.lam(r, b.sc['mats'], hi=4), **{'as': f'nl{b.u}'}))
        elif c < .72:                             # objects that go, and others that may take their place in memory
            l = G.lam(r, b.sc['mats'], hi=4)
            for _ in range(r.choice([2, 2, 3])):
                k = f'd{b.u}'
                q = LQ if 'stack' in l else ['A', 'B', 'D', 'xiD']
                ops.append(b.op('newlam', l=l, **{'as': k}))
                p = None
                if ps and r.random() < .4:
                    n0 = dict(b.sc['plates'][r.choice(ps)], lam=k)
                    n0.pop('bcsrc', None)
                    if _posed2(b, l, n0):
                        p = n0
                if p is not None:
                    ops += [b.op('newplate', p=p, **{'as': k + 'p'}), b.op('buck', k + 'p')]
                for _ in range(r.choice([1, 2])):
                    ops.append(b.op('lq', k, q=r.choice(q)))
                if 'stack' in l and r.random() < .3:
                    ops += [b.op('newstr', s={'lam': k, 'loads': G.loads6(r)}, **{'as': k + 's'}), b.op('sq', k + 's', q=r.choice(SQ)),
                            b.op('drop', k + 's')]
                if p is not None:
                    ops.append(b.op('drop', k + 'p'))
                ops.append(b.op('drop', k))
                l = G.sib_lam(r, l, b.sc['mats']) if r.random() < .7 else G.lam(r, b.sc['mats'], hi=4)
        elif c < .8 and strs:
            o = r.choice(strs)
            ops.append(b.op('setload', o, i=r.randrange(6), v=round(r.uniform(-1e3, 1e3), 2)))
        elif ps and r.random() < .5:
            ops.append(b.op(r.choice(['buck', 'kd']), r.choice(ps)))
        else:
            ops.append(b.query(.1))
    b.sc['threads'] = [ops]
    for p in ps + [f'n{i + 1}' for i in range(n)]:
        b.sc['final'].append(b.op('buck', p))
        if r.random() < .3:
            b.sc['final'].append(b.op('kd', p))
    for l in sorted(b.sc['lams']):
        for q in b.lqs(l):
            b.sc['final'].append(b.op('lq', l, q=q))
    for s in strs:
        b.sc['final'].append(b.op('sq', s, q=r.choice(SQ)))
    r.shuffle(b.sc['final'])
    return b.sc


# ---------------------------------------------------------------- plots

def c14(r, tier):
    b = B(r, 'C14')
    b.mats(1, kind='ortho')
    b.lams(1, hi=4, p_lp=.4)
    ps = _plates(b, r, r.choice([1, 1, 2]), 2, 4, need=2)
    if not ps:
        return None
    ops = []
    conc = r.random() < .3
    for _ in range(r.choice([1, 2, 3, 4]) if not conc else r.choice([2, 3, 4])):
        o = r.choice(ps)
        if not conc and r.random() < .1:
            ops.append(b.op('kd', o))
        if not conc and r.random() < .2:          # the caller moves the edges of a plate it has
            n = _new_edges(b, r, o)
            if n:
                ops.append(b.op('reedge', o, bc=n))
        if r.random() < (.35 if not conc else .2):
            x = b.op('buck', o, num=max(2, _num(r)))
            if r.random() < .3:
                x['fault'] = {'at': 'solver', 'calls': [1], 'exc': r.choice(SOLVER_EXC)}
            ops.append(x)
            continue
        gx = r.choice([2, 3, 4, 5, 7, 10])
        gy = gx if r.random() < .3 else r.choice([2, 3, 4, 5, 7, 11])
        x = b.op('plot', o, gx=gx, gy=gy)
        if r.random() < .15:
            x = b.op('plot', o)
        if r.random() < .6:
            x['nth'] = r.randint(0, 1)
        if r.random() < .35:
            x['fault'] = {'at': r.choice(['show', 'figure', 'surface', 'solver']), 'calls': [1],
                          'exc': r.choice(['RuntimeError', 'KeyboardInterrupt', 'MemoryError', 'OSError'])}
        elif r.random() < .15:
            x['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(G.EXCS)}
        ops.append(x)
    if r.random() < .5:
        b.sc['figs'] = r.choice([0, 1, 2])
    b.sc['threads'] = [ops]
    if conc:                                     # two callers, plates of their own or shared
        for o in ops:
            if o.get('gx', 20) > 5:
                o['gx'], o['gy'] = 4, 5
        b.sc['threads'] = [ops[::2], ops[1::2]]
        b.sc['schedule'] = G.schedule(r, gap=r.choice([8, 20, 60, 200]))
        b.sc['fine'] = r.random() < .3
    for p in ps:
        b.sc['final'].append(b.op('plot', p, gx=r.choice([3, 4, 6]), gy=r.choice([3, 5, 6]), nth=0))
    return b.sc


# ---------------------------------------------------------------- environment

def _mixed(b, r, n, opt=.12, faults=0.0, plot=.1):
    st = [x for x in sorted(b.sc['lams']) if 'lp' not in b.sc['lams'][x]]
    if st:
        b.str_('s0', r.choice(st))
    ps = _plates(b, r, r.choice([1, 1, 2]), 2, 4, need=2)
    ops = []
    for _ in range(n):
        c = r.random()
        if c < opt:
            which = r.choice(['max', 'max', 'min'])
            a = _opt_args(r, which)
            a['m'], a['n'] = 3, 2
            a['options'] = {'maxiter': r.choice([1, 2, 5, 100])}
            if which == 'max' and r.random() < .3:
                a['plot'], a['points_to_plot'] = True, r.choice([3, 4])
            o = b.op('opt', which=which, args=a)
            o['fault'] = {'at': 'none', 'limit': {'solver': 6000}}
        elif c < opt + plot and ps:
            o = b.op('plot', r.choice(ps), gx=r.randint(2, 5), gy=r.randint(2, 5), nth=0)
        elif c < .5 and ps:
            o = b.op('buck', r.choice(ps), num=max(2, _num(r)), silent=r.random() < .7)
        elif c < .55 and ps:
            o = b.op(r.choice(['kd', 'kabd']), r.choice(ps))
        elif c < .8 and st:
            o = b.op('sq', 's0', q=r.choice(SQ))
        elif c < .85:
            o = b.op('newmat', **{'as': f'x{b.u}', 'm': G.mat(r)})
        else:
            o = b.query(.2)
        if faults and r.random() < faults:
            k = o['k']
            if k == 'opt':
                o['fault'] = _opt_fault(r, r.random() < .5)
            elif k == 'buck' and r.random() < .5:
                f, silent = _buck_fault(r)
                o['fault'] = f
                if silent is not None:
                    o['silent'] = silent
            elif k == 'plot' and r.random() < .6:
                o['fault'] = {'at': r.choice(['show', 'figure', 'surface', 'solver']), 'calls': [1],
                              'exc': r.choice(['RuntimeError', 'KeyboardInterrupt', 'MemoryError', 'OSError'])}
            else:
                o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(G.EXCS)}
        ops.append(o)
    return ops


def _env(r):
    return {'entropy': r.getrandbits(40), 'clock': _clock(r), 'rng': r.getrandbits(32), 'prior': r.choice([0, 1, 2, 4]),
            'prior_seed': r.getrandbits(40), 'settings': r.getrandbits(40), 'junk': r.randrange(4), 'threadswitch': r.choice([0.005, 0.001])}


def c07(r, tier):
    b = B(r, 'C07')
    b.mats(r.randint(1, 2), kind='ortho')
    b.lams(r.randint(1, 2), hi=5)
    b.sc['threads'] = [_mixed(b, r, r.randint(2, 6), opt=.2)]
    b.sc['envs'] = [_env(r), _env(r)]
    b.sc['envs'][0]['repeat'] = r.random() < .4
    return b.sc


def c13(r, tier):
    b = B(r, 'C13')
    b.mats(r.randint(1, 2), kind='ortho')
    b.lams(r.randint(1, 2), hi=4)
    nt = 2 if r.random() < .15 else 1
    ops = _mixed(b, r, r.randint(2, 6), opt=.1, faults=.4)
    b.sc['threads'] = [ops] if nt == 1 else [[o for o in ops[::2] if o['k'] != 'plot'], [o for o in ops[1::2] if o['k'] != 'plot']]
    if nt > 1:
        b.sc['schedule'] = G.schedule(r, gap=r.choice([8, 20, 60, 200]))
    b.sc['ambient'] = {'seed': r.getrandbits(40)}
    b.sc['clock'] = _clock(r)
    return b.sc


def c15(r, tier):
    sc = {'prop': 'C15', 'threads': [], 'final': [], 'entropy': r.getrandbits(40),
          'script': r.choice(['write_pre_integrated_terms', 'write_shape_function']),
          'old': r.choice(['present', 'present', 'present', 'missing']),
          'chunk': r.choice([0, 0, 4096, 65536, 1 << 18]), 'leftover': r.random() < .3, 'loss': r.getrandbits(40), 'attempts': []}
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        kind = r.choice(['crash', 'power', 'error', 'error', 'short', 'interrupt', 'openfail', 'power-after', 'compute', 'pair', 'pair'])
        a = {'kind': kind, 'frac': _frac(r)}
        if kind == 'pair':
            a.update(n=r.choice([2, 2, 2, 3]), who=r.randint(0, 1), sched=r.getrandbits(40),
                     sub=r.choice(['none', 'none', 'crash', 'error', 'interrupt', 'power']), exc=r.choice(['ENOSPC', 'EIO']), sticky=r.random() < .5)
        if kind == 'error':
            a['exc'] = r.choice(['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'])
            a['sticky'] = r.random() < .5
        if kind == 'compute':
            a['exc'] = r.choice(['MemoryError', 'KeyboardInterrupt'])
        sc['attempts'].append(a)
    return sc


# ---------------------------------------------------------------- imports

def c16(r, tier):
    from . import imports
    b = B(r, 'C16')
    b.sc['ambient'] = {'seed': r.getrandbits(40), 'strict': r.random() < .5}
    ms = imports.modules()
    n = r.choice([1, 1, 2, 4, len(ms)])
    order = [r.choice(ms) if r.random() < .5 else r.choice(['composipy', 'composipy.optimize', 'composipy.nastranapi']) for _ in range(n)]
    if n == len(ms):
        order = list(ms)
        r.shuffle(order)
    ops = []
    for i, m in enumerate(order):
        o = b.op('imp', mod=m)
        while r.random() < (.8 if i == 0 else .2) and len(ops) < 12:
            if r.random() < .7:
                o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(ASYNC)}
            else:
                at = r.choice(['open', 'open', 'compile'])
                o['fault'] = {'at': at, 'cfrac': _frac(r),
                              'exc': r.choice(['OSError', 'MemoryError', 'KeyboardInterrupt'] if at == 'open' else ['MemoryError', 'KeyboardInterrupt'])}
            ops.append(o)
            o = b.op('imp', mod=m)
            if r.random() < .3:
                break
        ops.append(o)
    b.sc['threads'] = [ops]
    b.mats(r.randint(1, 2), kind='ortho')
    b.lams(1, hi=4)
    if 'stack' in b.sc['lams']['l0']:
        b.str_('s0', 'l0')
    ps = _plates(b, r, r.choice([0, 1]), 2, 3)
    b.sc['final'] = b.final_all()
    if 's0' in b.sc['strs']:
        b.sc['final'] += [b.op('sq', 's0', q=q) for q in SQ]
    b.sc['final'] += [b.op('buck', p) for p in ps]
    r.shuffle(b.sc['final'])
    return b.sc


# ---------------------------------------------------------------- design maps

def c17(r, tier):
    b = B(r, 'C17')
    a = _opt_args(r, 'max')
    while (a.get('m', 7), a.get('n', 7)) not in ((3, 3), (3, 2), (2, 3)):
        a = _opt_args(r, 'max')
    a['options'] = {'maxiter': r.choice([1, 2, 3, 6])}
    a['points_to_plot'] = r.choice([3, 3, 4, 5, 6])
    ops = []
    base = a
    if r.random() < .5:
        ops.append(b.op('opt', which='max', args={k: v for k, v in a.items() if k != 'points_to_plot'}))
    for i in range(r.choice([1, 1, 2, 3])):
        if i and r.random() < .4:
            p = a['points_to_plot']
            if r.random() < .3:
                a = dict(a, penalty=not a.get('penalty', True))
            else:
                a = _opt_sib(r, 'max', a)
            a['points_to_plot'] = p if r.random() < .6 else r.choice([3, 4])
        o = b.op('opt', which='max', args=dict(a, plot=True))
        c = r.random()
        if c < .35:                       # anywhere, or (late calls) while the map is computed
            o['fault'] = {'at': 'solver', 'cfrac': round(r.random() if r.random() < .5 else 1 - .4 * r.random(), 4),
                          'exc': r.choice(['ArpackError', 'ArpackNoConvergence', 'KeyboardInterrupt', 'MemoryError', 'RuntimeError'])}
        elif c < .5:
            o['fault'] = {'at': r.choice(['contour', 'figure', 'show', 'stdout']), 'calls': [r.choice([1, 1, 2])],
                          'exc': r.choice(['RuntimeError', 'KeyboardInterrupt', 'MemoryError', 'OSError'])}
        elif c < .6:
            o['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(ASYNC)}
        ops.append(o)
    if r.random() < .5:
        b.sc['figs'] = r.choice([0, 1, 2])
    b.sc['threads'] = [ops]
    b.sc['final'] = [b.op('opt', which='max', args=dict(a, plot=True))]
    if len(ops) > 1 and r.random() < .3:
        b.sc['final'].append(b.op('opt', which='max', args={k: v for k, v in base.items() if k != 'points_to_plot'}))
    return b.sc


# ---------------------------------------------------------------- constructions

def c18(r, tier):
    b = B(r, 'C18')
    b.mats(r.randint(1, 2), kind='ortho')
    b.lams(r.choice([0, 1]), hi=4)
    nt = 2 if r.random() < .3 else 1
    live = []
    for t in range(nt):
        mats, lams, ops = sorted(b.sc['mats']), sorted(b.sc['lams']), []
        spec = {}

        def new():
            c = r.random()
            if c < .3:
                k, kw = 'newmat', {'m': G.mat(r, r.choice(['ortho', 'ortho', 'iso']))}
            elif c < .55:
                k, kw = 'newlam', {'l': G.lam(r, {m: b.sc['mats'][m] for m in mats if m in b.sc['mats']}, hi=4)}
            elif c < .8 and lams:
                l = r.choice(lams)
                p = G.plate(r, spec.get(l) or b.lspec(l), 2, 3)
                if p is None:
                    return None
                k, kw = 'newplate', {'p': dict(p, lam=l)}
            elif lams:
                l = r.choice(lams)
                k, kw = 'newstr', {'s': {'lam': l, 'loads': G.loads6(r)}}
            else:
                return None
            return k, kw
        for _ in range(r.randint(1, 4)):
            x = new()
            if x is None:
                continue
            k, kw = x
            n = f'x{t}_{b.u}'
            while r.random() < .6:
                ops.append(b.op(k, **{'as': n + 'f', **json.loads(json.dumps(kw))},
                                fault={'at': 'line', 'frac': _frac(r), 'exc': r.choice(ASYNC)}))
                if r.random() < .5:
                    break
            ops.append(b.op(k, **{'as': n, **kw}))
            live.append((n, k, kw))
            if k == 'newlam':
                lams.append(n)
                spec[n] = lamspec({'lams': {n: kw['l']}, 'mats': b.sc['mats']}, n)
            if r.random() < .3:
                ops.append(b.query())
            if r.random() < .06:
                ops += churn(b, r, r.choice(['mat', 'lam']))
        b.sc['threads'].append(ops)
    if not live:
        return None
    f = b.final_all()
    for n, k, kw in live:
        if k == 'newmat':
            f += [b.op('mq', n, q='Q_0')]
        elif k == 'newlam':
            l = kw['l']
            qs = LQ if 'stack' in l else ['A', 'B', 'D', 'ABD', 'xiD']
            f += [b.op('lq', n, q=r.choice(qs)) for _ in range(2)]
        elif k == 'newplate':
            f += [b.op('buck', n)]
        elif 'stack' in spec_of(b, live, kw['s']['lam']):
            f += [b.op('sq', n, q=r.choice(SQ))]
    b.sc['final'] = f
    if nt > 1:
        b.sc['schedule'] = G.schedule(r, gap=r.choice([2, 4, 8, 20, 60]))
    b.sc['fine'] = r.random() < .5
    return b.sc


# ---------------------------------------------------------------- worker processes

def _make(b, r, t):
    """a new object and a question to it"""
    mats, lams = sorted(b.sc['mats']), sorted(b.sc['lams'])
    n, c = f'x{t}_{b.u}', r.random()
    if c < .5:
        ops = []
        for i in range(r.choice([1, 1, 3])):
            m = G.mat(r, r.choice(['ortho', 'ortho', 'iso']))
            if r.random() < .6:
                m.pop('name', None)
            ops.append(b.op('newmat', **{'as': f'{n}_{i}', 'm': m}))
            ops.append(b.op('mq', f'{n}_{i}', q=r.choice(['Q_0', 'name'])))
        return ops
    if c < .75:
        l = G.lam(r, {m: b.sc['mats'][m] for m in mats}, hi=4)
        qs = LQ if 'stack' in l else ['A', 'B', 'D', 'ABD', 'xiD']
        return [b.op('newlam', **{'as': n, 'l': l}), b.op('lq', n, q=r.choice(qs))]
    l = r.choice(lams)
    if c < .85 and 'lp' not in b.sc['lams'][l]:
        return [b.op('newstr', **{'as': n, 's': {'lam': l, 'loads': G.loads6(r)}}), b.op('sq', n, q=r.choice(SQ))]
    p = G.plate(r, b.lspec(l), 2, 3)
    return [b.op('newplate', **{'as': n, 'p': dict(p, lam=l)}), b.op('buck', n)] if p else []


def c19(r, tier):
    b = B(r, 'C19')
    b.mats(r.randint(1, 2), kind='ortho')
    b.lams(r.randint(1, 2), hi=5, p_lp=.2)
    st = [n for n in sorted(b.sc['lams']) if 'lp' not in b.sc['lams'][n]]
    if st and r.random() < .6:
        b.str_('s0', r.choice(st))
    if r.random() < .4:
        _plates(b, r, 1, 2, 3)
    roots = sorted(b.sc['mats']) + sorted(b.sc['lams']) * 3 + sorted(b.sc['strs']) * 2 + sorted(b.sc['plates']) * 2
    focus = r.choice(roots) if r.random() < .6 else None

    def q():
        o = focus if focus and r.random() < .7 else r.choice(roots)
        if o in b.sc['lams']:
            return b.op('lq', o, q=r.choice(b.lqs(o)))
        if o in b.sc['mats']:
            return b.op('mq', o, q=r.choice(b.mqs(o) + ['name']))
        if o in b.sc['strs']:
            return b.op('sq', o, q=r.choice(SQ))
        return b.op('buck', o, num=_num(r))
    for t in range(r.choice([1, 2, 2])):
        ops = []
        for _ in range(r.randint(1, 3)):
            if r.random() < .25:
                ops += _make(b, r, t)
            x = q()
            if r.random() < .12:
                x['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(ASYNC)}
            ops.append(x)
        b.sc['threads'].append(ops)
    ops = []
    for i in range(r.randint(1, 3)):
        if r.random() < .3:
            ops.append(q())
        inner = [q() for _ in range(r.randint(1, 4))]
        if r.random() < .4:
            k = r.randint(0, len(inner))
            inner[k:k] = _make(b, r, f'w{i}')
        ops.append(b.op('fork', ops=inner))
    b.sc['threads'].append(ops)
    b.sc['final'] = b.final_all() + [b.op('buck', p) for p in sorted(b.sc['plates'])]
    b.sc['schedule'] = G.schedule(r, gap=r.choice([2, 4, 8, 20, 60, 200]))
    b.sc['fine'] = r.random() < .5
    b.sc['full'] = r.random() < .2
    return b.sc


def spec_of(b, live, name):
    for n, k, kw in live:
        if n == name:
            return kw['l']
    return b.sc['lams'][name]


# ---------------------------------------------------------------- interrupt handlers

def _some(b, r, focus=None, plates=True):
    """one query of any object"""
    sc = b.sc
    roots = sorted(sc['mats']) + sorted(sc['lams']) * 3 + sorted(sc['strs']) * 2 + (sorted(sc['plates']) * 2 if plates else [])
    o = focus if focus and r.random() < .7 else r.choice(roots)
    if o in sc['lams']:
        return b.op('lq', o, q=r.choice(b.lqs(o)))
    if o in sc['mats']:
        return b.op('mq', o, q=r.choice(b.mqs(o) + ['name']))
    if o in sc['strs']:
        return b.op('sq', o, q=r.choice(SQ))
    return b.op('buck', o, num=max(2, _num(r)))


def _objects(b, r, plate=.4):
    b.mats(r.randint(1, 2), kind='ortho')
    b.lams(r.randint(1, 2), hi=5, p_lp=.2)
    st = [n for n in sorted(b.sc['lams']) if 'lp' not in b.sc['lams'][n]]
    if st and r.random() < .6:
        b.str_('s0', r.choice(st))
    if r.random() < plate:
        _plates(b, r, 1, 2, 3, need=2)
    roots = sorted(b.sc['mats']) + sorted(b.sc['lams']) * 3 + sorted(b.sc['strs']) * 2 + sorted(b.sc['plates']) * 2
    return r.choice(roots) if r.random() < .6 else None


def c26(r, tier):
    b = B(r, 'C26')
    focus = _objects(b, r, .5)
    b.sc['reentrant'] = True
    nt = 2 if r.random() < .15 else 1
    for _ in range(nt):
        ops = []
        for _ in range(r.randint(1, 4)):
            c = r.random()
            after = []
            if c < .2:
                x, *after = _make(b, r, f't{len(b.sc["threads"])}') or [_some(b, r, focus)]
            elif c < .3 and b.sc['plates'] and nt == 1:
                x = b.op('plot', r.choice(sorted(b.sc['plates'])), nth=0, gx=3, gy=4)
            elif c < .33 and nt == 1:
                a = _opt_args(r, 'max', (3, 2))
                a['options'] = {'maxiter': 2}
                x = b.op('opt', which='max', args=a)
            else:
                x = _some(b, r, focus)
            if r.random() < .75:
                x['fault'] = {'at': 'handler', 'frac': _frac(r), 'ops': []}
                for _ in range(r.choice([1, 1, 2, 3])):
                    c = r.random()
                    if c < (.15 if not after else .6):
                        x['fault']['ops'] += _make(b, r, 'h')
                        continue
                    elif c < .2:
                        y = b.op('touch', r.choice(sorted(b.sc['lams'])), q='repr')
                    else:
                        y = _some(b, r, focus)
                    x['fault']['ops'].append(y)
            ops += [x] + after
        b.sc['threads'].append(ops)
    b.sc['final'] = b.final_all() + [b.op('sq', s, q=q) for s in sorted(b.sc['strs']) for q in SQ] + [b.op('buck', p) for p in sorted(b.sc['plates'])]
    if nt > 1:
        b.sc['schedule'] = G.schedule(r, gap=r.choice([4, 8, 20, 60, 200]))
    b.sc['fine'] = r.random() < .5
    b.sc['full'] = r.random() < .2
    return b.sc


# ---------------------------------------------------------------- restarts

def c28(r, tier):
    b = B(r, 'C28')
    b.mats(r.randint(1, 2), kind='ortho')
    b.lams(r.randint(1, 2), hi=4, p_lp=.2)
    ops = _mixed(b, r, r.randint(1, 6), opt=.08, faults=.35)
    if r.random() < .5:
        b.sc['mats']['mi'] = G.mat(r, 'iso')
    roots = sorted(b.sc['mats']) + sorted(b.sc['lams']) + sorted(b.sc['strs']) + sorted(b.sc['plates'])
    for i in range(r.randint(0, 3)):
        o = r.choice(roots)
        q = r.choice(['eq', 'repr', 'attrs'])
        if r.random() < .5:
            x = b.op('touch', o, q=q, **({'other': r.choice([n for n in roots if _kind(b, n) == _kind(b, o)])} if q == 'eq' else {}))
        else:
            x = b.op('copy', o, q=r.choice(['copy', 'deepcopy', 'pickle2', 'pickle5']), **{'as': f'c{i}'})
        ops.insert(r.randint(0, len(ops)), x)
    nt = 2 if r.random() < .3 else 1
    b.sc['threads'] = [ops] if nt == 1 else [[o for o in ops[::2] if o['k'] != 'plot'], [o for o in ops[1::2] if o['k'] != 'plot']]
    if nt > 1:
        b.sc['schedule'] = G.schedule(r, gap=r.choice([8, 20, 60, 200]))
    b.sc['clock'] = _clock(r)
    return b.sc


def c27(r, tier):
    b = B(r, 'C27')
    focus = _objects(b, r, .5)
    names = sorted(b.sc['mats']) + sorted(b.sc['lams']) + sorted(b.sc['strs']) + sorted(b.sc['plates'])
    conc = r.random() < .35
    saves = []

    def save():
        of = names if r.random() < .5 else sorted(r.sample(names, r.randint(1, len(names))))
        n = f'v{len(saves)}'
        saves.append((n, of))
        return b.op('save', **{'as': n, 'of': of, 'proto': r.choice([2, 4, 5])})

    def work(n, p):
        ops = []
        for _ in range(n):
            x = _some(b, r, focus)
            if r.random() < p:
                x['fault'] = {'at': 'line', 'frac': _frac(r), 'exc': r.choice(ASYNC)}
            ops.append(x)
            if r.random() < .1:
                ops.append(b.op('newlam', **{'as': f'x{b.u}', 'l': G.lam(r, b.sc['mats'], hi=4)}))
        return ops
    if conc:
        b.sc['threads'] = [work(r.randint(1, 3), .1), [x for _ in range(r.randint(1, 2)) for x in (work(r.randint(0, 1), 0) + [save()])]]
        b.sc['schedule'] = G.schedule(r, gap=r.choice([2, 4, 8, 20, 60]))
        b.sc['fine'] = r.random() < .4
    else:
        ops = work(r.randint(0, 4), .3)
        for _ in range(r.randint(1, 2)):
            ops += [save()] + work(r.randint(0, 2), .3)
        if r.random() < .5:
            ops.append(b.op('mq', r.choice(sorted(b.sc['mats'])), q='name'))
        b.sc['threads'] = [ops]
    f = []
    for v, of in saves:
        for o in of:
            k = f'{v}.{o}'
            if o in b.sc['mats']:
                f += [b.op('mq', k, q=q) for q in ('name', 'Q_0')]
            elif o in b.sc['lams']:
                f += [b.op('lq', k, q=q) for q in b.lqs(o) if r.random() < .6]
            elif o in b.sc['strs']:
                f += [b.op('sq', k, q=q) for q in SQ if r.random() < .6]
            else:
                x = b.op('plot', k, nth=0, gx=3, gy=4) if r.random() < .3 else b.op('buck', k)
                if x['k'] == 'buck' and r.random() < .3:        # held results survive a failing analysis too
                    x['fault'] = {'at': 'solver', 'calls': [1], 'exc': 'MemoryError'}
                f.append(x)
    r.shuffle(f)
    k = r.randint(0, len(f))
    new = []
    for _ in range(r.randint(0, 2)):             # new objects of the new process
        n = f'z{b.u}'
        m = G.mat(r, 'ortho')
        l = G.sib_lam(r, b.sc['lams'][r.choice(sorted(b.sc['lams']))], b.sc['mats']) if r.random() < .5 else G.lam(r, b.sc['mats'], hi=4)
        for key in ('mats', 'mat'):
            if key in l:
                l[key] = [n for _ in l[key]] if key == 'mats' else n
        new += [b.op('newmat', **{'as': n, 'm': m}), b.op('newlam', **{'as': n + 'l', 'l': l})]
        new += [b.op('lq', n + 'l', q=q) for q in (LQ if 'stack' in l else ['A', 'B', 'D', 'xiD'])]
    b.sc['final'] = f[:k] + new + f[k:]
    b.sc['clock'] = _clock(r)
    return b.sc


# what may strike at any instant without the library having called for it
ASYNC = ['KeyboardInterrupt', 'MemoryError', 'InjectedBase', 'SystemExit', 'RecursionError']

GEN = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C08': c08, 'C09': c09,
       'C07': c07, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C26': c26, 'C27': c27, 'C28': c28}
