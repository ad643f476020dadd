"""Generators: all from one random.Random, producing JSON-able specs."""
import json
import math

import numpy as np

from . import model

STD = [0, 90, 45, -45, 30, -30, 60, -60, 15, -75]


def logu(r, lo, hi):
    return float(f'{math.exp(r.uniform(math.log(lo), math.log(hi))):.6g}')


def mat(r, kind=None, psi=None):
    kind = kind or ('ortho' if r.random() < .85 else 'iso')
    unit = r.choice([1.0, 1e3, 1e6]) if psi is None else psi
    th = logu(r, 1e-3, 5)
    if kind == 'ortho':
        while True:
            e1 = logu(r, 1, 300) * unit
            e2 = float(f'{e1 * (1.0 if r.random() < .1 else logu(r, .02, 1.6)):.6g}')
            v = round(r.uniform(-.2, .48), 3) if r.random() < .9 else 0.0
            if 1 - v * v * e2 / e1 > .2:
                break
        m = dict(kind='ortho', e1=e1, e2=e2, v12=v, g12=float(f'{e1 * logu(r, .01, .7):.6g}'), thickness=th)
        al = unit * 1e-2
        for k in ('t1', 'c1', 't2', 'c2', 's'):
            m[k] = float(f'{al * logu(r, .1, 10):.5g}')
    else:
        e = logu(r, 1, 300) * unit
        v = round(r.uniform(-.3, .48), 3)
        m = dict(kind='iso', e=e, v=v, g=float(f'{e / 2 / (1 + v) * r.choice([1.0, r.uniform(.6, 1.4)]):.6g}'), thickness=th,
                 t=unit * .01, c=unit * .012, s=unit * .007)
    return m


def sib_mat(r, m):
    """a material that differs from m in one property (and, half of the time, not even in name)"""
    m = dict(m)
    k = r.choice([k for k in m if k not in ('kind', 'name')])
    if k == 'v12' or k == 'v':
        m[k] = round(m[k] * .5 + .07, 3)
    elif r.random() < .15:
        m[k] = float(f'{m[k] * r.choice([1 + 1e-6, 1.001]):.12g}')
    else:
        m[k] = float(f'{m[k] * r.choice([.5, .8, 1.25]):.6g}')
    if m['kind'] == 'ortho' and not 1 - m['v12'] ** 2 * m['e2'] / m['e1'] > .2:
        m['v12'] = .1
    return m


def sib_lam(r, l, mats):
    """a laminate that differs from l in one respect, often one that a summary of it (its thickness,
    its number of plies, its sorted angles) does not show"""
    l = json.loads(json.dumps(l))
    if 'lp' in l:
        c = r.randrange(6)
        ortho = [n for n in mats if mats[n]['kind'] == 'ortho']
        if c == 0:
            l['lp']['T'] = float(f"{l['lp']['T'] * r.choice([.5, 1.5, 1 + 1e-6]):.12g}")
        elif c == 1 and len(ortho) > 1:
            l['mat'] = r.choice([n for n in ortho if n != l['mat']])
        elif c == 2 and l['lp'].get('xiA') is not None:
            l['lp']['xiA'] = [round(x * .8, 6) for x in l['lp']['xiA']]
        elif c == 3 and any(l['lp']['xiD'][i] for i in (1, 3)):     # the stack mirrored
            for k in ('xiA', 'xiB', 'xiD'):
                if l['lp'].get(k) is not None:
                    x = l['lp'][k]
                    l['lp'][k] = [x[0], -x[1] + 0., x[2], -x[3] + 0.]
        elif c == 4 and l['lp'].get('xiA') is not None and l['lp']['xiA'] != l['lp']['xiD']:
            l['lp']['xiA'], l['lp']['xiD'] = l['lp']['xiD'], l['lp']['xiA']
        else:
            l['lp']['xiD'] = [round(x * .8, 6) for x in l['lp']['xiD']]
        return l
    n = len(l['stack'])
    i, j = r.randrange(n), r.randrange(n)
    c = r.choice(['angle', 'angle', 'reverse', 'negate', 'material', 'material', 'swap', 'shuffle', 'nudge', 'turn', 'double',
                  'recut', 'recut', 'thicker'])
    if l.get('container') == 'intlist' and c in ('nudge', 'turn'):
        l['container'] = 'list'
    if c == 'angle':
        l['stack'][i] = angle(r)
    elif c == 'reverse':
        l['stack'] = l['stack'][::-1]
        l['mats'] = l['mats'][::-1]
    elif c == 'negate':
        l['stack'] = [-a for a in l['stack']]
    elif c == 'swap':
        l['stack'][i], l['stack'][j] = l['stack'][j], l['stack'][i]
        if r.random() < .5:
            l['mats'][i], l['mats'][j] = l['mats'][j], l['mats'][i]
    elif c == 'shuffle':
        r.shuffle(l['stack'])
    elif c == 'nudge':
        l['stack'][i] = l['stack'][i] + r.choice([1e-6, 1e-3, .4, -.4])
    elif c == 'turn':
        l['stack'][i] = l['stack'][i] + r.choice([180, -180, 360, 90])
    elif c == 'double' and n <= 8:
        l['stack'] = [a for a in l['stack'] for _ in range(2)]
        l['mats'] = [m for m in l['mats'] for _ in range(2)]
    elif c == 'recut':                      # two equal plies become a thin and a thick one: as many plies, as thick
        same = [(x, y) for x in range(n) for y in range(n) if x != y and l['mats'][x] == l['mats'][y]]
        if same:
            x, y = r.choice(same)
            o = l['mats'][x]
            for k, f in (('lo', .5), ('hi', 1.5)):
                if o + k not in mats:
                    mats[o + k] = dict(mats[o], thickness=mats[o]['thickness'] * f)
            l['mats'][x], l['mats'][y] = o + 'lo', o + 'hi'
            l['single'] = False
        else:
            l['stack'][i] = angle(r)
    elif c == 'thicker':
        o = l['mats'][i]
        if o + 'hi' not in mats:
            mats[o + 'hi'] = dict(mats[o], thickness=mats[o]['thickness'] * 1.5)
        if l['single']:
            l['mats'] = [o + 'hi'] * n
        else:
            l['mats'][i] = o + 'hi'
    else:
        o = r.choice(sorted(mats))
        if l['single']:
            l['mats'] = [o] * len(l['mats'])
        else:
            l['mats'][i] = o
    return l


def sib_plate(r, p, lams):
    """a plate that differs from p in one respect, often one that a summary of it (area, ratio, number
    of terms, set of edges, largest load) does not show; well-posedness is for the caller to check"""
    p = json.loads(json.dumps(p))
    p.pop('bcsrc', None)
    L = ('Nxx', 'Nyy', 'Nxy')
    c = r.choice(['bc', 'bc', 'edges', 'edges', 'onecond', 'transpose', 'longer', 'area', 'scale', 'ratio', 'permute', 'shear', 'near',
                  'size', 'size', 'product', 'lam'])
    if c in ('edges', 'onecond') and not isinstance(p['bc'], dict):
        p['bc'] = {k: p['bc'] or 'pinned' for k in ('x0', 'xa', 'y0', 'yb')}
    if c == 'bc':
        p['bc'] = bc(r)
    elif c == 'edges':                      # the same conditions, on other edges
        k = ['x0', 'xa', 'y0', 'yb']
        r.shuffle(k)
        p['bc'] = dict(zip(('x0', 'xa', 'y0', 'yb'), [p['bc'][x] for x in k]))
    elif c == 'onecond':
        k = r.choice(sorted(p['bc']))
        p['bc'][k] = edge_spec(r, 'name' if isinstance(p['bc'][k], str) else 'list')
    elif c == 'transpose':
        p['a'], p['b'] = p['b'], p['a']
    elif c == 'longer':
        k = r.choice(['a', 'b'])
        p[k] = float(f'{p[k] * r.choice([.7, 1.4, 1 + 1e-4]):.10g}')
    elif c == 'area':
        f = r.choice([.5, 2.])
        p['a'], p['b'] = p['a'] * f, p['b'] / f
    elif c == 'scale':
        f = r.choice([.5, 2.])
        p['a'], p['b'] = p['a'] * f, p['b'] * f
    elif c == 'ratio':
        f = max(abs(p[k]) for k in L)
        for k, v in zip(L, ratio_loads(r)):
            p[k] = float(f'{v * f:.6g}')
    elif c == 'permute':
        v = [p[k] for k in L]
        r.shuffle(v)
        p.update(zip(L, v))
    elif c == 'shear':
        p['Nxy'] = -p['Nxy'] if p['Nxy'] else p['Nxx'] * .4 or p['Nyy'] * .4
    elif c == 'near':
        k = r.choice([k for k in L if p[k]] or ['Nxx'])
        p[k] = float(f'{p[k] * r.choice([1 + 1e-4, 1 - 1e-4]):.10g}')
    elif c == 'size':
        if p['m'] != p['n'] and r.random() < .5:
            p['m'], p['n'] = p['n'], p['m']
        else:
            k = r.choice(['m', 'n'])
            p[k] += 1
    elif c == 'product':                    # as many terms, or as large a sum
        q = [(m, n) for m in range(2, 9) for n in range(2, 9)
             if (m, n) != (p['m'], p['n']) and (m * n == p['m'] * p['n'] or m + n == p['m'] + p['n']) and m * n <= 30]
        if q:
            p['m'], p['n'] = r.choice(q)
        else:
            p['m'] += 1
    else:
        p['lam'] = r.choice(lams)
    return p


def sib_loads(r, v):
    """loads that differ from v, often not in a summary of them"""
    v = list(v)
    c = r.choice(['negate', 'sign', 'shuffle', 'swap', 'near', 'scale', 'zero'])
    i = r.randrange(6)
    if c == 'negate':
        v = [-x + 0 for x in v]
    elif c == 'sign':
        v[i] = -v[i] + 0
    elif c == 'shuffle':
        r.shuffle(v)
    elif c == 'swap':
        v[:3], v[3:] = v[3:], v[:3]
    elif c == 'near':
        v[i] = float(f'{v[i] * (1 + 1e-6):.12g}')
    elif c == 'scale':
        v = [x * 2 for x in v]
    else:
        v[i] = 0.0
    return v


def angle(r):
    c = r.random()
    if c < .6:
        return r.choice(STD)
    if c < .75:
        return float(r.choice(STD))
    if c < .95:
        return round(r.uniform(-95, 185), 3)
    return r.choice([-90, 180, -180, 270, 360, 135, -135, 1e-3, -1, -2])


def stack(r, hi=8):
    n = r.randint(1, hi) if r.random() < .95 else r.randint(9, 30)
    s = [angle(r) for _ in range(n)]
    c = r.random()
    if c < .2:
        s = s + s[::-1]
    elif c < .25:
        s = s + [-a for a in s]
    return s


def lp(r, xiA=None):
    s = stack(r)
    w = {'stack': s, 'plies': [dict(thickness=1.0, kind='iso', e=1, v=0, g=1)] * len(s)}
    d = {}
    xd = model.query(w, 'xiD')[0]
    d['xiD'] = [round(float(x), 6) for x in xd * r.choice([1, 1, .9])]
    if xiA or (xiA is None and r.random() < .6):
        d['xiA'] = [round(float(x), 6) for x in model.query(w, 'xiA')[0]]
        if r.random() < .4:
            d['xiB'] = [0., 0., 0., 0.]
    d['T'] = logu(r, 1e-2, 20)
    return d


def lam(r, mats, p_lp=.25, hi=8, same_kind=None):
    """mats: dict name->spec; returns lam description."""
    names = [n for n, m in mats.items() if same_kind is None or m['kind'] == same_kind]
    ortho = [n for n in names if mats[n]['kind'] == 'ortho']
    if ortho and r.random() < p_lp:
        return {'lp': lp(r), 'mat': r.choice(ortho)}
    s = stack(r, hi)
    if r.random() < .5:
        ms = [r.choice(names)] * len(s)
        single = True
    else:
        ms = [r.choice(names) for _ in s]
        single = False
    return {'stack': s, 'mats': ms, 'single': single,
            'container': r.choice(['list', 'list', 'list', 'tuple', 'array', 'intlist'])}


def loads6(r, lam=None):
    """forces and moments; with a laminate given, mostly of the size that strains it by about 1e-3"""
    v = [0.0] * 6
    c = r.random()
    if lam is not None and c < .8:
        q, h = model.scales(lam)
        u = [q * h * 1e-3] * 3 + [q * h * h * 1e-4] * 3
    else:
        u = [1.0] * 6
    for i in range(6):
        if r.random() < .5:
            v[i] = float(f'{r.choice([-1, 1]) * u[i] * logu(r, 1e-1, 1e1 if u[i] != 1 else 1e4):.5g}')
    if r.random() < .1:
        v = [int(x) for x in v]
    return v


def edge_spec(r, style):
    if style == 'name':
        v = r.choice(['clamped', 'pinned', 'free', 'clamped', 'pinned', 'fixed', 'simply_supported'])
        return r.choice([v, v, v.upper(), v.capitalize()])
    c = r.random()
    if c < .35:
        return ['TX', 'TY', 'TZ']
    if c < .6:
        return ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
    if c < .75:
        return []
    return [t for t in ('TX', 'TY', 'TZ', 'RX', 'RY', 'RZ') if r.random() < .55]


def bc(r):
    c = r.random()
    if c < .1:
        return None
    if c < .2:
        return 'PINNED'
    if c < .3:
        return 'CLAMPED'
    style = 'name' if r.random() < .7 else 'list'
    return {k: edge_spec(r, style) for k in ('x0', 'xa', 'y0', 'yb')}


def ratio_loads(r):
    while True:
        c = r.random()
        if c < .3:
            v = [-1.0, 0.0, 0.0]
        elif c < .4:
            v = [0.0, -1.0, 0.0]
        elif c < .5:
            v = [0.0, 0.0, r.choice([1.0, -1.0])]
        else:
            v = [round(r.uniform(-1, .6), 3) if r.random() < .75 else 0.0 for _ in range(3)]
        if v[0] < 0 or v[1] < 0 or v[2] != 0:
            return v


def plate(r, lamspec, lo=2, hi=5, level=None, need=1):
    """A plate whose reference problem is well posed (no rigid motion), or None."""
    for _ in range(30):
        m, n = r.randint(lo, hi), r.randint(lo, hi)
        if m * n < 5:
            continue
        a = logu(r, 50, 2000)
        p = dict(a=a, b=float(f'{a * logu(r, .3, 3):.5g}'), m=m, n=n, bc=bc(r))
        if r.random() < .2:
            p['a'], p['b'] = int(p['a']), int(p['b'])
        v = ratio_loads(r)
        p.update(Nxx=v[0], Nyy=v[1], Nxy=v[2])
        try:
            P = model.Plate(lamspec, p)
        except (np.linalg.LinAlgError, ValueError):
            continue
        if P.cond > 1e9 or len(P.pos) < need:
            continue
        lv = logu(r, 1e-4, 1e5) if level is None else level
        f = P.pos[0] / lv
        for k in ('Nxx', 'Nyy', 'Nxy'):
            p[k] = float(f'{p[k] * f:.6g}')
        try:
            P = model.Plate(lamspec, p)
        except (np.linalg.LinAlgError, ValueError):
            continue
        if P.cond > 1e9 or len(P.pos) < need:
            continue
        return p
    return None


def schedule(r, gap=None, n=None):
    mode = r.choice(['uniform', 'exp', 'exp', 'hot'])
    if mode == 'hot':                            # next to stores into objects, containers and globals
        return {'gen': {'seed': r.getrandbits(48), 'mode': 'hot', 'gap': r.choice([.6, .3, .1, .03]),
                        'count': r.choice([1, 2, 3, 5, 10 ** 6])}}
    if mode == 'uniform':
        return {'gen': {'seed': r.getrandbits(48), 'mode': 'uniform', 'gap': r.choice([50, 200, 1000]) if gap is None else gap,
                        'count': r.randint(1, 6)}}
    return {'gen': {'seed': r.getrandbits(48), 'mode': 'exp', 'gap': r.choice([2, 4, 8, 20, 60, 200]) if gap is None else gap,
                    'count': 10 ** 6}}


EXCS = ['KeyboardInterrupt', 'MemoryError', 'InjectedBase', 'FloatingPointError', 'RecursionError', 'SystemExit',
        'OSError', 'LinAlgError', 'RuntimeError', 'ZeroDivisionError']


def line_fault(r, length, excs=None):
    length = max(1, length)
    if r.random() < .6:
        n = r.randint(1, length)
    else:
        n = min(length, max(1, int(math.exp(r.uniform(0, math.log(length + 1))))))
    return {'at': 'line', 'n': n, 'exc': r.choice(excs or EXCS)}
