"""Executable reference model, written from the theory and not from the code:
classical lamination theory (compliance form, 4th-order rotation through strain
transformation) and a Ritz plate solved densely with Gauss-quadrature integrals."""
import functools
import math

import numpy as np
import scipy.linalg as sl
from numpy.polynomial import legendre as L

# ---------------------------------------------------------------- materials


def q0(m):
    if m['kind'] == 'ortho':
        S = np.array([[1 / m['e1'], -m['v12'] / m['e1'], 0],
                      [-m['v12'] / m['e1'], 1 / m['e2'], 0],
                      [0, 0, 1 / m['g12']]])
        return np.linalg.inv(S)
    E, v, g = m['e'], m['v'], m['g']
    c = E / (1 - v * v)
    return np.array([[c, v * c, 0], [v * c, c, 0], [0, 0, g]])


def invariants(m):
    Q = q0(m)
    a, b, d, s = Q[0, 0], Q[0, 1], Q[1, 1], Q[2, 2]
    return np.array([(3 * a + 3 * d + 2 * b + 4 * s) / 8, (a - d) / 2, (a + d - 2 * b - 4 * s) / 8,
                     (a + d + 6 * b - 4 * s) / 8, (a + d - 2 * b + 4 * s) / 8])


def strain_rot(deg):
    """engineering strains laminate -> material axes"""
    t = math.radians(deg)
    R = np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]])
    cols = []
    for e in ([[1, 0], [0, 0]], [[0, 0], [0, 1]], [[0, .5], [.5, 0]]):
        r = R @ np.array(e, float) @ R.T
        cols.append([r[0, 0], r[1, 1], 2 * r[0, 1]])
    return np.array(cols).T


def stress_rot(deg):
    t = math.radians(deg)
    R = np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]])
    cols = []
    for e in ([[1, 0], [0, 0]], [[0, 0], [0, 1]], [[0, 1], [1, 0]]):
        r = R @ np.array(e, float) @ R.T
        cols.append([r[0, 0], r[1, 1], r[0, 1]])
    return np.array(cols).T


def qbar(m, deg):
    T = strain_rot(deg)
    return T.T @ q0(m) @ T


# ---------------------------------------------------------------- laminates
# spec: {'stack': [..], 'plies': [matspec,...]} or {'lp': {'xiA','xiB','xiD','T'}, 'ply': matspec}

def zpos(lam):
    h = sum(p['thickness'] for p in lam['plies'])
    z = [-h / 2]
    for p in lam['plies']:
        z.append(z[-1] + p['thickness'])
    return np.array(z)


def _lp_matrix(m, xi):
    U = invariants(m)
    x1, x2, x3, x4 = xi
    return (np.array([[U[0], U[3], 0], [U[3], U[0], 0], [0, 0, U[4]]])
            + x1 * np.array([[U[1], 0, 0], [0, -U[1], 0], [0, 0, 0]])
            + x2 * np.array([[0, 0, U[1] / 2], [0, 0, U[1] / 2], [U[1] / 2, U[1] / 2, 0]])
            + x3 * U[2] * np.array([[1., -1, 0], [-1, 1, 0], [0, 0, -1]])
            + x4 * U[2] * np.array([[0., 0, 1], [0, 0, -1], [1, -1, 0]]))


def abd(lam):
    Z = np.zeros((3, 3))
    if 'lp' in lam:
        lp = lam['lp']
        A = lp['T'] * _lp_matrix(lam['ply'], lp['xiA']) if lp.get('xiA') is not None else Z
        D = lp['T'] ** 3 / 12 * _lp_matrix(lam['ply'], lp['xiD'])
        return A, Z, D
    z = zpos(lam)
    A, B, D = Z.copy(), Z.copy(), Z.copy()
    for k, (a, p) in enumerate(zip(lam['stack'], lam['plies'])):
        Q = qbar(p, a)
        t = p['thickness']
        c = (z[k] + z[k + 1]) / 2
        A = A + Q * t
        B = B + Q * t * c
        D = D + Q * (t * c * c + t ** 3 / 12)
    return A, B, D


def scales(lam):
    if 'lp' in lam:
        q = np.abs(q0(lam['ply'])).max()
        h = lam['lp']['T']
    else:
        q = max(np.abs(q0(p)).max() for p in lam['plies'])
        h = sum(p['thickness'] for p in lam['plies'])
    return q, h


def query(lam, q):
    """(value, natural magnitude) of a laminate query."""
    qs, h = scales(lam)
    if q in ('A', 'B', 'D'):
        i = 'ABD'.index(q)
        return abd(lam)[i], qs * h ** (i + 1) / (1, 2, 3)[i]
    if q == 'ABD':
        A, B, D = abd(lam)
        return np.block([[A, B], [B, D]]), np.block([[np.full((3, 3), qs * h), np.full((3, 3), qs * h * h)],
                                                    [np.full((3, 3), qs * h * h), np.full((3, 3), qs * h ** 3)]])
    if q == 'z':
        return zpos(lam), h
    if q == 'Q_layup':
        return np.array([qbar(p, a) for a, p in zip(lam['stack'], lam['plies'])]), qs
    if q == 'T_layup':
        return np.array([[stress_rot(a), strain_rot(a)] for a in lam['stack']]), 1.0
    if q in ('xiA', 'xiD'):
        if 'lp' in lam:
            return np.array(lam['lp'][q], float), 1.0
        z = zpos(lam)
        w = np.diff(z) if q == 'xiA' else 4 * np.diff(z ** 3)
        a = np.radians(np.array(lam['stack'], float))
        F = np.array([np.cos(2 * a), np.sin(2 * a), np.cos(4 * a), np.sin(4 * a)])
        return F @ w / (h if q == 'xiA' else h ** 3), 1.0
    raise KeyError(q)


# ---------------------------------------------------------------- strength

def strength(lam, loads):
    """dict of tables; rows bottom face, top face per ply, bottom ply first."""
    A, B, D = abd(lam)
    M = np.block([[A, B], [B, D]])
    e0 = sl.solve(M, np.array(loads, float))
    z = zpos(lam)
    rows = []
    for k, (a, p) in enumerate(zip(lam['stack'], lam['plies'])):
        Q = qbar(p, a)
        Te, Ts = strain_rot(a), stress_rot(a)
        for pos, zz in (('bot', z[k]), ('top', z[k + 1])):
            e = e0[:3] + zz * e0[3:]
            s = Q @ e
            rows.append(dict(ply=k + 1, z=zz, position=pos, angle=a, eps=e, eps12=Te @ e, sig=s, sig12=Ts @ s, p=p))
    return e0, rows, np.linalg.cond(M / _mscale(lam))


def _mscale(lam):
    _, h = scales(lam)
    d = np.array([1, 1, 1, h, h, h], float)
    return np.outer(d, d)


# ---------------------------------------------------------------- plates

@functools.lru_cache(None)
def shape(i):
    """Legendre coefficients of the i-th Bardell function."""
    if i < 4:
        c = {0: [.5, -.75, 0, .25], 1: [.125, -.125, -.125, .125],
             2: [.5, .75, 0, -.25], 3: [-.125, -.125, .125, .125]}[i]
        return tuple(L.poly2leg(c))
    c = np.zeros(i - 1)
    c[i - 2] = 1.0
    return tuple(L.legint(c, 2, lbnd=-1))


_GX, _GW = L.leggauss(48)


@functools.lru_cache(None)
def _tab(idx):
    F = np.array([L.legval(_GX, shape(i)) for i in idx])
    F1 = np.array([L.legval(_GX, L.legder(shape(i))) for i in idx])
    F2 = np.array([L.legval(_GX, L.legder(shape(i), 2)) for i in idx])
    I = lambda a, b: (a * _GW) @ b.T
    return {(p, q): I((F, F1, F2)[p], (F, F1, F2)[q]) for p in range(3) for q in range(3)}


EDGE = {'free': (0, 0), 'pinned': (1, 0), 'simply_supported': (1, 0), 'clamped': (1, 1), 'fixed': (1, 1)}


def edge(v):
    """(deflection held, slope held) from any documented notation."""
    if isinstance(v, str):
        return EDGE[v.lower()]
    return (1 if 'TZ' in v else 0, 1 if 'RZ' in v else 0)


def basis(bc, m, n):
    if bc is None or bc == 'PINNED':
        e = {k: (1, 0) for k in ('x0', 'xa', 'y0', 'yb')}
    elif bc == 'CLAMPED':
        e = {k: (1, 1) for k in ('x0', 'xa', 'y0', 'yb')}
    else:
        e = {k: edge(bc[k]) for k in ('x0', 'xa', 'y0', 'yb')}

    def pick(lo, hi, cnt):
        drop = set()
        if lo[0]: drop.add(0)
        if lo[1]: drop.add(1)
        if hi[0]: drop.add(2)
        if hi[1]: drop.add(3)
        return tuple([i for i in range(cnt + 4) if i not in drop][:cnt])
    return pick(e['x0'], e['xa'], m), pick(e['y0'], e['yb'], n)


def plate_matrices(D, pl):
    ix, iy = basis(pl.get('bc'), pl['m'], pl['n'])
    X, Y = _tab(ix), _tab(iy)
    a, b = pl['a'], pl['b']
    D = np.asarray(D)

    def term(p, q, r, s):      # d^p x, d^q x ; d^r y, d^s y
        return np.kron(X[(p, q)], Y[(r, s)])
    j = a * b / 4
    dx, dy = 2 / a, 2 / b
    wxx = (2, 0, dx * dx)
    wyy = (0, 2, dy * dy)
    wxy = (1, 1, 2 * dx * dy)
    curv = (wxx, wyy, wxy)
    K = 0
    for i, (pi, ri, fi) in enumerate(curv):
        for k, (pk, rk, fk) in enumerate(curv):
            K = K + j * D[i, k] * fi * fk * term(pi, pk, ri, rk)
    gx, gy = (1, 0, dx), (0, 1, dy)
    N = np.array([[pl['Nxx'], pl['Nxy']], [pl['Nxy'], pl['Nyy']]], float)
    G = 0
    for i, (pi, ri, fi) in enumerate((gx, gy)):
        for k, (pk, rk, fk) in enumerate((gx, gy)):
            G = G + j * N[i, k] * fi * fk * term(pi, pk, ri, rk)
    return (K + K.T) / 2, (G + G.T) / 2


class Plate:
    """Dense solution of K x + lambda KG x = 0."""

    def __init__(self, lam, pl):
        D = abd(lam)[2]
        self.K, self.G = plate_matrices(D, pl)
        self.basis = basis(pl.get('bc'), pl['m'], pl['n'])
        self.pl = pl
        d = 1 / np.sqrt(np.diag(self.K))
        self.cond = np.linalg.cond(self.K * np.outer(d, d))
        self.L = sl.cholesky(self.K, lower=True)      # raises when a rigid motion is possible
        C = sl.solve_triangular(self.L, sl.solve_triangular(self.L, self.G, lower=True).T, lower=True)
        self.C = (C + C.T) / 2
        self.mu, self.Y = sl.eigh(self.C)
        self.V = sl.solve_triangular(self.L, self.Y, lower=True, trans='T')
        self.mumax = np.abs(self.mu).max()
        self.floor = max(1e-9, 1e-14 * self.cond) * self.mumax
        self.pos = -1 / self.mu[self.mu < -1e3 * self.floor]      # ascending positive factors

    def residual(self, lam, v):
        y = self.L.T @ v
        return np.linalg.norm(y + lam * (self.C @ y)) / max(np.linalg.norm(y), 1e-300)

    def close(self, got, want):
        """difference of two factors, in units of the tolerance."""
        mu, mw = -1 / got, -1 / want
        return abs(mu - mw) / (1e-6 * abs(mw) + self.floor)


def lambda1(E1, E2, v12, G12, xi1, xi3, T, pl):
    m = dict(kind='ortho', e1=E1, e2=E2, v12=v12, g12=G12)
    return Plate({'lp': {'xiD': [xi1, 0, xi3, 0], 'T': T}, 'ply': m}, pl).pos


def same(a, b):
    """equal definitions (names apart)"""
    if 'stack' in a and 'stack' in b:
        return len(a['stack']) == len(b['stack']) and all(float(x) == float(y) for x, y in zip(a['stack'], b['stack'])) \
            and all(same(x, y) for x, y in zip(a['plies'], b['plies']))
    keys = [k for k in a if k not in ('kind', 'name')]
    return a.get('kind') == b.get('kind') and all(float(a[k]) == float(b.get(k, 0)) for k in keys)
