"""Oracle for the two optimisers."""
import numpy as np

from . import model

GT = 2e-4        # the domain is enforced to 1e-4 by the library, plus solver accuracy


def _plate(a):
    N = [a.get('Nxx', 0), a.get('Nyy', 0), a.get('Nxy', 0)]
    mx = max(abs(v) for v in N)
    return dict(a=a['a'], b=a['b'], m=a.get('m', 7), n=a.get('n', 7), bc=a.get('panel_constraint', 'PINNED'),
                Nxx=N[0] / mx, Nyy=N[1] / mx, Nxy=N[2] / mx), mx


def factor(a, xi1, xi3, T):
    pl, mx = _plate(a)
    pos = model.lambda1(a['E1'], a['E2'], a['v12'], a['G12'], xi1, xi3, T, pl)
    return float(pos[0])


def domain(which, a, xi1, xi3):
    if which == 'max' and not a.get('penalty', True):
        g = {'parabola': xi3 - 2 * xi1 ** 2 + 1}
    else:
        g = {'g1': xi3 + 2 * xi1 + 1, 'g2': xi3 - 2 * xi1 + 1}
    g['upper bound'] = 1 - max(abs(xi1), abs(xi3))
    return g


def check(op, val, fired, calls, Bad):
    a, which = op['args'], op['which']
    maxiter = (a.get('options') or {}).get('maxiter', 100)
    if val.nit > maxiter:
        raise Bad(f'{val.nit} iterations, the limit is {maxiter}')
    if not val.success:
        return
    x = np.asarray(val.x, float)
    if not np.all(np.isfinite(x)) or not np.isfinite(val.fun):
        raise Bad(f'successful result is not finite: {x} {val.fun}')
    if which == 'max':
        xi1, xi3 = x
        T = a['T']
    else:
        T, xi1, xi3 = x
    for k, g in domain(which, a, xi1, xi3).items():
        if g < -GT:
            raise Bad(f'successful design ({xi1:.6g}, {xi3:.6g}) violates {k} by {-g:.3g}')
    lam = factor(a, xi1, xi3, T)
    if which == 'max':
        fun = float(val.fun)
        if abs(fun + lam) > 1e-4 * lam:
            if not fired:
                raise Bad(f'objective {fun:.8g}, minus the true factor is {-lam:.8g}')
            if fun < 0:
                raise Bad(f'objective {fun:.8g} after solver failures, minus the true factor is {-lam:.8g}')
        if not fired:
            l0 = factor(a, 0.0, 0.0, T)
            if lam < l0 * (1 - 1e-4):
                raise Bad(f'factor {lam:.8g} is worse than that of the quasi-isotropic start, {l0:.8g}')
    else:
        if not 0.001 - 1e-9 <= T <= 1e6 + 1:
            raise Bad(f'thickness {T} out of bounds')
        mx = _plate(a)[1]
        if lam < mx * (1 - 1e-3):
            raise Bad(f'T = {T:.6g}: the panel carries only {lam / mx:.6g} of the requested loads')
        if abs(val.fun - T ** 3) > 1e-6 * T ** 3:
            raise Bad(f'objective {val.fun} is not T^3 = {T ** 3}')
        if not fired:
            tq = (mx / factor(a, 0.0, 0.0, 1.0)) ** (1 / 3)
            if T > max(tq, 0.001) * (1 + 1e-3):
                raise Bad(f'T = {T:.6g} is thicker than the quasi-isotropic panel, {tq:.6g}')


def check_map(op, drawn, res, fired, Bad):
    a = op['args']
    p = a.get('points_to_plot', 30)
    penalty = a.get('penalty', True)
    maps = [d for d in drawn if d[0] == 'contour']
    if not maps:
        raise Bad('no map drawn')
    axes = maps[0][1]
    if any(d[1] is not axes for d in drawn):
        raise Bad('the map, the boundary and the optimum are in different figures')
    X, Y, Z = (np.asarray(v, float) for v in maps[0][2:5])
    if X.ndim == 1:
        X, Y = np.meshgrid(X, Y)
    if not (X.shape == Y.shape == Z.shape and X.size == p * p):
        raise Bad(f'map of shapes {X.shape}, {Y.shape}, {Z.shape} for {p} points a side')
    g = np.linspace(-1, 1, p)
    want = sorted((round(x, 9) + 0.0, round(y, 9) + 0.0) for x in g for y in g)
    if sorted((round(x, 9) + 0.0, round(y, 9) + 0.0) for x, y in zip(X.ravel(), Y.ravel())) != want:
        raise Bad('the points of the map are not the requested grid')
    mx = _plate(a)[1]
    blank = 0
    for x, y, z in zip(X.ravel(), Y.ravel(), Z.ravel()):
        d = min(y + 2 * x + 1, y - 2 * x + 1) if penalty else y - 2 * x * x + 1
        if np.isnan(z):
            blank += d > 1e-9
            continue
        if d < -1e-9:
            raise Bad(f'the map shows {z:.6g} at ({x:.4g}, {y:.4g}), outside the domain')
        lam = factor(a, x, y, a['T']) / mx
        if abs(z - lam) > 1e-4 * lam:
            raise Bad(f'the map shows {z:.8g} at ({x:.4g}, {y:.4g}), the factor is {lam:.8g}')
    if blank > len(fired):
        raise Bad(f'{blank} points inside the domain are blank')
    marked = False
    for d in drawn:
        if d[0] != 'line' or len(d) < 4:
            continue
        x, y = np.atleast_1d(d[2]), np.atleast_1d(d[3])
        if x.size == 1:
            marked = marked or np.allclose([x[0], y[0]], res.x, rtol=0, atol=1e-9)
        else:
            b = 2 * np.abs(x) - 1 if penalty else 2 * x ** 2 - 1
            if np.abs(y - b).max() > 1e-9:
                raise Bad('a line of the map is not the boundary of the domain')
    if not marked:
        raise Bad(f'the optimum {res.x} is not marked')
