"""The simulated world: live library objects, the operations on them, and the
oracle that judges every outcome against the reference model."""
import base64
import copy
import importlib
import json
import pickle
import re

from matplotlib._pylab_helpers import Gcf
import numpy as np

from . import kernel, model, seams

RT = 1e-9


class Bad(Exception):
    pass


def cmp(got, want, scale, what, rtol=RT):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Bad(f'{what}: shape {got.shape}, expected {want.shape}')
    if not np.all(np.isfinite(got)):
        raise Bad(f'{what}: not finite: {got.tolist()}')
    err = np.abs(got - want) / (np.asarray(scale) + 1e-300)
    if err.size and err.max() > rtol:
        raise Bad(f'{what}: got {np.array2string(got, precision=6)} expected {np.array2string(want, precision=6)} '
                  f'(relative error {err.max():.3g})')


class World:
    def __init__(self, sc, sim_seed=0):
        import composipy
        self.C = composipy
        self.sc = sc
        self.obj = {}
        self.spec = {}
        self.src = {}          # containers the caller passed in
        self.results = {}      # uid -> (value, frozen copy)
        self.violations = []
        self.aborted = 0
        self.completed = 0
        self.kinds = {}
        self.oplen = {}
        self.seamlen = {}
        self.buckled = {}      # plate -> list of (num, count) completed
        self.last = {}         # plate -> ('ok', n returned) | None
        self.concurrent = len(sc.get('threads', [])) > 1 or bool(sc.get('reentrant'))
        self.plates_ref = {}
        self.pending = {}      # plate -> definition with the edges the caller edited, until an analysis completes
        self.tainted = set()   # objects whose own definition the caller edited through the object
        self.extra = {}
        self.figs = [seams.REAL['figure']() for _ in range(sc.get('figs', 0))]     # figures the caller has open
        self.open = []
        self.holds = {}        # object -> laminate it was built on
        self.saved = {}
        self.fresh = {}
        self.shares = {}       # object -> those whose containers it shares by shallow copy
        self.root = {}         # copy -> what it is a copy of
        self.build()

    # ------------------------------------------------------------ building
    def build(self):
        sc = self.sc
        for n, m in sc.get('mats', {}).items():
            self.make_mat(n, m)
        for n, l in sc.get('lams', {}).items():
            self.make_lam(n, l)
        for n, s in sc.get('strs', {}).items():
            self.make_str(n, s)
        for n, p in sc.get('plates', {}).items():
            self.make_plate(n, p)

    def style(self, d):
        """how a caller passes the arguments: by position, by name, defaults left out"""
        return kernel.derive(json.dumps(d, sort_keys=True, default=str)) % 3

    def new_mat(self, m):
        if m['kind'] == 'ortho' and self.style(m):
            kw = {k: m[k] for k in ('t1', 'c1', 't2', 'c2', 's', 'name') if m.get(k) or m.get(k) == ''}
            return self.C.OrthotropicMaterial(e1=m['e1'], e2=m['e2'], v12=m['v12'], g12=m['g12'], thickness=m['thickness'], **kw)
        if m['kind'] == 'ortho':
            return self.C.OrthotropicMaterial(m['e1'], m['e2'], m['v12'], m['g12'], m['thickness'],
                                              *[m.get(k, 0) for k in ('t1', 'c1', 't2', 'c2', 's')], name=m.get('name'))
        return self.C.IsotropicMaterial(m['e'], m['v'], m['g'], m['thickness'], m['t'], m['c'], m['s'], name=m.get('name'))

    def make_mat(self, n, m):
        self.obj[n] = self.new_mat(m)
        self.spec[n] = m

    def lam_args(self, l):
        if 'lp' in l:
            return copy.deepcopy(l['lp']), self.obj[l['mat']], {'lp': l['lp'], 'ply': self.spec[l['mat']]}
        s = list(l['stack'])
        c = l.get('container', 'list')
        if c == 'tuple':
            s = tuple(s)
        elif c == 'array':
            s = np.array(s, dtype=float)
        plies = self.obj[l['mats'][0]] if l.get('single') else [self.obj[m] for m in l['mats']]
        return s, plies, {'stack': list(l['stack']), 'plies': [self.spec[m] for m in l['mats']]}

    def make_lam(self, n, l):
        s, plies, spec = self.lam_args(l)
        self.src[n] = (s, plies)
        self.obj[n] = self.C.LaminateProperty(s, plies)
        self.spec[n] = spec

    def make_str(self, n, s):
        if self.style(s) == 0:
            self.obj[n] = self.C.LaminateStrength(self.obj[s['lam']], *s['loads'])
        else:
            kw = dict(zip(('Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy'), s['loads']))
            if self.style(s) == 2:
                kw = {k: v for k, v in kw.items() if v}
            self.obj[n] = self.C.LaminateStrength(self.obj[s['lam']], **kw)
        self.spec[n] = {'lam': self.spec[s['lam']], 'loads': list(s['loads'])}
        self.holds[n] = s['lam']

    def make_plate(self, n, p):
        bc = copy.deepcopy(p.get('bc'))
        if isinstance(p.get('bcsrc'), str):          # share one container between plates
            bc = self.src.setdefault(p['bcsrc'], bc)
        self.src[n] = bc
        kw = dict(Nxx=p['Nxx'], Nyy=p['Nyy'], Nxy=p['Nxy'], m=p['m'], n=p['n'])
        if self.style(p) == 2:
            kw = {k: v for k, v in kw.items() if v != {'m': 10, 'n': 10}.get(k, 0)}
        if bc is not None:
            kw['constraints'] = bc
        self.obj[n] = self.C.PlateStructure(self.obj[p['lam']], p['a'], p['b'], **kw)
        self.spec[n] = {'lam': self.spec[p['lam']], 'pl': p}
        self.last[n] = None
        self.buckled[n] = []
        self.holds[n] = p['lam']

    def load(self, saved):
        """what an earlier process saved, into this one"""
        for a, d in saved.items():
            try:
                objs = pickle.loads(base64.b64decode(d['bytes']))
            except Exception as e:
                self.violations.append({'cls': 'load-failed', 'kind': 'save', 'q': '', 'uid': 0,
                                        'msg': f'{sorted(d["spec"])} saved by an earlier process cannot be loaded: {type(e).__name__}: {e}'})
                continue
            for n, x in objs.items():
                k = f'{a}.{n}'
                self.obj[k], self.spec[k] = x, d['spec'][n]
                if n in d['last']:
                    w = d['last'][n]
                    self.last[k] = w if w != 'any' else (None if getattr(x, 'eigenvalue', None) is None else 'any')
                    self.buckled[k] = []
                if n in d['names']:
                    self.fresh[k] = d['names'][n]

    def ref(self, name):
        s = self.spec[name]
        k = json.dumps([s['lam'], s['pl']], sort_keys=True, default=str)
        P = _REF.get(k)
        if P is None:
            if len(_REF) > 400:
                _REF.clear()
            P = _REF[k] = model.Plate(s['lam'], s['pl'])
        return P

    # ------------------------------------------------------------ operations
    def do(self, sim, th, op):
        need = [op.get('o'), op.get('lam'), (op.get('p') or op.get('s') or {}).get('lam')]
        if any(x is not None and x not in self.obj for x in need):
            return None, None                     # its construction was aborted
        f = dict(op['fault']) if op.get('fault') else None
        exc = val = None
        th.out = []
        sim.begin_op(th, op['u'], f)
        if 'figs' in self.sc and not self.concurrent:
            self.open = [m.canvas.figure for m in Gcf.figs.values()]
        try:
            val = self.call(op, th)
        except (kernel.SimAbort, kernel.StepLimit):
            raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt) and not th.fired:
                raise
            exc = e
        finally:
            sim.end_op(th)
        if op['k'] in ('plot', 'opt'):
            self.close_figures(th)
        self.oplen[op['u']] = th.opstep
        self.seamlen[op['u']] = dict(th.seam_calls)
        self.kinds[op['k']] = self.kinds.get(op['k'], 0) + 1
        try:
            self.judge(sim, th, op, val, exc)
        except Bad as b:
            self.bad(op, getattr(b, 'cls', 'wrong-answer'), str(b))
        except Exception as e:                     # a result of an unexpected shape or type
            self.bad(op, 'malformed-result', f'{type(val).__name__} result cannot be judged: {type(e).__name__}: {e}')
        return val, exc

    def close_figures(self, th):
        if 'figs' in self.sc:                      # a display that does not wait, and figures nobody closes
            return
        if not self.concurrent:
            from . import ambient
            for n in seams.plt.get_fignums():
                if n not in ambient.MINE:
                    seams.plt.close(n)
        else:
            for d in th.drawn:
                seams.plt.close(d[1].figure)

    def bad(self, op, cls, msg):
        self.violations.append({'cls': cls, 'kind': op.get('k'), 'q': op.get('q'), 'uid': op.get('u'),
                                'msg': f"{op.get('k')}{':' + str(op.get('q')) if op.get('q') else ''} on {op.get('o')}: {msg}"})

    def judge(self, sim, th, op, val, exc):
        if op['k'] == 'badmat':
            self.aborted += exc is not None
            return
        if th.fired:
            if exc is None:
                if op['k'] in ('opt',) and all(f in HANDLED for f in th.fired):
                    pass
                else:
                    self.bad(op, 'fault-swallowed', f'{th.fired} at {th.fault_loc} did not reach the caller')
            else:
                self.aborted += 1
                if op['k'] == 'opt' and not op['args'].get('plot') and all(f in HANDLED for f in th.fired):
                    self.bad(op, 'failed-trial-fatal', f'{len(th.fired)} trials at which the eigensolver failed ended the optimisation: '
                             f'{type(exc).__name__}: {exc}')
                    return
                want = th.fired[-1].split(':')[-1]
                if want == 'BrokenPipeError' or want == 'ENOSPC':
                    want = ('BrokenPipeError', 'OSError')
                else:
                    want = (want,)
                if not any(type(c).__name__ in want for c in _chain(exc)):
                    self.bad(op, 'fault-replaced', f'{th.fired} reached the caller as {type(exc).__name__}: {exc}')
        elif exc is not None and op.get('o') in self.tainted:
            return
        elif exc is not None:
            self.bad(op, 'unexpected-error', f'raised {type(exc).__name__}: {exc}')
        else:
            self.completed += 1
        self.check(sim, th, op, val, exc)
        if self.results and not self.concurrent and op['k'] != 'edit':
            self.check_kept(op)

    def call(self, op, th=None):
        k, o = op['k'], op.get('o')
        x = self.obj.get(o)
        if k == 'mq':
            q = op['q']
            return x.Invariants() if q == 'Invariants' else getattr(x, q)
        if k == 'lq':
            return getattr(x, {'z': 'z_position'}.get(op['q'], op['q']))
        if k == 'sq':
            return {'eps0': x.epsilon0, 'strain': x.calculate_strain, 'stress': x.calculate_stress,
                    'margin': x.calculate_maxstressmargin}[op['q']]()
        if k == 'buck':
            kw = {}
            if 'silent' in op:
                kw['silent'] = op['silent']
            if 'num' in op:
                kw['num_eigvalues'] = op['num']
            return x.buckling_analysis(**kw)
        if k == 'kd':
            return x.calc_K_KG_D()
        if k == 'kabd':
            return x.calc_K_KG_ABD()
        if k == 'plot':
            kw = {}
            if 'nth' in op:
                kw['nth'] = op['nth']
            if 'gx' in op:
                kw.update(ngridx=op['gx'], ngridy=op['gy'])
            th.before = _freeze([x.eigenvalue, x.eigenvector])
            x.plot_eigenvalue(**kw)
            return [d for d in th.drawn if d[0] == 'surface']
        if k == 'fork':
            return self.fork(op)
        if k == 'touch':
            return self.touch(op, x)
        if k == 'drop':                           # the caller lets go of an object; its address may be used again
            for d in (self.obj, self.spec, self.src, self.last, self.buckled, self.holds):
                d.pop(o, None)
            return None
        if k == 'save':
            of = [n for n in op['of'] if n in self.obj]
            b = pickle.dumps({n: self.obj[n] for n in of}, protocol=op['proto'])
            self.saved[op['as']] = {'bytes': base64.b64encode(b).decode(), 'spec': copy.deepcopy({n: self.spec[n] for n in of}),
                                    'last': {n: 'any' if self.concurrent else self.last[n] for n in of if n in self.last},
                                    'names': {o: v for o, v, _ in self.extra.get('names', []) if o in of}}
            return None
        if k == 'newmat':
            return self.new_mat(op['m'])
        if k == 'newlam':
            s, plies, spec = self.lam_args(op['l'])
            return self.C.LaminateProperty(s, plies)
        if k == 'copy':
            return {'copy': lambda: copy.copy(x), 'deepcopy': lambda: copy.deepcopy(x)}.get(
                op['q'], lambda: pickle.loads(pickle.dumps(x, protocol=int(op['q'][-1]))))()
        if k == 'newplate':
            p = op['p']
            kw = dict(Nxx=p['Nxx'], Nyy=p['Nyy'], Nxy=p['Nxy'], m=p['m'], n=p['n'])
            if p.get('bc') is not None:
                kw['constraints'] = self.src[op['as']] = copy.deepcopy(p['bc'])
            return self.C.PlateStructure(self.obj[p['lam']], p['a'], p['b'], **kw)
        if k == 'newstr':
            return self.C.LaminateStrength(self.obj[op['s']['lam']], *op['s']['loads'])
        if k == 'setload':
            v = self.spec[o]['loads'][op['i']] * op['times'] if 'times' in op else op['v']
            setattr(x, LOADS[op['i']], v)
            self.spec[o]['loads'][op['i']] = v
            return None
        if k == 'setlam':
            x.dproperty = self.obj[op['lam']]
            self.spec[o]['lam'] = self.spec[op['lam']]
            self.holds[o] = op['lam']
            if op['lam'] in self.tainted:
                self.tainted.add(o)
            return None
        if k == 'edit':
            return self.edit_result(op)
        if k == 'editsrc':
            return self.edit_src(op)
        if k == 'editattr':                       # a container the object itself shows
            self.taint(o)
            c = getattr(x, op['q'], None)
            if isinstance(c, list):
                if op['q'] == 'layup':
                    _edit_list(c, op['how'], (33.0, self.obj[op['other']]))
                else:
                    _edit_list(c, op['how'], 33.0 if op['q'] == 'stacking' else self.obj[op['other']])
            elif isinstance(c, dict):
                _edit_dict(c, op['how'])
            return None
        if k == 'reedge':                        # the caller moves the edges of a plate it has
            c = x.constraints
            if isinstance(c, dict):
                c.update(copy.deepcopy(op['bc']))
                s = self.spec[o]
                self.pending[o] = dict(s, pl=dict(s['pl'], bc=copy.deepcopy(op['bc'])))
            return None
        if k == 'editcons':
            self.tainted.add(o)
            c = x.constraints
            if isinstance(c, dict):
                _edit_dict(c, op['how'])
            return None
        if k == 'badmat':
            a = [1e3, 1e2, .3, 50., .1, 0, 0, 0, 0, 0] if op['kind'] == 'ortho' else [1e3, .3, 50., .1, 1, 1, 1]
            a[op['i'] % len(a)] = op['v']
            return (self.C.OrthotropicMaterial if op['kind'] == 'ortho' else self.C.IsotropicMaterial)(*a)
        if k == 'opt':
            z = importlib.import_module('composipy.optimize')
            f = z.maximize_buckling_load if op['which'] == 'max' else z.minimize_panel_weight
            return f(**copy.deepcopy(op['args']))
        raise KeyError(k)

    def taint(self, o):
        self.tainted |= self.shares.get(o, {o})
        self.tainted.update(n for n, l in self.holds.items() if l in self.tainted)

    def touch(self, op, x):
        """the caller shows, compares or reads things; nothing may come of it"""
        q = op['q']
        if q == 'repr':
            return re.sub('0x[0-9a-f]+', '', str(x) + repr(x))          # some show their address
        if q == 'eq':
            y, kinds = self.obj.get(op.get('other')), {m['kind'] for n in (op['o'], op.get('other')) for m in self.spec.get(n, {}).get('plies', ())}
            if len(kinds) > 1:                    # materials of different kinds refuse to be compared
                return
            return (x == y, x != y, x == x) if type(y) is type(x) else x == x
        if q == 'attrs':
            for n in dir(type(x)):
                if not n.startswith('_') and n not in QUERIES and isinstance(getattr(type(x), n, None), property):
                    getattr(x, n)
            return None
        if q == 'pcomp':
            seq, mid, t = [0, 45, -45, 90, 30][:2 + op['u'] % 4], [1, 2, 3, 4, 5][:2 + op['u'] % 4], [.1] * (2 + op['u'] % 4)
            N = importlib.import_module('composipy.nastranapi')
            a = N.build_pcomp(seq, mid, t, 1), N.build_pcomp(seq, 1, .1, 2, -.5, 'YES'), N.build_sequence('[(45/-45)2/0/90]s')
            if (seq, mid, t) != ([0, 45, -45, 90, 30][:len(seq)], [1, 2, 3, 4, 5][:len(seq)], [.1] * len(seq)):
                raise Bad('build_pcomp changed the lists of its caller')
            return a

    def fork(self, op):
        """a worker process started at this instant: only the calling thread exists in it"""
        from . import runs

        def child():
            kernel.ACTIVE = None
            self.concurrent = False
            self.violations = []
            self.settle()
            sim = kernel.Sim(None, entropy=op['u'])
            sim.run([runs._body(self, sim, op['ops'])])
            self.ask_names()
            runs.names(self)
            return self.violations + [{'cls': c, 'kind': '', 'q': '', 'uid': op['u'], 'msg': m} for c, m in sim.verdicts]
        st, res = runs.forked(child, 25)
        if st == 'hang':
            return [{'cls': 'worker-hangs', 'kind': 'fork', 'q': '', 'uid': op['u'], 'msg': 'the worker process does not end'}]
        if st != 'ok':
            raise Bad(f'worker process: {st} {res}')
        return res

    def ask_names(self):
        for n in [n for n in self.spec if 'kind' in self.spec[n] and n in self.obj]:
            self.extra.setdefault('names', []).append((n, self.obj[n].name, self.spec[n]))

    def settle(self):
        """what simultaneous analyses leave behind is not specified"""
        for p in self.last:
            self.last[p] = None if getattr(self.obj[p], 'eigenvalue', None) is None else 'any'

    def edit_result(self, op):
        r = self.results.get(op['of'])
        if r is None:
            return 'nothing'
        try:
            _edit_value(r[0], op['how'])
        except (ValueError, TypeError, AttributeError):
            pass                                  # a read-only result is fine
        for e in self.results.values():           # results may alias one another: the caller did it
            e[1] = _freeze(e[0])
        return None

    def edit_src(self, op):
        s = self.src.get(op['o'])
        if s is None:
            return None
        if isinstance(s, tuple):
            stack, plies = s
            if op['what'] == 'plies' and isinstance(plies, list):
                _edit_list(plies, op['how'], self.obj[op['other']])
            elif isinstance(stack, dict):
                _edit_dict(stack, op['how'])
            elif isinstance(stack, np.ndarray):
                stack[:] = stack[::-1] + 17.0
            elif isinstance(stack, list):
                _edit_list(stack, op['how'], 33.0)
        elif isinstance(s, dict):
            _edit_dict(s, op['how'])
        return None

    # ------------------------------------------------------------ oracle
    def check(self, sim, th, op, val, exc):
        k, o = op['k'], op.get('o')
        if k in ('buck', 'plot') and o in self.last:
            self.check_plate(op, val, exc, th)
            return
        if exc is not None:
            return
        if o in self.tainted or o in self.pending:
            return
        if k == 'mq':
            m = self.spec[o]
            if op['q'] == 'Q_0':
                w = model.q0(m)
                cmp(val, w, np.abs(w).max(), 'Q_0')
            elif op['q'] == 'Invariants':
                w = model.invariants(m)
                cmp(val, w, np.abs(w).max(), 'Invariants')
            elif op['q'] == 'name':
                if o in self.fresh and val != self.fresh[o]:
                    raise Bad(f'{self.fresh[o]!r} when it was saved, {val!r} after loading it in a new process')
                self.extra.setdefault('names', []).append((o, val, self.spec[o]))
        elif k == 'lq':
            w, s = model.query(self.spec[o], op['q'])
            cmp(val, w, s, op['q'])
        elif k == 'sq':
            self.check_strength(op, val)
        elif k in ('kd',):
            P = self.ref(o)
            cmp(val[0], P.K, np.abs(P.K).max(), 'K')
            cmp(val[1], P.G, np.abs(P.G).max(), 'KG')
        elif k == 'touch' and op['q'] == 'eq' and type(val) is tuple and self.sc['prop'] == 'C11':
            a, b = self.spec[o], self.spec.get(op['other'])
            if op['other'] in self.tainted or 'lp' in a:
                return
            same = model.same(a, b)
            if tuple(map(bool, val)) != (same, not same, True):
                raise Bad(f'compared with {op["other"]}, whose definition is {"equal" if same else "different"}: ==, != and == with itself gave {val}')
        elif k == 'newlam':
            self.obj[op['as']] = val
            self.spec[op['as']] = self.lam_args(op['l'])[2]
        elif k == 'newmat':
            self.obj[op['as']] = val
            self.spec[op['as']] = op['m']
        elif k == 'newplate':
            self.obj[op['as']] = val
            self.spec[op['as']] = {'lam': self.spec[op['p']['lam']], 'pl': op['p']}
            self.last[op['as']] = None
            self.buckled[op['as']] = []
            self.holds[op['as']] = op['p']['lam']
            if op['p']['lam'] in self.tainted:
                self.tainted.add(op['as'])
        elif k == 'newstr':
            self.obj[op['as']] = val
            self.spec[op['as']] = {'lam': self.spec[op['s']['lam']], 'loads': list(op['s']['loads'])}
            self.holds[op['as']] = op['s']['lam']
            if op['s']['lam'] in self.tainted:
                self.tainted.add(op['as'])
        elif k == 'opt':
            self.extra.setdefault('opt', []).append((op, val, list(th.fired), th.seam_calls.get('solver', 0)))
            from . import optcheck
            if op['args'].get('plot'):
                optcheck.check_map(op, th.drawn, val, list(th.fired), Bad)
                self.own_figure(next(d[1] for d in th.drawn if d[0] == 'contour'), th.drawn)
                self.check_twin(op, val, th)
            optcheck.check(op, val, list(th.fired), th.seam_calls.get('solver', 0), Bad)
        elif k == 'fork':
            for v in val:
                v = dict(v, msg='in a worker process forked meanwhile: ' + v['msg'])
                self.violations.append(v)
            self.completed += len(op['ops'])
        elif k == 'copy':
            self.obj[op['as']] = val
            self.spec[op['as']] = copy.deepcopy(self.spec[o])
            self.root[op['as']] = self.root.get(o, o)
            if op['q'] == 'copy':
                g = self.shares.setdefault(o, {o})
                g.add(op['as'])
                self.shares[op['as']] = g
            if o in self.last:
                self.last[op['as']] = self.last[o]
                self.buckled[op['as']] = list(self.buckled[o])
        if op.get('keep'):
            self.results[op['u']] = [val, _freeze(val), op]

    def check_twin(self, op, val, th):
        """the map does not change the optimum: compare with an equal optimisation of this run without it"""
        if th.fired:
            return
        same = lambda o: o['which'] == op['which'] and {k: v for k, v in o['args'].items() if k not in ('plot', 'points_to_plot')} == \
            {k: v for k, v in op['args'].items() if k not in ('plot', 'points_to_plot')}
        for o, v, fired, _ in self.extra['opt'][:-1]:
            if same(o) and not fired and not (np.allclose(v.x, val.x, rtol=1e-9, atol=1e-12) and np.isclose(v.fun, val.fun, rtol=1e-9)):
                raise Bad(f'optimum {val.x} {val.fun} with the map, {v.x} {v.fun} without')

    def check_kept(self, op):
        for u, (v, f, o) in self.results.items():
            if u != op['u'] and not _same(v, f):
                self.results[u][1] = _freeze(v)
                self.bad(op, 'result-changed', f"the {o.get('q') or o['k']} result obtained from {o.get('o')} earlier (call {u}) changed")

    def check_strength(self, op, val):
        s = self.spec[op['o']]
        e0, rows, cond = model.strength(s['lam'], s['loads'])
        h = model.scales(s['lam'])[1]
        rt = max(1e-9, 1e-14 * cond)
        es = max(max(np.abs(r['eps']).max() for r in rows), np.abs(e0[:3]).max(), np.abs(e0[3:]).max() * h) + 1e-300
        if op['q'] == 'eps0':
            cmp(val, e0, es * np.array([1, 1, 1, 1 / h, 1 / h, 1 / h]), 'epsilon0', rt)
            return
        if len(val) != len(rows):
            raise Bad(f'{len(val)} rows, expected {len(rows)}')
        qs = model.scales(s['lam'])[0]
        if list(val['ply']) != [r['ply'] for r in rows]:
            raise Bad('ply column ' + str(list(val['ply'])))
        if list(val['position']) != [r['position'] for r in rows]:
            raise Bad('position column ' + str(list(val['position'])) + ', rows run from bottom to top face of each ply')
        cmp(val['angle'], [r['angle'] for r in rows], 1.0, 'angle')
        if 'z' in val:
            cmp(val['z'], [r['z'] for r in rows], h, 'z')
        if op['q'] == 'strain':
            cmp(val[['epsilonx', 'epsilony', 'gammaxy']].to_numpy(), [r['eps'] for r in rows], es, 'laminate strains', rt)
            cmp(val[['epsilon1', 'epsilon2', 'gamma12']].to_numpy(), [r['eps12'] for r in rows], es, 'material strains', rt)
        elif op['q'] == 'stress':
            cmp(val[['sigmax', 'sigmay', 'tauxy']].to_numpy(), [r['sig'] for r in rows], es * qs, 'laminate stresses', rt)
            cmp(val[['sigma1', 'sigma2', 'tau12']].to_numpy(), [r['sig12'] for r in rows], es * qs, 'material stresses', rt)
            z = np.array([r['z'] for r in rows])
            S = val[['sigmax', 'sigmay', 'tauxy']].to_numpy(dtype=float)
            t = (z[1::2] - z[::2])[:, None]
            N = (t * (S[::2] + S[1::2]) / 2).sum(0)
            z0, z1 = z[::2][:, None], z[1::2][:, None]
            M = (t / 6 * (S[::2] * (2 * z0 + z1) + S[1::2] * (z0 + 2 * z1))).sum(0)
            cmp(np.concatenate([N, M]), np.array(s['loads'], float),
                es * qs * h * np.array([1, 1, 1, h, h, h]), 'stress resultants', rt * 10)
        else:
            S = np.array([r['sig12'] for r in rows])
            tol = es * qs * rt
            cols = ['margin_t1', 'margin_c1', 'margin_t2', 'margin_c2', 'margin_s']
            M = val[cols].to_numpy(dtype=float)
            for i, r in enumerate(rows):
                sg = [S[i, 0], -S[i, 0], S[i, 1], -S[i, 1], abs(S[i, 2])]
                for j, (al, x) in enumerate(zip(('t1', 'c1', 't2', 'c2', 's'), sg)):
                    a, g = r['p'][al], M[i, j]
                    if x > 1e3 * tol:
                        w = a / x - 1
                        if not abs(g - w) <= 1e-6 * (abs(w) + 1):
                            raise Bad(f'{cols[j]} in row {i}: {g}, expected {w}')
                    elif not (g == np.inf or g > a / (1e4 * tol) - 2):
                        raise Bad(f'{cols[j]} in row {i}: {g}, expected infinite (no stress in that sense)')
                c = val['critical'].iloc[i]
                if c not in cols or not M[i, cols.index(c)] <= np.nanmin(M[i]) + 1e-9 * (1 + abs(np.nanmin(M[i]))):
                    raise Bad(f'critical mode {c} in row {i} is not the smallest margin {M[i]}')

    # -- plates
    def check_pair(self, name, ev, vec, num, what):
        P = self.ref(name)
        ev = np.asarray(ev, float)
        vec = np.asarray(vec, float)
        dof = len(P.K)
        k = min(num, dof - 2)
        if ev.ndim != 1 or len(ev) < k or len(ev) > max(num, k):
            raise Bad(f'{what}: {ev.shape} factors for {num} requested of {dof}')
        if vec.shape != (dof, len(ev)):
            raise Bad(f'{what}: modes of shape {vec.shape}')
        np_ = min(len(ev), len(P.pos))
        if not np.all(np.isfinite(ev[:np_])):
            raise Bad(f'{what}: factors {ev}')
        for i in range(np_):
            if P.close(ev[i], P.pos[i]) > 1:
                raise Bad(f'{what}: factor {i} is {ev[i]:.8g}, the {i}-th smallest positive factor is {P.pos[i]:.8g} '
                          f'(all: {np.array2string(ev, precision=5)}, true: {np.array2string(P.pos[:len(ev)], precision=5)})')
            if not P.residual(ev[i], vec[:, i]) < 1e-5 + P.floor * abs(ev[i]) * 1e3:
                raise Bad(f'{what}: mode {i} does not satisfy the buckling equation (residual {P.residual(ev[i], vec[:, i]):.3g})')
        if np.any(np.diff(ev[:np_]) < -1e-6 * np.abs(ev[1:np_] if np_ > 1 else 1)):
            raise Bad(f'{what}: factors not ascending {ev}')

    def new_edges(self, name, ev, vec, num):
        """an analysis completed on a plate whose edges the caller had edited: with which edges"""
        old = self.spec[name]
        self.spec[name] = self.pending[name]
        try:
            self.check_pair(name, ev, vec, num, 'returned')
            del self.pending[name]
        except Bad:
            self.spec[name] = old

    def check_plate(self, op, val, exc, th):
        name = op['o']
        x = self.obj[name]
        num = op.get('num', 5)
        if name in self.pending:
            if exc is None and op['k'] == 'buck' and isinstance(val, tuple) and len(val) == 2:
                self.new_edges(name, *val, num)
            elif x.eigenvalue is not None and (self.last[name] is None and op['k'] == 'plot'
                                               or exc is not None and th.seam_calls.get('solved')):
                self.new_edges(name, x.eigenvalue, x.eigenvector, 5 if op['k'] == 'plot' else num)
        if op['k'] == 'buck':
            if exc is None and name not in self.tainted:
                self.buckled[name].append(num)
                if not (isinstance(val, tuple) and len(val) == 2):
                    raise Bad('did not return (factors, modes)')
                self.check_pair(name, val[0], val[1], num, 'returned')
                if not self.concurrent:
                    self.last[name] = num
            if not self.concurrent and name not in self.tainted:
                self.check_held(op, name, th, exc, num)
        else:
            if name in self.tainted:
                return
            if self.last[name] is None and x.eigenvalue is not None:
                self.last[name] = 5                  # the plot ran the analysis itself
            if not self.concurrent:
                self.check_held(op, name, th, exc, 5)
            had = th.before
            if not self.concurrent and had[0] is not None and not _same(_freeze([x.eigenvalue, x.eigenvector]), had):
                raise Bad('plotting changed the results the plate held')
            if exc is None:
                self.check_surface(op, val)

    def check_held(self, op, name, th, exc, num):
        """the plate holds its last completed analysis (or, when the failure struck after
        the solver had finished, the one just computed)"""
        x = self.obj[name]
        ev, vec = x.eigenvalue, x.eigenvector
        want = self.last[name]
        if want == 'any' or (exc is None and want is None):
            return
        alts = [want]
        if exc is not None and th.seam_calls.get('solved'):
            alts.append(num)
        err = None
        for w in alts:
            try:
                if w is None:
                    if ev is not None or vec is not None:
                        raise Bad('holds results although no analysis completed')
                else:
                    if ev is None or vec is None:
                        raise Bad('holds no results although an analysis completed')
                    self.check_pair(name, ev, vec, w, 'held')
                self.last[name] = w
                return
            except Bad as b:
                err = err or b
        b = Bad('after ' + ('a failed' if exc is not None else 'a completed') + ' analysis the plate ' + str(err))
        b.cls = 'wrong-held-result'
        raise b

    def own_figure(self, ax, drawn):
        if any(ax.figure is f for f in self.figs + self.open):
            raise Bad('drawn into a figure that was open before')
        if any(d[1].figure is not ax.figure for d in drawn):
            raise Bad('drawn into several figures')

    def check_surface(self, op, surfaces):
        name = op['o']
        if len(surfaces) != 1:
            raise Bad(f'{len(surfaces)} surfaces drawn')
        _, ax, X, Y, Z = surfaces[0]
        self.own_figure(ax, [])
        self.figs.append(ax.figure)
        p = self.spec[name]['pl']
        gx, gy = op.get('gx', 20), op.get('gy', 20)
        if not (X.shape == Y.shape == Z.shape and X.size == gx * gy):
            raise Bad(f'grid {X.shape}, {Y.shape}, {Z.shape} for {gx} x {gy} points')
        ux, uy = np.unique(np.round(X / p['a'], 9)), np.unique(np.round(Y / p['b'], 9))
        for u, g, nm in ((ux, gx, 'x'), (uy, gy, 'y')):
            if len(u) != g or np.abs(u - np.linspace(0, 1, g)).max() > 1e-8:
                raise Bad(f'grid along {nm}: {u}')
        if len({(a, b) for a, b in zip(np.round(X / p['a'], 9).ravel(), np.round(Y / p['b'], 9).ravel())}) != gx * gy:
            raise Bad('grid points repeated')
        P = self.ref(name)
        nth = op.get('nth', 0)
        x = self.obj[name]
        num = self.last[name]
        if self.concurrent or num == 'any':
            num = 2
        k = min(num, len(P.K) - 2)
        if nth >= k or nth >= len(P.pos):
            return
        lam = P.pos[nth]
        near = [i for i in range(len(P.mu)) if abs(P.mu[i] + 1 / lam) < 1e-4 / lam + 1e2 * P.floor]
        if P.floor > 1e-7 / lam:
            return                                # too close to round-off to tell modes apart
        xi, eta = 2 * X.ravel() / p['a'] - 1, 2 * Y.ravel() / p['b'] - 1
        ix, iy = P.basis
        from numpy.polynomial import legendre as L
        Fx = np.array([L.legval(xi, model.shape(i)) for i in ix])
        Fy = np.array([L.legval(eta, model.shape(i)) for i in iy])
        W = np.einsum('ig,jg->ijg', Fx, Fy).reshape(len(ix) * len(iy), -1)
        V = P.V[:, near]
        S = W.T @ V
        zz = Z.ravel()
        v = np.asarray(x.eigenvector)[:, nth]
        nv = np.linalg.norm(P.L.T @ v)
        # deflection the mode reaches somewhere on the plate: small surfaces (nodes of the mode on every
        # grid point) are judged against it
        amp = np.abs(_dense(P.basis).T @ V).max() * nv * np.sqrt(len(zz))
        tol = 1e-6 * max(np.linalg.norm(zz), 1e-4 * amp)
        c, *_ = np.linalg.lstsq(S, zz, rcond=1e-9)
        r = np.linalg.norm(zz - S @ c)
        if r > 10 * tol:
            raise Bad(f'surface is not mode {nth} (distance {r / np.linalg.norm(zz):.3g}), factor {lam:.6g}')
        if self.concurrent:
            return
        want = W.T @ v
        if np.linalg.norm(np.abs(zz) - np.abs(want)) > tol:
            raise Bad(f'surface is not the held mode {nth}')


_DENSE = {}


def _dense(basis):
    d = _DENSE.get(basis)
    if d is None:
        from numpy.polynomial import legendre as L
        g = np.linspace(-1, 1, 17)
        F = [np.array([L.legval(g, model.shape(i)) for i in ix]) for ix in basis]
        d = _DENSE[basis] = np.einsum('ig,jh->ijgh', F[0], F[1]).reshape(len(basis[0]) * len(basis[1]), -1)
    return d


_REF = {}
QUERIES = ('z_position', 'Q_layup', 'T_layup', 'A', 'B', 'D', 'ABD', 'xiA', 'xiD', 'Q_0', 'name')
LOADS = ['Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy']
HANDLED = ('solver:ArpackError', 'solver:ArpackNoConvergence')


def _chain(e):
    yield e


def _edit_value(v, how):
    if isinstance(v, np.ndarray):
        if how == 'zero':
            v[...] = 0
        elif how == 'scale':
            v *= -3.0
        else:
            v[(-1,) * v.ndim] += 1e6
    elif isinstance(v, tuple):
        for x in v:
            _edit_value(x, how)
    elif isinstance(v, list):
        if how == 'zero':
            v.clear()
        elif how == 'scale':
            for i, x in enumerate(v):
                if isinstance(x, (np.ndarray, list)):
                    _edit_value(x, how)
                else:
                    v[i] = x * -3.0
        else:
            v.append(v[0] if v else 1.0)
            v.reverse()
    elif hasattr(v, 'columns'):
        v.iloc[:, -1] = 0
        if how == 'zero':
            v.drop(v.index[1:], inplace=True)


def _edit_list(v, how, other):
    if how == 0 and v:
        v[0] = other
    elif how == 1:
        v.append(other)
    elif how == 2:
        v.clear()
    elif how == 3 and v:
        v[-1] = other
        v.reverse()
    else:
        v.extend([other] * 2)


def _edit_dict(d, how):
    if 'T' in d:
        if how == 0:
            d['T'] *= 2
        elif how == 1:
            d['xiD'][0] = d['xiD'][0] / 2 + .3
            d['xiD'][2] = 0.1
        elif how == 2:
            d.pop('xiA', None)
            d['xiD'] = [0., 0., 0., 0.]
        elif how == 3:
            d.clear()
        else:
            d['T'] = 1.0
            if d.get('xiA') is not None:
                d['xiA'][:] = [.5, 0., .5, 0.]
        return
    edges = ('x0', 'xa', 'y0', 'yb')
    for j, k in enumerate(edges):
        v = d.get(k)
        if isinstance(v, list):
            if how == 0:
                v.clear()
            elif how == 1:
                v[:] = ['TX', 'TY', 'TZ', 'RX', 'RY', 'RZ']
            elif how == 2:
                d[k] = ['TZ']
            elif how == 3:
                if 'TZ' in v:
                    v.remove('TZ')
                else:
                    v.append('TZ')
            else:
                if 'RZ' not in v:
                    v.append('RZ')
                else:
                    v.remove('RZ')
        else:
            d[k] = ['free', 'clamped', 'pinned', ['clamped', 'free'][j % 2], ['pinned', 'clamped'][j % 2]][how]
    if how == 3:
        d.pop('yb', None)


def _freeze(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return [_freeze(x) for x in v]
    if hasattr(v, 'copy') and hasattr(v, 'columns'):
        return v.copy(deep=True)
    return v


def _same(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'columns'):
        return a.equals(b)
    return a == b
