"""C16: importing the library in a process of its own, with faults while modules are read and executed."""
import _io
import importlib
from importlib._bootstrap_external import SourceLoader
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np

from . import ambient, kernel, seams

_real_open = _io.open_code


def modules():
    """Every importable module of the package (not the scripts)."""
    out = []
    for d, dirs, files in os.walk(kernel.PKG):
        dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'theoretical'))
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith('write_'):
                m = os.path.relpath(os.path.join(d, f[:-3]), os.path.dirname(kernel.PKG.rstrip(os.sep))).replace(os.sep, '.')
                out.append(m[:-9] if m.endswith('.__init__') else m)
    return sorted(set(out))


def _open_code(path):
    s, th = kernel.current()
    if s is not None and os.path.realpath(str(path)).startswith(kernel.PKG):
        s.seam(th, 'open')
    return _real_open(path)


_real_compile = SourceLoader.source_to_code


def _compile(self, data, path, **k):
    code = _real_compile(self, data, path, **k)
    if os.path.realpath(str(path)).startswith(kernel.PKG):
        acc = set()
        kernel._codes_of(code, acc)
        for c in acc:
            if len(c.co_code) < 20000:        # tables: one step (a line event there costs a scan of the line table)
                kernel.MON.set_local_events(kernel.TOOL, c, kernel.MON.events.LINE)
        s, th = kernel.current()
        if s is not None:
            s.seam(th, 'compile')
    return code


def _causes(e):
    seen = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or x in seen:
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
    return seen


def _drop(names):
    for m in names:
        sys.modules.pop(m, None)


def run(sc):
    from . import runs, world
    scratch = tempfile.mkdtemp(prefix='dst-import-')
    viol, kinds, oplen, seamlen = [], {}, {}, {}
    done = [0, 0]

    def bad(op, cls, msg):
        viol.append({'cls': cls, 'kind': op['k'], 'q': op.get('mod'), 'uid': op['u'], 'msg': msg})

    def mine():
        return [m for m in sys.modules if m == 'composipy' or m.startswith('composipy.')]

    try:
        kernel.instrument(None)
        seams.quiet_world(sc['entropy'])
        _drop(mine())
        importlib.invalidate_caches()
        sys.pycache_prefix = os.path.join(scratch, 'cache')
        cwd = os.path.join(scratch, 'cwd')
        os.mkdir(cwd)
        _io.open_code = _open_code
        ambient.randomise(sc['ambient']['seed'], cwd)
        if sc['ambient']['strict']:
            warnings.resetwarnings()
            warnings.simplefilter('error')
        err = sys.stderr
        SourceLoader.source_to_code = _compile
        snap = ambient.snapshot()
        sim = kernel.Sim(None, entropy=sc['entropy'])

        def body(th):
            nonlocal snap
            dirty = False
            for op in sc['threads'][0]:
                f = dict(op['fault']) if op.get('fault') else None
                exc = None
                th.out = []
                if dirty and op['mod'] != 'composipy':
                    # after a failed import the package comes first: Python itself otherwise starts in its middle
                    try:
                        importlib.import_module('composipy')
                    except Exception as e:
                        bad(op, 'import-failed', f"importing composipy after a failed import raised {type(e).__name__}: {e}")
                        return
                sim.begin_op(th, op['u'], f)
                try:
                    importlib.import_module(op['mod'])
                except (kernel.SimAbort, kernel.StepLimit):
                    raise
                except BaseException as e:
                    if isinstance(e, KeyboardInterrupt) and not th.fired:
                        raise
                    exc = e
                finally:
                    sim.end_op(th)
                dirty = exc is not None
                oplen[op['u']] = th.opstep
                seamlen[op['u']] = dict(th.seam_calls)
                kinds['imp'] = kinds.get('imp', 0) + 1
                done[exc is not None] += 1
                said = err.getvalue()
                err.seek(0)
                err.truncate()
                if said:
                    bad(op, 'warning', f"importing {op['mod']} wrote to standard error: {said[:200]}")
                if th.out:
                    bad(op, 'output', f"importing {op['mod']} printed {''.join(th.out)[:80]!r}")
                if th.fired:
                    want = th.fired[-1].split(':')[-1]
                    want = ('OSError', 'ImportError') if want == 'OSError' else (want,)
                    if exc is None:
                        bad(op, 'fault-swallowed', f"{th.fired} at {th.fault_loc} while importing {op['mod']} did not reach the importer")
                    elif not any(type(c).__name__ in want for c in _causes(exc)):
                        bad(op, 'fault-replaced', f"{th.fired} while importing {op['mod']} reached the importer as {type(exc).__name__}: {exc}")
                elif exc is not None:
                    if isinstance(exc, ModuleNotFoundError) and not str(exc.name).startswith('composipy'):
                        pass                  # a module for which something is not installed
                    else:
                        bad(op, 'import-failed', f"importing {op['mod']} raised {type(exc).__name__}: {exc}")
                now = ambient.snapshot()
                for k in sorted(set(now) | set(snap)):
                    a, b = snap.get(k), now.get(k)
                    if a is None and k.startswith('attribute:') and not k.startswith('attribute:builtins'):
                        continue
                    if a != b:
                        bad(op, 'setting-changed', f"importing {op['mod']}{' (failed)' if exc is not None else ''}: {k} was {str(a)[:60]} and is {str(b)[:60]}")
                snap = now
        sim.run([body])
        for cls, msg in sim.verdicts:
            viol.append({'cls': cls, 'kind': '', 'q': '', 'uid': 0, 'msg': msg})
        steps = sim.steps
        if not viol and sc['final']:
            warnings.resetwarnings()
            warnings.simplefilter('ignore')
            np.seterr(all='ignore')
            try:
                for m in ('composipy', 'composipy.optimize', 'composipy.nastranapi'):
                    importlib.import_module(m)
                w = world.World(sc)
            except Exception as e:
                return runs.unbuilt(e)
            w.concurrent = False
            fin = kernel.Sim(None, entropy=sc['entropy'] + 1)
            fin.run([runs._body(w, fin, sc['final'])])
            steps += fin.steps
            viol += w.violations
            done[0] += w.completed
            for k, v in w.kinds.items():
                kinds[k] = kinds.get(k, 0) + v
        return {'viol': viol, 'crc': sim.crc, 'steps': steps, 'switches': [], 'simtime': 0.0, 'faults': sim.faults_fired,
                'probes': sim.probes, 'kinds': kinds, 'oplen': oplen, 'seamlen': seamlen, 'completed': done[0], 'aborted': done[1],
                'clock_reads': sim.clock_reads, 'entropy_draws': sim.entropy_draws}
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
