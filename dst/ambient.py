"""C13: process-wide settings before and after every call."""
import builtins
import copy
import decimal
import faulthandler
import gc
import functools
import io
import itertools
import locale
import logging
import math
import operator
import os
import pickle
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import tracemalloc
import warnings

import numpy as np
import pandas as pd
import scipy.linalg
import scipy.optimize
import scipy.sparse.linalg
import scipy.special
import matplotlib
import matplotlib.pyplot as plt

from . import kernel, seams


def _flat(d, pre=''):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from _flat(v, pre + k + '.')
        else:
            yield pre + k, v


_MODULES = [builtins, math, time, os, random, np, np.linalg, scipy.linalg, scipy.optimize, scipy.sparse, scipy.sparse.linalg,
            pd, pd.DataFrame, plt, copy, pickle, warnings, logging, threading, itertools, functools, operator, matplotlib]


def snapshot():
    s = {}
    for m in _MODULES:                        # nothing of anybody else's is replaced
        for k, v in list(vars(m).items()):
            if not k.startswith('__') and callable(v):
                s['attribute:' + m.__name__ + '.' + k] = id(v)
    s['socket timeout'] = socket.getdefaulttimeout()
    s['excepthooks'] = (id(threading.excepthook), id(sys.unraisablehook))
    s['resource limits'] = [resource.getrlimit(k) for k in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS,
                                                             resource.RLIMIT_CPU, resource.RLIMIT_CORE)]
    s['niceness'] = os.nice(0)
    s['interval timer'] = signal.getitimer(signal.ITIMER_REAL)[1]
    s['fault handler'] = faulthandler.is_enabled()
    s['profile of new threads'] = (repr(threading.getprofile()), repr(threading.gettrace()))
    for k, v in np.geterr().items():
        s['numpy error handling:' + k] = v
    s['numpy errcall'] = repr(np.geterrcall())
    s['numpy bufsize'] = np.getbufsize()
    for k, v in np.get_printoptions().items():
        s['numpy print option:' + k] = repr(v)
    for k, v in _flat(pd._config.config._global_config):
        s['pandas:' + k] = repr(v)
    s['warning filters'] = repr(warnings.filters)
    s['warnings.showwarning'] = id(warnings.showwarning)
    s['random state'] = repr(random.getstate())
    s['numpy random state'] = repr(np.random.get_state())
    for k in matplotlib.rcParams:
        s['matplotlib:' + k] = repr(dict.__getitem__(matplotlib.rcParams, k))
    s['matplotlib interactive'] = matplotlib.is_interactive()
    for k, v in os.environ.items():
        s['environment:' + k] = v
    s['working directory'] = os.getcwd()
    s['files in the working directory'] = repr(sorted(os.listdir('.')))
    m = os.umask(0o22)
    os.umask(m)
    s['umask'] = m
    for g in signal.valid_signals():
        s['signal:' + str(int(g))] = repr(signal.getsignal(g))
    for k in ('stdin', 'stdout', 'stderr', 'excepthook', 'displayhook'):
        s['sys.' + k] = id(getattr(sys, k))
    s['recursion limit'] = sys.getrecursionlimit()
    s['switch interval'] = sys.getswitchinterval()
    s['int digits'] = sys.get_int_max_str_digits()
    s['trace'] = repr(sys.gettrace()) + repr(sys.getprofile())
    s['sys.path'] = repr(sys.path)
    s['threads'] = sorted(t.name for t in threading.enumerate())
    s['locale'] = locale.setlocale(locale.LC_ALL)
    s['decimal context'] = repr(decimal.getcontext())
    s['gc'] = (gc.isenabled(), gc.get_threshold())
    s['special function errors'] = repr(sorted(scipy.special.geterr().items()))
    s['thread stack size'] = threading.stack_size()
    s['default warning action'] = warnings.defaultaction
    s['import hooks'] = (len(sys.meta_path), len(sys.path_hooks))
    s['tracemalloc'] = tracemalloc.is_tracing()
    s['cpus'] = repr(sorted(os.sched_getaffinity(0)))
    for k, v in list(logging.root.manager.loggerDict.items()):
        if isinstance(v, logging.Logger):
            s['attribute:logger ' + k] = (v.level, v.disabled, v.propagate, len(v.handlers), len(v.filters))
    s['open figures of the caller'] = [n for n in MINE if plt.fignum_exists(n)]
    s['logging'] = (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.lastResort is None)
    return s


MINE = []                                     # numbers of figures the caller has open


def randomise(seed, scratch):
    r = random.Random(seed)
    if r.random() < .5:                       # collection counts as enabled, and never comes
        gc.set_threshold(0, 10, 10)
        gc.enable()
    if r.random() < .3:
        MINE.extend(seams.REAL['figure'](num=n).number for n in r.sample(range(1, 5), r.randint(1, 2)))
    for k in ('MPLBACKEND', 'OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        if r.random() < .5:
            os.environ.pop(k, None)
    for k in ('divide', 'over', 'under', 'invalid'):
        np.seterr(**{k: r.choice(['ignore', 'warn', 'ignore', 'print'] + (['raise'] if r.random() < .1 else []))})
    np.set_printoptions(precision=r.randint(3, 12), suppress=r.random() < .5, linewidth=r.randint(60, 200))
    pd.set_option('display.precision', r.randint(3, 9))
    pd.set_option('display.max_rows', r.randint(5, 100))
    pd.set_option('display.max_columns', r.randint(3, 30))
    if r.random() < .3:
        pd.set_option('display.float_format', '{:.3f}'.format)
    warnings.resetwarnings()
    for _ in range(r.randint(0, 3)):
        warnings.simplefilter(r.choice(['ignore', 'default', 'always', 'once']))
    if r.random() < .15:
        warnings.simplefilter('error')
    if r.random() < .3:
        warnings.filterwarnings('ignore', message='x.*', category=UserWarning)
    random.seed(seed)
    np.random.seed(seed % 2 ** 32)
    for _ in range(r.randint(0, 5)):
        np.random.standard_normal()
    matplotlib.rcParams['lines.linewidth'] = r.randint(1, 5)
    matplotlib.rcParams['axes.grid'] = r.random() < .5
    matplotlib.rcParams['image.cmap'] = r.choice(['gray', 'viridis', 'jet'])
    matplotlib.rcParams['figure.figsize'] = [r.randint(2, 4), r.randint(2, 4)]
    os.environ['DST_' + str(r.randrange(100))] = 'x'
    os.chdir(scratch)
    sys.setrecursionlimit(r.randint(900, 3000))
    signal.signal(signal.SIGINT, lambda *a: None)
    if r.random() < .5:
        signal.signal(signal.SIGUSR1, signal.SIG_IGN)
    sys.stdin = io.StringIO('')
    sys.stderr = io.StringIO()
    decimal.getcontext().prec = r.randint(10, 40)
    logging.root.setLevel(r.choice([10, 20, 30, 40]))


def cosmetic(seed):
    """settings of the caller that no number may depend on"""
    r = random.Random(seed)
    gc.set_threshold(r.choice([0, 50, 700, 100000]), r.randint(2, 20), 10)
    for k in ('divide', 'over', 'under', 'invalid'):
        np.seterr(**{k: r.choice(['ignore', 'warn'])})
    np.set_printoptions(precision=r.choice([1, 2, 4, 8, 16]), suppress=r.random() < .5, linewidth=r.randint(20, 200),
                        threshold=r.choice([0, 2, 5, 20, 1000]), edgeitems=r.randint(1, 4), sign=r.choice([' ', '-', '+']),
                        floatmode=r.choice(['fixed', 'maxprec', 'unique']), formatter={'float_kind': '{:.1f}'.format} if r.random() < .2 else None)
    np.setbufsize(r.choice([8192, 1024, 65536]))
    pd.set_option('display.precision', r.randint(1, 9))
    pd.set_option('display.max_rows', r.randint(2, 100))
    pd.set_option('display.max_columns', r.randint(1, 30))
    pd.set_option('display.chop_threshold', r.choice([None, 1e-3, 1.]))
    if r.random() < .3:
        pd.set_option('display.float_format', '{:.1f}'.format)
    pd.set_option('compute.use_numexpr', r.random() < .5)
    warnings.resetwarnings()
    warnings.simplefilter(r.choice(['ignore', 'default', 'always', 'once']))
    matplotlib.rcParams['figure.figsize'] = [r.randint(2, 4), r.randint(2, 4)]
    matplotlib.rcParams['axes.grid'] = r.random() < .5
    matplotlib.rcParams['axes.formatter.use_locale'] = r.random() < .5
    for k in ('DST_X', 'COLUMNS', 'LINES', 'USER', 'HOME', 'LANG', 'DEBUG', 'MPLBACKEND', 'TMPDIR'):
        if r.random() < .3:
            os.environ.pop(k, None)
    for k in ('DST_' + str(r.randrange(100)), 'DEBUG', 'COLUMNS'):
        if r.random() < .5:
            os.environ[k] = str(r.randrange(1, 200))
    os.chdir(r.choice(['/', '/tmp', '/usr']))
    sys.argv = [r.choice(['', 'x.py', '/usr/bin/y'])] + ['-v'] * r.randrange(3)
    sys.setrecursionlimit(r.randint(900, 5000))
    decimal.getcontext().prec = r.randint(3, 40)
    decimal.getcontext().rounding = r.choice([decimal.ROUND_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_UP])
    logging.root.setLevel(r.choice([10, 20, 30, 40]))
    sys.stdin = io.StringIO('')
    sys.stderr = io.StringIO()
    if r.random() < .5:
        signal.signal(signal.SIGINT, lambda *a: None)


def run(sc):
    from . import runs, world
    scratch = tempfile.mkdtemp(prefix='dst-ambient-')
    try:
        kernel.instrument(full=bool(sc.get('full')), fine=bool(sc.get('fine')))
        seams.quiet_world(sc['entropy'])
        try:
            w = AmbientWorld(sc)
        except Exception as e:
            return runs.unbuilt(e)
        sim = kernel.Sim(sc.get('schedule'), entropy=sc['entropy'], clock=sc.get('clock'))
        if sc.get('dry'):
            sim.recording()
        randomise(sc['ambient']['seed'], scratch)
        w.snap = snapshot()
        try:
            sim.run([runs._body(w, sim, t) for t in sc['threads']])
        finally:
            w.concurrent = False
            w.compare({'k': 'end', 'u': 0}, None)
        viol = w.ambient
        for cls, msg in sim.verdicts:
            viol.append({'cls': cls, 'kind': '', 'q': '', 'uid': 0, 'msg': msg})
        return {'viol': viol, 'crc': sim.crc, 'steps': sim.steps, 'switches': sim.switches, 'simtime': sim.simtime,
                'faults': sim.faults_fired, 'probes': sim.probes, 'kinds': w.kinds, 'oplen': w.oplen,
                'completed': w.completed, 'aborted': w.aborted, 'clock_reads': sim.clock_reads,
                'entropy_draws': sim.entropy_draws, 'settings': len(w.snap),
                **({'hot': sim.record} if sim.record else {})}
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


def _world():
    from . import world

    class AmbientWorld(world.World):
        def judge(self, sim, th, op, val, exc):
            if exc is None:
                self.completed += 1
                if op['k'] in ('newmat',):
                    self.obj[op['as']] = val
            else:
                self.aborted += 1
            if not self.concurrent:
                self.compare(op, exc)

        def compare(self, op, exc):
            now = snapshot()
            if now == self.snap:
                return
            for k in sorted(set(now) | set(self.snap)):
                a, b = self.snap.get(k), now.get(k)
                if a is None and k.startswith('attribute:') and not k.startswith('attribute:builtins'):
                    continue                  # a lazily loaded part of a package
                if a != b:
                    self.ambient.append({
                        'cls': 'setting-changed', 'kind': op['k'], 'q': op.get('q') or op.get('which'), 'uid': op['u'], 'setting': k,
                        'before': str(a)[:80], 'after': str(b)[:80],
                        'msg': f"{k} was {str(a)[:60]} and is {str(b)[:60]} after {op['k']}{':' + str(op.get('q')) if op.get('q') else ''}"
                               f"{' (aborted by ' + type(exc).__name__ + ')' if exc is not None else ''}"})
            self.snap = now
    return AmbientWorld


def AmbientWorld(sc):
    w = _world()(sc)
    w.ambient = []
    return w
