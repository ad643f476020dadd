"""Process set-up shared by every entry point."""
import gc
import os
import warnings

for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'


def prepare():
    import numpy as np
    from . import kernel, seams
    seams.install()
    from . import world, props, runs, twin, ambient, tables, imports, optcheck      # before any fork
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    # warm lazy imports so that forked children start alike
    import matplotlib.pyplot as plt
    f = plt.figure()
    f.add_subplot(projection='3d')
    plt.close('all')
    kernel.instrument(False)
    gc.collect()
    gc.freeze()
