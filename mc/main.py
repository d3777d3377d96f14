import importlib
import os
import shutil
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(here))
sys.path.insert(0, here)
sys.dont_write_bytecode = True


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    nproc = int(os.environ.get('MC_NPROC', '8'))
    scratch = tempfile.mkdtemp(prefix='oranssi_mc_')
    parent = os.getpid()
    try:
        os.environ['MPLCONFIGDIR'] = scratch
        import numpy  # noqa
        import scipy.linalg, scipy.optimize  # noqa
        import networkx, sympy, pennylane, matplotlib.pyplot  # noqa
        from mc import core
        # always compile /repo's current sources, never a cached byte-code file
        sys.pycache_prefix = os.path.join(scratch, 'pyc')
        if sys.path[0] != core.REPO:
            sys.path.insert(0, core.REPO)
        real = sys.stdout
        sys.stdout = core._Null()
        import oranssi.circuit_tools, oranssi.edge_coloring, oranssi.opt_tools  # noqa
        import oranssi.optimizers, oranssi.pauli, oranssi.plot_utils, oranssi.utils  # noqa
        sys.stdout = real
        assert os.path.realpath(oranssi.utils.__file__).startswith(os.path.realpath(core.REPO) + os.sep), \
            oranssi.utils.__file__
        mod = importlib.import_module('checks.' + prop.lower())
        budget = float(os.environ.get('MC_BUDGET', 780 if tier == 'quick' else 6 * 3600))
        rc = core.drive(mod, tier, budget, nproc, replay)
    finally:
        if os.getpid() == parent:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
