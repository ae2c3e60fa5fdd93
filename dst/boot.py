"""Bring the code under test up inside the simulator.

* one BLAS/numba thread, non-interactive plotting, no bytecode caches for the
  code under test (always compiled from the sources of /repo's working tree);
* a simulated `cyipopt` solver is placed in sys.modules before the import
  (the real one is not installable offline), see stubs.py;
* the stochastic optimizer of scipy is put behind a seam (reduced budget,
  same RNG protocol), see stubs.py.
"""
import os
import sys

SRC = os.environ.get("DST_SRC", "/repo/src")
PKG_DIR = os.path.join(os.path.realpath(SRC), "direpack") + os.sep

ENV = {
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1",
    "LOKY_MAX_CPU_COUNT": "1",
}


def ensure_env(hashseed="0"):
    """Re-execute once so that the environment is the simulator's."""
    want = dict(ENV)
    want["PYTHONHASHSEED"] = os.environ.get("DST_HASHSEED", hashseed)
    if all(os.environ.get(k) == v for k, v in want.items()):
        return
    os.environ.update(want)
    os.execv(sys.executable, [sys.executable] + sys.argv)


_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    import importlib.machinery as mach
    import importlib.abc

    root = os.path.realpath(SRC)
    if root in sys.path:
        sys.path.remove(root)
    sys.path.insert(0, root)

    class Loader(mach.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    class Finder(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            if name != "direpack" and not name.startswith("direpack."):
                return None
            spec = mach.PathFinder.find_spec(name, [root] if path is None else path)
            if spec is None or not spec.origin or not spec.origin.endswith(".py"):
                return None
            spec.loader = Loader(spec.name, spec.origin)
            return spec

    sys.meta_path.insert(0, Finder())
    from . import stubs
    stubs.install()
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import direpack  # noqa
        import sklearn.model_selection, sklearn.pipeline, matplotlib.pyplot  # noqa
        import matplotlib.figure, matplotlib.backends.backend_agg  # noqa
    assert os.path.realpath(direpack.__file__).startswith(PKG_DIR), direpack.__file__
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import gc
    from . import mon, zoo  # noqa: computed once, inherited by every fork
    mon.codes()
    gc.collect()
    gc.freeze()
