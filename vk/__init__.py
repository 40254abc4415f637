"""Solver-based checking of the real diffrax code: jaxpr -> SMT."""
import os, sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("EQX_GETKEY_SEED", "1")
sys.dont_write_bytecode = True
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3  # noqa: F401
except ImportError:
    # only the z3 package is taken from the tooling venv (same Python version)
    import importlib.util, importlib.machinery

    class _Z3Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name == "z3" or name.startswith("z3."):
                return importlib.machinery.PathFinder.find_spec(name, [_VT] if path is None else path)
            return None

    sys.meta_path.append(_Z3Finder)
    import z3  # noqa: F401
import jax

jax.config.update("jax_enable_x64", True)
