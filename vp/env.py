"""Import environment: Hypothesis from the tool venv, stubs for packages this sandbox lacks, and the
code under test always compiled afresh from the working tree (never from cached bytecode)."""

import glob
import importlib
import importlib.util
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        for d in glob.glob("/opt/veriftools/pyvenv/lib/python3.*/site-packages"):
            sys.path.append(d)
        import hypothesis  # noqa: F401
    import hypothesis.strategies  # noqa: F401
    import amaranth, amaranth.sim, amaranth.lib.fifo, amaranth.lib.cdc  # noqa: F401,E401
    import numpy  # noqa: F401
    import warnings
    warnings.filterwarnings("ignore")
    # stand-ins for packages that are not installed here (only if really absent)
    if importlib.util.find_spec("amaranth_soc") is None:
        sys.path.append(os.path.join(VERIF, "vp", "stubs"))
        sys.meta_path.append(_EmptyModules())
    # the code under test: first on the path, and never read from __pycache__
    sys.pycache_prefix = os.path.join("/nonexistent", "pycache-{}".format(os.getpid()))
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import amlib
    got = os.path.realpath(os.path.dirname(amlib.__file__ or list(amlib.__path__)[0]))
    want = os.path.realpath(os.path.join(REPO, "amlib"))
    if got != want:
        raise RuntimeError("amlib imported from {} instead of {}".format(got, want))


class _EmptyModules:
    """Last-resort finder: lambdasoc.* and minerva.* import as modules whose attributes are empty classes."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("lambdasoc", "minerva"):
            return importlib.util.spec_from_loader(name, self, is_package=True)

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        def getattr_(attr):
            if attr.startswith("__"):
                raise AttributeError(attr)
            return type(attr, (), {})
        module.__getattr__ = getattr_
        module.__path__ = []


def all_ids():
    d = os.path.join(VERIF, "vp", "props")
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.endswith(".py") and not f.startswith("_"))


def load(pid):
    return importlib.import_module("vp.props." + pid.lower())
