import importlib
import os
import sys
import tempfile
import warnings


def main():
    if len(sys.argv) < 2:
        sys.exit("usage: check PROPERTY [quick|thorough]")
    pid = sys.argv[1]
    repo = os.environ.get("DST_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(
        tempfile.gettempdir(), f"dst_mpl_{os.getuid()}"))
    warnings.simplefilter("ignore")
    from . import seams, engine
    seams.install()
    mod = importlib.import_module(f"dst.props.{pid.lower()}")
    import disc_solver
    where = os.path.dirname(os.path.abspath(disc_solver.__file__))
    assert where.startswith(os.path.abspath(repo)), where
    if hasattr(mod, "warm"):
        mod.warm()
    import gc
    gc.collect()
    gc.freeze()
    code = engine.main(mod.PROP, sys.argv[2:])
    os._exit(code)


main()
