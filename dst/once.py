"""
One undisturbed solve in an ordinary interpreter (no simulator):
  python -m dst.once JOB RESULT
"""
import os
import pickle
import sys


def main():
    job_name, result = sys.argv[1:]
    with open(job_name, "rb") as f:
        job = pickle.load(f)
    sys.path.insert(0, os.path.join(
        os.environ.get("DST_REPO", "/repo"), "src"))
    import logbook
    import numpy.random
    from disc_solver.file_format import ConfigInput, Run
    from disc_solver.solve import SONIC_METHOD_MAP
    from . import lib
    if job["seed"] is not None:
        numpy.random.seed(job["seed"])
    with logbook.NullHandler().applicationbound():
        ci = ConfigInput(label="", **job["row"])
        si = ci.to_soln_input()
        run = Run(config_input=ci, config_filename=None,
                  disc_solver_version="x", float_type="float64",
                  sonic_method=job["method"], use_E_r=si.use_E_r)
        out = {"status": "ok", "returned": None}
        try:
            out["returned"] = SONIC_METHOD_MAP[job["method"]](
                si, run, store_internal=job["internal"])
        except Exception as e:  # pylint: disable=broad-except
            out["status"] = type(e).__name__
            out["text"] = str(e)
    out["run"] = lib.plain(run)
    with open(result, "wb") as f:
        pickle.dump(out, f)


main()
