"""A finished result file reloads to exactly what was computed."""
import os

from .. import cases, lib
from ..engine import Prop, Scenario
from ..lib import check


def warm():
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.analyse.diverge_plot  # noqa: F401


def reads(path, ops, nocache):
    """Function for in_process: what each read gives."""
    def body():
        if nocache:
            os.environ["NO_CACHE"] = "1"
        from h5preserve import open as h5open
        from disc_solver.file_format import registries
        from disc_solver.utils import get_solutions
        out = []
        with h5open(path, registries, mode="r") as f:
            run = f["run"]
            for op in ops:
                if op == "final":
                    v = run.final_solution
                elif op == "latest":
                    v = get_solutions(run, "latest")
                elif op == "default":
                    v = get_solutions(run, None)
                elif op == "last":
                    v = run.solutions.get_last_solution()
                elif op == "all":
                    v = {k: s for k, s in run.solutions.items()}
                elif op == "names":
                    v = sorted(run.solutions)
                elif op == "count":
                    v = len(run.solutions)
                elif op == "again":
                    run = f["run"]
                    v = None
                else:
                    v = run.solutions[op]
                out.append(lib.plain(v))
        return out
    return body


def gen_ops(w, n):
    ops = []
    for _ in range(w.between(1, 8, "reads")):
        k = w.pick(["number", "final", "latest", "default", "last", "all",
                    "names", "count", "again"], "read")
        ops.append(str(w.draw(n, "which")) if k == "number" and n else
                   ("final" if k == "number" else k))
    return ops


def check_read(op, have, want, where):
    sols = want["solutions"]
    n = len(sols)
    fin = want["final_solution"]
    if op == "again":
        return
    if op == "names":
        check(have == sorted(sols), "wrong-names", lambda: f"{where}: {have}")
        return
    if op == "count":
        check(have == n, "wrong-names", lambda: f"{where}: {have}")
        return
    if op == "final":
        exp = fin
    elif op == "latest":
        exp = fin if lib.has_final(want) else sols[str(n - 1)]
    elif op == "default":
        exp = sols["0"]
    elif op == "last":
        exp = sols[str(n - 1)]
    elif op == "all":
        exp = sols
        check(set(have) == set(sols), "wrong-names",
              lambda: f"{where}: {sorted(have)}")
        for k in sols:
            lib.same(have[k], sols[k], "reloads-differently",
                     f"{where}, solution {k}")
        return
    else:
        exp = sols[op]
    lib.same(have, exp, "reloads-differently", where)


def scenario(*methods):
    def run(w):
        c = cases.gen(w, methods=methods)
        if c.method in ("single", "step") and w.draw(4, "many angles") == 3:
            c.row["num_angles"] = str(w.pick([130, 600, 1100, 3000],
                                             "how many angles"))
        mem = c.solve_memory(w)
        path = os.path.join(w.scratch, "r.hdf5")
        label = w.pick(["", "lab", "ünï code"], "label")
        nocache = w.draw(2, "no cache while solving") == 1
        o = c.run_file(w, "cmd", path, label=label,
                       env={"NO_CACHE": "1" if nocache else None})
        cases.expect_like_memory(w, o, mem)
        if mem["status"] != "ok":
            return
        w.nontrivial = True
        want = mem["run"]
        n = len(want["solutions"])
        w.count("attempts", n)
        if not lib.has_final(want) and n == 0:
            return
        check(sorted(want["solutions"], key=int) == [str(k) for k in range(n)],
              "numbering", lambda: str(sorted(want["solutions"])))
        have = lib.stored_run(w, path)
        lib.check_config(have["config_input"], c.row, "wrong-config", "file",
                         label)
        conf = os.path.join(w.scratch, "cmd.cfg")
        check(have["config_filename"] == conf, "wrong-config",
              lambda: f"{have['config_filename']!r}, should be {conf!r}")
        from disc_solver import __version__
        for k, v in (("disc_solver_version", __version__),
                     ("sonic_method", c.method),
                     ("use_E_r", False), ("is_post_shock_only", False),
                     ("float_type", lib.in_process(w, "ft", float_name)),
                     ("based_on_solution_filename", None),
                     ("based_on_solution_solution_name", None)):
            check(have[k] == v, "wrong-metadata",
                  lambda: f"{k} is {have[k]!r}, should be {v!r}")
        lib.check_attempts(have, want, "reloads-differently", "file")
        lib.same(have["final_solution"] if lib.has_final(have) else None,
                 want["final_solution"] if lib.has_final(want) else None,
                 "reloads-differently", "final solution")
        if not n:
            return
        ops = gen_ops(w, n)
        got = lib.in_process(w, "reads", reads(
            path, ops, w.draw(2, "no cache while reading") == 1))
        for k, (op, v) in enumerate(zip(ops, got)):
            check_read(op, v, want, f"read {k} of {ops}: {op}")
    return run


def float_name():
    from disc_solver.float_handling import float_type
    return str(float_type)


PROP = Prop(
    "C07",
    [Scenario("single", scenario("single"), 36),
     Scenario("step", scenario("step", "human"), 36),
     Scenario("unfinished", scenario("unfinished"), 6),
     Scenario("mcmc", scenario("mcmc"), 6),
     Scenario("fast_crosser", scenario("fast_crosser"), 8),
     Scenario("real", scenario("real single", "hydrostatic", "sonic_root"),
              16),
     Scenario("mod_hydro", scenario("mod_hydro"), 1)],
    rule="A run solves one generated input by ds-soln into a file and again "
    "in memory, then reads the file in a tape-chosen order, with caching on "
    "or off; non-trivial when the solve ended (with or without result).",
    real=["ds-soln", "all seven search methods", "h5preserve, h5py, HDF5",
          "CVODE (scenarios real, mod_hydro)"],
    stub=["CVODE results (scripted; other scenarios) and failures",
          "human answers", "random numbers (seeded)",
          "number of angles of the last solve of the fast-crossing search"],
    assumptions=["The run computed in memory by another process from the same "
                 "input, script and random numbers stands for what was "
                 "computed (C21 checks that they agree)."],
)
