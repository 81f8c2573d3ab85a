"""A batch input that fails with a solver error costs only that input."""
import os

from .. import batch, lib
from ..engine import Prop, Scenario
from ..lib import check
from . import c03
from .c01 import gen_csv, runner_argv


def warm():
    import disc_solver.solve.csvrunner  # noqa: F401
    import disc_solver.solve.hdf5runner  # noqa: F401


def run_csv(w, items, method, name="csvrunner", internal=False):
    from disc_solver.solve.csvrunner import main
    inp = os.path.join(w.scratch, name + "_in.csv")
    gen_csv(w, items, inp)
    out = os.path.join(w.scratch, name + ".csv")
    argv = runner_argv(w, inp, out, method)
    if internal:
        argv.append("--store-internal")
    o = lib.run_cmd(w, name, main, argv)
    check(o.ok, "batch-aborted", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    lib.check_pools(w)
    _, header, rows = lib.parse_csv(lib.text_of(out))
    return header, rows


def scripted(method):
    """Failing inputs among good ones; and the good ones again alone."""
    def run(w):
        items = []
        for i in range(w.between(2, 6, "number of inputs")):
            row = lib.gen_row(w, i)
            kind = w.pick(["good", "natural", "scripted"], "kind of input")
            nat, verdicts = None, None
            if kind == "natural":
                nat = w.pick(sorted(batch.NATURAL), "why unsolvable")
                row.update(batch.NATURAL[nat])
                verdicts = ["best"]
            elif kind == "scripted":
                verdicts = batch.gen_verdicts(w, method, False)[:-1] + [
                    "error"]
            else:
                verdicts = batch.gen_verdicts(w, method, False)
            items.append(batch.Item(row, method, verdicts, nat))
        lib.use(batch.scripts(items))
        header, rows = run_csv(w, items, method)
        batch.check_rows(batch.expected_rows(items), rows, header)
        good = [it for it in items if not c03.ends_in_solver_error(it)]
        _, rows2 = run_csv(w, good, method, "goodonly")
        check(rows == rows2, "others-affected",
              lambda: f"{len(rows)} rows, {len(rows2)} without the failing")
        if method == "single" and w.draw(2, "other runner"):
            hdf5(w, items, method)
        w.nontrivial = len(good) < len(items)
    return run


def hdf5(w, items, method):
    w.streams.clear()
    extra = ["--no-store-internal"] if method == "step" else []
    o, outdir, items, label, form = c03.run_batch(w, items, method,
                                                  extra=extra)
    check(o.ok, "batch-aborted", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    lib.check_pools(w)
    c03.check_report(w, items)
    loaded = c03.load_files(w, outdir)
    c03.check_files(w, items, loaded, label, form, method, method != "step")


def hdf5_scripted(w):
    items = batch.gen_batch(w, "step", max_items=4)
    hdf5(w, items, "step")
    w.nontrivial = any(c03.ends_in_solver_error(it) for it in items)


FLAGS = (-1, -2, -3, -4, -5, -6, -7, -8, -9, -10, -11, -12, -20, -21, -22,
         -23, -24, -25, -26, -27)


def gen_plan(w, rows, most=3):
    """Integrator failures at any integration of any input."""
    plan = {}
    for row in rows:
        if not w.draw(3, "integrator fails for this input"):
            continue
        mine = {}
        for _ in range(w.between(1, most, "failing integrations")):
            n = w.draw(6, "which integration")
            f = w.pick(FLAGS, "flag")
            mine[n] = ("fail", f, w.between(0, 20, "points before"))
        plan[row["stop"]] = mine
    return plan


def real(method, sizes, stops):
    """CVODE runs and is made to fail at places; oracle: each input alone."""
    def run(w):
        rows = []
        for i in range(w.between(*sizes, "number of inputs")):
            r = lib.gen_row(w, i, stop=stops[0] + stops[1] * i,
                            angles=w.between(10, 24, "angles"))
            if w.draw(5, "unsolvable") == 4:
                r.update(batch.NATURAL[w.pick(sorted(batch.NATURAL), "why")])
            rows.append(r)
        plan = gen_plan(w, rows)
        policy = lib.ItemFaults(plan)
        lib.use(policy)
        w.note(plan)
        alone = []
        for r in rows:
            a = lib.in_process(w, "alone", lib.memory_solve(
                r, method, store_internal=False, policy=policy))
            check(a["status"] == "ok" or "SolverError" in a["mro"],
                  "not-a-solver-error",
                  lambda: f"integrator failure {plan.get(r['stop'])}: "
                  f"{a['status']}: {a['text']}")
            alone.append(a)
        items = [batch.Item(r, "single") for r in rows]
        header, got = run_csv(w, items, method)
        want = []
        for a in alone:
            if a["status"] == "ok" and a["returned"] and lib.has_final(
                    a["run"]):
                si = a["run"]["final_solution"]["solution_input"]
                d = {k: lib.canonical(k, si[k]) for k in lib.CSV_FIELDS}
                d["interp_slice"] = lib.norm_slice(d["interp_slice"])
                want.append(d)
        batch.check_rows(want, got, header)
        w.nontrivial = bool(plan)
        w.count("inputs", len(rows))
        w.count("inputs failing", len(rows) - len(want))
    return run


PROP = Prop(
    "C04",
    [Scenario("single", scripted("single"), 40),
     Scenario("step", scripted("step"), 40),
     Scenario("hdf5 step", hdf5_scripted, 16),
     Scenario("real single", real("single", (2, 4), (0.5, 0.125)), 24),
     Scenario("hydrostatic", real("hydrostatic", (2, 3), (0.5, 0.125)), 12),
     Scenario("mod_hydro", real("mod_hydro", (2, 2), (0.5, 0.125)), 3),
     Scenario("sonic_root", real("sonic_root", (2, 3), (0.5, 0.125)), 16)],
    rule="A run is one batch (ds-csvrunner, then the same without the failing "
    "inputs; or ds-hdf5runner) in which some inputs are unsolvable or have "
    "the integrator fail at tape-chosen integrations with any CVODE flag; "
    "non-trivial when at least one input was made to fail.",
    real=["ds-csvrunner, ds-hdf5runner", "all solvers but the MCMC and "
          "fast-crossing ones", "CVODE (scenarios real single, hydrostatic, "
          "mod_hydro, sonic_root)", "worker processes"],
    stub=["multiprocessing.Pool (simulated)", "CVODE results in scenarios "
          "single and step", "CVODE failure codes"],
)
