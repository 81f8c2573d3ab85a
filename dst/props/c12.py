"""A solve command succeeds exactly when it stored a solution."""
import errno
import os

from .. import cases, lib
from ..engine import Prop, Scenario
from ..lib import check


def warm():
    import disc_solver.solve.resolve  # noqa: F401


def judge(w, o, path, mem, what, faulty=False):
    out = w.output(what)
    lines = out.splitlines()
    printed = [x for x in lines if x.endswith(path)]
    have = None
    if os.path.exists(path):
        have = lib.in_process(w, "reader", lib.load_or_why(path))
    ok = o.kind == "return" and not o.code
    roots = [r[2] for r in w.records("root") if r[0] == what]
    if ok:
        w.count("succeeded")
        check(printed, "name-not-printed",
              lambda: f"{what} succeeded, its output was {out!r}")
        check(have is not None and have[0] == "run", "success-without-file",
              lambda: f"{what} succeeded, but its file: {have and have[1]}")
        run = have[1]
        check(lib.has_final(run), "success-without-solution",
              lambda: f"{what} succeeded: {run['final_solution']!r}")
        check(any(not lib.differences(run["final_solution"], s)
                  for s in run["solutions"].values()),
              "final-not-an-attempt", what)
        check(all(roots), "success-without-convergence",
              lambda: f"{what}: the root solver reported {roots}")
    else:
        w.count("failed")
        w.nontrivial = True
        check(o.kind in ("return", "raise"), "unexpected-end", repr(o))
        if o.kind == "raise":
            check(not printed, "name-printed",
                  lambda: f"{what} failed with {o!r}, but printed {out!r}")
    if roots and not roots[-1] and not faulty:
        check(o.kind == "return" and o.code == 1, "wrong-status",
              lambda: f"{what}: the root search did not converge: {o!r}")
        check(have[0] == "run" and lib.has_final(have[1]) and
              not lib.differences(
                  have[1]["final_solution"],
                  have[1]["solutions"][max(have[1]["solutions"], key=int)]),
              "last-attempt-not-kept", what)
    if not faulty:
        cases.expect_like_memory(w, o, mem, what)


def one(methods):
    def run(w):
        case = cases.gen(w, methods=methods)
        w.note((case.method, dict(case.row)))
        mem = case.solve_memory(w)
        for k in range(2):
            if k and w.draw(2, "one command only"):
                break
            path = os.path.join(w.scratch, f"out{k}.hdf5")
            fault = None
            if w.draw(5, "disk error") == 4:
                fault = lib.OnePoint(
                    lambda a, kind, d: kind in ("h5.write", "h5.close"),
                    w.draw(w.pick([8, 60, 300], "late"), "which operation"),
                    ("exc", OSError(errno.ENOSPC,
                                      "No space left on device (injected)")))
            if w.draw(2, "ds-resoln"):
                src = os.path.join(w.scratch, f"src{k}.hdf5")
                case.source(w, src)
                w.hook = fault
                name = f"resoln{k}"
                o = case.run_resolve(w, name, path, src)
            else:
                w.hook = fault
                name = f"soln{k}"
                o = case.run_file(w, name, path)
            w.hook = None
            judge(w, o, path, mem, name,
                  faulty=fault is not None and fault.fired is not None)
            w.count(f"method {case.method}")
    return run


def unsolvable(w):
    """Inputs no method can solve."""
    from .. import batch
    case = cases.gen(w, methods=("single", "step", "mcmc", "fast_crosser",
                                 "real single"))
    case.row.update(batch.NATURAL[w.pick(sorted(batch.NATURAL), "why")])
    mem = case.solve_memory(w)
    path = os.path.join(w.scratch, "out.hdf5")
    o = case.run_file(w, "soln", path)
    judge(w, o, path, mem, "soln")


PROP = Prop(
    "C12",
    [Scenario("scripted", one(("single", "step", "human", "unfinished")), 50),
     Scenario("mcmc", one(("mcmc",)), 10),
     Scenario("fast_crosser", one(("fast_crosser",)), 8),
     Scenario("real", one(("real single", "hydrostatic", "sonic_root")), 20),
     Scenario("mod_hydro", one(("mod_hydro",)), 2),
     Scenario("unsolvable", unsolvable, 16)],
    rule="A run is one or two ds-soln or ds-resoln commands with one method, "
    "scripted verdicts or a real integration with failures, now and then a "
    "disk error; non-trivial when a command did not succeed.",
    real=["ds-soln, ds-resoln", "all search methods", "result files",
          "scipy's root solver (its verdict is recorded)"],
    stub=["CVODE results of scripted methods", "disk errors",
          "the human (scenario scripted)"],
)
