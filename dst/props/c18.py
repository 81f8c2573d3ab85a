"""ds-shock tries every candidate once and isolates failures."""
import errno
import os
from math import degrees

import numpy as np

from .. import lib, shocks, simode, simpool
from .. import world as W
from ..engine import Prop, Scenario
from ..lib import check

FAILS = (-1, -3, -4, -8, -9)


def warm():
    import disc_solver.solve.shock  # noqa: F401


def far_profile(w, n):
    """v_θ at n angles up to the stop angle, and the stop angle."""
    stop = w.pick(["60", "72", "50", "88"], "stop")
    x = [0.0]
    v = [0.0]
    for _ in range(w.between(2, 6, "knots")):
        x.append(x[-1] + w.between(4, 25, "degrees"))
        v.append(w.pick([3.0, 1.0, 0.5, 1.2, 9.5, 10.0, 12.0, 2.0], "v_θ"))
    if w.draw(3, "as it comes") != 2:
        v = [0.0] + sorted(v[1:], reverse=True)     # slows down
    t = np.linspace(0, float(stop), n)
    prof = np.interp(t, x, v)
    hole = None
    if w.draw(5, "NaN") == 4:
        hole = w.draw(n, "where")
        prof[hole] = np.nan
    return stop, prof, hole


def make(w, path):
    """A source of one to three attempts that went far; its run."""
    from disc_solver.solve import main
    n = w.between(12, 31, "angles")
    stop, prof, _ = far_profile(w, n)
    profs = [prof]
    row = lib.gen_row(w, 0, simple=True, stop=stop, angles=n)
    row["γ"] = w.pick(["0.001", "0.002"], "γ")
    row["use_E_r"] = w.pick(["False", "True"], "use_E_r")
    conf = path + ".cfg"
    lib.write_file(conf, lib.conf_text(dict(row, label=w.pick(
        ["sh", "", "a b"], "label"))))

    def pol(call):
        if call.is_taylor:
            return None
        t = call.t
        y = np.tile(np.asarray(call.y0, dtype=float), (len(t), 1))
        x = np.linspace(t[0], t[-1], n)
        y[:, lib.V_TH] = np.interp(t, x, profs[0])
        y[:, lib.RHO] = float(call.y0[lib.RHO]) * np.exp(-t)
        return ("stub", simode.Stub(t, y, rhs_points=[(t[0], y[0])] * 6))
    o = lib.silently(w, "maker", main, lib.soln_argv(
        conf, "single", path, None, True), policy=pol)
    check(o.ok, "cannot-make-source",
          lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    if w.draw(2, "more attempts"):
        more(w, path)
    return lib.stored_run(w, path)


def more(w, path):
    """Further attempts in the file: parts of the first one."""
    n = w.between(1, 2, "how many")
    scale = [w.pick([1.0, 0.5, 2.0], "faster") for _ in range(n)]
    cut = [w.wpick([(0, 3), (3, 1), (9, 1)], "shorter") for _ in range(n)]

    def body():
        import attr
        from h5preserve import open as h5open
        from disc_solver.file_format import registries, Run
        with h5open(path, registries, mode="r") as f:
            old = f["run"]
            first = old.solutions["0"]
            run = Run(config_input=old.config_input,
                      config_filename=old.config_filename,
                      disc_solver_version=old.disc_solver_version,
                      float_type=old.float_type, use_E_r=old.use_E_r,
                      sonic_method=old.sonic_method)
            with h5open(path + "x", registries, mode="x") as g:
                g["run"] = run
                run.solutions["0"] = first
                s = first
                for i in range(n):
                    y = np.array(first.solution)
                    y[:, lib.V_TH] *= scale[i]
                    k = len(y) - cut[i]
                    s = attr.evolve(first, solution=y[:k],
                                    angles=first.angles[:k])
                    run.solutions[str(i + 1)] = s
                run.final_solution = s
        os.replace(path + "x", path)
    lib.in_process(w, "maker", body)


def above(call):
    out = shocks.below(call)
    out.y[-1, lib.V_TH] = 1.5
    return out


def short(call, n):
    out = shocks.below(call)
    return simode.Stub(out.t[:n], out.y[:n], flag=-4, rhs_points=[
        (out.t[0], out.y[0])])


def gen_plan(w, angles):
    plan = {}
    for a in angles:
        plan[round(degrees(float(a)), 4)] = w.wpick([
            ("below", 5), ("above", 2), (("short", w.between(1, 7, "left")), 1),
            (("flag", w.pick(FAILS, "flag"), w.between(1, 8, "left")), 1),
            ("error", 1), ("unexpected", 1)], "how it solves")
    return plan


def policy(plan):
    def pol(call):
        if call.is_taylor:
            return None
        w = W.current()
        key = round(degrees(float(call.t[0])), 4)
        w.record("evaluated", key)
        v = plan.get(key, "below")
        if v == "below":
            return ("stub", shocks.below(call))
        if v == "above":
            return ("stub", above(call))
        if v == "error":
            return ("fail", lib.SOLVER_ERROR_FLAG, 0)
        if v == "unexpected":
            return ("raise", RuntimeError("made up"))
        if v[0] == "short":
            return ("stub", short(call, min(v[1], len(call.t))))
        # (a real integration)
        return ("fail", v[1], min(v[2], len(call.t)))
    return pol


def chosen(run, which):
    """The solution the user chose."""
    if which is None:
        return run["solutions"]["0"]
    if which == "latest":
        which = "final"      # all our sources have a final solution
    if which == "final":
        return run["final_solution"]
    return run["solutions"][which]


def candidates(s):
    a, y = s["angles"], s["solution"]
    v = y[:, lib.V_TH]
    with np.errstate(all="ignore"):
        top = a[int(np.nanargmax(v))]
        ok = (v > 1) & (v < 10) & (a > np.radians(40)) & (a > top)
    return a[ok], y[ok]


class SaveFaults:
    """The k-th saves or plots of a process fail."""

    def __init__(self, w, kinds, plan):
        self.w = w
        self.kinds = kinds
        self.plan = plan
        self.seen = 0
        self.fired = []

    def __call__(self, actor, kind, detail):
        if not actor.startswith("shock/") or kind not in self.kinds:
            return None
        if kind == "h5.open" and not detail.rsplit(" ", 1)[1] in (
                "x", "w", "w-", "a"):
            return None
        self.seen += 1
        if self.seen - 1 in self.plan:
            self.fired.append((actor, kind, detail))
            return ("oserror", errno.ENOSPC)
        return None


def one(w):
    src = os.path.join(w.scratch, w.pick(["src.hdf5", "my src.h5"], "name"))
    run = make(w, src)
    which = w.pick(["0", None, "final", "latest"] + sorted(run["solutions"]),
                   "solution")
    s = chosen(run, which)
    if not np.any(np.isfinite(s["solution"][:, lib.V_TH])):
        return
    angles, values = candidates(s)
    keys = [round(degrees(float(a)), 4) for a in angles]
    plan = gen_plan(w, angles)
    w.note((which, sorted(plan.items())))
    lib.use(policy(plan))
    kind = w.wpick([(None, 3), ("save", 2), ("plot", 2), ("directory", 1)],
                   "what goes wrong")
    hook = None
    if kind == "save":
        hook = SaveFaults(w, w.pick([("h5.write",), ("h5.open",),
                                     ("h5.close",)], "operation"),
                          {w.draw(w.pick([3, 40, 300], "late"), "which")
                           for _ in range(2)})
    elif kind == "plot":
        hook = SaveFaults(w, (shocks.SAVED,), {w.draw(4, "which")
                                               for _ in range(2)})
    simpool.DEFAULT_WORKERS = w.between(1, 3, "cpus")
    argv = w.pick([[], ["-n", "1"], ["-n", "2"], ["-n", "4"]], "workers")
    before = lib.snapshot(w.scratch)
    outdir = os.path.join(w.scratch, "shock_tests")
    if kind == "directory":
        run_it = lib.run_cmd
    w.hook = hook
    arg = src if w.draw(2, "relative path") == 0 else os.path.basename(src)
    if kind == "directory":
        from disc_solver.solve.shock import shock_main
        o = run_it(w, "shock", shock_main, [arg, which or "0"] + argv,
                   cwd=w.scratch, pre=shocks.cheap_plots)
    elif which is None:
        os.mkdir(outdir)
        from disc_solver.solve.shock import shock_main
        o = lib.run_cmd(w, "shock", shock_main, [arg, "0"] + argv,
                        cwd=w.scratch, pre=shocks.cheap_plots)
    else:
        o = shocks.run(w, "shock", arg, argv, which)
    w.hook = None
    lib.check_pools(w)
    check(o.ok, "failed", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    after = lib.snapshot(w.scratch)
    lib.check_untouched(w, before, after, "source-changed")
    judge(w, run, s, which or "0", arg, angles, values, keys, plan,
          set(after) - set(before), hook, kind)


def judge(w, run, s, which, arg, angles, values, keys, plan, new, hook, kind):
    # pylint: disable=too-many-arguments,too-many-locals
    left = {k: int((s["angles"] >= a).sum()) for k, a in zip(keys, angles)}
    solvable = [k for k in keys if left[k] >= 2]
    ev = sorted(r[2] for r in w.records("evaluated"))
    check(ev == sorted(solvable), "evaluations",
          lambda: f"evaluated {ev}, candidates {sorted(solvable)}")
    w.count("candidates", len(keys))
    w.nontrivial = len(keys) > 1
    err = w.output("shock", 2)
    files = {}
    broken = []
    for p in sorted(new):
        if not p.endswith(".hdf5"):
            continue
        got = lib.in_process(w, "reader", lib.load_or_why(p))
        if got[0] != "run" or not lib.has_final(got[1]):
            broken.append(p)
            continue
        run2 = got[1]
        check(sorted(run2["solutions"]) == ["0"], "not-one-solution", p)
        first = float(run2["final_solution"]["angles"][0])
        key = round(degrees(first), 4)
        check(key in keys, "not-a-candidate", lambda: f"{p}: {key}")
        check(key not in files, "twice", lambda: f"{p}: {key}")
        files[key] = (p, run2)
    faulty = len(hook.fired) if hook and kind == "save" else 0
    check(len(broken) <= faulty, "broken-file", lambda: str(broken))
    missing = 0
    failures = 0
    for k, a, y in zip(keys, angles, values):
        v = plan[k]
        n = left[k]
        if n < 2 or v in ("error", "unexpected"):
            failures += 1
            check(k not in files, "file-of-failed-evaluation", str(k))
            continue
        if isinstance(v, tuple):
            n = min(n, v[-1])
        if n < 5:
            check(k not in files, "file-of-short-evaluation", str(k))
            continue
        if k not in files:
            if isinstance(v, tuple) and v[0] == "flag":
                continue     # a real integration that got nowhere
            missing += 1
            continue
        check_file(w, run, s, which, arg, files[k], k, a, y, v)
    if kind == "directory":
        check(not files and not broken, "where", lambda: str(files))
        failures += missing
    else:
        # (saving may also fail after all was written)
        check(missing <= faulty, "result-lost",
              lambda: f"{missing} of {keys} have no file, {faulty} failures "
              f"to save; standard error:\n{err[-2000:]}")
        failures += faulty
    plots = len(hook.fired) if hook and kind == "plot" else 0
    failures += plots
    w.count("failed evaluations", failures)
    w.count("files", len(files))
    shown = err.count("START TB")
    check(shown == err.count("END TB"), "report-torn", err[-2000:])
    wild = sum(isinstance(plan[k], tuple) and plan[k][0] == "flag"
               for k in keys)
    check(failures <= shown <= failures + wild, "failures-shown",
          lambda: f"{failures} failures, {shown} shown:\n{err[-3000:]}")
    # what is announced
    out = w.output("shock")
    said = [x for x in out.splitlines() if x.startswith("New plot")]
    ok = 0
    for k, (p, _) in files.items():
        name = os.path.basename(p)
        mine = [x for x in said if x.endswith(name)]
        check(len(mine) <= 1, "announced-twice", lambda: str(mine))
        png = p[:-5] + ".png"
        if mine:
            ok += 1
            check(os.path.exists(png), "no-plot", png)
    check(len(said) == ok, "announced-without-file",
          lambda: f"{said} but {sorted(files)}")
    check(len(files) - ok <= plots + faulty, "not-announced",
          lambda: f"{len(files)} files, {said}")


def check_file(w, run, s, which, arg, pair, k, a, y, v):
    # pylint: disable=too-many-arguments
    path, new = pair
    where = f"{w.rel(path)} ({k}°)"
    check(new["is_post_shock_only"] is True and
          new["final_solution"]["is_post_shock_only"] is True,
          "not-flagged", where)
    check(new["based_on_solution_filename"] == arg and
          new["based_on_solution_solution_name"] == which, "provenance",
          lambda: f"{where}: {new['based_on_solution_filename']!r} "
          f"{new['based_on_solution_solution_name']!r}")
    for f in ("config_input", "config_filename", "use_E_r", "sonic_method",
              "float_type"):
        lib.same(new[f], run[f], "run-changed", f"{where}: {f}")
    fin = new["final_solution"]
    lib.same(fin, new["solutions"]["0"], "final-not-the-attempt", where)
    check(float(fin["angles"][0]) == float(a), "start-angle", where)
    want = np.array(y)
    want[lib.V_TH] = 1 / y[lib.V_TH]
    want[lib.RHO] = y[lib.RHO] * y[lib.V_TH] ** 2
    have = np.asarray(fin["solution"][0])
    check(np.allclose(have, want, rtol=1e-12, atol=0), "jump-conditions",
          lambda: f"{where}: starts at {have}, should be {want}")
    rest = s["angles"][s["angles"] >= a]
    n = len(fin["angles"])
    check(np.array_equal(fin["angles"], rest[:n]) and
          len(fin["solution"]) == n, "angles", where)
    if not isinstance(v, tuple):
        check(n == len(rest), "angles", where)
    si, old = fin["solution_input"], s["solution_input"]
    for f in lib.CSV_FIELDS:
        if f in ("use_taylor_jump", "jump_before_sonic", "v_θ_sonic_crit",
                 "after_sonic", "interp_range", "interp_slice",
                 "sonic_interp_size"):
            continue
        check(lib.same_setting(f, lib.canonical(f, si[f]),
                               lib.canonical(f, old[f])), "input-changed",
              lambda: f"{where}: {f} {si[f]!r}, was {old[f]!r}")
    check(si["use_taylor_jump"] is False, "input-changed", where)


PROP = Prop(
    "C18",
    [Scenario("shock", one, 130)],
    rule="A run is one ds-shock on a made-up source (profiles with several "
    "peaks, values at the limits, NaN, one to three attempts), its "
    "evaluations solving, stopping early or failing, with failing saves and "
    "plots and one to four workers; non-trivial with at least two "
    "candidates.",
    real=["ds-shock", "assembly of solutions", "result files",
          "worker processes", "making of plots"],
    stub=["CVODE results (scripted)", "rendering of plots",
          "multiprocessing.Pool (simulated)", "disk errors"],
)
