"""ds-shock: sources to start from, and scripted evaluations."""
import os
from math import degrees

import numpy as np

from . import lib, simode

STOP = "60"
ANGLES = 31      # every two degrees
SAVED = "plot.save"


def peak(call):
    """Crosses v_θ = 1 at 20°, peaks at 42° and falls to 1.1 at 60°."""
    t = np.degrees(call.t)
    y = np.tile(np.asarray(call.y0, dtype=float), (len(t), 1))
    v = np.interp(t, [0, 20, 42, 50, 60], [0, 1.05, 3.0, 2.0, 0.9])
    y[:, lib.V_TH] = v
    y[:, lib.RHO] = float(call.y0[lib.RHO]) * np.exp(-t / 30)
    return simode.Stub(call.t, y, rhs_points=[(call.t[0], y[0])])


def make(w, path, internal=True):
    """A source with candidates at 44° to 58°; its run."""
    from disc_solver.solve import main
    row = lib.gen_row(w, 0, simple=True, stop=STOP, angles=ANGLES)
    row["use_taylor_jump"] = "True"
    conf = path + ".cfg"
    lib.write_file(conf, lib.conf_text(dict(row, label="sh")))

    def pol(call):
        return None if call.is_taylor else ("stub", peak(call))
    o = lib.silently(w, "maker", main, lib.soln_argv(
        conf, "single", path, None, internal), policy=pol)
    lib.check(o.ok, "cannot-make-source",
              lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    return lib.stored_run(w, path)


def candidates(run, which):
    """Angles (radians) and values ds-shock should try, by its rule."""
    s = run["final_solution"] if which == "final" else run["solutions"][which]
    a, y = s["angles"], s["solution"]
    v = y[:, lib.V_TH]
    top = a[int(np.nanargmax(v))]
    ok = (v > 1) & (v < 10) & (a > np.radians(40)) & (a > top)
    return a[ok], y[ok]


def worth(w, src, which="0"):
    """How many candidates leave at least five angles to solve."""
    run = lib.stored_run(w, src)
    a, _ = candidates(run, which)
    every = run["solutions"]["0"]["angles"]
    return sum(int((every >= x).sum()) >= 5 for x in a)


def below(call):
    """A post-shock solution staying below the sonic speed."""
    s = np.linspace(0, 1, len(call.t))
    y = np.tile(np.asarray(call.y0, dtype=float), (len(s), 1))
    y[:, lib.V_TH] = float(call.y0[lib.V_TH]) * (1 - 0.5 * s)
    y[:, lib.RHO] = float(call.y0[lib.RHO]) * np.exp(-s)
    return simode.Stub(call.t, y, rhs_points=[(call.t[0], y[0])])


def policy(plan):
    """plan: {rounded start angle in degrees: directive}"""
    def pol(call):
        if call.is_taylor:
            return None
        return plan.get(round(degrees(float(call.t[0])), 4),
                        ("stub", below(call)))
    return pol


def cheap_plots():
    """Plots are drawn but not rendered; saving one is a point."""
    from matplotlib.figure import Figure
    from . import world as W

    def savefig(self, fname, *a, **k):
        # pylint: disable=unused-argument
        w = W.current()
        w.point(SAVED, w.rel(os.fspath(fname)))
        with open(fname, "wb") as f:
            f.write(b"plot")
    Figure.savefig = savefig


def run(w, name, src, argv, which=None, real_plots=False):
    from disc_solver.solve.shock import shock_main
    os.makedirs(os.path.join(w.scratch, "shock_tests"), exist_ok=True)
    return lib.run_cmd(w, name, shock_main, [src, which or "0"] + list(argv),
                       cwd=w.scratch, pre=None if real_plots else cheap_plots)
