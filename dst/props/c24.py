"""What analyses show is the solution that was asked for."""
import csv
import os

import numpy as np

from .. import analysis, cases, lib, simode
from ..engine import Prop, Scenario
from ..lib import check

B_R, B_PHI, B_TH, V_R, V_PHI, V_TH, RHO = 0, 1, 2, 3, 4, 5, 6
B_PHI_PRIME = 7
FIGURES = ("plot", "compare", "combine", "diverge", "conserve", "derivs",
           "params", "v_deriv", "sonic_ratio", "surface", "vert", "taylor",
           "flow_plot", "acc", "phys_ratio")
# what these compute is not known here, but which of it they show
COMPUTED = ("component", "j_e", "validate", "hydro_check", "eigenvalues",
            "eigenvectors", "eigennorm", "eigencoef")
NEEDS_INTERNAL = ("derivs", "params", "v_deriv", "taylor", "validate",
                  "hydro_check")
WAVES = ("--with-slow", "--with-alfven", "--with-fast")
# the speed of Earth around the sun, in cm/s
KEPLER = np.sqrt(6.6743e-8 * 1.989e33 / 1.495978707e13)


def warm():
    analysis.warm()


# ------------------------------------------------------------ sources
def wavy(w, path, i):
    """A result file whose speeds go up and down."""
    case = cases.gen(w, "single", i=i)
    levels = [0.05, 0.4, 0.8, 0.95, 1.02, 1.3, 2.5, 6.0]
    n = int(case.row["num_angles"])
    speeds = [w.pick(levels, "speed") for _ in range(n)]
    density = [w.pick([1.0, 0.3, 0.05], "density") for _ in range(n)]
    fields = [w.pick([0.0, 0.1, -0.4, 2.0], "field") for _ in range(n)]
    roots = w.draw(2, "found roots")

    def pol(call):
        if call.is_taylor:
            return None
        m = len(call.t)
        y = np.tile(np.asarray(call.y0, dtype=float), (m, 1))
        y[:, V_TH] = speeds[:m]
        y[:, RHO] = density[:m]
        y[:, B_PHI] = fields[:m]
        y[:, B_R] = fields[:m][::-1]
        y[:, V_R] = -1 - 0.1 * np.arange(m)
        return ("stub", simode.Stub(
            call.t, y, root=bool(roots and call.has_root), rhs_points=[
                (call.t[k], y[k]) for k in range(min(5, m))]))
    with lib.quiet(w):
        conf = path + ".cfg"
        lib.write_file(conf, lib.conf_text(dict(case.row, label="wavy")))
        from disc_solver.solve import main
        lib.silently(w, f"maker{i}", main, lib.soln_argv(
            conf, "single", path, None, True), policy=pol)


def sources(w):
    out = {}
    for k in range(w.between(1, 3, "result files")):
        kind = w.pick(["wavy", "wavy", "step", "step", "real", "single",
                       "unfinished", "far"], "kind of source")
        path = os.path.join(w.scratch, f"file{k}.hdf5")
        if kind == "wavy":
            wavy(w, path, k)
        elif kind == "far":
            from .. import shocks
            shocks.make(w, path)
        elif kind == "real":
            row = lib.gen_row(w, k, stop="1", angles=w.between(
                10, 16, "angles"))
            lib.make_source(w, path, row, ["real"], name=f"maker{k}")
        else:
            case = cases.gen(w, kind, i=k)
            with lib.quiet(w):
                case.run_file(w, f"maker{k}", path)
        got = lib.in_process(w, "reader", lib.load_or_why(path))
        if got[0] == "run" and got[1]["solutions"]:
            out[path] = got[1]
    return out


def chosen(run, name):
    """The solution of that name, or None."""
    if name == "final" or name == "latest":
        if lib.has_final(run):
            return run["final_solution"]
        if name == "final":
            return None
        return run["solutions"][str(max(map(int, run["solutions"])))]
    return run["solutions"].get(name)


# ------------------------------------------------------ what is expected
def option(call, name, default=None):
    out = default
    for o, v in call.options:
        if o == name:
            out = v if v is not None else True
    return out


def within(call, angles):
    d = np.degrees(angles)
    return ((float(option(call, "--start", "0")) <= d) &
            (d <= float(option(call, "--stop", "90"))))


def wave_speeds(y):
    b2 = y[:, B_R] ** 2 + y[:, B_PHI] ** 2 + y[:, B_TH] ** 2
    a2 = b2 / (4 * np.pi * y[:, RHO])
    cos2 = y[:, B_TH] ** 2 / b2
    with np.errstate(all="ignore"):
        root = np.sqrt((a2 + 1) ** 2 - 4 * a2 * cos2)
        return {"--with-slow": np.sqrt((a2 + 1 - root) / 2),
                "--with-alfven": np.sqrt(a2 * cos2),
                "--with-fast": np.sqrt((a2 + 1 + root) / 2),
                "--with-sonic": np.ones(len(y))}


def offset(s):
    return np.sqrt(float(s["initial_conditions"]["norm_kepler_sq"]))


def split(x, y):
    """Positive and negative values are drawn as separate lines."""
    pos = y >= 0
    return [(x[pos], y[pos]), (x[~pos], -y[~pos])]


def plot(call, solns):
    (_, s), = solns
    a, y = s["angles"], np.array(s["solution"])
    keep = within(call, a)
    out = {}
    y[:, V_PHI] -= offset(s)
    for i in range(8):
        out[i] = [(np.degrees(a[keep]), y[keep, i])]
        if s["sonic_point"] is not None and not option(
                call, "--hide-sonic-angle"):
            v = np.array(s["sonic_point_values"], dtype=float)
            v[V_PHI] -= offset(s)
            out[i].append((np.degrees([s["sonic_point"]]), v[i:i + 1]))
        if s["t_roots"] is not None and not option(call, "--hide-roots"):
            v = np.array(s["y_roots"], dtype=float)
            v[:, V_PHI] -= offset(s)
            out[i].append((np.degrees(s["t_roots"]), v[:, i]))
    speeds = wave_speeds(s["solution"])
    for o in speeds:
        if option(call, o):
            out[V_TH].append((np.degrees(a[keep]), speeds[o][keep]))
    return out


def compare(call, solns):
    out = {i: [] for i in range(8)}
    for _, s in solns:
        y = np.array(s["solution"])
        y[:, V_PHI] -= offset(s)
        keep = within(call, s["angles"])
        for i in out:
            out[i].append((np.degrees(s["angles"][keep]), y[keep, i]))
    return out


def combine(call, solns):
    (_, s), = solns
    inp = s["solution_input"]
    a, y = s["angles"], s["solution"]
    keep = within(call, a)
    speeds = wave_speeds(y)
    c_s = float(inp["c_s_on_v_k"]) * KEPLER
    b = float(inp["v_a_on_c_s"]) * c_s * 2 * np.sqrt(np.pi * 1.5e-9)
    km = c_s / 1e5
    x = np.degrees(a[keep])
    out = {0: [(x, y[keep, V_R] * km),
               (x, (y[keep, V_PHI] - offset(s)) * km),
               (x, y[keep, V_TH] * km)],
           1: [(x, y[keep, RHO] * 1.5e-9)],
           2: [(x, y[keep, i] * b) for i in (B_R, B_PHI, B_TH)]}
    for o in speeds:
        if option(call, o):
            out[0].append((x, speeds[o][keep] * km))
    return out


def diverge(call, solns):
    out = []
    for _, s in solns:
        keep = within(call, s["angles"])
        x = np.degrees(s["angles"][keep])
        out.append((x, s["solution"][keep, V_TH]))
        speeds = wave_speeds(s["solution"])
        for o in WAVES:
            if option(call, o):
                out.append((x, speeds[o][keep]))
    return {0: out}


def conserve(call, solns):
    out = []
    for _, s in solns:
        keep = within(call, s["angles"])
        y = s["solution"][keep]
        out.append((np.degrees(s["angles"][keep]), y[:, RHO] * y[:, V_TH]))
    return {0: out}


def internal(what):
    def fn(call, solns):
        (_, s), = solns
        d = s["internal_data"]
        keep = within(call, d["angles"])
        x = np.degrees(d["angles"][keep])
        v = d[what][keep]
        if what == "derivs" and option(call, "--nolog"):
            return {i: [(x, v[:, i])] for i in range(8)}
        return {i: split(x, v[:, i]) for i in range(8)}
    return fn


def v_deriv(call, solns):
    out = []
    for _, s in solns:
        d = s["internal_data"]
        keep = within(call, d["angles"])
        out.append((np.degrees(d["angles"][keep]), d["derivs"][keep, V_TH]))
    return {0: out}


def sonic_ratio(call, solns):
    out = {0: [], 1: []}
    for _, s in solns:
        keep = within(call, s["angles"])
        speeds = wave_speeds(s["solution"])
        for i, o in enumerate(("--with-alfven", "--with-fast")):
            out[i].append((np.degrees(s["angles"][keep]), np.abs(
                s["solution"][:, V_TH] / speeds[o])[keep]))
    return out


def surface(call, solns):
    (_, s), = solns
    keep = within(call, s["angles"])
    return {0: [(np.degrees(s["angles"][keep]),
                 np.cumsum(s["solution"][:, RHO])[keep])]}


def vert(call, solns):
    """At constant cylindrical radius, in cylindrical components."""
    (_, s), = solns
    inp = s["solution_input"]
    γ, ratio = float(inp["γ"]), float(inp["c_s_on_v_k"])
    a, y = s["angles"], s["solution"]
    h = np.tan(a) / ratio
    keep = ((float(option(call, "--start", "0")) <= h) &
            (h <= float(option(call, "--stop", "90"))))
    r = np.sqrt(1 + h ** 2)
    v, b = r ** -0.5, r ** (γ - 1.25)
    sin, cos = np.sin(a), np.cos(a)
    cols = [b * (y[:, B_R] * cos - y[:, B_TH] * sin),
            b * y[:, B_PHI],
            b * (y[:, B_TH] * cos + y[:, B_R] * sin),
            v * (y[:, V_R] * cos - y[:, V_TH] * sin),
            v * (y[:, V_PHI] - offset(s)),
            v * (y[:, V_TH] * cos + y[:, V_R] * sin),
            r ** (2 * γ - 1.5) * y[:, RHO],
            b * y[:, B_PHI_PRIME]]
    out = {i: [(h[keep], c[keep])] for i, c in enumerate(cols)}
    if option(call, "--with-sonic"):
        out[V_TH].append((h[keep], np.ones(keep.sum())))
    return out


def taylor(call, solns):
    (_, s), = solns
    d = s["internal_data"]
    x = np.degrees(d["angles"])
    out = {}
    for i, n in enumerate(("v_r", "v_φ", "ρ")):
        a, b = d[n + "_normal"], d[n + "_taylor"]
        if option(call, "--show-values"):
            out[i] = split(x, a) + split(x, b)
        else:
            with np.errstate(all="ignore"):
                out[i] = [(x, np.abs(a / b))]
    return out


def phys_ratio(call, solns):
    """Radii from 0.1 to 100."""
    out = {0: [], 1: []}
    for _, s in solns:
        keep = within(call, s["angles"])
        y, cons = s["solution"][keep], s["initial_conditions"]
        γ = float(cons["γ"])
        x = [float(cons["η_A"]) / float(s["solution_input"]["c_s_on_v_k"])]
        lost = y[-1, RHO] * y[-1, V_TH] * (
            100 ** (2 * γ) - 0.1 ** (2 * γ)) / (2 * γ)
        from scipy.integrate import simpson
        gained = -simpson(y=y[:, RHO] * y[:, V_R],
                          x=s["angles"][keep]) * (
            0.1 ** (2 * γ - 1) - 100 ** (2 * γ - 1))
        out[0].append((x, [float(cons["a_0"]) / np.sum(y[:, RHO])]))
        out[1].append((x, [lost / gained]))
    return out


EXPECTED = {"phys_ratio": phys_ratio, "plot": plot, "compare": compare, "combine": combine,
            "diverge": diverge, "conserve": conserve,
            "derivs": internal("derivs"), "params": internal("params"),
            "v_deriv": v_deriv, "sonic_ratio": sonic_ratio,
            "surface": surface, "vert": vert, "taylor": taylor}


# ------------------------------------------------------------ flow lines
class Flow:
    """
    A line that follows a field from a position, with steps of one length
    along the direction at the next angle of the solution.
    """

    def __init__(self, s, r, th, start, steps, length):
        self.a = s["angles"]
        self.r, self.th = s["solution"][:, r], s["solution"][:, th]
        self.start, self.steps, self.length = start, steps, length

    def direction(self, pos):
        here = np.arctan2(pos[1], pos[0])
        k = int(np.searchsorted(self.a, here))
        if k >= len(self.a):
            return None
        d = np.arctan2(self.th[k], self.r[k]) + here
        return np.array([np.cos(d), np.sin(d)])

    def points(self):
        """The points inside the solution; whether it ends there."""
        pos = np.array(self.start, dtype=float)
        out = []
        for _ in range(self.steps):
            d = self.direction(pos)
            if d is None:
                return out, True
            out.append((d, pos))
            pos = pos + self.length * d
        return out, False

    def check(self, rows, where):
        want, ends = self.points()
        rows = np.array(rows, dtype=float).reshape(-1, 4)
        n = len(want)
        check(len(rows) >= n and (ends or len(rows) == n) and
              len(rows) <= self.steps, "wrong-flow-line",
              lambda: f"{where}: {len(rows)} points, {n} expected"
              f"{' before the end of the solution' if ends else ''}")
        for k, (d, pos) in enumerate(want):
            check(np.allclose(rows[k], [*d, *pos], rtol=1e-9, atol=1e-12),
                  "wrong-flow-line", lambda: f"{where}: point {k} is "
                  f"{rows[k]}, should be {d} {pos}")
        top = self.a[-1]
        for row in rows[n:]:
            check(np.arctan2(row[3], row[2]) <= top + 1e-12,
                  "wrong-flow-line",
                  lambda: f"{where}: {row} lies outside the solution")


def flows(call, s):
    v = option(call, "--v-start-position", ("2", ".1"))
    return {
        "v.txt": Flow(s, V_R, V_TH, [float(x) for x in v],
                      int(option(call, "--v-max-steps")),
                      float(option(call, "--v-step-scaling", "1e-6"))),
        "b.txt": Flow(s, B_R, B_TH, [1.0, 0.0],
                      int(option(call, "--B-max-steps")), 1e-3),
    }


def check_flow_files(call, s, r, where):
    tables = {}
    for f, b in r["files"].items():
        lines = [x for x in b.decode().splitlines() if x[:1] != "#"]
        tables[f] = list(csv.reader(lines))
    check(set(tables) == {"s.txt", "v.txt", "b.txt"}, "wrong-files",
          lambda: f"{where}: {sorted(tables)}")
    for f, flow in flows(call, s).items():
        letter = f[0].upper() if f[0] == "b" else f[0]
        check(tables[f][0] == [letter + "_x", letter + "_y", "x", "y"],
              "wrong-header", lambda: f"{where}: {tables[f][0]}")
        flow.check(tables[f][1:], f"{where} {f}")
    header, values = tables["s.txt"]
    have = dict(zip(header, values))
    check(np.isclose(float(have["max_soln_angle"]), max(s["angles"])),
          "wrong-value", lambda: f"{where}: {have}")
    for name, key in (("slow", "slow_angle"), ("sonic", "sonic_angle"),
                      ("alfven", "alfven_angle"), ("fast", "fast_angle")):
        check_critical(s, name, have[key], where)


# ------------------------------------------------------- critical points
def mach(s, name):
    y = s["solution"]
    if name == "sonic":
        return y[:, V_TH]
    with np.errstate(all="ignore"):
        return np.abs(y[:, V_TH]) / wave_speeds(y)["--with-" + name]


def critical(s, name):
    """Where the speed is first that of the wave: (angle, sure)."""
    m = mach(s, name)
    if not np.all(np.isfinite(m)):
        return None, False
    if not np.any(m > 1):
        return None, True
    side = m[0] > 1
    k = int(np.argmax((m <= 1) if side else (m >= 1)))
    if m[0] == 1:
        return s["angles"][0], True
    if k == 0:
        return None, True         # always above
    a0, a1 = s["angles"][k - 1], s["angles"][k]
    m0, m1 = m[k - 1], m[k]
    # (too close to tell)
    sure = min(abs(m - 1)) > 1e-9
    return a0 + (1 - m0) / (m1 - m0) * (a1 - a0), sure


def check_critical(s, name, text, where):
    want, sure = critical(s, name)
    if not sure:
        return
    have = None if text in ("", "None") else float(text)
    check((have is None) == (want is None) and (
        want is None or np.isclose(have, want, rtol=1e-9, atol=1e-12)),
        "wrong-critical-point",
        lambda: f"{where}: {name} point {have}, should be {want} "
        f"(angles {s['angles']}, Mach numbers {mach(s, name)})")


# ----------------------------------------------------------------- tables
def pairs(text):
    out = {}
    for line in text.splitlines():
        k, colon, v = line.partition(":")
        if colon:
            out.setdefault(k.strip(), v.strip())
    return out


def check_info(call, run, s, printed, path, where):
    have = pairs(printed)

    def is_(key, want):
        check(have.get(key) == str(want), "wrong-value",
              lambda: f"{where}: {key} is {have.get(key)!r}, should be "
              f"{want!r}")
    if call.extra == "run":
        is_("filename", path)
        is_("label", run["config_input"]["label"])
        is_("config filename", run["config_filename"])
        is_("sonic method", run["sonic_method"])
        is_("DiscSolver version", run["disc_solver_version"])
        is_("using E_r", run["use_E_r"])
        is_("number of solutions", len(run["solutions"]))
        values(have, run["config_input"], where, but=("label",))
    elif call.extra == "solutions":
        names = printed.split()
        check(sorted(names) == sorted(run["solutions"]), "wrong-value",
              lambda: f"{where}: {names}")
    elif call.extra == "status":
        for key, what in (("Has internal data", "internal_data"),
                          ("Has derivatives", "derivatives"),
                          ("Has t_roots", "t_roots"),
                          ("Has y_roots", "y_roots")):
            is_(key, s[what] is not None)
        check(str(s["flag"]) in have.get("ODE return flag", "") or
              "ODE return flag" in have, "wrong-value", where)
    elif call.extra == "input":
        values(have, s["solution_input"], where)
    elif call.extra == "initial-conditions":
        values(have, {k: v for k, v in s["initial_conditions"].items()
                      if np.ndim(v) == 0 and not isinstance(v, dict)}, where)
    elif call.extra == "sonic-points":
        for name, key in (("slow", "slow sonic point"),
                          ("sonic", "sonic point"),
                          ("alfven", "alfven sonic point"),
                          ("fast", "fast sonic point")):
            check(key in have, "wrong-value", lambda: f"{where}: no {key}")
            check_critical(s, name, have[key], where)
    elif call.extra == "crosses-points":
        got = {n: critical(s, n) for n in ("fast", "alfven", "sonic", "slow")}
        if all(sure for _, sure in got.values()):
            crossed = [n for n, (x, _) in got.items() if x is not None]
            is_(run["config_input"]["label"], (crossed + ["none"])[0])
    elif call.extra == "sonic-on-scale":
        x, sure = critical(s, "sonic")
        if sure and x is not None:
            v = have.get(run["config_input"]["label"], "nan")
            check(np.isclose(float(v), x / float(
                s["solution_input"]["c_s_on_v_k"]), rtol=1e-9),
                "wrong-value", lambda: f"{where}: {v}")


def values(have, want, where, but=()):
    for k, v in want.items():
        if k in but or isinstance(v, (dict, list, tuple)) or np.ndim(v):
            continue
        check(k in have, "wrong-value", lambda: f"{where}: no {k}")
        t = have[k]
        if isinstance(v, (float, np.floating)) and not isinstance(v, bool):
            ok = t not in ("", "None") and (
                float(t) == float(v) or np.isnan(v) and t == "nan")
        elif isinstance(v, str) or v is None or isinstance(
                v, (bool, np.bool_)):
            ok = t == str(v)
        else:
            ok = True     # (enumerations: their names)
        check(ok, "wrong-value",
              lambda: f"{where}: {k} is {t!r}, should be {v!r}")


def check_stats(files, runs, text, where):
    rows = list(csv.DictReader(text.splitlines(), dialect="unix"))
    for row in rows:
        run = runs[row["filename"]]
        s = chosen(run, row["solution_name"])
        here = f"{where}: {row['filename']} {row['solution_name']}"
        check(s is not None, "wrong-row", here)
        for k, v in s["solution_input"].items():
            if isinstance(v, float):
                check(float(row[k]) == v, "wrong-value",
                      lambda: f"{here}: {k} is {row[k]}, should be {v}")
        near(row, "max_angle_reached_degrees",
             np.degrees(np.max(s["angles"])), here)
        for name in ("slow", "sonic", "alfven", "fast"):
            check_critical(s, name, row[name + "_sonic_point"], here)
            m = mach(s, name)
            if np.all(np.isfinite(m)):
                near(row, f"max_{name}_mach", np.max(m), here)
                at = np.flatnonzero(m == np.max(m))
                check(any(np.isclose(
                    float(row[f"max_{name}_mach_angle_degrees"]),
                    np.degrees(s["angles"][k])) for k in at) or
                    np.sum(np.isclose(m, np.max(m))) > 1, "wrong-value",
                    lambda: f"{here}: {name}")
        v = s["solution"][:, V_TH]
        low = v[np.degrees(s["angles"]) <= 20]
        check(row["v_θ_starts_monotonic"] == str(bool(
            np.all(np.diff(low) >= 0))), "wrong-value",
            lambda: f"{here}: monotonic {row['v_θ_starts_monotonic']}")
        check(row["v_θ_ends_low"] == str(bool(v[-1] <= 10)), "wrong-value",
              lambda: f"{here}: ends low {row['v_θ_ends_low']}")
        near(row, "Σ", np.sum(s["solution"][:, RHO]), here)
    want = sorted((f, n) for f in files for n in list(
        runs[f]["solutions"]) + (["final"] if lib.has_final(runs[f]) else []))
    got = [(r["filename"], r["solution_name"]) for r in rows]
    check(all(x in want for x in got), "wrong-row", lambda: str(got))


def near(row, key, want, where):
    check(np.isclose(float(row[key]), want, rtol=1e-9), "wrong-value",
          lambda: f"{where}: {key} is {row[key]}, should be {want}")


# --------------------------------------------------------------- scenario
def seen(x, y):
    """The points that are drawn."""
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    keep = ~np.isnan(y)
    return x[keep], y[keep]


def match(have, want, where, rtol=1e-9):
    """The lines of each axes, in any order."""
    n = max(list(want) + [i for i, *_ in have], default=-1)
    for i in range(n + 1):
        lines = [seen(x, y) for k, _, x, y in have if k == i]
        left = [seen(x, y) for x, y in want.get(i, [])]
        for x, y in lines:
            for k, (wx, wy) in enumerate(left):
                if len(wx) == len(x) and np.allclose(
                        x, wx, rtol=1e-9, atol=1e-12) and np.allclose(
                            y, wy, rtol=rtol, atol=1e-12, equal_nan=True):
                    del left[k]
                    break
            else:
                check(False, "wrong-line", f"{where}: axes {i} show a line "
                      f"{list(zip(x, y))[:6]}... of {len(x)} points; not "
                      f"shown: {[list(zip(*q))[:6] for q in left]}")
        check(not left, "line-missing", lambda: f"{where}: axes {i} do not "
              f"show {[list(zip(*q))[:6] for q in left]}")


def usable(s):
    return (len(s["angles"]) >= 12 and np.all(np.isfinite(s["solution"]))
            and np.all(s["solution"][:, RHO] > 0))


def numbers(text):
    """1,3-5 are 1, 3, 4 and 5."""
    out = []
    for x in text.split(","):
        lo, dash, hi = x.strip().partition("-")
        out += map(str, range(int(lo), int(hi) + 1)) if dash else [lo]
    return out


def judge(w, call, runs, r, shown):
    where = f"{call.describe()}"
    end = r["end"]
    ok = end[0] == "return" and not end[1]
    if call.name == "stats":
        check(ok, "fails-wrongly", lambda: f"{where}: {end}")
        check_stats(call.files, runs, r["files"]["out.txt"].decode(), where)
        return True
    c = analysis.COMMANDS[call.name]
    if c.kind == "all":
        run = runs[call.files[0]]
        names = sorted(run["solutions"], key=int)
        only = option(call, "--solutions")
        if only:
            names = numbers(only)
        solns = [(n, run["solutions"].get(n)) for n in names]
    else:
        solns = [(n, chosen(runs[f], n))
                 for f, n in zip(call.files, call.ranges)]
        if c.kind == "runs":
            # what there is no final solution of is left out
            solns = [x for x in solns if x[0] != "final" or x[1] is not None]
    info = call.name == "info"
    if any(s is None for _, s in solns) and not (
            info and call.ranges[0] == "final" and
            call.extra in ("run", "solutions")):
        check(not ok, "succeeds-wrongly",
              lambda: f"{where}: there is no such solution")
        w.count("no such solution")
        return False
    bad = [s for _, s in solns if s is not None and not usable(s)]
    if call.name in NEEDS_INTERNAL and any(
            s["internal_data"] is None for _, s in solns):
        check(not ok, "succeeds-wrongly",
              lambda: f"{where}: no internal data")
        return False
    if call.name == "component" and option(call, "--only") == "v_r":
        check(not ok, "succeeds-wrongly",
              lambda: f"{where}: there is no such equation")
        return False
    if not ok:
        if call.name in ("validate", "hydro_check"):
            # no largest of nothing
            bad = bad or not any(np.any(within(
                call, s["internal_data"]["angles"])) for _, s in solns)
        if call.name == "phys_ratio":
            # nothing to add up
            bad = bad or any(within(call, s["angles"]).sum() < 2
                             for _, s in solns)
        excuse = bad or (info and call.extra == "sonic-on-scale" and
                         critical(solns[0][1], "sonic")[0] is None)
        if call.name == "flow_plot":
            # nothing to draw
            excuse = excuse or any(not f.points()[0] for f in flows(
                call, solns[0][1]).values())
        check(excuse, "fails-wrongly", lambda: f"{where}: {end}")
        return False
    if bad:
        return False
    if info:
        check_info(call, runs[call.files[0]], solns[0][1], r["printed"],
                   call.files[0], where)
        return True
    if call.name == "flow_file":
        check_flow_files(call, solns[0][1], r, where)
        return True
    check(len(shown) == 1, "no-figure", lambda: f"{where}: {len(shown)}")
    lines, texts, _ = shown[0]
    title = option(call, "--title")
    if title:
        check(title in texts, "wrong-title", lambda: f"{where}: {texts}")
    elif title is None and c.kind == "one":
        check(any(os.path.basename(call.files[0]) in t and
                  t.endswith(":" + call.ranges[0]) for t in texts),
              "wrong-title", lambda: f"{where}: {texts}")
    if call.name == "flow_plot":
        check_flow_plot(call, solns[0][1], lines, where)
        return True
    if call.name == "acc":
        check_acc(solns[0][1], lines, where)
        return True
    if call.name in COMPUTED:
        return True
    # (what natural constants are is up to DiscSolver)
    match(lines, EXPECTED[call.name](call, solns), where,
          5e-3 if call.name == "combine" else 1e-9)
    if c.kind in ("runs", "all"):
        check_labels(call, c, solns, lines, where)
    return True


def check_labels(call, c, solns, lines, where):
    """Each run's line bears its name."""
    for (n, s), f in zip(solns, call.files if c.kind == "runs" else
                         [None] * len(solns)):
        names = [x[1] for x in lines]
        want = n if f is None else f"{f}:{n}"
        if f is not None and len(solns) != len(call.files):
            return     # (some are left out)
        check(want in names, "wrong-label",
              lambda: f"{where}: {names}, should have {want}")


def check_acc(s, lines, where):
    """In units of their own, below one degree."""
    x = np.degrees(s["angles"])
    y = s["solution"]
    want = {0: y[:, B_TH] * y[:, B_PHI], 1: y[:, V_TH] * y[:, RHO]}
    check([i for i, *_ in lines] == [0, 1], "line-missing", where)
    for i, _, lx, ly in lines:
        w, n = want[i][x < 1], np.argmax(np.abs(want[i][x < 1]))
        check(np.array_equal(lx, x[x < 1]) and np.allclose(
            ly * w[n], w * ly[n], rtol=1e-9, atol=0), "wrong-line",
            lambda: f"{where}: {list(zip(lx, ly))}")


def check_flow_plot(call, s, lines, where):
    """(which rows there are is judged as for ds-flow-file)"""
    named = {label: np.column_stack([x, y]) for _, label, x, y in lines
             if "line" in label and "angle" not in label.lower()}
    got = flows(call, s)
    for label, f in (("$v$ streamline", "v.txt"), ("$B$ field line", "b.txt")):
        check(label in named, "line-missing", lambda: f"{where}: {label}")
        want, ends = got[f].points()
        rows = named[label]
        check(len(rows) >= len(want) and (ends or len(rows) == len(want)),
              "wrong-flow-line", lambda: f"{where} {label}: {len(rows)}")
        check(np.allclose(rows[:len(want)], [p for _, p in want], rtol=1e-9,
                          atol=1e-12), "wrong-flow-line",
              lambda: f"{where} {label}")


def sequence(names, most):
    def run(w):
        runs = sources(w)
        if not runs:
            return
        files = {}
        for p, r in runs.items():
            n = sorted(r["solutions"], key=int)
            files[p] = (n[:3] + n[-2:] if len(n) > 5 else n) + [
                "final", "latest", "latest", "99"]
        calls = [gen_call(w, files, runs, names)
                 for _ in range(w.between(1, most, "commands"))]
        outs = [os.path.join(w.scratch, f"seq{i}") for i in range(len(calls))]
        for o in outs:
            os.mkdir(o)
        o = lib.run_cmd(w, "seq", analysis.run_calls(calls, outs), [],
                        pre=analysis.record_figures)
        check(o.kind == "return", "aborted", repr(o))
        got = analysis.outcomes(w, "seq", len(calls), outs)
        shown = shown_of(w, "seq")
        for i, (c, r) in enumerate(zip(calls, got)):
            if judge(w, c, runs, r, shown.get(i, [])):
                w.count("compared")
                w.count("compared " + c.name)
                w.nontrivial = True
    return run


def shown_of(w, name):
    """{number of call: what its figures show}"""
    out = {}
    cur = None
    for r in w.notes:
        if r[0] == name and r[1] == "call":
            cur = r[2]
        elif r[0] == name and r[1] == "shown":
            out.setdefault(cur, []).append(r[2:])
    return out


def part(w):
    """
    What a figure of a part of the angles shows is that part of what one of
    all angles does.
    """
    runs = sources(w)
    if not runs:
        return
    files = {p: [x for x in sorted(r["solutions"], key=int)[-3:]] + ["latest"]
             for p, r in runs.items()}
    calls, every = [], []
    for _ in range(w.between(1, 3, "commands")):
        c = gen_call(w, files, runs, COMPUTED + ("surface", "plot"))
        whole = [o for o in c.options if o[0] not in ("--start", "--stop")]
        s = chosen(runs[c.files[0]], c.ranges[0])
        lo, hi = limits(w, s)
        a = analysis.Call(c.name, c.files, c.ranges, whole, c.extra)
        b = analysis.Call(c.name, c.files, c.ranges, whole + [
            ("--start", lo), ("--stop", hi)], c.extra)
        every += [a, b] if w.draw(2, "order") else [b, a]
        calls.append((every.index(a), every.index(b), a, b, s, float(lo),
                      float(hi)))
    outs = [os.path.join(w.scratch, f"seq{i}") for i in range(len(every))]
    for o in outs:
        os.mkdir(o)
    o = lib.run_cmd(w, "seq", analysis.run_calls(every, outs), [],
                    pre=analysis.record_figures)
    check(o.kind == "return", "aborted", repr(o))
    got = analysis.outcomes(w, "seq", len(every), outs)
    shown = shown_of(w, "seq")
    for i, k, a, b, s, lo, hi in calls:
        judge(w, a, runs, got[i], shown.get(i, []))
        judge(w, b, runs, got[k], shown.get(k, []))
        if not (shown.get(i) and shown.get(k)):
            continue
        where = str(b.describe())
        full, cut = shown[i][0][0], shown[k][0][0]
        if a.name == "component":
            check_component(a, full, where)
        if a.name == "eigencoef":
            # (where the critical point is is marked)
            full, cut = full[:-1], cut[:-1]
        check(len(full) == len(cut), "line-missing",
              lambda: f"{where}: {len(cut)} lines of {len(full)}")
        for (n, name, x, y), (m, _, cx, cy) in zip(full, cut):
            keep = (lo <= x) & (x <= hi)
            if a.name == "plot" and len(x) < 10:
                continue        # (roots and the sonic point)
            check(n == m and np.array_equal(x[keep], cx) and np.array_equal(
                y[keep], cy, equal_nan=True), "wrong-part",
                lambda: f"{where}: axes {n}, {name}: {list(zip(cx, cy))}, "
                f"should be {list(zip(x[keep], y[keep]))}")
        w.count("parts compared")
        w.count("parts of " + a.name)
        w.nontrivial = True


def limits(w, s):
    """From an angle there is to one there is, or in between."""
    d = np.degrees(s["angles"])
    lo, hi = sorted(w.draw(len(d), "which angles") for _ in "ab")
    return [repr(float(d[n])) if w.draw(2, "exactly") else
            repr(float((d[n] + d[n - 1]) / 2 if n else 0.0))
            for n in (lo, hi)]


def check_component(call, lines, where):
    """All terms of an equation together are its terms added up."""
    for i in sorted({x[0] for x in lines}):
        mine = {name: y for n, name, _, y in lines if n == i}
        total = mine.pop("all terms", None)
        check(total is not None, "line-missing",
              lambda: f"{where}: axes {i} {sorted(mine)}")
        scale = np.sum([np.abs(y) for y in mine.values()], axis=0)
        parts = np.sum(list(mine.values()), axis=0)
        with np.errstate(all="ignore"):
            ok = np.abs(parts - total) <= 1e-9 * scale
        check(np.all(ok | ~np.isfinite(scale)), "wrong-sum",
              lambda: f"{where}: axes {i}: {sorted(mine)} add up to {parts}, "
              f"shown are {total}")


def gen_call(w, files, runs, names):
    call = analysis.gen_call(w, files, names, 3)
    if call.name == "diverge":
        # the numbers of solutions there are
        if option(call, "--solutions") is None and w.draw(3, "only some"):
            call.options = call.options + [("--solutions", "")]
        n = sorted(runs[call.files[0]]["solutions"], key=int)
        call.options = [(o, v) if o != "--solutions" else (o, w.pick(
            n + [",".join(n[-2:]), ",".join(n[:2][::-1]),
                 f"{n[0]}-{n[-1]}", f"{n[-1]}, {n[0]}-{n[len(n) // 2]}"
                 if len(n) > 1 else n[0]], "solutions"))
            for o, v in call.options]
    call.options = [
        (o, v if o != "--start" else w.pick(["0", "0.25", "0.5"], "start"))
        for o, v in call.options if o != "--show"]
    s = chosen(runs[call.files[0]], call.ranges[0]) if call.ranges else None
    if s is not None and w.draw(4, "a stop there is an angle at") == 3:
        call.options = [(o, v if o != "--stop" else limits(w, s)[1])
                        for o, v in call.options]
    if call.name.startswith("flow") and w.draw(4, "another start") != 3:
        call.options = [x for x in call.options
                        if x[0] != "--v-start-position"]
        call.options.append(("--v-start-position", w.pick(
            [("1", "0"), ("1", "0.005"), ("3", "0.01")], "start")))
    if call.name in ("diverge", "conserve"):
        # (these take only names of line styles)
        call.options = [x for x in call.options if x != ("--linestyle", ".")]
    return call


PROP = Prop(
    "C24",
    [Scenario("figures", sequence(FIGURES, 6), 40),
     Scenario("tables", sequence(("info", "info", "stats", "flow_file"), 6),
              40),
     Scenario("several", sequence(("diverge", "diverge", "conserve",
                                   "combine", "compare", "info"), 4), 20),
     Scenario("part", part, 30)],
    rule="A run makes up to three result files (by scripted histories of "
    "attempts, integrations that go up and down, or CVODE) and calls up to "
    "six analysis commands in one process; non-trivial when what one shows "
    "was compared with the stored arrays.",
    real=["ds-plot, ds-compare-plot, ds-combine-plot, ds-diverge-plot, "
          "ds-conserve-plot, ds-derivs-plot, ds-params-plot, "
          "ds-sonic-ratio-plot, ds-surface-density-plot, ds-vert-plot, "
          "ds-taylor-plot, ds-acc-plot, ds-phys-ratio-plot, v_θ' comparison, ds-flow-plot, ds-flow-file, "
          "ds-info, ds-stats", "ds-component-plot, j_e, validate, hydro-check "
          "and eigenvalue plots (whole against part)", "matplotlib up to rendering",
          "result files"],
    stub=["rendering of figures (their lines are compared)",
          "CVODE results (except for sources of kind real)"],
    assumptions=["Loading a result file gives what is in it (C07)."],
)
