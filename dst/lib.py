"""
What the scenarios share: inputs, scripted integrations, running commands in
simulated processes, looking at the files they left, comparing contents.
"""
import csv
import errno
import io
import os
import traceback
from enum import Enum
from fractions import Fraction
from math import degrees, isnan, radians

import numpy as np

from . import procs, simode, simpool
from . import world as W
from .world import check

CSV_FIELDS = [
    "start", "stop", "taylor_stop_angle", "max_steps", "num_angles",
    "relative_tolerance", "absolute_tolerance", "γ", "nwalkers", "iterations",
    "threads", "target_velocity", "split_method", "v_rin_on_c_s",
    "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A", "η_derivs",
    "jump_before_sonic", "use_taylor_jump", "mcmc_vars", "v_θ_sonic_crit",
    "after_sonic", "sonic_interp_size", "interp_range", "interp_slice",
    "use_E_r",
]

DEFAULTS = {
    "start": "0", "stop": "5", "taylor_stop_angle": "0.001",
    "max_steps": "10000", "num_angles": "40", "relative_tolerance": "1e-6",
    "absolute_tolerance": "1e-10", "γ": "0.001", "nwalkers": "8",
    "iterations": "3", "threads": "1", "target_velocity": "0.9",
    "split_method": "v_θ_deriv", "v_rin_on_c_s": "1", "v_a_on_c_s": "1",
    "c_s_on_v_k": "0.03", "η_O": "0.001", "η_H": "0.0001", "η_A": "0.0005",
    "η_derivs": "True", "jump_before_sonic": "None",
    "use_taylor_jump": "True", "mcmc_vars": "v_r,v_a,v_k",
    "v_θ_sonic_crit": "None", "after_sonic": "None",
    "sonic_interp_size": "None", "interp_range": "10",
    "interp_slice": "-1000,-100", "use_E_r": "False",
}
INITIAL_FIELDS = ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "η_O",
                  "η_H", "η_A")
FLOAT_FIELDS = (
    "start", "stop", "taylor_stop_angle", "relative_tolerance",
    "absolute_tolerance", "γ", "target_velocity", "v_rin_on_c_s",
    "v_a_on_c_s", "c_s_on_v_k", "η_O", "η_H", "η_A",
)
INT_FIELDS = ("max_steps", "num_angles", "nwalkers", "iterations", "threads")
OPT_FLOAT_FIELDS = ("jump_before_sonic", "v_θ_sonic_crit", "after_sonic",
                    "sonic_interp_size")
BOOL_FIELDS = ("η_derivs", "use_taylor_jump", "use_E_r")

V_R, V_PHI, V_TH, RHO = 3, 4, 5, 6


# ---------------------------------------------------------------- inputs
# Values below give a disc for which the first integration can be set up, also
# after 20 steps of a tenth in γ either way (checked over all combinations).
def number(text):
    return float(Fraction(text)) if "/" in str(text) else float(text)


def interpret(name, text):
    """The value a user means by the text of a setting (from the docs)."""
    if name in FLOAT_FIELDS:
        return number(text)
    if name in INT_FIELDS:
        return int(text)
    if name in OPT_FLOAT_FIELDS:
        return None if text in (None, "None", "") else number(text)
    if name in BOOL_FIELDS:
        return {"true": True, "yes": True, "on": True, "1": True,
                "false": False, "no": False, "off": False, "0": False,
                }[str(text).strip().lower()]
    if name == "interp_range":
        return None if text in (None, "None", "") else int(text)
    if name == "interp_slice":
        if text in (None, "None", ""):
            return None
        text = str(text)
        if text.startswith("slice("):
            text = text[6:-1]
        return tuple(None if p.strip() == "None" else int(p)
                     for p in text.split(","))
    if name == "mcmc_vars":
        if text in (None, "None", ""):
            return None
        return tuple(sorted(p for p in str(text).split(",")
                            if p in ("v_r", "v_a", "v_k")))
    return str(text)


def canonical(name, value):
    """Bring the value a program holds for a setting to the same form."""
    if value is None:
        return None
    if name == "mcmc_vars" and isinstance(value, dict):
        return tuple(sorted(v for v in ("v_r", "v_a", "v_k")
                            if value["with_" + v]))
    if name == "interp_slice":
        if isinstance(value, tuple) and value and value[0] == "slice":
            return value[1:]
        if isinstance(value, slice):
            t = (value.start, value.stop, value.step)
        elif isinstance(value, str):
            return interpret(name, value)
        else:
            t = tuple(value)
        return t
    if name == "mcmc_vars":
        return interpret(name, str(value))
    if isinstance(value, (bool, np.bool_)):
        return bool(value)
    if isinstance(value, np.floating):
        return float(value)
    if isinstance(value, np.integer):
        return int(value)
    if isinstance(value, bytes):
        return value.decode("utf-8")
    return value


def norm_slice(t):
    if t is None:
        return None
    t = tuple(t) + (None,) * (3 - len(t))
    return t


def same_setting(name, a, b):
    if name == "interp_slice":
        return norm_slice(a) == norm_slice(b)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (isnan(a) and isnan(b))
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def expected_input(row):
    """SolutionInput values for settings given as text."""
    full = dict(DEFAULTS, **{k: v for k, v in row.items() if k in CSV_FIELDS})
    return {k: interpret(k, full[k]) for k in CSV_FIELDS}


def check_input(si, want, cls, where):
    """si: plain form of a SolutionInput."""
    for k in CSV_FIELDS:
        have = canonical(k, si.get(k))
        check(same_setting(k, have, want[k]), cls,
              lambda: f"{where}: setting {k} is {have!r}, should be {want[k]!r}")


def gen_row(w, i, *, stop=None, angles=None, simple=False):
    """Settings as text; `stop` (unique) identifies the input later."""
    row = dict(DEFAULTS)
    row["stop"] = str(stop if stop is not None else 2 + i * 0.25)
    row["num_angles"] = str(angles or w.between(12, 40, "number of angles"))
    if simple:
        return row
    if w.draw(2, "vary values"):
        row["γ"] = w.pick(["0.001", "0.0015", "2e-3"], "γ")
        row["v_rin_on_c_s"] = w.pick(["1", "0.9", "0.1"], "v_rin")
        row["v_a_on_c_s"] = w.pick(["1", "0.8", "1.1"], "v_a")
        row["c_s_on_v_k"] = w.pick(["0.03", "0.025", "0.02"], "c_s")
        row["η_O"] = w.pick(["0.001", "0.002"], "η_O")
        row["η_H"] = w.pick(["0.0001", "0"], "η_H")
        row["η_A"] = w.pick(["0.0005", "0.00025"], "η_A")
        row["target_velocity"] = w.pick(["0.9", "0.85"], "target")
        row["η_derivs"] = w.pick(["True", "False"], "η_derivs")
        row["mcmc_vars"] = w.pick(["v_r,v_a,v_k", "v_r", "v_a,v_k"], "mcmc")
        row["interp_range"] = w.pick(["10", "7"], "interp_range")
        row["interp_slice"] = w.pick(["-1000,-100", "-50,-5"], "interp_slice")
        row["relative_tolerance"] = w.pick(["1e-6", "1e-5"], "rtol")
        if w.draw(3, "rare settings") == 2:
            # (none of which matters below the sonic speed)
            row["interp_slice"] = w.pick(
                ["-400,-40,2", "10,30,3", "-40,-4"], "interp_slice")
            row["interp_range"] = w.pick(["None", "25"], "interp_range")
            row["v_θ_sonic_crit"] = w.pick(["None", "0.995"], "crit")
            row["after_sonic"] = w.pick(["None", "0.01"], "after_sonic")
            row["threads"] = w.pick(["2", "1"], "threads")
            row["max_steps"] = w.pick(["20000", "5000"], "max_steps")
            row["absolute_tolerance"] = w.pick(["1e-9", "2e-10"], "atol")
            row["taylor_stop_angle"] = w.pick(["0.002", "0.001"], "taylor")
            row["start"] = w.pick(["0", "0.0"], "start")
    return row


def csv_text(rows, fields=CSV_FIELDS, header=True, comments=(), quoting=True,
             last_newline=True):
    out = io.StringIO()
    for c in comments:
        out.write(f"{c}\n" if "#" in c else f"#{c}\n")
    wr = csv.writer(out, lineterminator="\n",
                    quoting=csv.QUOTE_ALL if quoting else csv.QUOTE_MINIMAL)
    if header:
        wr.writerow(fields)
    for r in rows:
        wr.writerow([r.get(f, "") for f in fields])
    text = out.getvalue()
    return text if last_newline else text[:-1]


def write_file(path, text):
    with open(path, "wb", buffering=0) as f:
        f.write(text.encode("utf-8"))


def conf_text(row):
    out = ["[config]"]
    for k in ["label"] + CSV_FIELDS:
        if k in row and k not in INITIAL_FIELDS:
            out.append(f"{k} = {row[k]}")
    out.append("[initial]")
    for k in INITIAL_FIELDS:
        if k in row:
            out.append(f"{k} = {row[k]}")
    return "\n".join(out) + "\n"


def quiet(w):
    """Context: no faults, no points worth mentioning."""
    return _Quiet(w)


class _Quiet:
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.hook = self.w.hook
        self.w.hook = None

    def __exit__(self, *a):
        self.w.hook = self.hook


# ------------------------------------------------- scripted integrations
def profile(call, kind, n=None):
    """
    A made-up v_θ profile of the named kind on the angles of the call:
      best     reaches 0.99 smoothly, concave: the best possible solution
      sign     stays far below the sonic speed
      diverge  passes the sonic speed, curving upwards
      fail     like sign, but the integrator gave up half way
    """
    t = call.t if n is None else call.t[:n]
    s = np.linspace(0, 1, len(t))
    y = np.tile(np.asarray(call.y0, dtype=float), (len(t), 1))
    a = float(call.y0[V_TH])
    flag = 0
    if kind == "best":
        v = a + (0.99 - a) * np.sin(np.pi / 2 * s)
    elif kind == "sign":
        v = a + (0.5 - a) * s
    elif kind == "diverge":
        v = a + (0.85 - a) * s
        v[-4:] = (0.92, 0.94, 0.97, 1.6)
    elif kind == "fail":
        k = max(2, len(t) // 2)
        t, y, s = t[:k], y[:k], s[:k]
        v = a + (0.5 - a) * s
        flag = -4
    elif kind == "vmax":
        raise AssertionError
    else:
        raise AssertionError(kind)
    y[:, V_TH] = v
    y[:, RHO] = float(call.y0[RHO]) * np.exp(-s)
    y[:, V_PHI] = float(call.y0[V_PHI]) * (1 - 0.001 * s)
    y[:, 0] = float(call.y0[0]) - 0.3 * s
    y[:, 1] = float(call.y0[1]) - 0.2 * s
    # CVODE never stops before some evaluations
    pts = [(t[i % len(t)], y[i % len(t)]) for i in range(7)]
    if kind == "sign":
        neg = y[-1].copy()
        neg[V_TH] = -0.01
        pts.append((t[-1], neg))     # "negative velocity" in internal data
    return simode.Stub(t, y, flag=flag, rhs_points=pts)


FAIL_FLAGS = (-1, -2, -3, -4, -8, -9, -12)
SOLVER_ERROR_FLAG = -27  # TOO_CLOSE: solver gives up with a SolverError


class Scripts:
    """
    Verdicts per input (identified by its stop angle) and attempt.
    A verdict: a profile name, "real", ("flag", f, keep), ("raise", exc),
    "error" (integrator refuses to start -> SolverError).
    """

    def __init__(self, default="real"):
        self.by_stop = {}
        self.pos = {}
        self.default = default

    def set(self, stop, verdicts):
        self.by_stop[round(number(stop), 6)] = list(verdicts)

    def __call__(self, call):
        if call.is_taylor:
            return None
        key = round(degrees(float(call.t[-1])), 6)
        s = self.by_stop.get(key)
        if s is None:
            v = self.default
        else:
            n = self.pos.get(key, 0)
            self.pos[key] = n + 1
            v = s[min(n, len(s) - 1)]
        return directive(v, call)


class ItemFaults:
    """
    Directives for the n-th integration of the input with a given stop angle:
    {stop: {n: directive}}; works inside pool workers (which know their item)
    and after simpool.begin_item elsewhere.
    """

    def __init__(self, plan):
        self.plan = {round(float(k), 6): v for k, v in plan.items()}

    def __call__(self, call):
        item = simpool.ITEM
        if not isinstance(item, dict) or "stop" not in item:
            return None
        plan = self.plan.get(round(float(item["stop"]), 6), {})
        return plan.get(call.of_item)


def directive(v, call):
    if v == "real" or v is None:
        return None
    if v == "error":
        return ("fail", SOLVER_ERROR_FLAG, 0)
    if isinstance(v, tuple) and v[0] == "flag":
        # (CVODE takes very long near the sonic speed: only the first quarter)
        return ("fail", v[1], min(v[2], max(1, len(call.t) // 4)))
    if isinstance(v, tuple) and v[0] == "raise":
        return v
    return ("stub", profile(call, v))


def use(policy, record=False):
    simode.POLICY = policy
    simode.RECORD = record


# ---------------------------------------------------------------- commands
def command(main, argv, cwd=None, env=None, pre=None, post=None):
    """A function running an entry point, for a simulated process."""
    def body():
        w = W.current()
        if cwd:
            os.chdir(cwd)
        for k, v in (env or {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        simpool.ALL_POOLS.clear()
        if pre is not None:
            pre()
        try:
            return main(list(argv))
        finally:
            for p in simpool.ALL_POOLS:
                w.record("pool", p.state, p.joined,
                         sum(not x.ended for x in p.workers))
            if post is not None:
                post(w)
    return body


def run_cmd(w, name, main, argv, **kw):
    return procs.run_process(w, name, command(main, argv, **kw))


def in_process(w, name, fn, events=False):
    """
    Run fn in a process of its own, outside the simulation (or, with events,
    as part of it, without faults other than its own); its value.
    """
    def body():
        W.current().silent = not events
        return fn()
    with quiet(w):
        o = procs.run_process(w, name, body)
    if o.kind != "return":
        raise W.Violation(f"cannot-read:{name}",
                          f"{name}: {o!r}\n{(o.exc or {}).get('tb', '')}")
    return o.value


def check_pools(w, cls="pool-left-open"):
    """Pools were closed and their workers have ended."""
    for rec in w.records("pool"):
        _, _, state, joined, alive = rec
        check(state != "run" and alive == 0, cls,
              f"pool left in state {state} with {alive} workers alive")
    check(not w.records("hang"), "hang",
          lambda: f"waits for ever: {w.records('hang')}")


# ------------------------------------------------------------ plain values
class Plain(dict):
    """Plain form of an object: its attributes, and what it was."""
    kind = None

    def __reduce__(self):
        return (_plain, (self.kind, dict(self)))


def _plain(kind, d):
    p = Plain(d)
    p.kind = kind
    return p


def plain(obj, load=True, depth=0):
    """Convert DiscSolver's containers into plain values."""
    if depth > 12:
        return "<deep>"
    if isinstance(obj, Enum):
        return int(obj.value) if isinstance(obj.value, int) else obj.value
    if obj is None or isinstance(obj, (bool, int, float, str, bytes, complex)):
        return obj
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return [plain(x, load, depth + 1) for x in obj]
        return np.array(obj)
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, slice):
        return ("slice", obj.start, obj.stop, obj.step)
    if isinstance(obj, os.PathLike):
        return os.fspath(obj)
    if isinstance(obj, (list, tuple)):
        return [plain(x, load, depth + 1) for x in obj]
    name = type(obj).__name__
    if name in ("Problems", "Solutions", "dict", "defaultdict"):
        return _plain(name, {str(k): plain(obj[k], load, depth + 1)
                             for k in list(obj)})
    if name == "OnDemandWrapper":
        return plain(obj(), load, depth + 1)
    if name == "DelayedContainer":
        return "<no final solution yet>"
    if name == "MCMCVars":
        return _plain(name, {k: bool(getattr(obj, k)) for k in
                             ("with_v_r", "with_v_a", "with_v_k")})
    if hasattr(type(obj), "__attrs_attrs__"):
        d = {a.name.lstrip("_"): plain(getattr(obj, a.name), load, depth + 1)
             for a in type(obj).__attrs_attrs__}
        return _plain(name, d)
    raise W.Violation("unexpected-content",
                      f"cannot interpret {type(obj)!r} {obj!r:.200}")


def differences(a, b, path="", tol=0.0, out=None, limit=8, ignore=()):
    """Where two plain values differ."""
    if out is None:
        out = []
    if len(out) >= limit or path.rsplit(".", 1)[-1] in ignore:
        return out
    if isinstance(a, Plain) or isinstance(b, Plain):
        if not (isinstance(a, Plain) and isinstance(b, Plain)):
            out.append(f"{path}: {type(a).__name__} and {type(b).__name__} "
                       f"({str(a)[:60]} / {str(b)[:60]})")
            return out
        if a.kind != b.kind:
            out.append(f"{path}: {a.kind} and {b.kind}")
        for k in sorted(set(a) | set(b)):
            if k in ignore:
                continue
            if k not in a or k not in b:
                out.append(f"{path}.{k}: only in the "
                           f"{'first' if k in a else 'second'}")
            else:
                differences(a[k], b[k], f"{path}.{k}", tol, out, limit, ignore)
        return out
    arr = (np.ndarray,)
    if isinstance(a, arr) or isinstance(b, arr):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            if x.size == 0 and y.size == 0:
                return out
            out.append(f"{path}: shapes {x.shape} and {y.shape}")
            return out
        if x.dtype.kind in "fiub" and y.dtype.kind in "fiub":
            with np.errstate(all="ignore"):
                if tol:
                    ok = np.isclose(x, y, rtol=tol, atol=tol, equal_nan=True)
                else:
                    ok = (x == y) | ((x != x) & (y != y))
            if not np.all(ok):
                i = np.argwhere(~ok)[0] if np.ndim(ok) else ()
                out.append(f"{path}: values differ, first at {tuple(i)}: "
                           f"{x[tuple(i)]!r} / {y[tuple(i)]!r}")
        elif list(x.ravel()) != list(y.ravel()):
            out.append(f"{path}: values differ")
        return out
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            out.append(f"{path}: lengths {len(a)} and {len(b)}")
            return out
        for i, (x, y) in enumerate(zip(a, b)):
            differences(x, y, f"{path}[{i}]", tol, out, limit, ignore)
        return out
    if isinstance(a, bool) != isinstance(b, bool):
        out.append(f"{path}: {a!r} and {b!r}")
    elif isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if not (a == b or (a != a and b != b)):
            if not (tol and abs(a - b) <= tol * max(1, abs(a), abs(b))):
                out.append(f"{path}: {a!r} and {b!r}")
    elif a != b:
        out.append(f"{path}: {a!r:.80} and {b!r:.80}")
    return out


def same(a, b, cls, what, **kw):
    d = differences(a, b, **kw)
    check(not d, cls, lambda: f"{what}: " + "; ".join(d))


# ------------------------------------------------------------------- files
def read_run(path, env=None):
    """Function for in_process: the run stored in a file, in plain form."""
    def body():
        for k, v in (env or {}).items():
            os.environ[k] = v
        from h5preserve import open as h5open
        from disc_solver.file_format import registries
        with h5open(path, registries, mode="r") as f:
            return plain(f["run"])
    return body


def stored_run(w, path, env=None):
    return in_process(w, "reader", read_run(path, env))


def h5_files(directory):
    return sorted(os.path.join(directory, f) for f in os.listdir(directory)
                  if f.endswith(".hdf5"))


def bytes_of(path):
    fd = os.open(path, os.O_RDONLY)
    try:
        out = b""
        while True:
            b = os.read(fd, 1 << 20)
            if not b:
                return out
            out += b
    finally:
        os.close(fd)


def text_of(path):
    return bytes_of(path).decode("utf-8", "replace")


def parse_csv(text):
    """(comments, header, rows) of a CSV file DiscSolver wrote."""
    comments, lines = [], []
    for line in text.splitlines(keepends=True):
        if line.startswith("#"):
            comments.append(line.rstrip("\n")[1:])
        else:
            lines.append(line)
    rows = list(csv.reader(lines, dialect="unix"))
    return comments, (rows[0] if rows else []), rows[1:]


# ------------------------------------------------------------------ faults
DISK_ERRNOS = (errno.ENOSPC, errno.EIO)


class OnePoint:
    """
    Hook: one fault at the n-th point matching a predicate, n from the tape
    (decided up front, so that a tape names the fault).
    """

    def __init__(self, match, n, what):
        self.match = match
        self.n = n
        self.what = what
        self.seen = 0
        self.fired = None

    def __call__(self, actor, kind, detail):
        if self.match(actor, kind, detail):
            self.seen += 1
            if self.seen == self.n + 1:
                self.fired = (actor, kind, detail)
                return self.what
        return None


class Several:
    def __init__(self, *hooks):
        self.hooks = hooks

    def __call__(self, *a):
        for h in self.hooks:
            d = h(*a)
            if d is not None:
                return d
        return None


def short_writes(w, percent=30, kinds=("file.write", "out.write")):
    """Hook: legal short writes, as a slow or interrupted device gives."""
    def hook(actor, kind, detail):
        if kind in kinds and w.chance(percent, "short write"):
            n = w.between(1, 64, "bytes accepted")
            return ("short", n)
        return None
    return hook


# --------------------------------------------------- solving without a file
def memory_solve(row, method, *, store_internal=True, policy=None, label="",
                 seed=None, before=None, record=False, **kwargs):
    """
    Function for in_process: solve in memory, the outcome in plain form:
    {"status": "ok"/type of the exception, "returned", "run"}.
    """
    def body():
        import numpy.random
        from disc_solver.file_format import ConfigInput, Run
        from disc_solver.solve import SONIC_METHOD_MAP
        import logbook
        simpool.begin_item(dict(row))
        if policy is not None:
            use(policy, record=record)
        if before is not None:
            before()
        if seed is not None:
            numpy.random.seed(seed)
        with logbook.NullHandler().applicationbound():
            ci = ConfigInput(label=label, **{
                k: v for k, v in row.items() if k in CSV_FIELDS})
            try:
                si = ci.to_soln_input()
            except Exception as e:  # pylint: disable=broad-except
                return {"status": type(e).__name__, "returned": None,
                        "mro": [t.__name__ for t in type(e).__mro__],
                        "text": str(e), "run": None}
            run = Run(config_input=ci, config_filename=None,
                      disc_solver_version="x", float_type="float64",
                      sonic_method=method, use_E_r=si.use_E_r)
            out = {"status": "ok", "returned": None}
            try:
                out["returned"] = SONIC_METHOD_MAP[method](
                    si, run, store_internal=store_internal, **kwargs)
            except Exception as e:  # pylint: disable=broad-except
                out["status"] = type(e).__name__
                out["mro"] = [t.__name__ for t in type(e).__mro__]
                out["text"] = str(e)
                out["tb"] = traceback.format_exc()
        out["run"] = plain(run)
        return out
    return body


RUN_EXTRAS = ("config_filename", "disc_solver_version", "float_type",
              "label", "based_on_solution_filename",
              "based_on_solution_solution_name")


def has_final(run):
    """Whether a run in plain form has a final solution."""
    return isinstance(run.get("final_solution"), Plain)


def check_config(ci, row, cls, where, label=None):
    """ci: plain ConfigInput; row: settings as text."""
    full = dict(DEFAULTS, **row)
    for k in CSV_FIELDS:
        have = interpret(k, ci[k]) if ci[k] is not None else None
        want = interpret(k, full[k])
        check(same_setting(k, have, want), cls,
              lambda: f"{where}: config {k} is {ci[k]!r}, should mean {want!r}")
    if label is not None:
        check(ci["label"] == label, cls,
              lambda: f"{where}: label {ci['label']!r}, should be {label!r}")


def check_attempts(run, want, cls, where):
    """The attempts and final solution of two runs (plain form) are equal."""
    same(run["solutions"], want["solutions"], cls, f"{where}: attempts")
    if has_final(want) or has_final(run):
        same(run["final_solution"], want["final_solution"], cls,
             f"{where}: final solution")


def load_or_why(path):
    """Function for in_process: ("run", plain) or ("bad", reason)."""
    def body():
        from h5preserve import open as h5open
        from disc_solver.file_format import registries
        try:
            with h5open(path, registries, mode="r") as f:
                return ("run", plain(f["run"]))
        except Exception as e:  # pylint: disable=broad-except
            return ("bad", f"{type(e).__name__}: {e}")
    return body


def load_all(paths):
    """Function for in_process: load_or_why for each."""
    def body():
        return [load_or_why(p)() for p in paths]
    return body


# ------------------------------------------------------- single commands
def soln_argv(conf, method="single", out=None, outdir=None, internal=True,
              overrides=()):
    argv = [conf, "--sonic-method", method]
    if out is not None:
        argv += ["--output-file", out]
    if outdir is not None:
        argv += ["--output-dir", outdir]
    if not internal:
        argv.append("--no-store-internal")
    for k, v in overrides:
        argv += ["--override", k, v]
    return argv


def silently(w, name, main, argv, policy=None, cwd=None, seed=None, pre=None):
    """Run a command outside the simulation (with a policy); its outcome."""
    old = simode.POLICY, simode.RECORD
    use(policy)

    def body():
        W.current().silent = True
        if seed is not None:
            import numpy.random
            numpy.random.seed(seed)
        return command(main, argv, cwd=cwd, pre=pre)()
    try:
        with quiet(w):
            return procs.run_process(w, name, body)
    finally:
        simode.POLICY, simode.RECORD = old


def make_source(w, path, row, verdicts, method="single", label="src",
                internal=True, name="maker"):
    """A result file, made by an undisturbed ds-soln; its run (plain)."""
    from disc_solver.solve import main
    conf = path + ".cfg"
    write_file(conf, conf_text(dict(row, label=label)))
    scripts = Scripts()
    scripts.set(row["stop"], verdicts)
    o = silently(w, name, main, soln_argv(conf, method, path, None, internal),
                 policy=scripts)
    check(o.kind == "return", "cannot-make-source",
          lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    return stored_run(w, path)


def snapshot(root):
    """{path: bytes, or the target of a link, or None for a directory}"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            p = os.path.join(d, n)
            out[p] = ("link", os.readlink(p)) if os.path.islink(p) else None
        for n in files:
            p = os.path.join(d, n)
            out[p] = ("link", os.readlink(p)) if os.path.islink(p) else \
                bytes_of(p)
    return out


def check_untouched(w, before, after, cls, but=()):
    for p, b in before.items():
        if p in but:
            continue
        check(p in after, cls, lambda: f"{w.rel(p)} is gone")
        check(after[p] == b, cls, lambda: f"{w.rel(p)} was changed: "
              f"{describe(b)} before, {describe(after[p])} now")


def describe(b):
    if isinstance(b, bytes):
        return f"{len(b)} bytes {b[:40]!r}"
    return repr(b)


def write_file_bytes(path, data):
    with open(path, "wb", buffering=0) as f:
        f.write(data)


def with_given(body, pol):
    """Function for in_process: also what a policy noted in `given`."""
    def fn():
        out = body()
        return out, list(pol.given)
    return fn
