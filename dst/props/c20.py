"""Integrator failures give partial solutions or solver errors."""
from math import radians

import numpy as np

from .. import cases, lib, simode
from ..engine import Prop, Scenario
from ..lib import check

ROOT = 2
TOO_CLOSE = -27
STOPPED = "CVODESolveReachedTSTOP"
FAILED = "CVODESolveFailed"


def warm():
    import disc_solver.solve.resolve  # noqa: F401


# ------------------------------------------------------------- the cases
class Crossing(cases.Case):
    """CVODE goes through the sonic point, in one of the ways there are."""

    def __init__(self, w):
        self.method = w.pick(["single", "single", "step"], "method")
        self.row = row = lib.gen_row(
            w, 0, stop=w.pick([5, 1, 2, 0.8, 0.81], "stop"),
            angles=w.pick([120, 400, 40], "angles"))
        row["max_steps"] = "500"
        row["after_sonic"] = w.pick(["None", "0", "0.05", "0.3", "0"], "after")
        row["v_θ_sonic_crit"] = "None"
        row["interp_slice"] = w.pick(["-50,-1", "-50,-1,2", "-1000,-100",
                                      "0,0"], "slice")
        way = w.wpick([(0, 3), (1, 1), (2, 1)], "way across")
        size = w.pick(["0.3", "0.5", "0.2", "0.9"], "how far before")
        if way == 0:
            row["jump_before_sonic"] = size
        elif way == 1:
            row["sonic_interp_size"] = size
        else:
            row["v_θ_sonic_crit"] = w.pick(["0.5", "0.3"], "critical size")
        row["use_taylor_jump"] = w.pick(["True", "False"], "taylor jump")
        # without internal data, interpolating is refused
        self.internal = w.draw(4, "no internal data") != 3 or way == 1
        self.limit = w.between(1, 5, "attempts")

    def policy(self):
        state = {"n": 0}

        def pol(call):
            if not call.is_taylor and call.t[0] < 0.01:
                state["n"] += 1
                if state["n"] > self.limit:
                    return lib.directive("error", call)
            return None
        return pol


class Faulty(cases.Case):
    """Another case, some integrations of which go wrong."""

    def __init__(self, w, inner):
        self.inner = inner
        self.method, self.row = inner.method, inner.row
        self.internal, self.kwargs = inner.internal, inner.kwargs
        self.answers, self.seed = inner.answers, inner.seed
        self.plan = {}
        late = w.pick([3, 8, 30], "how late")
        kinds = [("flag", 4), ("error", 1), ("exception", 1), ("flag 0", 1)]
        if inner.method in ("single", "hydrostatic", "mod_hydro"):
            kinds.append(("nan", 2))
        for _ in range(w.between(0, 2, "failing integrations")):
            k = w.wpick(kinds, "how")
            n = w.draw(late, "which")
            if k == "flag":
                self.plan[n] = ("fail", w.pick(lib.FAIL_FLAGS, "flag"),
                                w.between(0, 30, "points before"))
            elif k == "error":
                self.plan[n] = ("fail", TOO_CLOSE, 0)
            elif k == "exception":
                self.plan[n] = ("raise", RuntimeError("injected crash"))
            elif k == "flag 0":
                self.plan[n] = "sign"
            else:
                self.plan[n] = ("nan", w.draw(6, "where"))

    def policy(self):
        inner = self.inner.policy()
        plan = dict(self.plan)
        state = {"n": 0}

        def pol(call):
            n = state["n"]
            state["n"] += 1
            d = plan.get(n)
            if d == "sign":
                return ("stub", lib.profile(call, "sign"))
            if d is not None and d[0] == "nan":
                st = lib.profile(call, "sign")
                st.y[-1 - d[1] % (len(st.y) - 1):, lib.V_TH] = np.nan
                return ("stub", st)
            if d is not None:
                return d
            return inner(call) if inner is not None else None
        return pol


# ------------------------------------- what has to be made of the calls
class Attempt:
    def __init__(self):
        self.phases = []      # integrations that give points
        self.jumped = False   # Taylor expansion instead of a first phase
        self.status = None    # "ok", "error" (solver error), "crash"


def fails(c):
    """Why an integration (other than the Taylor one) gives no points."""
    if c["flag"] is None:
        return "crash"
    if c["end"] == FAILED and c["flag"] == TOO_CLOSE:
        return "error"
    return None


def split(calls, row, plain_calls=False):
    """The attempts a search made, from the integrations it asked for."""
    inp = lib.expected_input(row)
    stop = radians(inp["taylor_stop_angle"])
    out = []
    i = 0
    while i < len(calls):
        a = Attempt()
        out.append(a)
        a.jumped = inp["use_taylor_jump"] and not plain_calls
        a.first = calls[i]
        if not plain_calls and not a.jumped:
            c = calls[i]
            i += 1
            if c["end"] != STOPPED:
                a.status = "crash" if c["flag"] is None else "error"
                continue
            a.phases.append(c)
            if np.sum(c["t0"] > stop) < 2:
                a.status = "error"
                continue
            if i == len(calls):
                a.status = "missing"
                continue
        c = calls[i]
        i += 1
        a.main = c
        a.status = fails(c)
        if a.status:
            continue
        a.phases.append(c)
        a.status = "ok"
        jump, interp = inp["jump_before_sonic"], inp["sonic_interp_size"]
        if plain_calls or c["flag"] != ROOT or (
                jump is None and interp is None):
            continue
        for more in range(2 if jump is None else 1):
            c = a.phases[-1]
            if more and c["flag"] != ROOT:
                break
            after = c["t0"][c["t0"] > c["t"][-1]]
            if (i == len(calls) or calls[i]["taylor"] or
                    calls[i]["t0"][0] < c["t"][-1]):
                # angles ran out, or there was nothing to interpolate
                a.status = "error"
                if jump is None and not more:
                    a.status = "error or ok"
                elif not more:
                    # how far it jumps depends on the slope
                    pass
                else:
                    a.status = "error" if len(after) < 1 else "missing"
                break
            nxt = calls[i]
            i += 1
            if jump is not None:
                a.jump = c, nxt
            a.status = fails(nxt)
            if a.status:
                break
            a.phases.append(nxt)
            a.status = "ok"
    return out


def expected_problems(phases):
    out = {}
    for c in phases:
        for x, params, status in c["evaluations"]:
            if status == 0:
                continue
            what = ("negative density" if params[lib.RHO] < 0 else
                    "negative velocity" if params[lib.V_TH] < 0 else None)
            if what:
                out.setdefault(x, []).append(what)
    return out


def check_solution(s, a, row, con, internal, method, where):
    inp = lib.expected_input(row)
    t, y = s["angles"], s["solution"]
    check(len(t) == len(y), "lengths-differ",
          lambda: f"{where}: {len(t)} angles, {len(y)} rows of values")
    pieces_t = [c["t"] for c in a.phases]
    pieces_y = [c["y"] for c in a.phases]
    if a.jumped:
        pieces_t.insert(0, np.array([0, radians(inp["taylor_stop_angle"])]))
        pieces_y.insert(0, np.array([con["init_con"], a.main["y0"]]))
    want_t, want_y = np.concatenate(pieces_t), np.concatenate(pieces_y)
    check(len(t) == len(want_t), "points-differ",
          lambda: f"{where}: {len(t)} points, the integrations gave "
          f"{[len(x) for x in pieces_t]}")
    check(np.allclose(t, want_t, rtol=0, atol=1e-15), "points-differ",
          lambda: f"{where}: angles {t} instead of {want_t}")
    skip = []
    if method == "mod_hydro" and inp["use_E_r"]:
        skip = [lib.V_R, lib.V_PHI]     # not integrated, filled in later
    keep = [i for i in range(want_y.shape[1]) if i not in skip]
    check(np.array_equal(y[:, keep], want_y[:, keep], equal_nan=True),
          "values-differ", lambda: f"{where}: values differ first in row "
          f"{np.argmax(np.any(y != want_y, axis=1))} of {len(y)}")
    check(bool(np.all(np.diff(t) >= 0)), "angles-out-of-order",
          lambda: f"{where}: {t}")
    last = a.phases[-1]
    check(s["flag"] == last["flag"], "wrong-flag",
          lambda: f"{where}: flag {s['flag']}, the integrator ended with "
          f"{last['flag']}")
    for k, r in (("t_roots", "rt"), ("y_roots", "ry")):
        have, want = s[k], a.main[r]
        check((have is None) == (want is None) and (
            have is None or np.array_equal(have, want)), "wrong-roots",
            lambda: f"{where}: {k} is {have}, should be {want}")
    d = s["internal_data"]
    check((d is not None) == bool(internal), "wrong-internal-data",
          lambda: f"{where}: {type(d)} when asked for {internal}")
    if d is None:
        return
    done = [[x for x, _, st in c["evaluations"] if st == 0]
            for c in a.phases]
    want = np.concatenate(done)
    have = np.asarray(d["angles"])
    check(np.array_equal(have, want), "wrong-internal-data",
          lambda: f"{where}: {len(have)} records, the integrations had "
          f"{[len(x) for x in done]} evaluations")
    params = [p for c in a.phases for _, p, st in c["evaluations"] if st == 0]
    if method in ("mod_hydro",) and inp["use_E_r"]:
        params = None
    if params:
        check(np.array_equal(np.asarray(d["params"]), np.array(params),
                             equal_nan=True), "wrong-internal-data",
              lambda: f"{where}: other values recorded than evaluated")
    lengths = {k: len(d[k]) for k in ("derivs", "params")}
    if method not in ("hydrostatic", "mod_hydro"):
        lengths.update({k: len(d[k]) for k in (
            "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
            "v_φ_taylor", "ρ_taylor")})
    check(set(lengths.values()) == {len(have)}, "wrong-internal-data",
          lambda: f"{where}: {len(have)} angles, {lengths}")
    want = expected_problems(a.phases)
    have = {float(k): list(v) for k, v in d["problems"].items()}
    if method == "hydrostatic":
        want = {k: [x for x in v if x != "negative velocity"]
                for k, v in want.items()}
        want = {k: v for k, v in want.items() if v}
    check(have == want, "wrong-problems",
          lambda: f"{where}: {have}, should be {want}")


def conditions(method, inputs):
    """Function for in_process: what inputs start with, on their own."""
    def fn():
        from disc_solver.file_format import SolutionInput
        from disc_solver.solve import config, hydrostatic, mod_hydro
        make = {"hydrostatic": hydrostatic.hydrostatic_define_conditions,
                "mod_hydro": mod_hydro.mod_hydro_define_conditions,
                }.get(method, config.define_conditions)
        return [lib.plain(make(SolutionInput(**i))) for i in inputs]
    return fn


def as_input(si):
    from disc_solver.file_format._containers import MCMCVars
    d = dict(si)
    if isinstance(d.get("mcmc_vars"), lib.Plain):
        d["mcmc_vars"] = MCMCVars(**d["mcmc_vars"])
    if isinstance(d.get("interp_slice"), tuple):
        d["interp_slice"] = slice(*d["interp_slice"][1:])
    return d


def check_limits(calls, row, where):
    """Every integration keeps to the tolerances and steps asked for."""
    inp = lib.expected_input(row)
    want = [float(inp["relative_tolerance"]),
            float(inp["absolute_tolerance"]), int(inp["max_steps"])]
    for n, c in enumerate(calls):
        have = c["limits"]
        have = [have["rtol"], have["atol"], have["max_steps"]]
        check(have == want, "wrong-limits",
              lambda: f"{where}: integration {n} is asked for tolerances and "
              f"steps {have} instead of {want}")


def judge(w, case, out, calls, where):
    method = case.method
    check_limits(calls, case.row, where)
    alone = method in ("hydrostatic", "mod_hydro")
    atts = split(calls, case.row, plain_calls=alone)
    check(out["status"] == "ok" or "SolverError" in out["mro"] or
          "injected crash" in out["text"], "unexpected-error",
          lambda: f"{where}: {out['status']}: {out['text']}")
    for n, a in enumerate(atts):
        check(a.status != "missing", "gave-up-early",
              lambda: f"{where}: attempt {n} went no further")
    if any(a.status == "crash" for a in atts):
        check("injected crash" in out.get("text", ""), "crash-hidden",
              lambda: f"{where}: {out['status']} {out.get('text')}")
    sols = out["run"]["solutions"]
    check(sorted(sols, key=int) == [str(i) for i in range(len(sols))],
          "numbering", lambda: str(sorted(sols)))
    sols = [sols[str(i)] for i in range(len(sols))]
    cons = lib.in_process(w, "alone", conditions(
        method, [as_input(s["solution_input"]) for s in sols]))
    fine = [a for a in atts if a.status.endswith("ok")]
    w.count("attempts that failed", len(atts) - len(fine))
    w.count("attempts", len(atts))
    pos = -1
    for i, (s, con) in enumerate(zip(sols, cons)):
        at = f"{where}: solution {i}"
        row = case.row
        # which attempt it is of: the next, or (fast crosser) the same again
        if method == "fast_crosser" and pos >= 0 and s["flag"] is not None \
                and same_points(s, fine[pos]):
            w.count("stored again")
        else:
            pos += 1
            while pos < len(fine) and fine[pos].status == "error or ok" and \
                    not same_points(s, fine[pos]):
                pos += 1
            check(pos < len(fine), "solution-from-nowhere",
                  lambda: f"{at} of {len(sols)}, only {len(fine)} attempts "
                  "gave one")
        a = fine[pos]
        check_solution(s, a, row, con, case.internal, method, at)
        # it began as its input says, whatever was tried before
        check(np.array_equal(s["initial_conditions"]["angles"],
                             con["angles"]) and
              np.array_equal(s["initial_conditions"]["init_con"],
                             con["init_con"]), "wrong-start",
              lambda: f"{at}: not started as its input says")
        if a.jumped:
            check(a.first["t0"][0] >= radians(
                lib.expected_input(row)["taylor_stop_angle"]), "wrong-start",
                lambda: f"{at}: began at {a.first['t0'][0]}")
        else:
            check(np.array_equal(a.first["t0"], con["angles"]) and
                  np.array_equal(a.first["y0"], con["init_con"]),
                  "wrong-start", lambda: f"{at}: integrated from "
                  f"{a.first['y0']}, its input means {con['init_con']}")
            if not alone:
                c = a.phases[0]
                check(np.array_equal(a.main["y0"], c["sy"][0]),
                      "wrong-start", lambda: f"{at}: not continued from "
                      "where the Taylor phase ended")
        if getattr(a, "jump", None):
            inp = lib.expected_input(row)
            c, nxt = a.jump
            size = inp["jump_before_sonic"] + (
                inp["jump_before_sonic"] if inp["after_sonic"] is None else
                inp["after_sonic"])
            have = nxt["y0"][lib.V_TH] - c["y"][-1][lib.V_TH]
            check(abs(have - size) < 1e-9, "wrong-jump",
                  lambda: f"{at}: jumped by {have} instead of {size}")
            w.count("jumps")
        w.count("phases", len(a.phases))
        w.count(f"ended with {s['flag']}")
    must = [a for a in fine[pos + 1:] if a.status == "ok"]
    check(not must, "solution-lost", lambda: f"{where}: {len(sols)} stored, "
          f"{len(fine)} attempts gave points")
    if method in ("single", "step", "hydrostatic", "mod_hydro"):
        bad = [i for i, a in enumerate(atts) if a.status == "error"]
        if bad:
            check(out["status"] != "ok", "error-hidden",
                  lambda: f"{where}: attempt {bad[0]} of {len(atts)}")
            check(bad == [len(atts) - 1], "went-on-after-error",
                  lambda: f"{where}: attempts {bad} of {len(atts)}")
        elif all(a.status == "ok" for a in atts) and atts:
            # (refusals of settings come before any integration)
            check(out["status"] == "ok", "unexpected-error",
                  lambda: f"{where}: {out['status']}: {out['text']}")
    if any(a.status == "ok" and (a.phases[-1]["flag"] < 0 or
                                 len(a.phases) > 2) for a in atts):
        w.nontrivial = True
    if any(a.status == "error" for a in atts):
        w.nontrivial = True


def same_points(s, a):
    n = a.phases[-1]
    return (len(n["y"]) <= len(s["solution"]) and s["flag"] == n["flag"] and
            np.array_equal(s["solution"][-len(n["y"]):], n["y"],
                           equal_nan=True))


# ---------------------------------------------------------- sonic_root
def judge_root(w, case, out, calls, where):
    """
    A first solve from the midplane, then some from the sonic point, each
    stored joined with the first.
    """
    check(out["status"] == "ok" or "SolverError" in out["mro"] or
          "injected crash" in out["text"], "unexpected-error",
          lambda: f"{where}: {out['status']}: {out['text']}")
    inp = lib.expected_input(case.row)
    n = 1 if inp["use_taylor_jump"] else 2
    atts = split(calls[:n], case.row) + split(
        calls[n:], case.row, plain_calls=True)
    sols = out["run"]["solutions"]
    sols = [sols[str(i)] for i in range(len(sols))]
    if not atts:
        return
    if atts[0].status != "ok":
        check(not sols, "solution-from-nowhere", where)
        w.count("first solve failed")
        return
    first = atts[0]
    cons = lib.in_process(w, "alone", conditions(
        "single", [as_input(sols[0]["solution_input"])]))
    check_solution(sols[0], first, case.row, cons[0], case.internal,
                   "sonic_root", f"{where}: first solution")
    fine = [a for a in atts[1:] if a.status == "ok"]
    check(len(sols) - 1 == len(fine), "solution-lost",
          lambda: f"{where}: {len(sols) - 1} stored, {len(fine)} attempts "
          "gave points")
    w.count("attempts that failed", len(atts) - len(fine) - 1)
    for i, (s, a) in enumerate(zip(sols[1:], fine)):
        at = f"{where}: solution {i + 1}"
        c = a.phases[0]
        t = np.concatenate((sols[0]["angles"], c["t"][::-1]))
        y = np.concatenate((sols[0]["solution"], c["y"][::-1]))
        check(np.array_equal(s["angles"], t) and np.array_equal(
            s["solution"], y, equal_nan=True), "points-differ",
            lambda: f"{at}: {len(s['angles'])} points, should be "
            f"{len(sols[0]['angles'])} and {len(c['t'])}")
        check(s["flag"] == c["flag"], "wrong-flag",
              lambda: f"{at}: {s['flag']}, should be {c['flag']}")
        d = s["internal_data"]
        if d is not None:
            want = np.concatenate((
                sols[0]["internal_data"]["angles"],
                [x for x, _, st in c["evaluations"] if st == 0][::-1]))
            check(np.array_equal(d["angles"], want), "wrong-internal-data",
                  lambda: f"{at}: {len(d['angles'])} records, should be "
                  f"{len(want)}")
    if any(a.status == "error" or a.phases[-1]["flag"] < 0 for a in atts[1:]):
        w.nontrivial = True


# -------------------------------------------------------------- scenarios
def body(todo):
    """Function for in_process: solve one after the other."""
    def fn():
        out = []
        for case in todo:
            simode.CALLS = []
            o = lib.memory_solve(
                case.row, case.method, store_internal=case.internal,
                policy=case.policy(), seed=case.seed, before=cases.pre(None),
                record=True, **dict(case.kwargs))()
            out.append((o, [c.described() for c in simode.CALLS]))
        return out
    return fn


def scenario(gens):
    def run(w):
        todo = []
        for _ in range(w.wpick([(1, 3), (2, 2), (3, 1)], "solves")):
            todo.append(w.pick(gens, "case")(w))
        res = lib.in_process(w, "solver", body(todo), events=True)
        for i, (case, (out, calls)) in enumerate(zip(todo, res)):
            where = f"solve {i} ({case.method})"
            w.note((where, out["status"], len(calls),
                    len(out["run"]["solutions"])))
            w.count("solves with " + case.method)
            f = judge_root if case.method == "sonic_root" else judge
            f(w, case, out, calls, where)
    return run


def faulty(name):
    def gen(w):
        if name == "crossing":
            inner = Crossing(w)
        else:
            inner = cases.gen(w, name, **(
                {"errors": w.draw(2, "errors") == 1}
                if name in ("mcmc", "fast_crosser") else
                {"faults": False} if name not in cases.SCRIPTED else {}))
            if name in ("real single", "hydrostatic", "mod_hydro"):
                inner.row["max_steps"] = w.pick(
                    ["10000", "10", "40", "100"], "max_steps")
                if w.draw(6, "hardly any angles") == 5:
                    inner.row["num_angles"] = w.pick(["2", "3", "1"],
                                                     "angles")
            if name in ("real single", "single", "step"):
                inner.row["use_taylor_jump"] = w.pick(
                    ["True", "False"], "taylor jump")
        return Faulty(w, inner)
    return gen


PROP = Prop(
    "C20",
    [Scenario("scripted", scenario([faulty(n) for n in (
        "single", "step", "step", "mcmc", "fast_crosser")]), 90),
     Scenario("real", scenario([faulty(n) for n in (
         "real single", "hydrostatic")]), 40),
     Scenario("slow", scenario([faulty(n) for n in (
         "sonic_root", "mod_hydro")]), 6),
     Scenario("crossing", scenario([faulty("crossing")]), 40)],
    rule="A run is one to three solves in a process, by any method, with "
    "generated failures of the integrator (flags, refusals, exceptions, "
    "missing stops, NaN) at generated integrations and positions; every "
    "solution is rebuilt from what the integrator was asked and gave. "
    "Non-trivial when an integration failed or the sonic point was crossed.",
    real=["the search methods", "solution assembly and internal data",
          "CVODE (scenarios real, slow, crossing) up to the injected failure"],
    stub=["CVODE results (scenario scripted)"],
    assumptions=["What CVODE returns before it fails are the points "
                 "integrated before the failure."],
)
