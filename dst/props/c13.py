"""Every stored attempt records the very input that produced it."""
import os
from math import degrees

import numpy as np

from .. import cases, lib, simode
from .. import world as W
from ..engine import Prop, Scenario
from ..lib import check

VARIED = {
    "step": ("γ",),
    "mcmc": ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k"),
    "fast_crosser": ("γ", "v_rin_on_c_s", "stop", "num_angles"),
}


def warm():
    import disc_solver.solve.resolve  # noqa: F401


class Noting:
    """Passes on what a policy decides, and tells the simulator."""

    def __init__(self, pol):
        self.pol = pol

    def __call__(self, call):
        d = self.pol(call) if self.pol is not None else None
        if d is not None and not call.is_taylor:
            W.current().record("given", call.t, call.y0, as_tuple(d))
        return d


def as_tuple(d):
    if d[0] == "stub":
        s = d[1]
        return ("stub", s.t, s.y, s.flag, s.root, s.rhs_points)
    return d


def as_directive(d):
    if d[0] == "stub":
        return ("stub", simode.Stub(d[1], d[2], d[3], d[4], d[5]))
    return d


class Again:
    """Answers an integration as one that began in the same way was."""

    def __init__(self, given, attempt):
        self.given = given
        self.attempt = attempt
        self.unknown = []

    def __call__(self, call):
        if call.is_taylor:
            return None
        same = [d for t, y0, d in self.given
                if np.array_equal(t, call.t) and
                np.array_equal(y0, call.y0, equal_nan=True)]
        if not same:
            self.unknown.append((degrees(call.t[0]), degrees(call.t[-1]),
                                 call.y0.tolist()))
            return ("fail", lib.SOLVER_ERROR_FLAG, 0)
        end = self.attempt["solution"][-1]
        for d in same:
            if d[0] == "stub" and np.array_equal(d[2][-1], end,
                                                 equal_nan=True):
                return as_directive(d)
        return as_directive(same[-1])


def text_of_input(si):
    """Settings as text, without loss."""
    out = {}
    for k in lib.CSV_FIELDS:
        v = lib.canonical(k, si[k])
        if k == "interp_slice" and v is not None:
            v = ",".join(str(x) for x in v if x is not None)
        elif k == "mcmc_vars" and v is not None:
            v = ",".join(v)
        elif isinstance(v, float):
            v = repr(v)
        out[k] = str(v)
    return out


class Real(cases.Case):
    """A search whose integrations CVODE does."""

    def __init__(self, w, method):
        self.method = {"human": "step"}.get(method, method)
        self.row = lib.gen_row(w, 0, stop=0.5 + 0.125 * w.draw(3, "stop"),
                               angles=w.between(10, 20, "angles"))
        self.internal = w.draw(2, "internal data") == 1
        if method == "human":
            self.row["split_method"] = "human"
            self.answers = [w.pick(["sign flip", "diverge"], "answer")
                            for _ in range(w.between(1, 5, "steps"))
                            ] + ["STOP"]
        else:
            self.row["nwalkers"] = "8"
            self.row["iterations"] = str(w.between(1, 2, "iterations"))
            self.seed = w.draw(1 << 20, "random numbers")


def again(case, name, si, attempt, given):
    """Function for in_process: solve from the recorded input."""
    row = text_of_input(si)
    method = case.method
    kw = {}
    if method in ("mcmc", "single"):
        method = "single"
    elif method in ("step", "fast_crosser"):
        method = "step"
        kw = {"num_attempts": 1, "no_final_solution": True}
        if case.method == "fast_crosser" and abs(si["stop"] - 90) < 1e-9:
            method, kw = "single", {}
    if given is None:
        pol = case.policy()
    else:
        pol = Again(given, attempt)
    fn = lib.memory_solve(row, method, store_internal=case.internal,
                          policy=pol, **kw)

    def body():
        out = fn()
        if out["run"] is not None:
            # the attempts are enough
            out["run"] = {"solutions": out["run"]["solutions"]}
        return out, getattr(pol, "unknown", [])
    return body


CONDITIONS = {
    "hydrostatic": ("hydrostatic", "hydrostatic_define_conditions"),
    "mod_hydro": ("mod_hydro", "mod_hydro_define_conditions"),
}


def initial_conditions(method, si):
    """Those of an input; to be asked for before anything is solved."""
    from importlib import import_module
    from disc_solver.file_format import ConfigInput
    where, name = CONDITIONS.get(method, ("config", "define_conditions"))
    fn = getattr(import_module("disc_solver.solve." + where), name, None)
    if fn is None:
        return None
    return lib.plain(fn(ConfigInput(
        label="", **text_of_input(si)).to_soln_input()))


def judge(w, case, run, given, where):
    want = lib.expected_input(case.row)
    varied = VARIED.get(case.method, ())
    sols = run["solutions"]
    names = sorted(sols, key=int)
    for k in names:
        si = sols[k]["solution_input"]
        for f in lib.CSV_FIELDS:
            if f not in varied:
                have = lib.canonical(f, si[f])
                check(lib.same_setting(f, have, want[f]), "wrong-input",
                      lambda: f"{where}: attempt {k} records {f} = {have!r}, "
                      f"should be {want[f]!r}")
    whole = case.method not in ("single", "step", "mcmc", "fast_crosser")
    if len(names) > 12:
        names = sorted({w.pick(names, "attempt to solve again")
                        for _ in range(12)}, key=int)
    if whole:
        names = names[-1:]

    def body():
        cases.pre()()
        conditions = [
            initial_conditions(case.method, sols[k]["solution_input"])
            for k in names]
        return conditions, [again(case, k, sols[k]["solution_input"], sols[k], given)()
                for k in names]
    w.inputs = ["diverge"] * (len(names) + 5)
    old = simode.POLICY
    try:
        conditions, got = lib.in_process(w, "again", body)
    finally:
        simode.POLICY = old
    for k, cons in zip(names, conditions):
        if cons is not None:
            lib.same(sols[k]["initial_conditions"], cons,
                     "wrong-initial-conditions",
                     f"{where}: attempt {k}: its recorded and its input's")
    for k, (out, unknown) in zip(names, got):
        check(not unknown, "starts-differently",
              lambda: f"{where}: attempt {k}: solving again from the recorded "
              f"input integrates from {unknown[0]}, which no integration of "
              "the search began with")
        check(out["run"] is not None and out["run"]["solutions"],
              "cannot-solve-again",
              lambda: f"{where}: attempt {k}: {out['status']}: "
              f"{out.get('text')}")
        now = out["run"]["solutions"]
        if whole:
            lib.same(now, sols, "not-reproducible",
                     f"{where}: solved again from the input of attempt {k}")
        else:
            lib.same(now["0"], sols[k], "not-reproducible",
                     f"{where}: attempt {k} solved again")
        w.count("attempts solved again", len(now) if whole else 1)
    w.nontrivial = len(run["solutions"]) > 1


def one(make):
    def run(w):
        case = make(w)
        w.note((case.method, dict(case.row)))
        scripted = case.method in cases.SCRIPTED and not isinstance(
            case, (Real, cases.Real))
        if scripted:
            pol = case.policy
            case.policy = lambda: Noting(pol())
        if w.draw(2, "in a file"):
            path = os.path.join(w.scratch, "out.hdf5")
            o = case.run_file(w, "cmd", path)
            check(o.kind in ("return", "raise"), "unexpected-end", repr(o))
            have = lib.in_process(w, "reader", lib.load_or_why(path))
            if have[0] != "run":
                check(o.kind == "raise" or o.code, "result-file-broken",
                      lambda: have[1])
                return
            result, where = have[1], "in a file"
        else:
            mem = case.solve_memory(w)
            result, where = mem["run"], "in memory"
            if result is None:
                return
        given = None
        if scripted:
            given = [r[2:5] for r in w.records("given")]
            w.notes = [r for r in w.notes if r[1] != "given"]
        judge(w, case, result, given, where)
    return run


def gen(*methods):
    return lambda w: cases.gen(w, methods=methods)


def whole(w):
    return cases.gen(w, methods=("real single", "hydrostatic", "sonic_root"))


PROP = Prop(
    "C13",
    [Scenario("step", one(gen("single", "step", "human")), 40),
     Scenario("mcmc", one(gen("mcmc")), 12),
     Scenario("fast_crosser", one(gen("fast_crosser")), 12),
     Scenario("real human", one(lambda w: Real(w, "human")), 20),
     Scenario("real mcmc", one(lambda w: Real(w, "mcmc")), 6),
     Scenario("real", one(whole), 24),
     Scenario("mod_hydro", one(gen("mod_hydro")), 2)],
    rule="A run is one search, in memory or a file, after which its attempts "
    "(at most twelve) are solved again from the input they record; "
    "non-trivial when the search stored several attempts.",
    real=["all search methods", "solution assembly", "result files",
          "CVODE (the scenarios named real, and mod_hydro)"],
    stub=["CVODE results of the other scenarios", "the human"],
    assumptions=["An integration that begins with the same values on the "
                 "same angles gives the same result (scripted scenarios)."],
)
