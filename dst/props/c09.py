"""The stepping search follows its rule, whatever verdicts it gets."""
import os
from math import degrees

import numpy as np

from .. import lib, simode
from ..engine import Prop, Scenario
from ..lib import check
from .. import cases

BEST, STOP, SIGN, DIVERGE, ERROR = "best", "STOP", "sign", "diverge", "error"
ATTEMPTS, SEARCH = 100, 20     # what ds-soln uses


def warm():
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.analyse.diverge_plot  # noqa: F401


def histories(w, γ, n, human):
    """Verdicts of up to n attempts, from a pattern."""
    kind = w.wpick([("mixed", 4), ("target", 3), ("runs", 2), ("one way", 2),
                    ("alternating", 1)], "pattern")
    two = (SIGN, DIVERGE)
    first = w.draw(2, "first verdict")
    out = []
    if kind == "mixed":
        out = [w.pick(two, "verdict") for _ in range(min(n, 60))]
    elif kind == "runs":
        v = first
        while len(out) < min(n, 60):
            out += [two[v]] * w.between(1, 22, "equal verdicts")
            v = 1 - v
    elif kind == "one way":
        out = [two[first]] * min(n, 60)
    elif kind == "alternating":
        out = [two[(first + k) % 2] for k in range(min(n, 60))]
    else:
        # the verdicts of an ideal problem with one solution at `target`
        target = γ * (1 + 0.1 * (w.between(-150, 150, "target") / 10 + 1e-3))
        x, s, begun = γ, 0.1 * γ, False
        for _ in range(min(n, 72)):
            v = SIGN if x < target else DIVERGE
            if begun or (out and out[-1] != v and v != out[0]):
                begun = True
                s /= 2
            out.append(v)
            x += s if v == SIGN else -s
    end = w.wpick([(None, 3), (STOP if human else BEST, 4), (ERROR, 1)],
                  "how it ends")
    if end is not None:
        at = w.draw(len(out) + 1, "ends at")
        out = out[:at] + [end]
        if end == BEST and reached(out, γ) < 0.01 * γ:
            out[-1] = SIGN       # no good solution there
    return out


def reached(verdicts, γ):
    """Where the last of the attempts takes place."""
    s, begun = 0.1 * γ, False
    for v in verdicts[:-1]:
        if begun or v != verdicts[0]:
            begun = True
            s /= 2
        γ += s if v == SIGN else -s
    return γ


class Pads:
    """Random v_θ profiles, and the verdict the documented rule gives."""

    def __init__(self, w):
        self.w = w
        self.given = []

    def __call__(self, call):
        if call.is_taylor:
            return None
        w = self.w
        s = lib.profile(call, "sign")
        n = len(s.t)
        kind = w.wpick([("below", 3), ("concave", 3), ("convex", 2),
                        ("above", 2), ("dips", 2), ("dips near", 2),
                        ("negative", 1), ("failed", 1), ("ρ", 1)], "profile")
        x = np.linspace(0, 1, n)
        if kind in ("below", "negative"):
            v = 0.1 + 0.6 * x
        elif kind in ("concave", "failed", "ρ"):
            v = 0.1 + 0.89 * np.sin(np.pi / 2 * x)
        else:
            v = 0.1 + 0.89 * x ** 3
        if kind == "above":
            v[-1] = 1.3
        if kind == "dips":
            v[n // 2] = v[0] / 2
            v[-1] = 0.995
        if kind == "dips near":
            v[-4:] = (0.92, 0.97, 0.93, 0.96)
        if kind == "negative":
            v[-1] = -0.2
        if kind == "ρ":
            s.y[-1, lib.RHO] = -1e-9
        if kind == "failed":
            s.flag = -4
        s.y[:, lib.V_TH] = v
        self.given.append(self.verdict(v, s))
        return ("stub", s)

    @staticmethod
    def verdict(v, s):
        near = v[(v > 0.9) & (v < 1)]
        valid = s.flag == 0 and np.all(v >= 0) and np.all(
            np.diff(v) >= 0) and np.all(s.y[:, lib.RHO] >= 0)
        if valid and len(near) and not np.any(np.diff(near, n=2) > 0):
            return BEST
        if not len(near):
            return SIGN
        if np.any(v > 1) or np.all(np.diff(near) > 0):
            return DIVERGE
        return SIGN


class Script:
    def __init__(self, verdicts, human):
        self.v = verdicts
        self.n = 0
        self.human = human

    def __call__(self, call):
        if call.is_taylor:
            return None
        v = self.v[min(self.n, len(self.v) - 1)]
        self.n += 1
        if self.human and v not in (ERROR,):
            return ("stub", lib.profile(call, "sign"))
        return lib.directive(v, call)


def model(w, sols, verdicts, inp, n_att, n_search, where):
    """
    Check the attempts; returns how the search must have ended:
    "final" (the last attempt is the final solution), "none", "raise".
    """
    γ0 = inp["γ"]
    step = 0.1 * γ0
    begun = False
    first = None
    k = 0
    want = γ0
    n = len(sols)
    while True:
        if k >= n_att:
            check(n == k, "too-many-attempts",
                  lambda: f"{where}: {n} attempts, {n_att} allowed")
            return "none"
        v = verdicts[k] if k < len(verdicts) else verdicts[-1]
        if v == ERROR:
            check(n == k, "attempts-lost",
                  lambda: f"{where}: {n} attempts, failure in number {k}")
            return "raise"
        check(k < n, "ended-early", lambda: f"{where}: {n} attempts stored, "
              f"another one had to follow (verdicts {verdicts[:n + 1]})")
        si = sols[str(k)]["solution_input"]
        have = si["γ"]
        if isinstance(want, tuple):
            check(want[0] < have <= want[1], "wrong-step",
                  lambda: f"{where}: attempt {k} at {have!r}, should lie "
                  f"between {want}")
        else:
            tol = 3 * np.spacing(max(want, γ0))
            check(abs(have - want) <= tol, "wrong-step",
                  lambda: f"{where}: attempt {k} used {have!r}, should be "
                  f"{want!r} after {verdicts[:k]}")
        for name in lib.CSV_FIELDS:
            if name != "γ":
                check(lib.same_setting(name, lib.canonical(name, si[name]),
                                       inp[name]), "input-changed",
                      lambda: f"{where}: attempt {k}: {name} is "
                      f"{si[name]!r}, should be {inp[name]!r}")
        if v in (BEST, STOP):
            if not (v == STOP and not begun and k + 1 > n_search):
                check(n == k + 1, "too-many-attempts",
                      lambda: f"{where}: {n}, number {k} was final: "
                      f"{verdicts}")
                return "final"
        if not begun:
            if k + 1 > n_search:
                check(n == k + 1, "too-many-attempts",
                      lambda: f"{where}: {n} attempts without change of "
                      f"verdict, {n_search} allowed")
                return "none"
            if first is None:
                first = v
            elif v != first:
                begun = True
                step /= 2
        else:
            step /= 2
        ulp = np.spacing(have)
        nxt = have + (step if v == SIGN else -step)
        if step > 4 * ulp:
            want = nxt
        elif v == SIGN:
            want = (have, have + step + 4 * ulp)
        elif n == k + 1 and n < n_att:
            w.count("ended at the numerical limit")
            return "final"       # cannot be lowered any more
        else:
            check(have - step != have, "too-many-attempts",
                  lambda: f"{where}: goes on although {have!r} cannot be "
                  f"lowered by {step!r}")
            want = (have - step - 4 * ulp, np.nextafter(have, 0))
        k += 1


def judge(w, sols, final, ok, raised, verdicts, inp, n_att, n_search, where,
          keep=True):
    n = len(sols)
    check(sorted(sols, key=int) == [str(k) for k in range(n)], "numbering",
          lambda: str(sorted(sols)))
    how = model(w, sols, verdicts, inp, n_att, n_search, where)
    w.count("attempts", n)
    w.count("ended: " + how)
    w.nontrivial = w.nontrivial or n > 2
    if how == "raise":
        check(raised, "failure-hidden", lambda: f"{where}: {verdicts}")
        return
    check(not raised, "unexpected-error", where)
    if not keep:
        return
    check(bool(ok) == (how == "final"), "wrong-outcome",
          lambda: f"{where}: reported {ok!r}, the search ended with {how} "
          f"after {n} attempts")
    if how == "final":
        check(isinstance(final, lib.Plain), "no-final-solution", where)
        lib.same(final, sols[str(n - 1)], "wrong-final-solution", where)
    else:
        check(not isinstance(final, lib.Plain), "unexpected-final-solution",
              where)


def memory(human, profiles=False):
    def run(w):
        row = lib.gen_row(w, 0, angles=w.between(12, 16, "angles"))
        row["split_method"] = "human" if human else "v_θ_deriv"
        γ = float(row["γ"])
        n_att = w.wpick([(100, 3), (1, 1), (2, 1), (7, 2), (30, 1)],
                        "allowed attempts")
        n_search = w.pick([20, 20, 1, 3, 10], "allowed without change")
        kw = dict(num_attempts=n_att, max_search_steps=n_search)
        if w.draw(6, "nothing to be kept") == 5:
            kw["no_final_solution"] = True
        internal = human and w.draw(2, "internal data") == 1
        if profiles:
            n_att = kw["num_attempts"] = min(n_att, 30)
            pol = Pads(w)
            verdicts = pol.given
        else:
            verdicts = histories(w, γ, n_att, human)
            pol = Script(verdicts, human)
            if human:
                # people make typing errors; after the last, they go away
                ans = []
                for v in verdicts:
                    if w.draw(8, "typing error") == 7:
                        ans.append(w.pick(["", "sgn flip", "stop"], "typo"))
                    if v != ERROR:
                        ans.append({SIGN: " sign flip", DIVERGE: "diverge ",
                                    STOP: "STOP"}[v])
                if verdicts[-1] in (SIGN, DIVERGE):
                    ans += ["sign flip" if verdicts[-1] == SIGN
                            else "diverge"] * n_att
                w.inputs = ans
        out = lib.in_process(w, "memory", lib.memory_solve(
            row, "step", store_internal=internal, policy=pol,
            before=cases.pre(), **kw) if not profiles else
            lib.with_given(lib.memory_solve(
                row, "step", store_internal=False, policy=pol,
                before=cases.pre(), **kw), pol), events=True)
        if profiles:
            out, verdicts = out
        ended = out["status"] != "ok"
        if ended:
            check("SolverError" in out["mro"], "unexpected-error",
                  lambda: f"{out['status']}: {out['text']}")
        run_ = out["run"]
        w.note(verdicts)
        judge(w, run_["solutions"], run_["final_solution"], out["returned"],
              ended, list(verdicts), lib.expected_input(row), n_att, n_search,
              "in memory", keep="no_final_solution" not in kw)
    return run


def command(w):
    """ds-soln and ds-resoln, with a person or without."""
    row = lib.gen_row(w, 0, angles=12)
    human = w.draw(2, "a person decides") == 1
    row["split_method"] = "human" if human else "v_θ_deriv"
    verdicts = histories(w, float(row["γ"]), 40, human)
    c = cases.Case()
    c.method, c.row, c.internal = "step", row, False
    names = {SIGN: "sign flip", DIVERGE: "diverge", STOP: "STOP"}
    if human:
        c.answers = [names[v] for v in verdicts if v != ERROR] + [
            names.get(verdicts[-1], "STOP")] * 100
    c.policy = lambda: Script(verdicts, human)
    path = os.path.join(w.scratch, "out.hdf5")
    if w.draw(2, "ds-resoln"):
        src = os.path.join(w.scratch, "src.hdf5")
        c.source(w, src)
        o = c.run_resolve(w, "cmd", path, src)
    else:
        o = c.run_file(w, "cmd", path)
    raised = o.kind == "raise"
    check(not raised or "SolverError" in o.exc["mro"], "unexpected-error",
          lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    have = lib.in_process(w, "reader", lib.load_or_why(path))
    if raised:
        check(have[0] == "bad" or verdicts[-1] == ERROR, "failure-hidden",
              repr(o))
        return
    check(have[0] == "run", "result-file-broken", lambda: str(have))
    judge(w, have[1]["solutions"], have[1]["final_solution"], o.code == 0,
          False, verdicts, lib.expected_input(row), ATTEMPTS, SEARCH,
          "result file")
    check(w.kinds["ode"] >= len(have[1]["solutions"]), "made-up-attempt", "")


def internal(w):
    """Verdicts that rely on internal data: the direction is what it is."""
    row = lib.gen_row(w, 0, angles=12)
    kinds = [w.pick(["sign", "diverge", "fail"], "profile")
             for _ in range(w.between(1, 25, "profiles"))]
    pol = Script(kinds, False)
    n_att = w.pick([100, 8], "allowed attempts")
    out = lib.in_process(w, "memory", lib.memory_solve(
        row, "step", store_internal=True, policy=pol, num_attempts=n_att), events=True)
    w.note(kinds)
    check(out["status"] == "ok", "unexpected-error",
          lambda: f"{out['status']}: {out.get('text')}")
    sols = out["run"]["solutions"]
    # the verdicts, from the way the search went on
    γ = [sols[str(k)]["solution_input"]["γ"] for k in range(len(sols))]
    verdicts = [SIGN if b > a else DIVERGE for a, b in zip(γ, γ[1:])]
    # an attempt with a negative velocity is a sign flip
    for k, v in enumerate(verdicts):
        if kinds[min(k, len(kinds) - 1)] == "sign":
            check(v == SIGN, "wrong-verdict", f"attempt {k}: negative "
                  "velocity taken for diverging")
    last = verdicts[-1] if verdicts else SIGN
    if len(set(verdicts)) < 2 and len(γ) > SEARCH:
        last = None      # (not told)
    verdicts.append(last or (verdicts[0] if verdicts else SIGN))
    if len(γ) < n_att and len(set(verdicts[:-1])) > 1:
        verdicts[-1] = DIVERGE       # the only other way to end
    judge(w, sols, out["run"]["final_solution"], out["returned"], False,
          verdicts, lib.expected_input(row), n_att, SEARCH, "internal data")


PROP = Prop(
    "C09",
    [Scenario("automatic", memory(False), 120),
     Scenario("profiles", memory(False, True), 80),
     Scenario("person", memory(True), 60),
     Scenario("command", command, 50),
     Scenario("internal data", internal, 30)],
    rule="A run is one stepping search over a generated history of verdicts "
    "(scripted profiles, random profiles judged by the documented rule, or "
    "answers of a person with typing errors) with generated attempt limits, "
    "in memory or by ds-soln/ds-resoln; non-trivial with more than two "
    "attempts.",
    real=["stepping search, input stepping, verdicts", "solution assembly",
          "ds-soln, ds-resoln, result files (scenario command)"],
    stub=["CVODE results (scripted)", "the person at the keyboard",
          "the plot shown to the person"],
    assumptions=["With internal data only the direction taken tells the "
                 "verdict, except for attempts with negative velocity."],
)
