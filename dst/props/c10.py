"""The MCMC search keeps the best attempt and survives failing proposals."""
import os
from math import exp, isfinite

import numpy as np

from .. import cases, lib, seams
from ..engine import Prop, Scenario
from ..lib import check

VARS = ("v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k")
LIMITED = ("γ",) + VARS


def warm():
    import disc_solver.solve.resolve  # noqa: F401


class Proposals:
    """What becomes of the n-th integration; notes what it gave."""

    def __init__(self, kinds, crash):
        self.kinds = kinds
        self.crash = crash
        self.given = []      # (number of proposals so far, kind, last rows)
        self.v0 = None

    def __call__(self, call):
        if call.is_taylor:
            return None
        n = len(self.given)
        k = self.kinds[n % len(self.kinds)]
        if n == self.crash:
            k = "crash"
        at = len(seams.SAMPLED or ())
        self.given.append((at, k if not isinstance(k, tuple) else "flag",
                           None))
        if k == "crash":
            return ("raise", RuntimeError("injected crash"))
        if k == "error":
            return lib.directive("error", call)
        if k == "nan":
            st = lib.profile(call, "sign")
            st.y[-1, lib.V_TH] = np.nan
            return ("stub", st)
        if k == "long":       # CVODE itself, on part of the range
            return lib.directive(("flag", -1, 3), call)
        if isinstance(k, tuple):
            return lib.directive(k, call)
        kind, scale = k.split("*") if "*" in k else (k, "1")
        if kind == "wild":    # speeds that rise and fall: not probable
            st = lib.profile(call, "sign")
            if np.all(np.isfinite(st.y)):
                st.y[:, lib.V_TH] = 0.1 + float(scale) * (
                    np.arange(len(st.y)) % 3)
        else:
            st = lib.profile(call, kind)
            st.y[:, lib.V_TH] *= float(scale)
        self.given[-1] = (at, k, np.array(st.y))
        return ("stub", st)


def probability(v):
    """As documented: fast outflows with an even rate are the best."""
    target = -exp(-max(v))
    rate = np.diff(v) ** 2
    return 10 * target - float(np.sum(np.diff(rate) ** 2))


def gen(w):
    row = lib.gen_row(w, 0, angles=w.between(12, 16, "angles"))
    row["nwalkers"] = str(w.pick([8, 10, 14], "walkers"))
    row["iterations"] = str(w.between(1, 4, "iterations"))
    row["mcmc_vars"] = w.pick(
        ["v_r,v_a,v_k", "v_r", "v_a,v_k", "v_k", "None", "v_a"], "mcmc_vars")
    kinds = []
    for _ in range(w.pick([1, 6, 40], "different verdicts")):
        k = w.wpick([("sign", 5), ("best", 3), ("diverge", 3), ("error", 3),
                     ("flag", 1), ("nan", 2), ("fail", 1)], "verdict")
        if k == "flag":
            k = ("flag", w.pick(lib.FAIL_FLAGS, "flag"), 2)
        elif k in ("sign", "best", "diverge"):
            k += w.pick(["", "*0.99", "*0.9", "*0.95", "*0.8"], "how fast")
        kinds.append(k)
    if w.draw(6, "all attempts improbable") == 5:
        kinds = ["wild*" + w.pick(["1.5", "2", "3", "5", "1e3"], "how wild")
                 for _ in range(w.between(1, 6, "different attempts"))]
    if w.draw(8, "everything fails") == 7:
        kinds = ["error"]
    crash = None
    if w.draw(10, "unexpected error") == 9:
        crash = w.draw(20, "in which integration")
    # proposals beyond the limits
    moves = {}
    for _ in range(w.pick([0, 3, 12], "unusual proposals")):
        moves[w.draw(40, "which")] = (
            w.draw(4, "parameter"),
            w.pick([-1.0, 0.0, -1e-300, 1e-300, 1e200, 1e10, 5e-324],
                   "factor"))
    return row, kinds, crash, moves


def mover(moves):
    def move(n, x):
        if n not in moves:
            return x
        x = np.array(x)
        x[moves[n][0] % len(x)] *= moves[n][1]
        return x
    return move


def body(inner, pol, moves):
    def fn():
        seams.SAMPLED = []
        seams.MOVE = mover(moves)
        out = inner()
        return out, list(pol.given), [tuple(s) for s in seams.SAMPLED]
    return fn


def sampling(row):
    """The parameters a selection means to sample, in the documented order."""
    sel = lib.interpret("mcmc_vars", row["mcmc_vars"])
    if sel is None:
        sel = ("v_r", "v_a", "v_k")
    return ["γ"] + [n for n, s in zip(VARS, ("v_r", "v_a", "v_k"))
                    if s in sel]


def judge(w, row, kinds, crash, given, sampled, sols, where):
    inp = lib.expected_input(row)
    names = sampling(row)
    expect = []        # (proposal, rows) that have to be stored
    probs = []
    by_proposal = {at - 1: (k, y) for at, k, y in given}
    check(len(by_proposal) == len(given), "solved-twice",
          lambda: f"{where}: {len(given)} integrations for "
          f"{len(by_proposal)} proposals")
    stored = 0
    for n, (x, p) in enumerate(sampled):
        check(len(x) == len(names), "wrong-parameters",
              lambda: f"{where}: samples {len(x)} of {names}")
        vals = dict({k: inp[k] for k in LIMITED}, **dict(zip(names, x)))
        valid = all(vals[k] > 0 for k in LIMITED)
        if not valid:
            w.count("invalid proposals")
            check(n not in by_proposal, "invalid-proposal-solved",
                  lambda: f"{where}: {vals}")
        kind, y = by_proposal.get(n, (None, None))
        if kind == "crash":
            check(p is None and n == len(sampled) - 1, "crash-ignored",
                  lambda: f"{where}: goes on after an unexpected error")
            break
        if kind is None or kind == "error":
            # not solvable
            check(p is not None and p == -np.inf, "wrong-probability",
                  lambda: f"{where}: proposal {n} without solution has {p}")
            w.count("failing proposals")
            continue
        check(p is not None, "search-died", lambda: f"{where}: proposal {n}")
        # something was solved
        if y is not None and not np.all(np.isfinite(y[:, lib.V_TH])):
            kind = "nan"     # where it started was unusual
        if kind == "flag" and not isfinite(p):
            kind = "nan"     # CVODE's own
        if kind == "nan":
            check(not p > -np.inf, "wrong-probability",
                  lambda: f"{where}: NaN solution has {p}")
            w.count("solutions with NaN")
            continue
        check(str(stored) in sols, "attempt-missing",
              lambda: f"{where}: proposal {n} ({kind}) is attempt {stored}, "
              f"only {sorted(sols, key=int)} stored")
        s = sols[str(stored)]
        stored += 1
        check_attempt(s, vals, inp, y, f"{where}: attempt {stored - 1}")
        v = s["solution"][:, lib.V_TH]
        want = probability(v)
        check(isfinite(p) and abs(p - want) <= 1e-9 * max(1, abs(want)),
              "wrong-probability", lambda: f"{where}: attempt {stored - 1} "
              f"has probability {p}, should have {want}")
        probs.append(p)
        expect.append(n)
    check(len(sols) == stored, "extra-attempts",
          lambda: f"{where}: {len(sols)} attempts stored, {stored} proposals "
          "were solved")
    w.count("proposals", len(sampled))
    w.count("stored attempts", stored)
    w.nontrivial = stored > 1
    return probs


def check_attempt(s, vals, inp, y, where):
    si = s["solution_input"]
    for k in lib.CSV_FIELDS:
        want = vals[k] if k in LIMITED else inp[k]
        check(lib.same_setting(k, lib.canonical(k, si[k]), want),
              "wrong-input", lambda: f"{where}: {k} is {si[k]!r}, the "
              f"proposal had {want!r}")
    if y is not None:
        check(np.array_equal(s["solution"][-len(y):], y), "wrong-solution",
              lambda: f"{where}: holds another solution")


def outcome(w, row, crash, crashed, sampled, probs, sols, final, ok, ended,
            where):
    if crashed:
        check(ended is not None and "RuntimeError" in ended, "crash-hidden",
              lambda: f"{where}: {ended}")
        return
    check(ended is None, "search-died", lambda: f"{where}: {ended}")
    n = int(row["nwalkers"]) * (1 + int(row["iterations"]))
    check(len(sampled) == n, "iterations-missing",
          lambda: f"{where}: {len(sampled)} proposals, should be {n}")
    check(bool(ok) == bool(probs), "wrong-outcome",
          lambda: f"{where}: {ok!r} with {len(probs)} attempts stored")
    if not probs:
        check(not isinstance(final, lib.Plain), "unexpected-final-solution",
              where)
        return
    best = int(np.argmax(probs))
    check(isinstance(final, lib.Plain), "no-final-solution", where)
    lib.same(final, sols[str(best)], "wrong-final-solution",
             f"{where}: best is attempt {best} of {len(probs)}")


def memory(w):
    row, kinds, crash, moves = gen(w)
    pol = Proposals(kinds, crash)
    out, given, sampled = lib.in_process(w, "memory", body(lib.memory_solve(
        row, "mcmc", store_internal=w.draw(2, "internal data") == 1,
        policy=pol, seed=w.draw(1 << 20, "random numbers")), pol, moves),
        events=True)
    w.note((kinds, sampled))
    crashed = any(k == "crash" for _, k, _ in given)
    sols = out["run"]["solutions"]
    probs = judge(w, row, kinds, crash, given, sampled, sols, "in memory")
    outcome(w, row, crash, crashed, sampled, probs, sols,
            out["run"]["final_solution"], out["returned"],
            None if out["status"] == "ok" else
            f"{out['status']}: {out['text']}", "in memory")


def command(w):
    """ds-soln into a file."""
    from disc_solver.solve import main
    row, kinds, crash, moves = gen(w)
    pol = Proposals(kinds, crash)
    conf = os.path.join(w.scratch, "c.cfg")
    lib.write_file(conf, lib.conf_text(row))
    path = os.path.join(w.scratch, "out.hdf5")
    seed = w.draw(1 << 20, "random numbers")
    lib.use(pol)

    def entry(argv):
        import numpy.random
        numpy.random.seed(seed)
        seams.SAMPLED = []
        seams.MOVE = mover(moves)
        try:
            return main(argv)
        finally:
            w2 = seams.W.current()
            w2.record("mcmc", pol.given, seams.SAMPLED)
    o = lib.run_cmd(w, "cmd", entry, lib.soln_argv(
        conf, "mcmc", path, None, w.draw(2, "internal data") == 1))
    (_, _, given, sampled), = w.records("mcmc")
    crashed = any(k == "crash" for _, k, _ in given)
    have = lib.in_process(w, "reader", lib.load_or_why(path))
    if crashed:
        check(o.kind == "raise" and o.exc["type"] == "RuntimeError",
              "crash-hidden", repr(o))
        check(have[0] == "bad", "passes-as-complete", "after a crash")
        return
    check(o.kind == "return", "search-died",
          lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    check(have[0] == "run", "result-file-broken", lambda: str(have))
    sols = have[1]["solutions"]
    probs = judge(w, row, kinds, crash, given, sampled, sols, "result file")
    outcome(w, row, crash, False, sampled, probs, sols,
            have[1]["final_solution"], o.code == 0, None, "result file")


PROP = Prop(
    "C10",
    [Scenario("memory", memory, 120), Scenario("command", command, 16)],
    rule="A run is one MCMC search with 8 to 14 walkers and 1 to 4 "
    "iterations, random numbers, parameter selection and the result of every "
    "integration generated; every proposal of the sampler is followed. "
    "Non-trivial when at least two attempts were stored.",
    real=["mcmc search", "emcee", "solution assembly",
          "ds-soln and its result file (scenario command)"],
    stub=["random numbers (seeded)", "CVODE results (scripted)"],
    assumptions=["emcee proposes as it documents; the probability is the "
                 "documented one."],
)
