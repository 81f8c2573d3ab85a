"""The fast-crossing search is bounded, stays in its bracket and stores."""
import os
from math import degrees

import numpy as np

from .. import cases, lib
from ..engine import Prop, Scenario
from ..lib import check

STEPS = cases.FINAL_STEPS


def warm():
    import disc_solver.solve.resolve  # noqa: F401


class Search:
    """
    Qualities and failures of the inner solves; notes the attempts:
    [v_r, quality, attempts stored by the inner search, long solve stored].
    """

    def __init__(self, w):
        self.kind = w.wpick([("peak", 4), ("random", 3), ("rising", 1),
                             ("falling", 1), ("flat", 1)], "quality")
        self.top = 1 + 0.01 * w.between(-30, 30, "best v_r") / 5
        self.width = w.pick([1.0, 0.3, 4.0], "width of the peak")
        self.random = [w.between(3, STEPS, "points reached")
                       for _ in range(w.pick([5, 20], "random qualities"))]
        n = w.wpick([(0, 4), (1, 2), (3, 2), (12, 1)], "failing solves")
        self.fail_step = {w.draw(w.pick([4, 20], "early"), "which")
                          for _ in range(n)}
        n = w.wpick([(0, 4), (1, 2), (3, 1)], "failing long solves")
        self.fail_long = {w.draw(w.pick([4, 20], "early"), "which")
                          for _ in range(n)}
        self.all_fail = w.draw(12, "everything fails") == 11
        # (γ is handed on from attempt to attempt: it may not grow so far
        # that attempts end before anything is integrated)
        n = w.pick([1, 8], "inner searches")
        self.inner = [w.wpick([
            (("best",), 6), (("diverge", "sign", "best"), 1),
            (("sign", "error"), 1)] + [(("sign", "best"), 1)] * (1 < n and
                                                                i < 3),
            "inner search") for i in range(n)]
        self.endless = w.draw(w.pick([4, 12, 60], "early"), "endless inner search") \
            if w.draw(2, "an endless inner search") else None
        self.attempts = []       # what is noted
        self.inside = 0          # attempts of the current inner search
        self.v0 = None
        self.midplane = None

    def given(self):
        return [list(a) for a in self.attempts]

    def __call__(self, call):
        if call.is_taylor:
            # starts at the midplane: the v_r tried, exactly
            self.midplane = -float(call.y0[lib.V_R])
            return None
        # (without it the integration starts there itself)
        v = -float(call.y0[lib.V_R]) if self.midplane is None \
            else self.midplane
        if self.v0 is None:
            self.v0 = v
        if abs(degrees(float(call.t[-1])) - 90) > 1e-6:
            return self.step(call, v)
        return self.long(call, v)

    def step(self, call, v):
        if self.inside == 0:
            self.attempts.append([v, 0.0, 0, False])
        n = len(self.attempts) - 1
        seq = self.inner[n % len(self.inner)]
        k = seq[min(self.inside, len(seq) - 1)]
        if n == self.endless:
            k = "sign"
        if n in self.fail_step or self.all_fail:
            k = "error"
        self.inside += 1
        if k == "error":
            self.inside = 0       # the inner search gives up
        else:
            self.attempts[-1][2] += 1
        return lib.directive(k, call)

    def long(self, call, v):
        n = len(self.attempts) - 1
        self.inside = 0
        if n in self.fail_long:
            return lib.directive("error", call)
        rel = v / self.v0
        if self.kind == "peak":
            keep = STEPS - 4 * abs(rel - self.top) * 100 / self.width
        elif self.kind == "random":
            keep = self.random[n % len(self.random)]
        elif self.kind == "flat":
            keep = 20
        else:
            sign = 1 if self.kind == "rising" else -1
            keep = 15 + 100 * sign * (rel - 1)
        keep = int(min(len(call.t), max(3, keep)))
        self.attempts[-1][1] = float(call.t[keep - 1])
        self.attempts[-1][3] = True
        return ("stub", lib.profile(call, "sign", keep))


def phases(w, att, v0, limit, where):
    """The values of v_r tried, as the rule demands."""
    s = 0.01 * v0
    tol = 1e-9 * v0
    v = [a[0] / att[0][0] * v0 for a in att]
    q = [a[1] for a in att]
    n = len(att)

    def at(k, want, what):
        if k < n:
            check(abs(v[k] - want) <= tol, "wrong-step",
                  lambda: f"{where}: attempt {k} at v_r = {v[k]}, should be "
                  f"{want} ({what}); {list(zip(v, q))[:k + 1]}")
    at(0, v0, "start")
    hi, lo, q_hi, q_lo, k = v0, v0, q[0], q[0], 1
    at(k, hi + s, "up")
    while k < n and q[k] > q_hi:
        hi, q_hi = v[k], q[k]
        k += 1
        at(k, hi + s, "up")
    k += 1
    at(k, lo - s, "down")
    while k < n and q[k] > q_lo:
        lo, q_lo = v[k], q[k]
        k += 1
        at(k, lo - s, "down")
    k += 1
    if k - 1 < n and hi == lo:
        check(k >= n, "goes-on", lambda: f"{where}: {n} attempts, but neither "
              f"direction was better: {list(zip(v, q))}")
    if n < limit and not (hi == lo and n == k):
        # only refining can end before the allowed attempts are used up
        check(n > k + 1 and abs(v[-1] - v[-2]) <= 1e-6 * v0, "stops-early",
              lambda: f"{where}: ends after {n} of {limit} attempts while "
              f"between {lo} and {hi}: {list(zip(v, q))[-4:]}")
    # refining
    w.count("refining attempts", max(0, n - k))
    for j in range(k, n):
        check(lo - tol <= v[j] <= hi + tol, "outside-bracket",
              lambda: f"{where}: attempt {j} at {v[j]} is outside {lo}, {hi}")
    return k < n


def judge(w, row, att, sols, final, ok, limit, where):
    inp = lib.expected_input(row)
    check(len(att) <= limit, "too-many-attempts",
          lambda: f"{where}: {len(att)}, allowed {limit}")
    check(sorted(sols, key=int) == [str(k) for k in range(len(sols))],
          "numbering", lambda: str(sorted(sols)))
    refined = phases(w, att, inp["v_rin_on_c_s"], limit, where)
    w.count("attempts", len(att))
    w.nontrivial = refined
    # what is stored: each inner attempt once, then the long solve
    short = [s for _, s in sorted(sols.items(), key=lambda x: int(x[0]))
             if abs(s["solution_input"]["stop"] - 90) > 1e-9]
    check(len(short) == sum(a[2] for a in att), "attempts-lost",
          lambda: f"{where}: {len(short)} inner attempts stored of "
          f"{sum(a[2] for a in att)}")
    long = len(sols) - len(short)
    want = sum(a[3] for a in att)
    check(want <= long <= 2 * want, "attempts-lost",
          lambda: f"{where}: {long} long solves stored of {want}")
    values = [a[0] / att[0][0] * inp["v_rin_on_c_s"] for a in att]
    for k, s in sols.items():
        si = s["solution_input"]
        is_long = abs(si["stop"] - 90) < 1e-9
        for name in lib.CSV_FIELDS:
            if name in ("γ", "v_rin_on_c_s"):
                continue
            expect = inp[name]
            if is_long and name == "stop":
                expect = 90.0
            elif is_long and name == "num_angles":
                expect = STEPS
            check(lib.same_setting(name, lib.canonical(name, si[name]),
                                   expect), "input-changed",
                  lambda: f"{where}: attempt {k}: {name} is {si[name]!r}, "
                  f"should be {expect!r}")
        check(any(abs(si["v_rin_on_c_s"] - x) <= 1e-4 * x for x in values),
              "input-changed", lambda: f"{where}: attempt {k} records v_r "
              f"{si['v_rin_on_c_s']}, tried {values}")
    if not sols:
        check(not ok and not isinstance(final, lib.Plain), "wrong-outcome",
              lambda: f"{where}: {ok!r} without any solution")
        return
    check(bool(ok), "wrong-outcome", lambda: f"{where}: {ok!r} with "
          f"{len(sols)} attempts stored")
    check(isinstance(final, lib.Plain), "no-final-solution", where)
    check(any(not lib.differences(final, s) for s in sols.values()),
          "wrong-final-solution", f"{where}: is none of those stored")


def search(in_file):
    def run(w):
        row = lib.gen_row(w, 0, angles=12, simple=True)
        row["use_taylor_jump"] = "False"   # (v_r can be seen exactly)
        row["v_rin_on_c_s"] = w.pick(["1", "0.9", "0.1"], "v_rin")
        limit = w.pick([100, 1, 3, 6, 30], "allowed attempts")
        pol = Search(w)
        kw = dict(final_steps=STEPS, num_attempts=limit)
        internal = w.draw(4, "internal data") == 3
        if not in_file:
            out, att = lib.in_process(w, "memory", both(lib.memory_solve(
                row, "fast_crosser", store_internal=internal, policy=pol,
                **kw), pol), events=True)
            w.note(att)
            check(out["status"] == "ok", "unexpected-error",
                  lambda: f"{out['status']}: {out.get('text')}")
            judge(w, row, att, out["run"]["solutions"],
                  out["run"]["final_solution"], out["returned"], limit,
                  "in memory")
            return
        from disc_solver.solve import solve
        conf = os.path.join(w.scratch, "c.cfg")
        lib.write_file(conf, lib.conf_text(row))
        path = os.path.join(w.scratch, "out.hdf5")
        lib.use(pol)

        def entry(argv):
            # pylint: disable=unused-argument
            from pathlib import Path
            try:
                _, ok = solve(
                    output_file=path, sonic_method="fast_crosser",
                    config_file=Path(conf), output_dir=Path("."),
                    store_internal=internal, **kw)
                return int(not ok)
            finally:
                lib.W.current().record("attempts", pol.given())
        o = lib.run_cmd(w, "cmd", entry, [])
        check(o.kind == "return", "unexpected-error",
              lambda: f"{o!r} {(o.exc or {}).get('tb')}")
        (_, _, att), = w.records("attempts")
        have = lib.in_process(w, "reader", lib.load_or_why(path))
        check(have[0] == "run", "result-file-broken", lambda: str(have))
        judge(w, row, att, have[1]["solutions"], have[1]["final_solution"],
              o.code == 0, limit, "result file")
    return run


def both(inner, pol):
    def fn():
        return inner(), pol.given()
    return fn


PROP = Prop(
    "C11",
    [Scenario("memory", search(False), 120),
     Scenario("file", search(True), 16)],
    rule="A run is one fast-crossing search whose inner searches and long "
    "solves get generated qualities (a peak, random, rising, falling, flat), "
    "verdicts and failures, with 1 to 100 attempts allowed; non-trivial when "
    "it got to refining.",
    real=["fast_crosser, step and single search", "solution assembly",
          "result file (scenario file)"],
    stub=["CVODE results (scripted)", "number of angles of the long solve"],
    assumptions=["A long solve reaches the last angle it returned."],
)
