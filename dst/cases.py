"""
Solves by any search method with scripted, faulty or undisturbed integrations,
described so that they can be carried out several times, in files or memory.
"""
import os
from math import degrees

import numpy as np

from . import lib, simode, simpool
from .lib import check

METHODS = ("single", "step", "human", "mcmc", "fast_crosser", "real single",
           "hydrostatic", "sonic_root", "mod_hydro")
SCRIPTED = ("single", "step", "human", "mcmc", "fast_crosser")
FINAL_STEPS = 40


class Case:
    method = None        # as the tools call it
    row = None
    internal = True
    kwargs = ()
    answers = ()
    seed = None
    fails = ()

    def policy(self):
        """A fresh policy for the integrations."""
        return None

    def begin(self, w):
        """To be called before every execution."""
        w.inputs = list(self.answers)
        w._np_seed = 0
        lib.use(self.policy())

    def solve_memory(self, w, name="memory", before=None):
        w.inputs = list(self.answers)
        pol = self.policy()
        old = simode.POLICY
        try:
            return lib.in_process(w, name, lib.memory_solve(
                self.row, self.method, store_internal=self.internal,
                policy=pol, seed=self.seed, before=pre(before),
                **dict(self.kwargs)))
        finally:
            simode.POLICY = old

    def source(self, w, path):
        """A result file with the input of this case, for ds-resoln."""
        return lib.make_source(
            w, path, dict(self.row, split_method="v_θ_deriv"), ["best"])

    def run_resolve(self, w, name, path, src, **kw):
        """Solve into a file with ds-resoln from such a file."""
        from disc_solver.solve.resolve import main, resolve
        self.begin(w)
        split = self.row["split_method"]
        if not self.kwargs:
            argv = [src, "0", "--sonic-method", self.method, "--output-file",
                    path, "--override", "split_method", split]
            if not self.internal:
                argv.append("--no-store-internal")
            return lib.run_cmd(w, name, main, argv,
                               pre=pre(seeded(self.seed)), **kw)

        def entry(argv):
            # pylint: disable=unused-argument
            from pathlib import Path
            out, ok = resolve(
                output_file=path, sonic_method=self.method,
                soln_filename=Path(src), soln_range="0",
                output_dir=Path("."), store_internal=self.internal,
                overrides={"split_method": split}, **dict(self.kwargs))
            print(out)
            return int(not ok)
        return lib.run_cmd(w, name, entry, [], pre=pre(seeded(self.seed)),
                           **kw)

    def run_file(self, w, name, path, label="", conf=None, **kw):
        """Solve into a file with ds-soln (or what it calls)."""
        from disc_solver.solve import main, solve
        conf = conf or os.path.join(w.scratch, name + ".cfg")
        if not os.path.exists(conf):
            with lib.quiet(w):
                lib.write_file(conf, lib.conf_text(
                    dict(self.row, label=label)))
        self.begin(w)
        w.seed_pin = self.seed
        if not self.kwargs:
            argv = lib.soln_argv(conf, self.method, path, None, self.internal)
            return lib.run_cmd(w, name, main, argv,
                               pre=pre(seeded(self.seed)), **kw)

        def entry(argv):
            # pylint: disable=unused-argument
            from pathlib import Path
            out, ok = solve(
                output_file=path, sonic_method=self.method,
                config_file=Path(conf),
                output_dir=Path("."), store_internal=self.internal,
                **dict(self.kwargs))
            print(out)
            return int(not ok)
        return lib.run_cmd(w, name, entry, [], pre=pre(seeded(self.seed)),
                           **kw)


def seeded(seed):
    def fn():
        if seed is not None:
            import numpy.random
            numpy.random.seed(seed)
    return fn


def pre(more=None):
    """What every execution of a case does first, in its process."""
    def fn():
        # the plot shown to the human is not looked at here
        import disc_solver.analyse.diverge_plot as d
        d.diverge_plot = lambda *a, **k: None
        if more is not None:
            more()
    return fn


class Single(Case):
    method = "single"

    def __init__(self, w, i=0):
        self.row = lib.gen_row(w, i)
        self.internal = w.draw(3, "no internal data") != 2
        k = w.wpick([("best", 3), ("sign", 2), ("diverge", 2), ("fail", 1),
                     ("flag", 2)], "how solving ends")
        self.verdict = k if k != "flag" else (
            "flag", w.pick(lib.FAIL_FLAGS, "flag"), w.between(1, 12, "points"))

    def policy(self):
        s = lib.Scripts()
        s.set(self.row["stop"], [self.verdict])
        return s


class Step(Case):
    method = "step"

    def __init__(self, w, i=0, most=12):
        self.row = lib.gen_row(w, i, angles=w.between(12, 20, "angles"))
        self.internal = w.draw(2, "internal data") == 0
        n = w.wpick([(1, 2), (2, 3), (3, 3), (6, 2), (most, 2)], "attempts")
        self.verdicts = [w.pick(["sign", "diverge", "fail"], "verdict")
                         for _ in range(n - 1)]
        self.verdicts.append("best")
        self.row["split_method"] = "v_θ_deriv"

    def policy(self):
        s = lib.Scripts()
        s.set(self.row["stop"], self.verdicts)
        return s


class Unfinished(Step):
    """Gives up after many attempts."""

    def __init__(self, w, i=0, most=12):
        super().__init__(w, i, most)
        self.verdicts = [w.pick(["sign", "diverge"], "verdict")] * 25


class Human(Step):
    """The verdicts come from a human."""

    def __init__(self, w, i=0, most=12):
        super().__init__(w, i, most)
        self.row["split_method"] = "human"
        self.verdicts = [v for v in self.verdicts[:-1]] + ["sign"]
        out = []
        for v in self.verdicts:
            if w.draw(6, "typing error") == 5:
                out.append("divrge")
            out.append(w.pick(["sign flip", "diverge"], "answer"))
        self.human = [o for o in out if o != "divrge"]
        self.human[-1] = "STOP"
        out[-1] = "STOP"
        self.answers = out


class MCMC(Case):
    method = "mcmc"

    def __init__(self, w, i=0, errors=True):
        self.row = lib.gen_row(w, i, angles=12, simple=True)
        self.row["nwalkers"] = "8"
        self.row["iterations"] = str(w.between(1, 3, "iterations"))
        self.row["mcmc_vars"] = w.pick(["v_r,v_a,v_k", "v_r", "v_a,v_k", "v_k",
                                        "None"], "mcmc_vars")
        self.internal = w.draw(2, "internal data") == 1
        self.seed = w.draw(1 << 20, "random numbers")
        kinds = [("sign", 4), ("diverge", 2), ("best", 2), ("fail", 1),
                 ("flag", 1)] + ([("error", 2)] if errors else [])
        out = []
        for _ in range(w.pick([8, 30], "different verdicts")):
            k = w.wpick(kinds, "verdict")
            if k == "flag":
                k = ("flag", w.pick(lib.FAIL_FLAGS, "flag"), 2)
            out.append(k)
        self.verdicts = out

    def policy(self):
        verdicts = self.verdicts
        state = {"n": 0}

        def pol(call):
            if call.is_taylor:
                return None
            n = state["n"]
            state["n"] += 1
            v = verdicts[n % len(verdicts)]
            if v in ("sign", "diverge", "best"):
                # every attempt reaches another speed
                st = lib.profile(call, v)
                st.y[:, lib.V_TH] *= 1 - 0.01 * ((n * 7) % 13)
                return ("stub", st)
            return lib.directive(v, call)
        return pol


class FastCrosser(Case):
    method = "fast_crosser"

    def __init__(self, w, i=0, errors=True, attempts=(2, 5, 12)):
        self.row = lib.gen_row(w, i, angles=12, simple=True)
        self.internal = False
        self.attempts = w.pick(attempts, "attempts")
        self.kwargs = (("final_steps", FINAL_STEPS),
                       ("num_attempts", self.attempts))
        # quality: where v_r gives the farthest solution
        self.top = 1 + 0.01 * w.between(-4, 4, "best v_r") + w.pick(
            [0.0, 0.003, 0.0075], "off the grid")
        self.flat = w.draw(6, "flat quality") == 5
        self.fails = tuple(
            w.draw(30, "which step search fails")
            for _ in range(w.wpick([(0, 3), (1, 2), (3, 1), (12, 1)],
                                   "failing step searches"))
        ) if errors else ()

    def policy(self):
        state = {"n": 0}

        def pol(call):
            if call.is_taylor:
                return None
            stop = degrees(float(call.t[-1]))
            if abs(stop - 90) > 1e-6:
                n = state["n"]
                state["n"] += 1
                return lib.directive(
                    "error" if n in self.fails else "best", call)
            # the long solve: reaches further the better v_r is
            v = -float(call.y0[lib.V_R])
            state["v0"] = state.get("v0", v)
            rel = v / state["v0"]
            q = 0 if self.flat else abs(rel - self.top) * 100
            keep = int(max(3, FINAL_STEPS - 4 * q))
            s = lib.profile(call, "sign", keep)
            return ("stub", s)
        return pol


class Real(Case):
    """CVODE solves; it may be made to fail at some integrations."""

    def __init__(self, w, method, i=0, faults=True):
        self.method = {"real single": "single"}.get(method, method)
        self.row = lib.gen_row(w, i, stop=0.5 + 0.125 * w.draw(3, "stop"),
                               angles=w.between(10, 24, "angles"))
        if method == "hydrostatic":
            # (CVODE needs very long for other discs)
            for k in ("c_s_on_v_k", "γ", "v_a_on_c_s", "η_derivs", "η_H"):
                self.row[k] = lib.DEFAULTS[k]
        self.internal = w.draw(2, "no internal data") == 0
        self.plan = {}
        if faults and w.draw(3, "integrator fails") == 2:
            for _ in range(w.between(1, 2, "failing integrations")):
                self.plan[w.draw(6, "which")] = (
                    "fail", w.pick(lib.FAIL_FLAGS, "flag"),
                    w.between(0, 20, "points before"))

    def policy(self):
        state = {"n": 0}

        def pol(call):
            # pylint: disable=unused-argument
            n = state["n"]
            state["n"] += 1
            return self.plan.get(n)
        return pol


class Mixed:
    """
    Several cases of one method as inputs of a batch: every input has its own
    scripted integrations and random numbers, wherever it is worked on.
    """

    def __init__(self, cases):
        self.cases = {round(float(c.row["stop"]), 6): c for c in cases}
        self.now = None
        # options of a search are the same for a whole batch
        for c in cases:
            c.kwargs = cases[0].kwargs
        self.kwargs = dict(cases[0].kwargs) if cases else {}
        self.method = cases[0].method if cases else None

    def begin(self, item):
        case = self.cases.get(round(float(item["stop"]), 6)) \
            if item and "stop" in item else None
        self.now = case.policy() if case is not None else None
        if case is not None:
            seeded(case.seed)()

    def __call__(self, call):
        return self.now(call) if self.now is not None else None

    def install(self):
        """In the process that is to work on the inputs (or its parent)."""
        from functools import partial
        from disc_solver.solve import SONIC_METHOD_MAP
        simpool.ON_ITEM = self.begin
        lib.use(self)
        if self.kwargs:
            SONIC_METHOD_MAP[self.method] = partial(
                SONIC_METHOD_MAP[self.method], **self.kwargs)
        pre()()


def gen(w, which=None, methods=METHODS, **kw):
    m = which or w.pick(methods, "method")
    if m == "single":
        return Single(w, **kw)
    if m == "step":
        return Step(w, **kw)
    if m == "unfinished":
        return Unfinished(w, **kw)
    if m == "human":
        return Human(w, **kw)
    if m == "mcmc":
        return MCMC(w, **kw)
    if m == "fast_crosser":
        return FastCrosser(w, **kw)
    return Real(w, m, **kw)


def expect_like_memory(w, o, mem, what="file"):
    """A solve in a command ends as the one in memory did."""
    if mem["status"] == "ok":
        check(o.kind == "return" and bool(o.code) == (not mem["returned"]),
              "ends-differently",
              lambda: f"in memory {mem['returned']}, in the {what}: {o!r}\n"
              f"{(o.exc or {}).get('tb')}")
    else:
        check(o.kind == "raise" and o.exc["type"] == mem["status"] and
              o.exc["text"] == mem["text"][:2000], "ends-differently",
              lambda: f"in memory {mem['status']}: {mem['text']}, in the "
              f"{what}: {o!r}\n{(o.exc or {}).get('tb')}")


def arrays_equal(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
