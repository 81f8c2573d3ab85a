"""Results depend on the inputs and seeds alone."""
import os
import pickle
import subprocess
import sys

from .. import batch, cases, lib, simode, simpool
from ..engine import Prop, Scenario
from ..lib import check

# the search of these looks at the internal data
USES_INTERNAL = ("step", "fast_crosser")
SETTINGS = {
    "γ": ["0.001", "0.0012", "2e-3"],
    "v_rin_on_c_s": ["1", "0.9", "0.1"],
    "v_a_on_c_s": ["1", "0.8", "1.1"],
    "c_s_on_v_k": ["0.03", "0.025"],
    "η_O": ["0.001", "0.002"],
    "η_H": ["0.0001", "0"],
    "η_A": ["0.0005", "0.00025"],
    "η_derivs": ["True", "False"],
    "relative_tolerance": ["1e-6", "1e-5"],
    "absolute_tolerance": ["1e-10", "1e-9"],
    "use_taylor_jump": ["True", "False"],
    "num_angles": ["12", "17", "24"],
    "interp_slice": ["-1000,-100", "-40,-4"],
    "interp_range": ["10", "7"],
    "taylor_stop_angle": ["0.001", "0.002"],
    "max_steps": ["10000", "30"],
}


def warm():
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.solve.hdf5runner  # noqa: F401


class Sibling(cases.Case):
    """A solve with nearly the settings of another, its own ending."""

    def __init__(self, w, of):
        self.method, self.internal = of.method, of.internal
        self.kwargs, self.seed = of.kwargs, of.seed
        self.row = dict(of.row)
        for _ in range(w.between(1, 3, "other settings")):
            k = w.pick(sorted(SETTINGS), "setting")
            self.row[k] = w.pick(SETTINGS[k], k)
        self.of = of
        self.fail = w.pick([None, None, "error", "exception"], "failure")
        self.at = w.draw(4, "which integration")
        if of.method == "mcmc":
            self.seed = w.draw(1 << 20, "random numbers")

    def policy(self):
        inner = self.of.policy()
        state = {"n": 0}

        def pol(call):
            n = state["n"]
            state["n"] += 1
            if n == self.at and self.fail == "error":
                return lib.directive("error", call)
            if n == self.at and self.fail == "exception":
                return ("raise", RuntimeError("injected crash"))
            return inner(call) if inner is not None else None
        return pol


class Flipped(cases.Case):
    """The same, with internal data stored where it was not."""

    def __init__(self, of):
        self.__dict__.update(of.__dict__, method=of.method)
        self.of = of
        self.internal = not of.internal

    def policy(self):
        return self.of.policy()


def bare(s):
    return lib._plain(s.kind, {k: v for k, v in s.items()
                               if k != "internal_data"})


def without_internal(run):
    sols = {k: bare(v) for k, v in run["solutions"].items()}
    fin = run["final_solution"]
    return {"solutions": lib._plain(run["solutions"].kind, sols),
            "final_solution": bare(fin) if isinstance(fin, lib.Plain)
            else fin}


def memory(case):
    return lib.memory_solve(
        case.row, case.method, store_internal=case.internal,
        policy=case.policy(), seed=case.seed, before=cases.pre(None),
        **dict(case.kwargs))


def compare(w, ref, have, cls, where, internal=True):
    check(have["status"] == ref["status"] and
          bool(have["returned"]) == bool(ref["returned"]), cls,
          lambda: f"{where}: {have['status']} {have['returned']} "
          f"{have.get('text')}, alone {ref['status']} {ref['returned']} "
          f"{ref.get('text')}\n{have.get('tb')}")
    if not internal:
        ref = {"run": without_internal(ref["run"])}
        have = {"run": without_internal(have["run"])}
    lib.check_attempts(have["run"], ref["run"], cls, where)


def after_others(w, case, ref):
    others = [Sibling(w, case) for _ in range(w.between(1, 3, "others"))]
    if w.draw(3, "another method") == 2:
        others.append(cases.gen(w, w.pick(["single", "step", "mcmc"],
                                          "method")))
    if w.draw(3, "the very same before") == 2:
        others.append(case)
    others = w.shuffled(others, "order") if hasattr(w, "shuffled") else others

    def fn():
        for o in others:
            memory(o)()
        return memory(case)()
    have = lib.in_process(w, "after others", fn, events=True)
    compare(w, ref, have, "depends-on-history", "after other solves")


def flipped(w, case, ref):
    if case.method in USES_INTERNAL:
        return
    have = lib.in_process(w, "internal data", memory(Flipped(case)),
                          events=True)
    compare(w, ref, have, "depends-on-internal-data",
            "with internal data" if not case.internal else
            "without internal data", internal=False)


def in_file(w, case, ref):
    path = os.path.join(w.scratch, "out.hdf5")
    env = {"NO_CACHE": w.pick([None, "1"], "cache disabled"),
           "DISC_SOLVER_DISABLE_THREADING": w.pick(
               [None, "True"], "threads disabled")}
    o = case.run_file(w, "cmd", path, env=env)
    cases.expect_like_memory(w, o, ref)
    if ref["status"] == "ok" and lib.has_final(ref["run"]):
        have = lib.stored_run(w, path)
        lib.check_attempts(have, ref["run"], "depends-on-storage",
                           "in a file")


class Dispatch:
    """What happens in the integrations of a batch, by input."""

    def __init__(self, todo):
        self.todo = {c.row["stop"]: c for c in todo}
        self.pols = {}

    def __call__(self, call):
        item = simpool.ITEM
        if not isinstance(item, dict) or "stop" not in item:
            return None
        key = str(item["stop"])
        if call.of_item == 0:
            self.pols[key] = self.todo[key].policy()
        pol = self.pols[key]
        return pol(call) if pol is not None else None


def in_batch(w, case, ref):
    from disc_solver.solve import hdf5runner
    if case.method not in ("single", "step", "hydrostatic", "sonic_root"):
        return
    if case.kwargs or not isinstance(case, (cases.Single, cases.Step,
                                            cases.Real)):
        return
    if case.row["split_method"] == "human":
        return
    todo = [case]
    for i in range(w.between(0, 3, "other inputs")):
        s = Sibling(w, case)
        if s.fail == "exception":
            s.fail = "error"
        s.row["stop"] = str(float(case.row["stop"]) + 0.015625 * (i + 1))
        todo.append(s)
    stop = case.row["stop"]
    # (the policies of single and step know an input by where it stops)
    for c in todo[1:]:
        if isinstance(case, (cases.Single, cases.Step)):
            c.of = Renamed(case, c.row["stop"])
    k = w.draw(len(todo), "position")
    todo.insert(k, todo.pop(0))
    inp = os.path.join(w.scratch, "in.csv")
    lib.write_file(inp, lib.csv_text([c.row for c in todo]))
    d = os.path.join(w.scratch, "batch")
    os.mkdir(d)
    lib.use(Dispatch(todo))
    argv = [inp, "--output-dir", d, "--sonic-method", case.method, "-n",
            str(w.between(1, 3, "workers")),
            "--store-internal" if case.internal else "--no-store-internal"]
    o = lib.run_cmd(w, "runner", hdf5runner.main, argv)
    check(o.kind == "return", "unexpected-error",
          lambda: f"{o!r}\n{(o.exc or {}).get('tb')}")
    found = []
    for p, (kind, run) in zip(
            lib.h5_files(d), lib.in_process(w, "reader", lib.load_all(
                lib.h5_files(d)))):
        if kind == "run" and float(run["config_input"]["stop"]) == float(
                stop):
            found.append(run)
    if ref["status"] == "ok" and lib.has_final(ref["run"]):
        check(len(found) == 1, "missing-in-batch",
              lambda: f"{len(found)} result files for the input")
        lib.check_attempts(found[0], ref["run"], "depends-on-worker",
                           "in a batch")
    else:
        check(not found, "extra-in-batch", f"{ref['status']} alone")


class Renamed(cases.Case):
    def __init__(self, of, stop):
        self.of = of
        self.stop = stop

    def policy(self):
        s = lib.Scripts()
        v = getattr(self.of, "verdicts", None)
        s.set(self.stop, v if v is not None else [self.of.verdict])
        return s


VARIANTS = (after_others, flipped, in_file, in_batch)


def scenario(names):
    def run(w):
        name = w.pick(names, "case")
        case = cases.gen(w, name, **(
            {"faults": w.draw(2, "faults") == 1}
            if name not in cases.SCRIPTED else {}))
        if case.method not in ("mod_hydro", "human") and w.draw(
                3, "no taylor jump") == 2:
            case.row["use_taylor_jump"] = "False"
        if case.method not in ("mod_hydro", "human") and w.draw(
                4, "few steps") == 3:
            case.row["max_steps"] = w.pick(
                ["21", "24", "28", "80", "95", "105", "115"], "steps")
        ref = lib.in_process(w, "alone", memory_of(case), events=True)
        w.note((case.method, ref["status"], len(ref["run"]["solutions"])))
        w.count("solves with " + case.method)
        for f in VARIANTS:
            if w.draw(2, f.__name__):
                f(w, case, ref)
                w.count(f.__name__)
        if ref["run"]["solutions"]:
            w.nontrivial = True
    return run


def memory_of(case):
    return memory(case)


def interpreters(w):
    """Solves by CVODE alone, in ordinary interpreters of all kinds."""
    method = w.pick(["single", "hydrostatic", "mcmc", "mcmc", "step"], "method")
    row = lib.gen_row(w, 0, stop=0.6, angles=w.between(16, 40, "angles"))
    if method == "hydrostatic":
        for k in ("c_s_on_v_k", "γ", "v_a_on_c_s", "η_derivs", "η_H"):
            row[k] = lib.DEFAULTS[k]
    row["max_steps"] = "300"
    if method == "single" and w.draw(2, "crossing"):
        row.update(stop="1", num_angles="200", max_steps="500",
                   jump_before_sonic="0.3")
    if method == "mcmc":
        row.update(iterations="1", nwalkers="8", mcmc_vars=w.pick(
            ["v_r", "v_a,v_k", "v_r,v_a,v_k"], "mcmc_vars"))
    if method == "step":
        row["stop"] = "0.7"
    seed = w.draw(1 << 20, "seed") if method == "mcmc" else None
    job = dict(row=row, method=method, seed=seed, internal=True)
    p = os.path.join(w.scratch, "job")
    with open(p, "wb") as f:
        pickle.dump(job, f)
    outs = []
    for i in range(2):
        r = os.path.join(w.scratch, f"result{i}")
        d = os.path.join(w.scratch, f"dir{i}")
        os.mkdir(d)
        env = dict(os.environ, PYTHONHASHSEED=str(w.draw(1000, "hash seed")),
                   TZ=w.pick(["UTC", "Asia/Tokyo", "America/New_York"],
                             "time zone"),
                   LANG=w.pick(["C.UTF-8", "C", "en_AU.UTF-8"], "language"))
        if w.draw(2, "optimised") == 1:
            env["PYTHONOPTIMIZE"] = "1"
        o = subprocess.run(
            [sys.executable, "-X", "utf8", "-m", "dst.once", p, r], env=env,
            cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=300, check=False)
        check(o.returncode == 0, "cannot-solve",
              lambda: o.stdout.decode("utf-8", "replace")[-2000:])
        with open(r, "rb") as f:
            outs.append(pickle.load(f))
    compare(w, outs[0], outs[1], "depends-on-interpreter",
            "in another interpreter")
    case = cases.Case()
    case.method, case.row, case.seed, case.internal = method, row, seed, True
    ref = lib.in_process(w, "alone", memory(case), events=True)
    compare(w, outs[0], ref, "depends-on-process", "in the simulator")
    w.count("solves with " + method)
    w.nontrivial = bool(outs[0]["run"]["solutions"])


PROP = Prop(
    "C21",
    [Scenario("scripted", scenario(("single", "step", "mcmc",
                                    "fast_crosser")), 50),
     Scenario("real", scenario(("real single", "real single", "hydrostatic",
                                "sonic_root")), 24),
     Scenario("interpreters", interpreters, 8)],
    rule="A run is one solve done alone and again in some of: a process that "
    "solved and failed at nearly the same before, with internal data or "
    "without, in a file at another time, in a batch with others, in ordinary "
    "interpreters; non-trivial when it stored an attempt.",
    real=["the search methods", "result files", "ds-hdf5runner",
          "CVODE (scenarios real, interpreters)"],
    stub=["CVODE results (scenario scripted)", "pool of workers", "clock"],
    assumptions=["The integrator gives the same for the same."],
)
