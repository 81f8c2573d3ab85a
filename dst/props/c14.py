"""Re-solving continues from the chosen solution, its source stays as is."""
import errno
import os

import numpy as np

from .. import cases, lib
from ..engine import Prop, Scenario
from ..lib import check

OVERRIDES = {
    "γ": ["0.0012", "2e-3", "0.0009"],
    "stop": ["3", "4.5"],
    "num_angles": ["15", "22"],
    "v_rin_on_c_s": ["0.95", "0.5"],
    "v_a_on_c_s": ["0.85", "1"],
    "c_s_on_v_k": ["0.028", "0.03"],
    "η_O": ["0.0015", "0.001"],
    "η_H": ["0", "0.00005"],
    "η_derivs": ["False", "True"],
    "mcmc_vars": ["v_a", "v_r,v_k", "v_r,v_a,v_k"],
    "interp_slice": [" -40,-4", "5,50"],
    "interp_range": ["8", "10"],
    "relative_tolerance": ["1e-5", "1e-6"],
    "max_steps": ["9000"],
    "target_velocity": ["0.8", "0.9"],
    "nwalkers": ["8", "10"],
    "iterations": ["1", "2"],
    "label": ["other", "x y"],
    "start": ["0", "0.0"],
    "jump_before_sonic": ["None"],
    "use_E_r": ["False"],
}


def warm():
    import disc_solver.solve.resolve  # noqa: F401


class Node:
    """A result file and what is known of it."""

    def __init__(self, path, run, config, label, config_filename):
        self.path = path
        self.run = run
        self.config = config            # settings as text
        self.label = label
        self.config_filename = config_filename
        self.solutions = run["solutions"]
        self.final = run["final_solution"]

    def choices(self):
        out = sorted(self.solutions, key=int) + ["latest"]
        if isinstance(self.final, lib.Plain):
            out.append("final")
        return out

    def get(self, name):
        if name == "final":
            return self.final
        if name == "latest":
            if isinstance(self.final, lib.Plain):
                return self.final
            return self.solutions[max(self.solutions, key=int)]
        return self.solutions[name]


class Sequence:
    """Verdicts one after the other; made-up profiles."""

    def __init__(self, verdicts):
        self.verdicts = verdicts
        self.n = 0

    def __call__(self, call):
        if call.is_taylor:
            return None
        v = self.verdicts[min(self.n, len(self.verdicts) - 1)]
        self.n += 1
        return lib.directive(v, call)


def gen_verdicts(w, method):
    if method == "single":
        return [w.pick(["best", "sign", "diverge", "fail"], "verdict")]
    n = w.between(0, 4, "attempts before")
    return [w.pick(["sign", "diverge"], "verdict") for _ in range(n)] + [
        "best"]


def first(w):
    """The result file the chain starts with."""
    kind = w.pick(["step", "step", "single", "mcmc", "fast_crosser",
                   "unfinished", "batch"], "source")
    if kind == "batch":
        return from_batch(w)
    case = cases.gen(w, kind)
    path = os.path.join(w.scratch, "src0.hdf5")
    conf = os.path.join(w.scratch, "the config.cfg")
    label = w.pick(["lbl", "", "a b"], "label")
    with lib.quiet(w):
        lib.write_file(conf, lib.conf_text(dict(case.row, label=label)))
        o = case.run_file(w, "first", path, conf=conf)
    run = lib.in_process(w, "reader", lib.load_or_why(path))
    if run[0] != "run" or not run[1]["solutions"]:
        return None
    check(o.kind in ("return", "raise"), "unexpected-end", repr(o))
    return Node(path, run[1], dict(case.row), label, conf)


def from_batch(w):
    """A result file of ds-hdf5runner: there is no config file."""
    from disc_solver.solve import hdf5runner
    case = cases.gen(w, w.pick(["single", "step"], "method"))
    inp = os.path.join(w.scratch, "in.csv")
    d = os.path.join(w.scratch, "batch")
    label = w.pick(["lbl", ""], "label")
    argv = [inp, "--output-dir", d, "--sonic-method", case.method, "-n", "1",
            "--store-internal" if case.internal else "--no-store-internal"]
    with lib.quiet(w):
        os.mkdir(d)
        lib.write_file(inp, lib.csv_text([case.row]))
        lib.use(case.policy())
        o = lib.run_cmd(w, "first", hdf5runner.main, argv + ["-l", label])
        check(o.kind == "return", "unexpected-end", repr(o))
        made, = lib.h5_files(d)
        path = os.path.join(w.scratch, "src0.hdf5")
        os.rename(made, path)
    run = lib.stored_run(w, path)
    return Node(path, run, dict(case.row), label, None)


def gen_overrides(w, method):
    out = {}
    for _ in range(w.wpick([(0, 3), (1, 3), (2, 2), (5, 1)], "overrides")):
        k = w.pick(sorted(OVERRIDES), "override")
        out[k] = w.pick(OVERRIDES[k], "value")
    if method == "mcmc":
        out.setdefault("iterations", "1")
    return out


def hop(w, k, nodes):
    from disc_solver.solve.resolve import main
    src = w.pick(nodes, "source")
    which = "latest" if w.draw(3, "latest") == 2 else w.pick(
        src.choices(), "solution")
    method = w.wpick([("single", 4), ("step", 3), ("mcmc", 1)], "method")
    over = gen_overrides(w, method)
    bad = w.wpick([(None, 6), ("missing", 1), ("exists", 1), ("disk", 2),
                   ("kill", 1), ("read", 1), ("unsolvable", 1),
                   ("error", 1)], "what goes wrong")
    verdicts = gen_verdicts(w, method)
    if bad == "error":
        verdicts = ["error"]
    if not isinstance(src.final, lib.Plain) and w.draw(
            3, "the final there is not") == 2:
        bad, which = "missing", "final"
    elif bad == "missing":
        which = w.pick(["77", "-1", "x", ""], "missing solution")
    if bad == "unsolvable":
        over["c_s_on_v_k"] = "3"
    lib.use(Sequence(verdicts))
    outdir = os.path.join(w.scratch, f"out{k}")
    os.mkdir(outdir)
    named = w.draw(2, "automatic name") == 0
    out = os.path.join(outdir, "new.hdf5")
    if bad == "exists":
        named = True
        lib.write_file(out, "precious")
    relative = w.draw(3, "relative path") == 2
    arg = os.path.relpath(src.path, w.scratch) if relative else src.path
    argv = [arg, which, "--sonic-method", method]
    argv += ["--output-file", out] if named else ["--output-dir", outdir]
    if w.draw(2, "no internal data") or method == "step":
        argv.append("--no-store-internal")
    for name, v in over.items():
        argv += ["--override", name, v]
    before = lib.snapshot(w.scratch)
    hook = None
    if bad in ("disk", "kill"):
        hook = lib.OnePoint(
            lambda a, kind, d: kind in ("h5.write", "h5.close"),
            w.draw(w.pick([4, 30, 120], "late"), "which operation"),
            ("kill",) if bad == "kill" else
            ("exc", OSError(errno.ENOSPC, "No space left (injected)")))
    elif bad == "read":
        hook = lib.OnePoint(
            lambda a, kind, d: kind == "h5.read",
            w.draw(w.pick([4, 20], "late"), "which read"),
            ("exc", OSError(errno.EIO, "Can't read (injected)")))
    w.hook = hook
    o = lib.run_cmd(w, f"resoln{k}", main, argv, cwd=w.scratch)
    w.hook = None
    after = lib.snapshot(w.scratch)
    lib.check_untouched(w, before, after, "source-changed")
    new = [p for p in after if p not in before]
    where = (f"ds-resoln {os.path.basename(src.path)} {which} ({method}, "
             f"{over}) with {bad}")
    fired = hook is not None and hook.fired is not None
    if bad in ("missing", "exists", "unsolvable", "error") or fired:
        check(not o.ok, "succeeds-wrongly", lambda: f"{where}: {o!r}")
        w.count("failed re-solves")
    if bad in ("missing", "exists"):
        check(not new, "file-left", lambda: f"{where}: {new}")
    if not o.ok:
        check(fired or o.kind == "killed" or bad is not None or
              method == "mcmc" or verdicts[-1] != "best",
              "fails-wrongly",
              lambda: f"{where}: {o!r} {(o.exc or {}).get('tb')}")
        return None
    check(len(new) == 1, "wrong-files", lambda: f"{where}: {new}")
    path = new[0]
    chosen = src.get(which)
    label = over.get("label", src.label)
    if not named:
        check(os.path.basename(path).startswith((label, src.label)),
              "wrong-name",
              lambda: f"{where}: {path}, label {label!r}")
    run = lib.stored_run(w, path)
    verify(w, where, src, which, over, method, run, chosen, label, verdicts)
    w.count("re-solves")
    w.nontrivial = True
    dest = os.path.join(w.scratch, f"src{k + 1}.hdf5")
    with lib.quiet(w):
        os.rename(path, dest)
    config = dict(src.config, **{n: v for n, v in over.items()
                                 if n != "label"})
    return Node(dest, run, config, label, src.config_filename)


def verify(w, where, src, which, over, method, run, chosen, label, verdicts):
    rec = run["based_on_solution_filename"]
    check(rec is not None and os.path.normpath(
        os.path.join(w.scratch, rec)) == src.path, "wrong-source-recorded",
        lambda: f"{where}: {rec!r}")
    check(run["based_on_solution_solution_name"] == which,
          "wrong-source-recorded",
          lambda: f"{where}: {run['based_on_solution_solution_name']!r}")
    check(run["config_filename"] == src.config_filename,
          "config-filename-lost", lambda: f"{where}: {run['config_filename']}")
    check(run["sonic_method"] == method, "wrong-method", where)
    config = dict(src.config, **{n: v for n, v in over.items()
                                 if n != "label"})
    lib.check_config(run["config_input"], config, "wrong-config", where,
                     label=label)
    # the settings solved with
    want = {f: lib.canonical(f, chosen["solution_input"][f])
            for f in lib.CSV_FIELDS}
    for n, v in over.items():
        if n != "label":
            want[n] = lib.interpret(n, v)
    skip = {"mcmc": ("γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k"),
            }.get(method, ())
    for k in sorted(run["solutions"], key=int):
        si = run["solutions"][k]["solution_input"]
        # only the first step has the γ asked for
        but = skip + (("γ",) if method == "step" and k != "0" else ())
        for f in lib.CSV_FIELDS:
            if f in but:
                continue
            have = lib.canonical(f, si[f])
            check(lib.same_setting(f, have, want[f]), "wrong-input",
                  lambda: f"{where}: attempt {k} was solved with {f} = "
                  f"{have!r}, should be {want[f]!r} (the solution it starts "
                  f"from has {chosen['solution_input'][f]!r}, config "
                  f"{src.config.get(f)!r})")
    if method == "step":
        s0 = run["solutions"]["0"]
        γ0 = want["γ"]
        for k in sorted(run["solutions"], key=int)[1:2]:
            γ1 = run["solutions"][k]["solution_input"]["γ"]
            check(np.isclose(abs(γ1 - γ0), 0.1 * γ0), "wrong-step",
                  lambda: f"{where}: from γ = {γ0} to {γ1}")
        del s0
    if method == "mcmc" and run["solutions"]:
        # walkers start around the chosen solution
        some = [s["solution_input"] for s in run["solutions"].values()]
        mv = want["mcmc_vars"] or ("v_r", "v_a", "v_k")
        for var, f in (("v_r", "v_rin_on_c_s"), ("v_a", "v_a_on_c_s"),
                       ("v_k", "c_s_on_v_k")):
            for si in some:
                v = float(si[f])
                if var not in mv:
                    check(v == want[f], "wrong-input",
                          lambda: f"{where}: {f} = {v}, should be {want[f]}")
                else:
                    check(0 < v < 3 * want[f], "wrong-input",
                          lambda: f"{where}: {f} = {v} is far from {want[f]}")


def chain(w):
    from .. import seams
    node = first(w)
    if node is None:
        return
    nodes = [node]
    seams.H5_POINTS = frozenset(("write", "read"))
    for k in range(w.between(1, 4, "re-solves")):
        n = hop(w, k, nodes)
        if n is not None:
            nodes.append(n)
    for n in nodes:
        w.count("files at the end")
        lib.same(lib.stored_run(w, n.path), n.run, "source-changed", n.path)


PROP = Prop(
    "C14",
    [Scenario("chain", chain, 48)],
    rule="A run is one solve by any method and up to four ds-resoln commands, "
    "each from a solution of any earlier file, with overrides, and with "
    "failures of many kinds in between; non-trivial when a re-solve worked.",
    real=["ds-resoln", "solve methods single, step, mcmc, fast_crosser",
          "result files", "settings and overrides"],
    stub=["CVODE results", "disk errors and kills"],
)
