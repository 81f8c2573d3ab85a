"""ds-hdf5runner: one right file per solved input."""
import os

from .. import batch, lib, procs  # noqa: F401
from ..engine import Prop, Scenario
from ..lib import check
from .c01 import add_overrides, gen_csv, runner_argv

ME = "hdf5runner"


def warm():
    import disc_solver.solve.hdf5runner  # noqa: F401


def clock(w):
    """A clock that advances unevenly, and never for one process twice the
    same: real clocks resolve microseconds, solves take longer."""
    kind = w.draw(3, "clock")
    last = {}

    def policy(w, actor):
        if kind == 0:
            return 0.000137
        if kind == 1:    # jumps ahead
            return w.pick([0.001, 0.000002, 1.0, 3600.0, 86400.0], "advance")
        # different processes may read the same time
        adv = 0.0 if last.get(actor) != w.time and w.draw(
            2, "clock advances") == 0 else 0.000002
        last[actor] = w.time + adv
        return adv
    w.clock_policy = policy


def run_batch(w, items, method, extra=(), overrides=True):
    """Run the command; (outcome, output text, directory, expected items)."""
    from disc_solver.solve.hdf5runner import main
    inp = os.path.join(w.scratch, "in.csv")
    form = gen_csv(w, items, inp)
    outdir = os.path.join(w.scratch, "out")
    os.makedirs(outdir, exist_ok=True)
    argv = runner_argv(w, inp, None, method)
    argv += ["--output-dir", outdir] + list(extra)
    label = ""
    if w.draw(2, "label"):
        label = w.pick(["lab", "two words", "ünï"], "label")
        argv += ["--label", label]
    if overrides:
        items = add_overrides(w, items, argv)
    lib.use(batch.scripts(items))
    clock(w)
    o = lib.run_cmd(w, ME, main, argv)
    return o, outdir, items, label, form


def load_files(w, outdir):
    files = [os.path.join(outdir, f) for f in sorted(os.listdir(outdir))]
    with lib.quiet(w):
        return dict(zip(files, lib.in_process(w, "reader",
                                              lib.load_all(files))))


def by_stop(loaded):
    out = {}
    for path, (what, run) in loaded.items():
        if what == "run":
            out.setdefault(float(run["config_input"]["stop"]), []).append(
                (path, run))
    return out


def ends_in_solver_error(it):
    if it.natural:
        return True
    if it.method == "single":
        return bool(it.verdicts) and it.verdicts[0] == "error"
    want = lib.expected_input(it.row)
    return batch.step_model(want["γ"], it.verdicts)[0] == "error"


def check_files(w, items, loaded, label, form, method, store_internal):
    found = by_stop(loaded)
    for i, it in enumerate(items):
        stop = float(it.row["stop"])
        mine = found.pop(stop, [])
        if ends_in_solver_error(it):
            check(not any(lib.has_final(r) for _, r in mine),
                  "failed-input-complete", lambda: f"input {stop}")
            continue
        check(len(mine) == 1, "files-per-input",
              lambda: f"input {stop} has {len(mine)} files")
        path, run = mine[0]
        lib.check_config(run["config_input"], it.row, "wrong-config",
                         f"input {stop}", label)
        check(os.path.basename(path).startswith(label), "wrong-name",
              lambda: f"label {label!r}, file {os.path.basename(path)!r}")
        src = (f"src{i}.hdf5", str(i)) if form == "extra columns" else (
            None, None)
        have = (run["based_on_solution_filename"],
                run["based_on_solution_solution_name"])
        check(have == src, "wrong-provenance",
              lambda: f"input {stop}: {have}, should be {src}")
        check(run["sonic_method"] == method, "wrong-method",
              lambda: run["sonic_method"])
        # the same, alone and in memory
        scripts = batch.scripts([it])
        alone = lib.in_process(w, "alone", lib.memory_solve(
            it.row, method, store_internal=store_internal, policy=scripts))
        check(alone["status"] == "ok", "oracle", lambda: str(alone["status"]))
        check(bool(alone["returned"]) == it.found, "wrong-result",
              f"input {stop}: alone it returns {alone['returned']}")
        lib.check_attempts(run, alone["run"], "wrong-result",
                           f"input {stop}")
        # the model
        att = run["solutions"]
        check(sorted(map(int, att)) == list(range(len(it.attempts))),
              "wrong-attempts", lambda: f"input {stop}: {sorted(att)}")
        for n, want in enumerate(it.attempts):
            for k in lib.CSV_FIELDS:
                have = lib.canonical(k, att[str(n)]["solution_input"][k])
                ok = lib.same_setting(k, have, want[k]) or (
                    isinstance(have, float) and
                    abs(have - want[k]) <= 1e-11 * abs(want[k]))
                check(ok, "wrong-attempts", lambda: f"input {stop} attempt "
                      f"{n}: {k} is {have!r}, should be {want[k]!r}")
        check(lib.has_final(run) == it.found, "wrong-final",
              lambda: f"input {stop}: final {lib.has_final(run)}")
    check(not found, "extra-files", lambda: str(list(found)))


def check_report(w, items):
    said = w.output(ME).count("Solver failed for input")
    want = sum(not it.found for it in items)
    check(said == want, "report", lambda: f"{said} inputs reported as failed, "
          f"should be {want}")


def scenario(method, internal):
    def run(w):
        items = batch.gen_batch(w, method, max_items=5)
        extra = [] if internal else ["--no-store-internal"]
        o, outdir, items, label, form = run_batch(w, items, method,
                                                  extra=extra)
        lib.check_pools(w)
        check(o.ok, "failed", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
        check_report(w, items)
        loaded = load_files(w, outdir)
        check_files(w, items, loaded, label, form, method, internal)
        w.nontrivial = len(items) > 1
        w.count("inputs", len(items))
        w.count("files", len(loaded))
    return run


PROP = Prop(
    "C03",
    [Scenario("single", scenario("single", True), 90),
     Scenario("single, no internal data", scenario("single", False), 40),
     Scenario("step", scenario("step", False), 90)],
    rule="A run is one ds-hdf5runner command over 0 to 5 generated inputs "
    "(file layouts, overrides, labels, provenance columns, 1 to 4 workers, "
    "three kinds of clock) with scripted integrations; non-trivial with at "
    "least two inputs.",
    real=["ds-hdf5runner entry point", "single and step search, solution "
          "assembly", "h5preserve, h5py, HDF5 and the files",
          "worker processes (fork)"],
    stub=["multiprocessing.Pool (simulated, same semantics)", "clock",
          "CVODE results (scripted; the failing ones partly real)"],
    assumptions=["A process never reads the same microsecond twice (C06 "
                 "drops that)."],
)
