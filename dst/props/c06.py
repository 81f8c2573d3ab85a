"""No solving command overwrites or damages an existing file."""
import os

from .. import batch, lib, procs, shocks, simpool
from ..engine import Prop, Scenario
from ..lib import check
from . import c03
from .c01 import runner_argv


def warm():
    import disc_solver.solve.csvrunner  # noqa: F401
    import disc_solver.solve.hdf5runner  # noqa: F401
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.solve.shock  # noqa: F401


def clock(w):
    """Clocks that repeat, go backwards, or tick coarsely."""
    kind = w.draw(5, "clock")
    base = {"n": 0}

    def policy(w, actor):
        # pylint: disable=unused-argument
        base["n"] += 1
        if kind == 0:
            return 0.0
        if kind == 1:
            return w.pick([0.0, 0.000001], "advance")
        if kind == 2:
            return w.pick([0.0, -1.0, 1.0], "step")
        if kind == 3:     # set back by an hour and then again
            return -0.5 if base["n"] % 2 else 0.5
        return 0.000137
    w.clock_policy = policy


def command(w, i, *, resoln=None, out=None, outdir=None, label=None,
            method="single", verdict="best"):
    """(main, argv, row) of ds-soln, or of ds-resoln from the source given."""
    row = lib.gen_row(w, i, simple=True, angles=12)
    if resoln is not None:
        from disc_solver.solve.resolve import main
        argv = [resoln, "final", "--sonic-method", method,
                "--override", "stop", row["stop"]]
        if label is not None:
            argv += ["--override", "label", label]
        if out is not None:
            argv += ["--output-file", out]
        if outdir is not None:
            argv += ["--output-dir", outdir]
        return main, argv, row
    from disc_solver.solve import main
    conf = os.path.join(w.scratch, f"c{i}.cfg")
    lib.write_file(conf, lib.conf_text(dict(row, label=label or "")))
    return main, lib.soln_argv(conf, method, out, outdir), row


def source(w):
    path = os.path.join(w.scratch, "old.hdf5")
    row = lib.gen_row(w, 99, simple=True, angles=12, stop="9.25")
    lib.make_source(w, path, row, ["best"], label="lab")
    return path


def use_verdicts(rows, verdicts):
    s = lib.Scripts()
    for r, v in zip(rows, verdicts):
        s.set(r["stop"], [v])
    lib.use(s)


def is_run(loaded, row):
    """A complete file with the result of this command only."""
    what, run = loaded
    check(what == "run", "winner-broken", lambda: str(run))
    check(lib.interpret("stop", run["config_input"]["stop"]) ==
          float(row["stop"]), "winner-mixed",
          lambda: f"holds the config of stop {run['config_input']['stop']}, "
          f"its command had {row['stop']}")
    check(sorted(run["solutions"]) == ["0"], "winner-mixed",
          lambda: str(sorted(run["solutions"])))
    for s in (run["solutions"]["0"], run["final_solution"]):
        check(float(s["solution_input"]["stop"]) == float(row["stop"]),
              "winner-mixed", "solution of another command")
        check(float(s["angles"][-1]) <= lib.radians(float(row["stop"])) + 1e-9, "winner-mixed", "angles of another command")


def taken(w):
    """The name given is taken already, by something."""
    src = source(w)
    out = os.path.join(w.scratch, "out.hdf5")
    kind = w.pick(["result", "text", "empty", "link", "dangling", "directory",
                   "the source"], "what has the name")
    if kind == "result":
        lib.write_file_bytes(out, lib.bytes_of(src))
    elif kind == "text":
        lib.write_file(out, "precious\n")
    elif kind == "empty":
        lib.write_file(out, "")
    elif kind == "link":
        lib.write_file(out + "x", "precious\n")
        os.symlink(out + "x", out)
    elif kind == "dangling":
        os.symlink(out + "y", out)
    elif kind == "directory":
        os.mkdir(out)
    else:
        out = src
    w.note(kind)
    # also when the solve fails
    resoln = src if w.draw(2, "re-solve") or kind == "the source" else None
    rel = w.draw(2, "by output directory")
    main, argv, row = command(
        w, 0, resoln=resoln,
        out=os.path.basename(out) if rel else out,
        outdir=w.scratch if rel else None)
    verdict = w.pick(["best", "error", "fail"], "how it solves")
    use_verdicts([row], [verdict])
    before = lib.snapshot(w.scratch)
    o = lib.run_cmd(w, "cmd", main, argv)
    after = lib.snapshot(w.scratch)
    lib.check_untouched(w, before, after, "existing-changed")
    check(not o.ok, "success-reported", lambda: f"{kind}: {o!r}")
    check(os.path.basename(out) not in w.output("cmd"), "success-reported",
          lambda: w.output("cmd"))
    check(not set(after) - set(before), "another-file",
          lambda: str(set(after) - set(before)))
    w.nontrivial = True


def one_after_another(w):
    """Generated names under clocks that repeat."""
    src = source(w)
    outdir = os.path.join(w.scratch, "out")
    os.mkdir(outdir)
    clock(w)
    n = w.between(2, 4, "commands")
    collisions = 0
    for i in range(n):
        resoln = src if w.draw(2, "re-solve") else None
        label = w.pick(["lab", "lab", "other"], "label")
        main, argv, row = command(w, i, resoln=resoln, outdir=outdir,
                                  label=label)
        verdict = w.pick(["best", "error", "fail"], "how it solves")
        use_verdicts([row], [verdict])
        before = lib.snapshot(w.scratch)
        name = f"cmd{i}"
        o = lib.run_cmd(w, name, main, argv)
        after = lib.snapshot(w.scratch)
        lib.check_untouched(w, before, after, "existing-changed")
        new = set(after) - set(before)
        if o.ok:
            check(len(new) == 1, "files", lambda: f"{o!r}, new: {new}")
            path = new.pop()
            check(w.output(name).strip() == path, "name",
                  lambda: f"printed {w.output(name)!r}, made {path}")
            is_run(lib.in_process(w, "reader", lib.load_or_why(path)), row)
        else:
            check(o.kind == "raise", "failed-how", repr(o))
            if o.exc["type"] == "FileExistsError":
                collisions += 1
                check(not new, "files", lambda: str(new))
            else:
                check("SolverError" in o.exc["mro"] and verdict == "error",
                      "failed-how", lambda: f"{o!r}\n{o.exc['tb']}")
    w.count("collisions", collisions)
    w.nontrivial = collisions > 0


def race(w):
    """Several commands at the same time want one name."""
    src = source(w)
    outdir = os.path.join(w.scratch, "out")
    os.mkdir(outdir)
    named = w.draw(2, "names generated") == 0
    if not named:
        w.clock_policy = lambda w, actor: 0.0
    n = w.between(2, 3, "commands")
    cmds = []
    for i in range(n):
        resoln = src if w.draw(2, "re-solve") else None
        cmds.append(command(w, i, resoln=resoln, outdir=outdir, label="lab",
                            out="same.hdf5" if named else None))
    verdicts = [w.pick(["best", "sign", "error"], "how it solves")
                for _ in cmds]
    use_verdicts([c[2] for c in cmds], verdicts)
    before = lib.snapshot(w.scratch)
    ps = [procs.SimProcess(w, f"cmd{i}", lib.command(main, argv))
          for i, (main, argv, _) in enumerate(cmds)]
    outs = procs.run_concurrently(w, ps)
    after = lib.snapshot(w.scratch)
    lib.check_untouched(w, before, after, "existing-changed")
    new = sorted(set(after) - set(before))
    check(len(new) == 1, "files", lambda: f"{new} {outs}")
    winners = [i for i, o in enumerate(outs) if o.ok]
    check(len(winners) <= 1, "several-winners", lambda: f"{outs}")
    for i, o in enumerate(outs):
        if not o.ok:
            check(o.kind == "raise" and (
                o.exc["type"] == "FileExistsError" or
                o.exc["errno"] in (17, 11) or
                "SolverError" in o.exc["mro"] and verdicts[i] == "error"),
                "failed-how", lambda: f"{o!r}\n{(o.exc or {}).get('tb')}")
    gave_up = [i for i, o in enumerate(outs) if o.kind == "raise" and
               "SolverError" in o.exc["mro"]]
    check(len(winners) + len(gave_up) == 1, "no-winner", lambda: str(outs))
    if winners:
        is_run(lib.in_process(w, "reader", lib.load_or_why(new[0])),
               cmds[winners[0]][2])
    w.nontrivial = True


def runner_files(w, outdir, items, cls):
    """Every file is damaged-free: complete with one input's result, or of a
    failing item."""
    loaded = c03.load_files(w, outdir)
    rows = {float(it.row["stop"]): it for it in items}
    seen = set()
    for path, (what, run) in loaded.items():
        if what != "run":
            continue
        stop = float(run["config_input"]["stop"])
        check(stop in rows and stop not in seen, cls,
              lambda: f"{path} holds {stop}")
        seen.add(stop)
        is_run((what, run), rows[stop].row)
    return seen


class Finished:
    """Result files as they were when the solve that made them was over."""

    def __init__(self, w):
        self.w = w
        self.open = {}
        self.files = {}

    def __call__(self, actor, kind, detail):
        if kind == "h5.open":
            self.open[actor] = (detail, False)
        elif kind == "h5.close" and actor in self.open:
            self.open[actor] = (detail, True)
        elif kind == "task.done":
            name, closed = self.open.pop(actor, (None, False))
            path = str(name).rsplit(".hdf5", 1)[0] + ".hdf5"
            path = path.replace("$S", self.w.scratch)
            if closed and os.path.exists(path):
                self.files.setdefault(path, lib.bytes_of(path))
        return None

    def check(self):
        for path, data in self.files.items():
            check(os.path.exists(path) and lib.bytes_of(path) == data,
                  "result-changed", lambda: f"{path} was finished, and was "
                  "changed afterwards")


def hdf5runner_race(w):
    """Two batch runners of few workers at once, clock standing."""
    return hdf5runner(w, racing=True)


def hdf5runner(w, racing=False):
    """The batch runner again and again (or twice at once), clock standing."""
    from disc_solver.solve.hdf5runner import main
    outdir = os.path.join(w.scratch, "out")
    os.mkdir(outdir)
    together = racing or w.draw(2, "at the same time")
    kind = w.wpick([("stands still", 6 if racing else 1), ("wild", 1),
                    ("goes", 1)], "clock")
    if kind == "wild":
        clock(w)
    elif kind == "stands still":
        w.clock_policy = lambda w, actor: 0.0
    items, argvs = [], []
    for k in range(2):
        mine = [batch.Item(lib.gen_row(w, 10 * k + i, simple=True, angles=12),
                           "single", ["best"])
                for i in range(w.between(1, 3, "inputs"))]
        inp = os.path.join(w.scratch, f"in{k}.csv")
        lib.write_file(inp, lib.csv_text([it.row for it in mine]))
        args = [inp, "--sonic-method", "single", "-n", "1"] if racing \
            else runner_argv(w, inp, None, "single")
        argvs.append(args + ["--output-dir", outdir])
        items.append(mine)
    lib.use(batch.scripts(items[0] + items[1]))
    simpool.DEFAULT_WORKERS = w.between(1, 3, "cpus")
    every = items[0] + items[1]
    w.hook = finished = Finished(w)
    if together:
        ps = [procs.SimProcess(w, f"r{k}", lib.command(main, argvs[k]))
              for k in range(2)]
        outs = procs.run_concurrently(w, ps, before="h5.open")
    else:
        outs = []
        for k in range(2):
            before = lib.snapshot(w.scratch)
            outs.append(lib.run_cmd(w, f"r{k}", main, argvs[k]))
            lib.check_untouched(w, before, lib.snapshot(w.scratch),
                                "existing-changed")
    w.hook = None
    finished.check()
    lib.check_pools(w)
    seen = runner_files(w, outdir, every, "mixed")
    collided = 0
    for k, o in enumerate(outs):
        if o.ok:
            for it in items[k]:
                check(float(it.row["stop"]) in seen, "success-reported",
                      lambda: f"runner {k} ended well, but has no file for "
                      f"{it.row['stop']}")
        else:
            collided += 1
            check(o.kind == "raise" and (o.exc["type"] == "FileExistsError" or
                  o.exc["errno"] in (17, 11)), "failed-how",
                  lambda: f"{o!r}\n{(o.exc or {}).get('tb')}")
    w.count("collisions", collided)
    w.nontrivial = collided > 0


def shock(w):
    """ds-shock twice while the clock stands still."""
    src = os.path.join(w.scratch, "src.hdf5")
    shocks.make(w, src)
    w.clock_policy = lambda w, actor: 0.0
    n = w.between(1, 2, "workers")
    lib.use(shocks.policy({}))
    saved = []
    for k in range(2):
        before = lib.snapshot(w.scratch)
        o = shocks.run(w, f"s{k}", src, ["-n", str(n)])
        check(o.ok, "failed", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
        after = lib.snapshot(w.scratch)
        lib.check_untouched(w, before, after, "existing-changed")
        new = [p for p in set(after) - set(before) if p.endswith(".hdf5")]
        for p in new:
            what, run = lib.in_process(w, "reader", lib.load_or_why(p))
            check(what == "run" and sorted(run["solutions"]) == ["0"],
                  "winner-mixed", lambda: f"{p}: {run}")
        saved.append(len(new))
        err = w.output(f"s{k}", 2)
        check(saved[-1] + err.count("save failed START TB") ==
              shocks.worth(w, src), "failures-shown",
              lambda: f"{new} saved, standard error:\n{err[-3000:]}")
    w.nontrivial = True


PROP = Prop(
    "C06",
    [Scenario("taken", taken, 50),
     Scenario("one after another", one_after_another, 40),
     Scenario("race", race, 70),
     Scenario("hdf5runner", hdf5runner, 40),
     Scenario("hdf5runner race", hdf5runner_race, 50),
     Scenario("shock", shock, 6)],
    rule="A run is one to four solving commands whose result names collide: "
    "given names that are taken (by results, text, links, directories), "
    "generated names under clocks that stand still, go back or tick "
    "coarsely, commands interleaved at every operation; non-trivial when a "
    "collision took place.",
    real=["ds-soln, ds-resoln, ds-hdf5runner, ds-shock", "h5py and the files",
          "worker processes"],
    stub=["clock", "multiprocessing.Pool (simulated)",
          "CVODE results (scripted)", "rendering of plots (ds-shock)"],
)
