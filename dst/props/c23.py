"""Exported inputs feed back into the tools without loss."""
import errno
import os

from .. import analysis, cases, lib, shocks
from ..engine import Prop, Scenario
from ..lib import check
from .c01 import runner_argv
from .c03 import clock
from .c22 import LABELS, VALUES, gen_settings


def warm():
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.solve.csvrunner  # noqa: F401
    import disc_solver.solve.hdf5runner  # noqa: F401
    import disc_solver.solve.shock  # noqa: F401
    analysis.warm()


def key(get):
    """An input in a form that can be compared; get: name -> value."""
    out = []
    for k in lib.CSV_FIELDS:
        v = get(k)
        if k == "interp_slice":
            v = lib.norm_slice(v)
        elif k in lib.FLOAT_FIELDS:
            v = float(v)
        out.append((k, type(v).__name__, v))
    return tuple(out)


def of_plain(si):
    return key(lambda k: lib.canonical(k, si.get(k)))


def of_row(row):
    return key(lambda k: lib.interpret(k, row[k]))


def show(a, b):
    """How two lists of inputs differ."""
    a, b = list(a), list(b)
    for x in list(a):
        if x in b:
            a.remove(x)
            b.remove(x)
    if not a and not b:
        return "order"
    if len(a) == len(b):
        return "; ".join(
            f"{p[0]} {p[2]!r} / {q[2]!r}" for x, y in zip(a, b)
            for p, q in zip(x, y) if p != q)[:600]
    return (f"{len(a)} too many {[short(x) for x in a]}, {len(b)} missing "
            f"{[short(x) for x in b]}")[:600]


def short(k):
    return {n: v for n, _, v in k if n in ("stop", "γ", "interp_slice",
                                            "mcmc_vars")}


def same_inputs(have, want, cls, where):
    check(sorted(map(repr, have)) == sorted(map(repr, want)), cls,
          lambda: f"{where}: {show(have, want)}")


class Results:
    """A result file."""

    def __init__(self, path, run):
        self.path = path
        self.label = run["config_input"]["label"]
        self.solutions = {n: of_plain(s["solution_input"])
                          for n, s in run["solutions"].items()}
        self.final = None
        if lib.has_final(run):
            self.final = of_plain(run["final_solution"]["solution_input"])
        self.fit = {n: fit(s) for n, s in run["solutions"].items()}
        if self.final is not None:
            self.fit["final"] = fit(run["final_solution"])

    def pick(self, w):
        """What to call a solution, and its input."""
        out = sorted(self.solutions) + ["latest"]
        if self.final is not None:
            out.append("final")
        name = w.pick(out, "solution")
        if name == "final" or name == "latest" and self.final is not None:
            return name, self.final
        if name == "latest":
            return name, self.solutions[max(self.solutions, key=int)]
        return name, self.solutions[name]

    def all(self):
        out = dict(self.solutions)
        if self.final is not None:
            out["final"] = self.final
        return out


def fit(s):
    from .c16 import plainly_usable
    return bool(plainly_usable(s))


class Rows:
    """A CSV file: [(input, file name, solution)]"""

    def __init__(self, path, rows):
        self.path = path
        self.rows = rows


class Config:
    def __init__(self, path, inp, label):
        self.path = path
        self.input = inp
        self.label = label


def best(call):
    """Everything is solved at once."""
    return None if call.is_taylor else lib.directive("best", call)


def result_file(w, path):
    return Results(path, lib.stored_run(w, path))


def create(w, k, kinds=("settings", "settings", "step", "mcmc", "shock",
                        "shock", "fast_crosser"), rich=False):
    """A result file with inputs of every kind."""
    path = os.path.join(w.scratch, f"made {k}.hdf5")
    kind = w.pick(kinds, "source")
    label = w.pick(LABELS, "label")
    if kind == "settings":
        row = gen_settings(w, w.pick(["5", "7/3", "2.1"], "stop"))
        if rich:
            for f in RARE:
                if w.draw(2, "set"):
                    row[f] = w.pick(VALUES[f], f)
            if row["jump_before_sonic"] != "None":
                row["sonic_interp_size"] = "None"
        if lib.in_process(w, "alone", lib.memory_solve(
                row, "single", policy=best))["status"] != "ok":
            return None
        with lib.quiet(w):
            lib.make_source(w, path, row, ["best"],
                            label=label.replace("%", "%%"))
    elif kind == "shock":
        src = os.path.join(w.scratch, "for shocks.hdf5")
        with lib.quiet(w):
            if not os.path.exists(src):
                shocks.make(w, src)
            lib.use(shocks.policy({}))
            o = shocks.run(w, f"shock{k}", src, ["-n", "2"])
        made = lib.h5_files(os.path.join(w.scratch, "shock_tests"))
        check(o.ok and made, "no-shock", repr(o))
        os.rename(w.pick(made, "shock"), path)
        w.count("results of ds-shock")
    else:
        case = cases.gen(w, kind)
        case.fails = ()
        with lib.quiet(w):
            case.run_file(w, f"maker{k}", path,
                          label=label.replace("%", "%%"))
    what = lib.in_process(w, "reader", lib.load_or_why(path))
    if what[0] != "run" or not what[1]["solutions"]:
        return None
    return Results(path, what[1])


# ------------------------------------------------------------- operations
def devices(w):
    """What legal short reads and writes there are."""
    if w.draw(2, "short reads and writes") == 0:
        return None
    most = w.pick([3, 30, 300], "most bytes")

    def hook(actor, kind, detail):
        if kind in ("file.read", "file.write") and detail.split()[0].endswith(
                (".csv", ".cfg")):
            return ("short", w.between(1, most, "bytes"))
        return None
    return hook


def run(w, name, main, argv):
    """Run a command which works; sometimes after it failed before."""
    w.hook = devices(w)
    clock(w)
    o = lib.run_cmd(w, name, main, argv)
    w.hook = None
    check(o.ok, "refused", lambda: f"{name} {argv}: {o!r}\n"
          f"{(o.exc or {}).get('tb')}\n{w.output(name)[-600:]}")
    return o


def parse(path, header=True):
    _, head, rows = lib.parse_csv(lib.text_of(path))
    if not header:
        rows = [head] + rows
        head = lib.CSV_FIELDS
    return [dict(zip(head, r)) for r in rows]


def tocsv(w, n, k):
    name, want = n.pick(w)
    out = os.path.join(w.scratch, f"e{k}.csv")
    header = w.draw(3, "without header") != 2
    run(w, f"tocsv{k}", analysis.COMMANDS["tocsv"].main(),
        [n.path, name, "--file", out] + ["--with-header"] * header)
    rows = parse(out, header)
    same_inputs([of_row(r) for r in rows], [want], "export", "ds-tocsv")
    return Rows(out, [(want, None, None)])


def tocfg(w, n, k):
    from disc_solver.analyse.dump_config import dump_main
    name, want = n.pick(w)
    out = os.path.join(w.scratch, f"e{k}.cfg")
    if w.draw(3, "fails before") == 2:
        # (the file is written anew)
        w.hook = lib.OnePoint(
            lambda a, kind, d: kind == "file.write", 0,
            w.pick([("kill",), ("oserror", errno.ENOSPC), ("partial", 9)],
                   "failure"))
        lib.run_cmd(w, f"failing{k}", dump_main,
                    [n.path, name, "--file", out])
        w.hook = None
    run(w, f"tocfg{k}", dump_main, [n.path, name, "--file", out])
    return Config(out, want, n.label)


def many(w, tool, nodes, k):
    out = os.path.join(w.scratch, f"e{k}.csv")
    files = [n.path for n in nodes]
    run(w, f"{tool}{k}", analysis.COMMANDS[tool].main(),
        ["--file", out] + files)
    rows = parse(out)
    if tool == "dumpcsv":
        want = [i for n in nodes for i in n.all().values()]
        have = [of_row(r) for r in rows]
        same_inputs(have, want, "export", "ds-dumpcsv")
        return Rows(out, [(i, None, None) for i in have])
    got = {}
    for r in rows:
        at = (r["filename"], r["solution_name"])
        check(at not in got, "export", lambda: f"ds-stats: {at} twice")
        got[at] = of_row(r)
    for n in nodes:
        for name, want in n.all().items():
            have = got.pop((n.path, name), None)
            if have is None:
                check(not n.fit[name], "export", lambda: f"ds-stats: nothing "
                      f"for {name} of {n.path}\n{w.output(f'stats{k}')}")
                continue
            same_inputs([have], [want], "export", "ds-stats")
    check(not got, "export", lambda: f"ds-stats: rows of {sorted(got)}")
    return Rows(out, [(of_row(r), r["filename"], r["solution_name"])
                      for r in rows])


def csvrunner(w, rows, k):
    from disc_solver.solve.csvrunner import main
    out = os.path.join(w.scratch, f"r{k}.csv")
    run(w, f"csvrunner{k}", main, runner_argv(w, rows.path, out, "single") +
        ["--store-internal"])
    have = [of_row(r) for r in parse(out)]
    want = [i for i, _, _ in rows.rows]
    check(have == want, "import", lambda: f"ds-csvrunner with "
          f"{w.rel(rows.path)}: {show(have, want)}")
    return Rows(out, [(i, None, None) for i in have])


def hdf5runner(w, rows, k):
    from disc_solver.solve.hdf5runner import main
    outdir = os.path.join(w.scratch, f"r{k}")
    os.mkdir(outdir)
    run(w, f"hdf5runner{k}", main, runner_argv(w, rows.path, None, "single") +
        ["--store-internal", "--output-dir", outdir])
    loaded = lib.in_process(w, "reader", lib.load_all(lib.h5_files(outdir)))
    have = []
    for what, r in loaded:
        check(what == "run", "import", lambda: f"ds-hdf5runner: {r}")
        for s in r["solutions"].values():
            have.append((of_plain(s["solution_input"]),
                         r["based_on_solution_filename"],
                         r["based_on_solution_solution_name"]))
            inp = r["config_input"]
            same_inputs([of_row(inp)], [have[-1][0]], "import",
                        "config of ds-hdf5runner")
    same_inputs([h[0] for h in have], [r[0] for r in rows.rows], "import",
                f"ds-hdf5runner with {w.rel(rows.path)}")
    check(sorted(map(repr, have)) == sorted(map(repr, rows.rows)),
          "provenance", lambda: f"ds-hdf5runner with {w.rel(rows.path)}: "
          f"{sorted((str(h[1]), str(h[2])) for h in have)}, should be "
          f"{sorted((str(r[1]), str(r[2])) for r in rows.rows)}")
    return [Results(p, r) for p, (_, r) in zip(lib.h5_files(outdir), loaded)]


def soln(w, conf, k):
    from disc_solver.solve import main
    out = os.path.join(w.scratch, f"s{k}.hdf5")
    run(w, f"soln{k}", main, [conf.path, "--output-file", out])
    r = result_file(w, out)
    same_inputs(r.solutions.values(), [conf.input], "import",
                f"ds-soln with {w.rel(conf.path)}")
    check(r.label == conf.label, "label", lambda: f"label {r.label!r}, "
          f"was {conf.label!r}")
    return r


def resoln(w, n, k):
    from disc_solver.solve.resolve import main
    name, want = n.pick(w)
    out = os.path.join(w.scratch, f"s{k}.hdf5")
    run(w, f"resoln{k}", main, [n.path, name, "--output-file", out])
    r = result_file(w, out)
    same_inputs(r.solutions.values(), [want], "import",
                f"ds-resoln {w.rel(n.path)} {name}")
    check(r.label == n.label, "label", lambda: f"label {r.label!r}, "
          f"was {n.label!r}")
    return r


RARE = ("jump_before_sonic", "after_sonic", "sonic_interp_size",
        "interp_range", "interp_slice", "v_θ_sonic_crit", "mcmc_vars",
        "use_taylor_jump", "use_E_r", "η_derivs")
EXPORT = ["tocsv", "tocfg", "dumpcsv", "stats", "resoln"]


def chain(w):
    nodes = [n for n in (create(w, k) for k in range(
        w.between(1, 2, "result files"))) if n is not None]
    if not nodes:
        return
    lib.use(best)
    n = w.pick(nodes, "node")
    for k in range(w.between(2, 5, "operations")):
        if isinstance(n, Results):
            op = w.pick(EXPORT, "operation")
            if op == "tocsv":
                n = tocsv(w, n, k)
            elif op == "tocfg":
                n = tocfg(w, n, k)
            elif op == "resoln":
                n = resoln(w, n, k)
                nodes.append(n)
            else:
                some = [n] + [m for m in nodes if m is not n and
                              w.draw(2, "together with another")]
                n = many(w, op, some, k)
        elif isinstance(n, Config):
            n = soln(w, n, k)
            nodes.append(n)
        else:
            if w.draw(2, "operation"):
                made = hdf5runner(w, n, k)
                if not made:
                    break
                n = w.pick(made, "file")
                nodes.append(n)
            else:
                n = csvrunner(w, n, k)
        w.count("exports and imports")
        if k:
            w.nontrivial = True


def pairs(w):
    """Inputs with many rare settings: every export, each fed back at once."""
    n = create(w, 0, kinds=("settings", "settings", "settings", "shock"),
               rich=True)
    if n is None:
        return
    lib.use(best)
    soln(w, tocfg(w, n, 0), 0)
    if w.draw(2, "rows"):
        rows = tocsv(w, n, 1) if w.draw(2, "from") else many(
            w, w.pick(["stats", "dumpcsv"], "tool"), [n], 1)
        if w.draw(2, "operation"):
            hdf5runner(w, rows, 1)
        else:
            csvrunner(w, rows, 1)
    w.count("exports and imports", 2)
    w.nontrivial = True


PROP = Prop(
    "C23",
    [Scenario("chain", chain, 64),
     Scenario("pairs", pairs, 64)],
    rule="A run makes result files with rare and computed settings (of "
    "single solves, searches, MCMC, shocks) and passes inputs along a chain "
    "of two to five exports (ds-tocsv, ds-tocfg, ds-dumpcsv, ds-stats) and "
    "imports (ds-csvrunner, ds-hdf5runner, ds-soln, ds-resoln), or feeds "
    "inputs with many rare settings back at once (scenario pairs); "
    "non-trivial from two on.",
    real=["all of the commands named", "result files, CSV and config files"],
    stub=["CVODE results", "worker processes are scheduled by the simulator",
          "short reads and writes, failing writes of configs"],
)
