"""ds-csvrunner: each result exactly once, in order, unmixed."""
import os

from .. import batch, cases, lib, procs, simpool
from ..engine import Prop, Scenario
from ..lib import check


def warm():
    import disc_solver.solve.csvrunner  # noqa: F401


def runner_argv(w, inp, out, method):
    argv = [inp, "--sonic-method", method]
    if out is not None:
        argv += ["--output-file", out]
    n = w.draw(5, "number of workers option")
    if n:
        argv += ["-n", str(n)]
    else:
        simpool.DEFAULT_WORKERS = w.between(1, 4, "number of cpus")
    return argv


def add_overrides(w, items, argv):
    """Give some settings by --override; they win over the rows."""
    ov = {}
    if w.draw(3, "overrides"):
        for k, vals in (("max_steps", ["5000", "7"]),
                        ("target_velocity", ["0.95"]),
                        ("relative_tolerance", ["1e-7"]),
                        ("γ", ["0.002", "0.0005"])):
            if w.draw(2, "override " + k):
                ov[k] = w.pick(vals, k)
    for k, v in ov.items():
        argv += ["--override", k, v]
    return [batch.Item(dict(it.row, **ov), it.method, it.verdicts, it.natural)
            for it in items]


def gen_csv(w, items, inp, with_source=False):
    rows = [dict(it.row) for it in items]
    form = w.wpick([("header", 4), ("columns moved", 2), ("no header", 2),
                    ("extra columns", 2)], "form of the CSV file")
    fields = list(lib.CSV_FIELDS)
    if form == "columns moved":
        k = w.draw(len(fields), "rotate columns")
        fields = fields[k:] + fields[:k]
    elif form == "extra columns":
        fields = ["nonsense"] + fields + ["filename", "solution_name"]
        for i, r in enumerate(rows):
            r.update(nonsense="x", filename=f"src{i}.hdf5",
                     solution_name=str(i))
    text = lib.csv_text(
        rows, fields, header=form != "no header",
        comments=w.pick([(), ("made by hand",), ("  # indented", "#"),
                         ("#a,b", "\t#tab")], "comments"),
        quoting=w.draw(2, "minimal quoting") == 0,
        last_newline=w.draw(4, "no end of line") != 3)
    lib.write_file(inp, text)
    return form


def scenario(method):
    def run(w):
        from disc_solver.solve.csvrunner import main
        items = batch.gen_batch(w, method)
        inp = os.path.join(w.scratch, "in.csv")
        out = os.path.join(w.scratch, "out.csv")
        gen_csv(w, items, inp)
        to_stdout = w.draw(5, "to standard output") == 4
        argv = runner_argv(w, inp, None if to_stdout else out, method)
        items = add_overrides(w, items, argv)
        lib.use(batch.scripts(items))
        if w.draw(3, "short writes") == 2:
            w.hook = lib.short_writes(w, kinds=("file.write",))
        o = lib.run_cmd(w, "csvrunner", main, argv)
        w.hook = None
        lib.check_pools(w)
        check(o.ok, "failed", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
        if to_stdout:
            check_stdout(w, items)
        else:
            comments, header, rows = lib.parse_csv(lib.text_of(out))
            check(len(comments) >= 1 and
                  any(c.strip() == f"sonic_method={method}" for c in comments),
                  "metadata", lambda: f"metadata lines {comments}")
            check(header == lib.CSV_FIELDS, "header", lambda: str(header))
            text = lib.text_of(out)
            check(text.endswith("\n"), "torn", "last line incomplete")
            batch.check_rows(batch.expected_rows(items), rows, header)
            said = w.output("csvrunner").count("No final solution found")
            check(said == sum(not it.found for it in items), "report",
                  lambda: f"{said} inputs reported as without solution, "
                  f"should be {sum(not it.found for it in items)}")
        w.nontrivial = len(items) > 1
        w.count("inputs", len(items))
        w.count("inputs without solution", sum(not i.found for i in items))
    return run


def check_stdout(w, items):
    """Rows share standard output with messages of the workers."""
    import csv
    text = w.output("csvrunner")
    rows = []
    n = len(lib.CSV_FIELDS)
    pos = 0
    want = batch.expected_rows(items)
    for i, f in enumerate(want):
        # the row of this input is there once, after the one before it
        key = f'"{f["stop"]}"'
        marks = []
        at = text.find('"0.0",' + key + ",")
        while at >= 0:
            marks.append(at)
            at = text.find('"0.0",' + key + ",", at + 1)
        check(len(marks) == 1, "stdout-rows",
              lambda: f"row of input with stop {f['stop']} {len(marks)} times")
        check(marks[0] >= pos, "stdout-order", f"row {i} is not in order")
        pos = marks[0]
        line = text[pos:text.find("\n", pos)]
        vals = next(csv.reader([line], dialect="unix"))
        check(len(vals) >= n, "stdout-rows", lambda: f"row {i} torn: {line}")
        rows.append(vals[:n])
    batch.check_rows(want, rows, lib.CSV_FIELDS)


def real(w):
    """Nothing made up: CVODE solves, compared with solving each row alone."""
    from disc_solver.solve.csvrunner import main
    n = w.between(1, 4, "number of inputs")
    rows = []
    for i in range(n):
        r = lib.gen_row(w, i, stop=0.5 + 0.25 * i, angles=20)
        if w.draw(6, "bad input") == 5:
            r.update(batch.NATURAL["complex"])
        rows.append(r)
    inp = os.path.join(w.scratch, "in.csv")
    lib.write_file(inp, lib.csv_text(rows))
    lib.use(None)
    alone = [lib.in_process(w, "alone", solve_alone(r, "single"))
             for r in rows]
    out = os.path.join(w.scratch, "out.csv")
    o = lib.run_cmd(w, "csvrunner", main, runner_argv(w, inp, out, "single"))
    check(o.ok, "failed", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
    compare(alone, out)
    w.nontrivial = n > 1


def searches(method):
    """Searches with random numbers of their own, or of many solves."""
    def run(w):
        from disc_solver.solve.csvrunner import main
        n = w.between(1, 3, "number of inputs")
        todo = [cases.gen(w, method, i=i) for i in range(n)]
        all_of = cases.Mixed(todo)
        inp = os.path.join(w.scratch, "in.csv")
        out = os.path.join(w.scratch, "out.csv")
        lib.write_file(inp, lib.csv_text([c.row for c in todo]))
        alone = [lib.in_process(w, "alone", solve_alone(
            c.row, method, cases.Mixed([c]).install)) for c in todo]
        o = lib.run_cmd(w, "csvrunner", main, runner_argv(
            w, inp, out, method), pre=all_of.install)
        lib.check_pools(w)
        check(o.ok, "failed", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
        compare(alone, out)
        w.nontrivial = n > 1
        w.count("inputs without solution", sum(a is None for a in alone))
    return run


def compare(alone, out):
    _, header, got = lib.parse_csv(lib.text_of(out))
    want = [{k: lib.canonical(k, a[k]) for k in lib.CSV_FIELDS}
            for a in alone if a is not None]
    for x in want:
        x["interp_slice"] = lib.norm_slice(x["interp_slice"])
    batch.check_rows(want, got, header)


def solve_alone(row, method, before=None):
    def body():
        from disc_solver.file_format import ConfigInput, Run
        from disc_solver.solve import SONIC_METHOD_MAP
        from disc_solver.solve.utils import SolverError
        if before is not None:
            before()
        simpool.begin_item(dict(row))
        ci = ConfigInput(label="", **row)
        si = ci.to_soln_input()
        run = Run(config_input=ci, config_filename=None,
                  disc_solver_version="x", float_type="float64",
                  sonic_method=method, use_E_r=si.use_E_r)
        try:
            ok = SONIC_METHOD_MAP[method](si, run, store_internal=False)
        except SolverError:
            return None
        if not ok or run.final_solution is None:
            return None
        return dict(vars(run.final_solution.solution_input))
    return body


PROP = Prop(
    "C01",
    [Scenario("single", scenario("single"), 200),
     Scenario("step", scenario("step"), 200),
     Scenario("mcmc", searches("mcmc"), 14),
     Scenario("fast_crosser", searches("fast_crosser"), 16),
     Scenario("real", real, 24)],
    rule="A run is one ds-csvrunner command over generated inputs (0 to 7 "
    "rows, four file layouts, overrides, 1 to 4 workers), with scripted "
    "integrations and a tape-driven order of all worker and writer steps; "
    "non-trivial with at least two inputs.",
    real=["ds-csvrunner entry point, option parsing, CSV reading and writing",
          "single and step search, solution assembly, emcee-free solvers",
          "CVODE (scenario real)", "process isolation of workers (fork)"],
    stub=["multiprocessing.Pool (simulated, same semantics)",
          "CVODE results (scripted; scenarios single and step)",
          "operating system writes (pass through, may be short)"],
    assumptions=["Rows are compared with a model of the search rules, not "
                 "with DiscSolver's own code, except in scenario real."],
)
