"""Unexpected failures in workers or the pool are reported."""
import errno
import os

from .. import batch, lib, simpool
from ..engine import Prop, Scenario
from ..lib import check
from . import c03
from .c01 import gen_csv, runner_argv

ME = "runner"
MALFORMED = {
    "words for a number": {"num_angles": "many"},
    "nothing for a number": {"max_steps": ""},
    "not a boolean": {"use_taylor_jump": "perhaps"},
    "not a slice": {"interp_slice": "a,b"},
}
ERRORS = (
    RuntimeError("made up"), ValueError("made up value"),
    OSError(errno.EIO, "made up I/O error"), ZeroDivisionError("made up"),
    MemoryError("made up"), KeyError("made up"), AttributeError("made up"),
)


def warm():
    import disc_solver.solve.csvrunner  # noqa: F401
    import disc_solver.solve.hdf5runner  # noqa: F401


def gen(w, method, most=6):
    """Items; those in `bad` fail with an unexpected error (type, text)."""
    items = batch.gen_batch(w, method, max_items=most)
    bad = {}
    if not items:
        return items, bad
    for _ in range(w.between(1, 2, "failing inputs")):
        i = w.draw(len(items), "which input fails")
        if i in bad:
            continue
        it = items[i]
        kind = w.pick(["raise", "malformed"], "how it fails")
        row = dict(it.row)
        if kind == "malformed":
            what = w.pick(sorted(MALFORMED), "what is malformed")
            row.update(MALFORMED[what])
            items[i] = batch.Item(it.row, method, ["best"])
            items[i].row = row
            bad[i] = None
        else:
            e = w.pick(ERRORS, "exception")
            for k in batch.NATURAL.values():
                for f in k:
                    row[f] = lib.DEFAULTS[f] if f != "num_angles" else "20"
            n = 0 if method == "single" else w.draw(3, "at which attempt")
            items[i] = batch.Item(row, method, ["best"])
            items[i].verdicts = ["sign"] * n + [("raise", e)]
            bad[i] = (type(e).__name__, str(e))
        w.note(f"input {row['stop']} fails: {kind}")
    return items, bad


def expected_error(w, items, bad, method, internal):
    """(index, type, text) of the first failing input, as alone."""
    for i in sorted(bad):
        a = lib.in_process(w, "alone", lib.memory_solve(
            items[i].row, method, store_internal=internal,
            policy=batch.scripts([items[i]])))
        if a["status"] == "ok" or "SolverError" in a["mro"]:
            items[i].found = bool(a["status"] == "ok" and a["returned"])
            return None     # not an unexpected failure after all
        return i, a["status"], a["text"]
    return None


def check_failed(w, o, err, items):
    lib.check_pools(w)
    i, kind, text = err
    check(o.kind == "raise", "error-swallowed",
          lambda: f"input {items[i].row['stop']} fails with {kind}: {text}, "
          f"the command {o!r}")
    check(o.exc["type"] == kind and o.exc["text"] == text[:2000],
          "another-error", lambda: f"should be {kind}: {text}, is {o!r}\n"
          f"{o.exc['tb']}")


def csv(method):
    def run(w):
        from disc_solver.solve.csvrunner import main
        items, bad = gen(w, method)
        inp = os.path.join(w.scratch, "in.csv")
        out = os.path.join(w.scratch, "out.csv")
        gen_csv(w, items, inp)
        err = expected_error(w, items, bad, method, False)
        if bad and err is None:
            return      # more than one failing input, the first not so
        argv = runner_argv(w, inp, out, method)
        lib.use(batch.scripts(items))
        o = lib.run_cmd(w, ME, main, argv)
        if err is None:
            check(o.ok, "failed", repr(o))
            done = items
        else:
            check_failed(w, o, err, items)
            done = items[:err[0]]
            w.fault("input:" + err[1])
        _, header, rows = lib.parse_csv(lib.text_of(out))
        batch.check_rows(batch.expected_rows(done), rows, header,
                         "earlier-results")
        w.nontrivial = err is not None
    return run


def hdf5(w):
    """Files: those of earlier inputs are right, none is half finished."""
    method = "single"
    items, bad = gen(w, method, 4)
    err = expected_error(w, items, bad, method, True)
    if bad and err is None:
        return
    w.notes.clear()
    o, outdir, items, label, form = c03.run_batch(
        w, items, method, overrides=False)
    if err is None:
        check(o.ok, "failed", repr(o))
    else:
        w.fault("input:" + err[1])
        check_failed(w, o, err, items)
    loaded = c03.load_files(w, outdir)
    keep, ok = {}, {}
    for p, (what, run) in loaded.items():
        if what == "run":
            ok[float(run["config_input"]["stop"])] = p
            keep[p] = (what, run)
    good = [it for i, it in enumerate(items) if i not in bad]
    if err is None:
        c03.check_files(w, items, loaded, label, form, method, True)
    else:
        # all tasks were handed out, and are finished
        for i, it in enumerate(items):
            if i in bad:
                check(float(it.row["stop"]) not in ok or not lib.has_final(
                    keep[ok[float(it.row["stop"])]][1]),
                    "failed-input-complete", it.row["stop"])
        if form != "extra columns":
            c03.check_files(w, good, {
                p: v for p, v in keep.items()
                if float(v[1]["config_input"]["stop"]) in
                {float(it.row["stop"]) for it in good}
            }, label, form, method, True)
    w.nontrivial = err is not None


def file_fails(w):
    """Writing the result file of some input fails in the worker."""
    from disc_solver.solve.hdf5runner import main
    items = [it for it in batch.gen_batch(w, "single", max_items=5,
                                          errors=False)]
    if not items:
        return
    inp = os.path.join(w.scratch, "in.csv")
    lib.write_file(inp, lib.csv_text([it.row for it in items]))
    outdir = os.path.join(w.scratch, "out")
    os.makedirs(outdir)
    lib.use(batch.scripts(items))
    i = w.draw(len(items), "whose file")
    kind = w.pick(["h5.write", "h5.open", "h5.close"], "what fails")
    n = w.draw(60, "at which write") if kind == "h5.write" else 0
    e = w.pick(lib.DISK_ERRNOS, "errno")
    stop = items[i].row["stop"]
    state = {"n": 0, "fired": False, "lasting": w.draw(2, "lasting")}

    def hook(actor, k, detail):
        if k != kind or state["fired"] and not state["lasting"]:
            return None
        mine = [x for x in w.notes if x[0] == actor and x[1] == "item"]
        if not mine or mine[-1][2] != stop:
            return None
        state["n"] += 1
        if state["n"] > n:
            state["fired"] = True
            return ("oserror", e)
        return None

    w.hook = hook
    c03.clock(w)
    o = lib.run_cmd(w, ME, main, runner_argv(w, inp, None, "single") + [
        "--output-dir", outdir])
    w.hook = None
    lib.check_pools(w)
    if state["fired"]:
        check(o.kind == "raise", "error-swallowed",
              lambda: f"{kind} of the file of input {stop} failed with "
              f"{errno.errorcode[e]}, the command {o!r}")
        check(o.exc["errno"] == e or errno.errorcode[e] in o.exc["text"] or
              os.strerror(e) in o.exc["text"], "another-error",
              lambda: f"{kind} failed with {os.strerror(e)}, command: {o!r}\n"
              f"{o.exc['tb']}")
        good = items[:i] + items[i + 1:]
    else:
        check(o.ok, "failed", lambda: f"{o!r} {(o.exc or {}).get('tb')}")
        good = items
    loaded = c03.load_files(w, outdir)
    keep = {p: v for p, v in loaded.items() if v[0] == "run" and (
        float(v[1]["config_input"]["stop"]) != float(stop) or
        not state["fired"])}
    c03.check_files(w, good, keep, "", "header", "single", True)
    w.nontrivial = state["fired"]


def no_pool(w):
    """The workers cannot be started."""
    which = w.pick(["csv", "hdf5"], "command")
    err = w.pick([OSError(errno.EAGAIN, "no more processes"),
                  OSError(errno.ENOMEM, "no memory"),
                  ValueError("Number of processes must be at least 1")],
                 "error")
    items = batch.gen_batch(w, "single", max_items=3, simple=True)
    inp = os.path.join(w.scratch, "in.csv")
    lib.write_file(inp, lib.csv_text([it.row for it in items]))
    lib.use(batch.scripts(items))
    out = os.path.join(w.scratch, "out.csv")
    if which == "csv":
        from disc_solver.solve.csvrunner import main
        argv = [inp, "--output-file", out, "--sonic-method", "single"]
    else:
        from disc_solver.solve.hdf5runner import main
        argv = [inp, "--output-dir", w.scratch]
    if isinstance(err, ValueError):
        argv += ["-n", w.pick(["0", "-1"], "workers")]
    else:
        simpool.START_FAULT = err
    o = lib.run_cmd(w, ME, main, argv)
    simpool.START_FAULT = None
    lib.check_pools(w)
    check(o.kind == "raise", "error-swallowed", repr(o))
    check(o.exc["type"] == type(err).__name__ and o.exc["text"] == str(err),
          "another-error", lambda: f"should be {err!r}: {o!r}\n{o.exc['tb']}")
    check(not lib.h5_files(w.scratch), "files", "result files without workers")
    if which == "csv":
        _, _, rows = lib.parse_csv(lib.text_of(out))
        check(not rows, "rows", str(rows))
    w.nontrivial = True


PROP = Prop(
    "C05",
    [Scenario("csv single", csv("single"), 90),
     Scenario("csv step", csv("step"), 40),
     Scenario("hdf5", hdf5, 40),
     Scenario("file fails", file_fails, 50),
     Scenario("no pool", no_pool, 16)],
    rule="A run is one batch command in which one or two inputs make their "
    "worker fail unexpectedly (an exception at any attempt, a malformed "
    "value, an I/O error at any write of the result file) or the workers "
    "cannot be started; non-trivial when that failure took place.",
    real=["ds-csvrunner, ds-hdf5runner", "worker processes", "h5py files",
          "single and step search"],
    stub=["multiprocessing.Pool (simulated, same semantics)",
          "CVODE results (scripted)", "the failures"],
    assumptions=["Errors reach the parent through pickle, as with the real "
                 "pool; a worker killed by a signal is outside the property "
                 "(the library's pool waits for ever then)."],
)
