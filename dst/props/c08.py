"""An interrupted solve never passes for complete, finished attempts stay."""
import errno
import os

from .. import cases, lib, seams
from ..engine import Prop, Scenario
from ..lib import check

ME = "cmd"


def warm():
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.analyse.diverge_plot  # noqa: F401


class Watch:
    """Counts points, and how many attempts had been stored for good."""

    def __init__(self, match, fault=None):
        self.match = match
        self.fault = fault      # (n, directive)
        self.seen = 0
        self.begun = 0
        self.done = 0
        self.final = False      # began to store the final solution
        self.closing = False
        self.fired = None

    def __call__(self, actor, kind, detail):
        if actor != ME or self.fired:
            return None
        if kind == "h5.group" and detail == str(self.begun):
            self.done = self.begun
            self.begun += 1
        elif kind in ("ode", "input") or detail == "final_solution":
            self.done = self.begun
            self.final = self.final or detail == "final_solution"
        elif kind == "h5.close":
            self.done = self.begun
            self.closing = True
        if not self.match(kind, detail):
            return None
        self.seen += 1
        if self.fault is not None and self.seen == self.fault[0] + 1:
            self.fired = (kind, detail)
            return self.fault[1]
        return None


def stored_attempts(path):
    """Function for in_process: attempts one by one, whatever else is there."""
    def body():
        import h5py
        from disc_solver.file_format import registries
        out = {"open": False, "attempts": {}, "broken": []}
        try:
            f = h5py.File(path, "r")
        except OSError as e:
            out["why"] = str(e)
            return out
        out["open"] = True
        with f:
            if "run" not in f or "solutions" not in f["run"]:
                return out
            g = f["run"]["solutions"]
            for k in g:
                try:
                    s = registries.load(registries.from_file(g[k]))
                    out["attempts"][k] = lib.plain(s)
                except Exception as e:  # pylint: disable=broad-except
                    out["broken"].append((k, f"{type(e).__name__}: {e}"))
        return out
    return body


def matcher(what):
    if what == "any":
        return lambda k, d: k != "start"
    if what == "h5":
        return lambda k, d: k in ("h5.group", "h5.write", "h5.link",
                                  "h5.attr")
    if what == "closing":
        return lambda k, d: k in ("h5.close", "out.write")
    return lambda k, d: k == what


def interrupted(*methods):
    def run(w):
        seams.H5_POINTS = frozenset(("write", "group", "link", "attr"))
        c = cases.gen(w, methods=methods)
        mem = c.solve_memory(w)
        src = None
        if w.draw(2, "ds-resoln"):
            src = os.path.join(w.scratch, "src.hdf5")
            c.source(w, src)

        def command(path):
            if src is not None:
                return c.run_resolve(w, ME, path, src)
            return c.run_file(w, ME, path)
        kind = w.wpick([("oserror", 4), ("interrupt", 3), ("kill", 3),
                        ("exc", 2), ("truncate", 1)], "what happens")
        if kind == "oserror":
            fault = ("oserror", w.pick([errno.ENOSPC, errno.EIO,
                                        errno.EDQUOT], "error"))
        elif kind == "exc":
            fault = ("exc", w.pick([MemoryError("injected"),
                                    RuntimeError("injected"),
                                    ValueError("injected")], "exception"))
        elif kind == "truncate":
            fault = ("truncate", w.pick([1, 10, 512, 2048, 100000],
                                        "bytes missing"))
        else:
            fault = (kind,)
        at = {"oserror": ["h5", "h5", "closing"],
              "exc": ["ode"], "truncate": ["h5.close"]}.get(
                  kind, ["h5", "any", "ode", "closing"])
        match = matcher(w.pick(at, "where"))
        # how many such points there are
        ref = os.path.join(w.scratch, "ref.hdf5")
        w.hook = count = Watch(match)
        o = command(ref)
        w.hook = None
        cases.expect_like_memory(w, o, mem, "undisturbed command")
        if not count.seen:
            return
        out = os.path.join(w.scratch, "out.hdf5")
        at = w.draw(count.seen, "at which point")
        if count.seen > 300 and w.draw(3, "late") == 0:
            at = count.seen - 1 - at % 300
        w.hook = watch = Watch(match, (at, fault))
        o = command(out)
        w.hook = None
        check(watch.fired is not None, "not-repeatable",
              lambda: f"{count.seen} points, then {watch.seen}")
        w.nontrivial = watch.begun > 0
        w.count("finished attempts", watch.done)
        what = f"{fault} at {watch.fired}"
        check(not o.ok, "success-reported", lambda: f"{what}: {o!r}")
        if kind != "kill":
            check(o.kind == "raise" or o.code, "success-reported",
                  lambda: f"{what}: {o!r}")
            if watch.fired[0] != "out.write":
                check("out.hdf5" not in w.output(ME).split("ref.hdf5")[-1],
                      "success-reported", lambda: w.output(ME))
        if not os.path.exists(out):
            check(watch.begun == 0, "file-gone", what)
            return
        examine(w, c, mem, out, kind, watch, what)
    return run


def examine(w, c, mem, out, kind, watch, what):
    # never a complete run that differs from the undisturbed one
    loaded = lib.in_process(w, "loader", lib.load_or_why(out))
    want = mem["run"]
    if loaded[0] == "run":
        run = loaded[1]
        check(want is not None and mem["status"] == "ok", "passes-as-complete",
              lambda: f"{what}: the file loads although solving itself fails")
        check(set(run["solutions"]) == set(want["solutions"]),
              "passes-as-complete", lambda: f"{what}: loads with "
              f"{len(run['solutions'])} attempts of {len(want['solutions'])}")
        lib.check_attempts(run, want, "passes-as-complete", what)
        check(lib.has_final(run) == lib.has_final(want),
              "passes-as-complete", what)
    have = lib.in_process(w, "reader", stored_attempts(out))
    if kind not in ("kill", "truncate"):
        check(have["open"], "cannot-be-opened",
              lambda: f"{what}: {have.get('why')}")
        for k in range(watch.done):
            check(str(k) in have["attempts"], "attempt-lost",
                  lambda: f"{what}: {watch.done} attempts had been stored, "
                  f"number {k} cannot be read: {have['broken']}")
    if want is None:
        check(not have["attempts"], "made-up-attempt", what)
        return
    for k, s in have["attempts"].items():
        check(k in want["solutions"], "made-up-attempt",
              lambda: f"{what}: attempt {k}")
        lib.same(s, want["solutions"][k], "attempt-differs",
                 f"{what}, attempt {k}")


PROP = Prop(
    "C08",
    [Scenario("single", interrupted("single", "real single", "hydrostatic"),
              40),
     Scenario("step", interrupted("step", "human"), 60),
     Scenario("mcmc", interrupted("mcmc"), 6),
     Scenario("fast_crosser", interrupted("fast_crosser"), 20),
     Scenario("sonic_root", interrupted("sonic_root"), 8)],
    rule="A run carries out a generated solve by ds-soln or ds-resoln in "
    "memory, undisturbed into a file, and again with one fault at a tape-"
    "chosen point of those passed; non-trivial when an attempt was being "
    "stored or had been stored at the fault.",
    real=["ds-soln, ds-resoln", "search methods", "h5preserve, h5py, HDF5",
          "CVODE (methods hydrostatic, sonic_root, real single)"],
    stub=["which HDF5 operation fails, and truncation at closing",
          "CVODE results (scripted, other methods)", "human answers",
          "random numbers (seeded)"],
    assumptions=["The run computed in memory stands for what was computed.",
                 "A kill loses what HDF5 had not handed to the operating "
                 "system; what it had handed over survives."],
)
