"""ds-csvrunner: output only grows, survives kills, failures are reported."""
import errno
import os

from .. import batch, lib, procs, simpool
from ..engine import Prop, Scenario
from ..lib import check
from .c01 import gen_csv, runner_argv, warm  # noqa: F401

ME = "csvrunner"


def old_content(w, out):
    """What the output file holds before: nothing, a run, a torn line."""
    k = w.wpick([("none", 2), ("lines", 3), ("torn", 1), ("long", 1)],
                "old content")
    text = {
        "none": "", "lines": "#old\n\"a\",\"b\"\n\"1\",\"2\"\n",
        "torn": "#old\n\"a\",\"b\"\n\"1\",", "long": "#" + "x" * 9000 + "\n",
    }[k]
    if k != "none" or w.draw(2, "empty file"):
        lib.write_file(out, text)
    return text.encode()


def prepare(w, method, max_items=5):
    items = batch.gen_batch(w, method, max_items=max_items)
    inp = os.path.join(w.scratch, "in.csv")
    gen_csv(w, items, inp)
    lib.use(batch.scripts(items))
    return items, inp


def undisturbed(w, inp, argv_of):
    """What the command writes to a new file when nothing happens."""
    from disc_solver.solve.csvrunner import main
    ref = os.path.join(w.scratch, "ref.csv")
    with lib.quiet(w):
        o = lib.run_cmd(w, "ref", main, argv_of(ref))
    check(o.ok, "failed", lambda: f"undisturbed run: {o!r}")
    return lib.bytes_of(ref)


class Progress:
    """What the runner had promised, from the points it passed."""

    def __init__(self, inner):
        self.inner = inner
        self.next = -1      # results it asked for
        self.header = False
        self.closing = False
        self.over = False   # a fault took place: no more promises

    def __call__(self, actor, kind, detail):
        d = self.inner(actor, kind, detail) if self.inner else None
        if actor == ME and not self.over:
            if kind == "pool.start":
                self.header = True
            elif kind == "pool.next":
                self.next = int(detail)
            elif kind == "file.close" and "out.csv" in detail:
                self.closing = True
        if d is not None:
            self.over = True
        return d


def check_prefix(w, out, old, ref, progress, items, cls):
    data = lib.bytes_of(out) if os.path.exists(out) else b""
    check(data.startswith(old), cls + "-old-content-changed",
          lambda: f"old {len(old)} bytes, now {data[:200]!r}")
    new = data[len(old):]
    check(ref.startswith(new), cls + "-not-a-prefix",
          lambda: f"wrote {new[-300:]!r}, undisturbed {ref[-300:]!r}")
    lines = new.decode("utf-8", "replace").split("\n")[:-1]
    if progress.header:
        check(any(x.startswith('"start"') for x in lines),
              cls + "-header-lost", lambda: f"{new!r}")
    rows = [x for x in lines if not x.startswith(("#", '"start"'))]
    done = len(items) if progress.closing else max(0, progress.next)
    need = sum(it.found for it in items[:done])
    check(len(rows) >= need, cls + "-row-lost",
          lambda: f"{done} results processed, {need} rows due, "
          f"{len(rows)} in the file")
    return rows


def watch_waiting(out, old, items):
    """No finished row may be held back while the runner waits."""
    def waiting(pool):
        if procs.W.current().actor != ME:
            return
        data = lib.bytes_of(out) if os.path.exists(out) else old
        data = data[len(old):].decode("utf-8", "replace")
        rows = [x for x in data.split("\n")[:-1]
                if not x.startswith(("#", '"start"'))]
        done = pool.first_done()
        need = sum(it.found for it in items[:done])
        if len(rows) < need:
            procs.W.current().record("held back", (done, need, len(rows)))
    simpool.WAITING = waiting


def killed(method):
    def run(w):
        from disc_solver.solve.csvrunner import main
        items, inp = prepare(w, method)
        out = os.path.join(w.scratch, "out.csv")
        args = runner_argv(w, inp, out, method)
        ref = undisturbed(w, inp, lambda f: [f if a == out else a
                                             for a in args])
        w.notes.clear()
        old = old_content(w, out)
        lib.use(batch.scripts(items))
        how = w.wpick([("kill", 4), ("partialkill", 2), ("interrupt", 2)],
                      "how it dies")
        if how == "partialkill":
            what = ("partialkill", w.draw(900, "bytes that got out"))
            match = (lambda a, k, d: a == ME and k == "file.write")
            n = w.draw(len(items) + 2, "at which write")
        else:
            what = (how,)
            sel = w.pick(["any", "pool.next", "file.write"], "where")
            match = (lambda a, k, d: a == ME and k != "start" and
                     (sel == "any" or k == sel))
            n = w.draw(3 * len(items) + 10 if sel == "any" else
                       len(items) + 2, "at which point")
        fault = lib.OnePoint(match, n, what)
        progress = Progress(fault)
        w.hook = progress
        watch_waiting(out, old, items)
        o = lib.run_cmd(w, ME, main, args)
        w.hook = None
        late = w.records("held back")
        check(not late, "held-back", lambda: "while it waits: "
              f"(inputs done, rows due, rows in the file) {late[0]}")
        check_prefix(w, out, old, ref, progress, items, how)
        if fault.fired:
            check(not o.ok, "success-reported", lambda: f"{how}: {o!r}")
            if how == "interrupt":
                check(o.code == 120 or o.kind == "raise" and
                      o.exc["type"] == "KeyboardInterrupt",
                      "interrupt-hidden", lambda: repr(o))
                lib.check_pools(w)
        else:
            check(o.ok, "failed", lambda: repr(o))
            check(lib.bytes_of(out) == old + ref, "incomplete",
                  "undisturbed output differs")
        w.nontrivial = fault.fired is not None and len(items) > 0
    return run


def disk(method):
    def run(w):
        from disc_solver.solve.csvrunner import main
        items, inp = prepare(w, method)
        out = os.path.join(w.scratch, "out.csv")
        args = runner_argv(w, inp, out, method)
        ref = undisturbed(w, inp, lambda f: [f if a == out else a
                                             for a in args])
        w.notes.clear()
        old = old_content(w, out)
        lib.use(batch.scripts(items))
        kind = w.wpick([("file.write", 5), ("file.close", 1),
                        ("file.open", 1)], "what fails")
        lasting = w.draw(2, "goes on failing") == 1
        n = w.draw(len(items) + 2, "which one") if kind == "file.write" else 0
        err = w.pick(lib.DISK_ERRNOS, "errno")
        part = w.draw(700, "bytes that fit") if w.draw(2, "partly") else 0
        state = {"n": 0, "fired": 0}

        def hook(actor, k, d):
            if actor != ME or k != kind or "out.csv" not in d:
                return None
            state["n"] += 1
            if state["n"] == n + 1 or (lasting and state["fired"]):
                first = not state["fired"]
                state["fired"] += 1
                if kind == "file.write" and part and first:
                    return ("partial", part)
                return ("oserror", err)
            return None

        progress = Progress(hook)
        short = w.draw(3, "short writes") == 2
        w.hook = lib.Several(progress, lib.short_writes(
            w, kinds=("file.write",))) if short else progress
        o = lib.run_cmd(w, ME, main, args)
        w.hook = None
        if not state["fired"]:
            check(o.ok, "failed", lambda: repr(o))
            check(lib.bytes_of(out) == old + ref, "incomplete",
                  "undisturbed output differs")
            return
        check(not o.ok, "write-error-hidden",
              lambda: f"{kind} number {n} failed, but {o!r}")
        check(o.kind == "raise" and o.exc["errno"] in (err, errno.ENOSPC),
              "another-error", lambda: f"{o!r}\n{(o.exc or {}).get('tb')}")
        lib.check_pools(w)
        progress.closing = False
        # the row that failed need not be there: results before it must
        if kind == "file.write":
            done = Progress(None)
            done.header = n > 0 and not short
            done.next = 0
            check_prefix(w, out, old, ref, done, items, "disk")
            if not short and n > 0:
                rows = lib.bytes_of(out)[len(old):].decode("utf-8", "replace").split("\n")[:-1]
                rows = [x for x in rows
                        if not x.startswith(("#", '"start"'))]
                check(len(rows) >= n - 1, "disk-row-lost",
                      lambda: f"{n - 1} rows written before, {len(rows)} left")
        elif kind == "file.close":
            check(lib.bytes_of(out) == old + ref, "disk-row-lost",
                  "all rows were out before the file was closed")
        else:
            data = lib.bytes_of(out) if os.path.exists(out) else b""
            check(data == old, "disk-old-content-changed", "open failed")
        w.nontrivial = True
    return run


def stdout_fails(w):
    from disc_solver.solve.csvrunner import main
    items, inp = prepare(w, "single")
    args = runner_argv(w, inp, None, "single")
    n = w.draw(len(items) + 2, "which write")
    err = w.pick(lib.DISK_ERRNOS + (errno.EPIPE,), "errno")
    fault = lib.OnePoint(
        lambda a, k, d: a == ME and k == "out.write", n, ("oserror", err))
    w.hook = fault
    o = lib.run_cmd(w, ME, main, args)
    w.hook = None
    if fault.fired:
        check(not o.ok, "write-error-hidden",
              lambda: f"write {n} to standard output failed, but {o!r}")
        w.nontrivial = True
    else:
        check(o.ok, "failed", lambda: repr(o))
    lib.check_pools(w)


def together(w):
    """Two runners append to one file."""
    from disc_solver.solve.csvrunner import main
    out = os.path.join(w.scratch, "out.csv")
    all_items, refs, cmds = [], [], []
    for j in range(w.between(2, 3, "runners")):
        n = w.between(0, 4, "inputs")
        items = []
        for i in range(n):
            row = lib.gen_row(w, 10 * j + i, angles=12)
            items.append(batch.Item(row, "single",
                                    batch.gen_verdicts(w, "single")))
        inp = os.path.join(w.scratch, f"in{j}.csv")
        lib.write_file(inp, lib.csv_text([it.row for it in items]))
        all_items += items
        args = [inp, "--sonic-method", "single", "--output-file", out, "-n",
                str(w.between(1, 2, "workers"))]
        refs.append(args)
    lib.use(batch.scripts(all_items))
    want = [undisturbed_to(w, a, out, j) for j, a in enumerate(refs)]
    old = old_content(w, out)
    if old and not old.endswith(b"\n"):
        old += b"\n"
        lib.write_file(out, old.decode())
    procs_ = [procs.SimProcess(w, f"csvrunner{j}", lib.command(main, a))
              for j, a in enumerate(refs)]
    outs = procs.run_concurrently(w, procs_)
    for o in outs:
        check(o.ok, "failed", lambda: repr(o))
    data = lib.bytes_of(out)
    check(data.startswith(old), "together-old-content-changed", repr(data[:99]))
    lines = data[len(old):].decode().split("\n")
    check(lines.pop() == "", "together-torn", "last line incomplete")
    # every runner's lines are there, in its order, and nothing else
    pos = [0] * len(want)
    left = list(lines)
    for j, ref in enumerate(want):
        mine = [x for x in left if x in set(ref) and x.startswith('"0.0"')]
        data_rows = [x for x in ref if x.startswith('"0.0"')]
        check(mine == data_rows, "together-rows",
              lambda: f"runner {j}: {len(mine)} of its {len(data_rows)} rows "
              "in the file, or in another order")
    check(sorted(lines) == sorted(sum(want, [])), "together-lines",
          lambda: "lines torn, lost or repeated: " + repr(
              [x for x in lines if x not in sum(want, [])][:3]))
    del pos
    w.nontrivial = True


def undisturbed_to(w, args, out, j):
    from disc_solver.solve.csvrunner import main
    ref = os.path.join(w.scratch, f"ref{j}.csv")
    with lib.quiet(w):
        o = lib.run_cmd(w, f"ref{j}", main,
                        [ref if a == out else a for a in args])
    check(o.ok, "failed", lambda: repr(o))
    return lib.bytes_of(ref).decode().split("\n")[:-1]


PROP = Prop(
    "C02",
    [Scenario("killed", killed("single"), 150),
     Scenario("killed step", killed("step"), 60),
     Scenario("disk", disk("single"), 150),
     Scenario("stdout fails", stdout_fails, 40),
     Scenario("together", together, 60)],
    rule="A run is one or several ds-csvrunner commands over up to 5 "
    "generated inputs appending to a file that may hold older content; the "
    "runner is killed, interrupted or has a write, open or close fail at a "
    "tape-chosen point; non-trivial when the fault took place (or several "
    "runners ran).",
    real=["ds-csvrunner entry point, CSV reading and writing, text and buffer "
          "layers of the output file, the file itself",
          "single and step search, solution assembly", "worker processes"],
    stub=["multiprocessing.Pool (simulated, same semantics)",
          "CVODE results (scripted)",
          "failing operating system writes"],
    assumptions=["A killed process loses its buffers and nothing else; data "
                 "given to the operating system survives (process crash, not "
                 "power failure)."],
)
