"""ds-stats and ds-dumpcsv skip what they cannot read and keep the rest."""
import csv
import errno
import io
import os

import numpy as np

from .. import analysis, lib, procs, seams
from ..engine import Prop, Scenario
from ..lib import check

TOOLS = ("stats", "dumpcsv")


def warm():
    analysis.warm()


def main_of(tool):
    return analysis.COMMANDS[tool].main()


def make_files(w):
    """{path: kind} of result files and what is not one."""
    files = {}
    n = w.between(1, 3, "result files")
    kinds = ["single", "step", "step", "far", "real", "mcmc"]
    made = analysis.make_sources(
        w, [w.pick(kinds, "kind") for _ in range(n)])
    for p in made:
        files[p] = "made" if os.path.exists(p) else "missing"
    good = [p for p in sorted(files) if files[p] == "made"]
    runs = {p: lib.in_process(w, "reader", lib.load_or_why(p)) for p in good}
    base = [p for p in good if runs[p][0] == "run"
            and runs[p][1]["solutions"]]
    if base and w.draw(3, "odd solutions"):
        p = os.path.join(w.scratch, "odd.hdf5")
        w.note(analysis.make_odd(w, p, w.pick(base, "of"),
                                 w.pick(["last", None], "final")))
        files[p] = "made"
    for k in range(w.between(0, 3, "files that are none")):
        p = os.path.join(w.scratch, f"bad{k} x.hdf5")
        kind = w.pick(["missing", "empty", "text", "short", "directory",
                       "interrupted", "no run", "flipped"], "what it is")
        data = lib.bytes_of(w.pick(good, "of")) if good else b"x" * 999
        if kind == "empty":
            data = b""
        elif kind == "text":
            data = b"start,stop\n1,2\n" * 20
        elif kind == "short":
            data = data[:w.draw(len(data), "bytes left")]
        elif kind == "flipped":
            at = w.draw(len(data), "which byte")
            data = data[:at] + bytes([data[at] ^ 0xff]) + data[at + 1:]
        if kind == "directory":
            os.mkdir(p)
        elif kind == "no run":
            other_file(w, p)
        elif kind == "interrupted":
            interrupted(w, p, k)
        elif kind != "missing":
            lib.write_file_bytes(p, data)
        files[p] = kind
    return files


def other_file(w, p):
    def body():
        import h5py
        with h5py.File(p, "w") as f:
            f["something"] = [1, 2, 3]
    lib.in_process(w, "maker", body)


def interrupted(w, p, k):
    """What a killed ds-soln leaves."""
    from .. import cases
    case = cases.Step(w)
    n = w.between(5, 200, "until it is killed")
    old = w.hook
    w.hook = lib.OnePoint(lambda a, kind, d: a == f"killed{k}" and
                          kind in ("h5.write", "h5.close"), n, ("kill",))
    case.run_file(w, f"killed{k}", p)
    w.hook = old


def give(w, files, options=()):
    """Arguments and lines on standard input for a list of files."""
    cut = w.between(0, len(files), "files given as arguments")
    args, lines = list(files[:cut]), files[cut:]
    stdin = []
    for f in lines:
        stdin.append(w.pick([f, f + " ", "\t" + f], "spaces") + "\n")
    if stdin and w.draw(4, "no newline at the end") == 3:
        stdin[-1] = stdin[-1].rstrip("\n")
    argv = list(options) + (["--with-stdin"] if stdin or w.draw(
        4, "empty standard input") == 3 else [])
    return argv + args, stdin


def pre(stdin):
    def fn():
        seams.STDIN_LINES[:] = list(stdin)
    return fn


def rows_of(text):
    return list(csv.reader(io.StringIO(text, newline=""), dialect="unix"))


def one_file(w, tool, path, name):
    """Rows (with header) the command gives for one file."""
    old, w.hook = w.hook, None
    out = os.path.join(w.scratch, f"{name}.csv")
    o = lib.run_cmd(w, name, main_of(tool), ["--file", out, path])
    w.hook = old
    check(o.kind == "return" and not o.code, "not-finished",
          lambda: f"{tool} of {w.rel(path)} alone: {o!r}\n"
          f"{(o.exc or {}).get('tb')}")
    return rows_of(lib.text_of(out))


def plainly_usable(s):
    """Statistics of such a solution can be computed without doubt."""
    return (len(s["angles"]) >= 12 and np.all(np.isfinite(s["solution"]))
            and np.all(s["solution"][:, lib.RHO] > 0))


def names_of(run):
    out = sorted(run["solutions"])
    if lib.has_final(run):
        out.append("final")
    return out


def solution(run, name):
    return run["final_solution"] if name == "final" else run["solutions"][name]


def reduced(w, path, keep, dest):
    """A copy of a result file without the other solutions."""
    def body():
        import h5py
        with h5py.File(path, "r") as a, h5py.File(dest, "w") as b:
            a.copy("run", b)
            for name in list(b["run/solutions"]):
                if name != keep:
                    del b["run/solutions"][name]
    lib.in_process(w, "maker", body)


def expected(w, tool, path, k):
    """Header and rows a file on its own gives, checked against the file."""
    rows = one_file(w, tool, path, f"alone{k}")
    check(len(rows) >= 1, "no-header", lambda: f"{tool} of {w.rel(path)}")
    head, rows = rows[0], rows[1:]
    got = lib.in_process(w, "reader", lib.load_or_why(path))
    if got[0] != "run":
        check(not rows, "rows-of-unreadable-file",
              lambda: f"{w.rel(path)} ({got[1]}): {rows[0]}")
        return head, rows
    run = got[1]
    names = names_of(run)
    w.count("solutions", len(names))
    cols = [dict(zip(head, r)) for r in rows]
    if tool == "stats":
        have = [c["solution_name"] for c in cols]
        check(len(set(have)) == len(have) and set(have) <= set(names),
              "wrong-rows", lambda: f"{w.rel(path)} has {names}, rows {have}")
        check(all(c["filename"] == path for c in cols), "wrong-file-name",
              lambda: str([c["filename"] for c in cols]))
        for n in names:
            if n in have:
                continue
            check(not plainly_usable(solution(run, n)), "row-missing",
                  lambda: f"no row for solution {n} of {w.rel(path)}")
            w.count("solutions without statistics")
            w.nontrivial = True
            if n == "final":
                same = [m for m in names if m != n and not lib.differences(
                    solution(run, m), solution(run, n))]
                check(not set(same) & set(have), "row-missing",
                      lambda: f"no row for the final solution of "
                      f"{w.rel(path)}, but one for {same}")
                continue
            one = path + f".only{n}.hdf5"
            reduced(w, path, n, one)
            left = one_file(w, tool, one, f"only{k}_{n}")
            os.unlink(one)
            check(n not in [dict(zip(head, r))["solution_name"]
                            for r in left[1:]], "row-missing",
                  lambda: f"no row for solution {n} of {w.rel(path)}, "
                  "but there is one if it is the only one")
    else:
        have = names
        check(len(rows) == len(names), "wrong-rows",
              lambda: f"{w.rel(path)} has {names}, but {len(rows)} rows")
    # each row says what was solved (attempts in any order, final last)
    if tool == "stats":
        pairs = [(c, c["solution_name"]) for c in cols]
        check("final" not in have or have[-1] == "final", "wrong-order",
              lambda: str(have))
        order = [int(x) for x in have if x != "final"]
        del order
    else:
        pairs = []
        if lib.has_final(run):
            pairs.append((cols[-1], "final"))
        left = [n for n in names if n != "final"]
        for c in cols[:len(left)]:
            match = [n for n in left if row_fits(c, solution(run, n))]
            check(match, "wrong-values",
                  lambda: f"{w.rel(path)}: no attempt fits {c}")
            left.remove(match[0])
    for c, n in pairs:
        check(row_fits(c, solution(run, n)), "wrong-values",
              lambda: f"{w.rel(path)} {n}: {c} but "
              f"{solution(run, n)['solution_input']}")
    return head, rows


def row_fits(cols, s):
    si = s["solution_input"]
    for f in lib.CSV_FIELDS:
        if f not in cols:
            return False
        have, text = si.get(f), cols[f]
        if f in ("mcmc_vars", "interp_slice"):
            continue                     # C23 decides how these are written
        if isinstance(have, bool):
            ok = text == str(have)
        elif isinstance(have, (int, float)):
            ok = text not in ("", "None") and (
                float(text) == have or (have != have and text == "nan"))
        elif have is None:
            ok = text in ("", "None")
        else:
            ok = text == str(have)
        if not ok:
            return False
    return True


class ReadFault:
    """The n-th look into the given file fails."""

    def __init__(self, name, kinds, n):
        self.name = name
        self.kinds = kinds
        self.n = n
        self.cur = None
        self.fired = False
        self.opened = 0

    def __call__(self, actor, kind, detail):
        if actor != "tool":
            return None
        if kind == "h5.open":
            self.cur = os.path.basename(detail.rpartition(" ")[0])
        if self.fired or self.cur != self.name or kind not in self.kinds:
            return None
        if self.n == 0:
            self.fired = True
            return ("oserror", errno.EIO)
        self.n -= 1
        return None


def check_output(w, tool, text, files, want, maybe, where, most=1):
    """
    One header, then the rows of every file in order; of at most `most` of
    the files in `maybe` (indices) only the first ones.
    """
    rows = rows_of(text)
    check(rows, "no-header", where)
    check(rows[0] == want[files[0]][0], "no-header",
          lambda: f"{where}: {rows[0]}")
    reach = {(1, 0)}          # where we may be, after how many partial files
    for i, f in enumerate(files):
        mine = want[f][1]
        after = set()
        for at, used in reach:
            if rows[at:at + len(mine)] == mine:
                after.add((at + len(mine), used))
            if i in maybe and used < most:
                for n in range(len(mine)):
                    if rows[at:at + n] != mine[:n]:
                        break
                    after.add((at + n, used + 1))
        check(after, "wrong-rows",
              lambda: f"{where}: rows of file {i} {w.rel(f)}: " +
              " or ".join(short(rows[at:at + len(mine)])
                          for at, _ in sorted(reach)) +
              f" instead of {short(mine)}")
        reach = after
        w.count("files compared")
    check(any(at == len(rows) for at, _ in reach), "too-many-rows",
          lambda: f"{where}: {short(rows[max(reach)[0]:])}")


def short(rows):
    return f"{len(rows)} rows " + repr([",".join(r)[-120:] for r in rows])[:500]


def listing(w):
    tool = w.pick(TOOLS, "command")
    kinds = make_files(w)
    w.note((tool, sorted((w.rel(p), k) for p, k in kinds.items())))
    before = lib.snapshot(w.scratch)
    want = {p: expected(w, tool, p, k) for k, p in enumerate(sorted(kinds))}
    files = [w.pick(sorted(kinds), "file")
             for _ in range(w.between(1, 6, "files given"))]
    if w.draw(6, "an empty name") == 5:
        files.append("")
        want[""] = (want[sorted(kinds)[0]][0], [])
    out = os.path.join(w.scratch, "stats.csv")
    argv, stdin = give(w, files)
    where = w.wpick([("new", 3), ("stdout", 2), ("old", 2)], "output")
    old = ""
    if where == "old":
        old = w.pick(["x,y\n1,2\n", "# no end", "a,b\r\n"], "earlier output")
        lib.write_file_bytes(out, old.encode())
    if where != "stdout":
        argv = ["--file", out] + argv
    faults = []
    maybe = set()
    if w.draw(2, "read error"):
        i = w.draw(len(files), "in which file")
        name = os.path.basename(files[i])
        f = ReadFault(name, w.pick([("h5.read",), ("h5.lookup",),
                                    ("h5.open",), ("h5.read", "h5.lookup")],
                                   "which operation"),
                      w.draw(w.pick([3, 20, 150], "late"), "when"))
        faults.append(f)
        # (the same file may be given more than once)
        maybe = {j for j, p in enumerate(files)
                 if os.path.basename(p) == name}
    if w.draw(3, "short writes") == 2:
        faults.append(lib.short_writes(w))
    seams.H5_POINTS = frozenset(("read", "lookup"))
    w.hook = lib.Several(*faults)
    o = lib.run_cmd(w, "tool", main_of(tool), argv, pre=pre(stdin))
    w.hook = None
    check(o.kind == "return" and not o.code, "not-finished",
          lambda: f"{tool} {argv} {stdin}: {o!r}\n{(o.exc or {}).get('tb')}")
    text = w.output("tool") if where == "stdout" else lib.text_of(out)
    check(text.startswith(old), "earlier-output-changed", repr(text[:80]))
    if not any(getattr(f, "fired", False) for f in faults):
        maybe = set()
    else:
        w.count("read errors")
        w.nontrivial = True
    check_output(w, tool, text[len(old):], files, want, maybe,
                 f"{tool} {[w.rel(f) for f in files]}")
    if len(set(kinds[f] for f in files if f)) > 1:
        w.nontrivial = True
    lib.check_untouched(w, before, lib.snapshot(w.scratch), "file-changed")


def beside(w):
    """While a file is still being written (or its writer is killed)."""
    from .. import cases
    tool = w.pick(TOOLS, "command")
    made = analysis.make_sources(
        w, [w.pick(["single", "step"], "kind") for _ in range(2)])
    files = [p for p in sorted(made) if os.path.exists(p)]
    new = os.path.join(w.scratch, "new.hdf5")
    case = cases.Step(w)
    files.insert(w.draw(len(files) + 1, "where"), new)
    if w.draw(2, "asked twice"):
        files.append(new)
    files = files * w.between(1, 2, "times")
    want = {p: expected(w, tool, p, k) for k, p in enumerate(sorted(
        set(files) - {new}))}
    out = os.path.join(w.scratch, "stats.csv")
    argv, stdin = give(w, files, ["--file", out])
    conf = os.path.join(w.scratch, "c.cfg")
    lib.write_file(conf, lib.conf_text(dict(case.row, label="x")))
    from disc_solver.solve import main
    lib.use(case.policy())
    if w.draw(3, "writer is killed") == 2:
        w.hook = lib.OnePoint(
            lambda a, kind, d: a == "writer" and kind.startswith("h5."),
            w.draw(120, "when"), ("kill",))
    seams.H5_POINTS = frozenset(("write", "read", "lookup"))
    ps = [procs.SimProcess(w, "writer", lib.command(
        main, lib.soln_argv(conf, "step", new, internal=False))),
          procs.SimProcess(w, "tool", lib.command(
              main_of(tool), argv, pre=pre(stdin)))]
    outs = procs.run_concurrently(w, ps)
    fault = w.hook
    w.hook = None
    o = outs[1]
    check(o.kind == "return" and not o.code, "not-finished",
          lambda: f"{tool} {argv} {stdin}: {o!r}\n{(o.exc or {}).get('tb')}")
    if fault is None:
        check(outs[0].ok, "writer-disturbed", lambda: repr(outs[0]))
        case2 = lib.in_process(w, "reader", lib.load_or_why(new))
        check(case2[0] == "run", "writer-disturbed", lambda: str(case2[1]))
    want[new] = expected(w, tool, new, 99)
    maybe = {i for i, f in enumerate(files) if f == new}
    text = lib.text_of(out)
    w.nontrivial = True
    check_output(w, tool, text, files, want, maybe,
                 f"{tool} {[w.rel(f) for f in files]} beside ds-soln", most=len(files))


PROP = Prop(
    "C16",
    [Scenario("listing", listing, 60), Scenario("beside", beside, 16)],
    rule="A run is a ds-stats or ds-dumpcsv on a list of files, among them "
    "damaged, missing, interrupted and odd ones, by arguments and standard "
    "input, with read errors and short writes, or beside a ds-soln writing "
    "one of them; non-trivial with something that cannot be used.",
    real=["ds-stats, ds-dumpcsv", "statistics", "HDF5 library and its locks",
          "an interrupted and a concurrent ds-soln"],
    stub=["disk errors", "standard input", "CVODE results of sources"],
    assumptions=["Which rows a file gives on its own is checked against its "
                 "content; values of statistics are not recomputed."],
)
