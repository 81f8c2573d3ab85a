"""Log records reach the log file completely and in order."""
import copy
import errno
import os
import re

from .. import analysis, batch, cases, lib, seams
from .. import world as W
from ..engine import Prop, Scenario
from ..lib import check

LEVELS = ("critical", "error", "warning", "notice", "info", "debug")
EARLIER = "[2001-01-01 00:00:00.000000] NOTICE: earlier: what was there\n"


def warm():
    analysis.warm()
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.solve.csvrunner  # noqa: F401
    import disc_solver.solve.hdf5runner  # noqa: F401


# ------------------------------------------------- what is emitted
def watch(more=None):
    """
    To be done first in a process: note every record emitted, as the log file
    has to show it (formatted at once, from a copy).
    """
    def fn():
        import logbook
        from logbook.base import RecordDispatcher
        from logbook.handlers import (
            DEFAULT_FORMAT_STRING, FileHandler, Handler, StringFormatter)
        real = RecordDispatcher.call_handlers

        def formatter():
            for h in Handler.stack_manager.iter_context_objects():
                h = getattr(h, "handler", h)
                if type(h) is FileHandler:
                    return h.formatter
            return StringFormatter(DEFAULT_FORMAT_STRING)

        def call_handlers(self, record):
            real(self, record)
            w = W.current()
            if w is None:
                return
            c = copy.copy(record)
            for k in ("message", "_message"):
                c.__dict__.pop(k, None)
            if c.time is None:
                text = "(not handled) " + c.message
            else:
                text = formatter()(c, None)
            w.record("log", record.level, logbook.get_level_name(
                record.level), text)
        RecordDispatcher.call_handlers = call_handlers
        if more is not None:
            more()
    return fn


LEVEL_OF = {"critical": 15, "error": 14, "warning": 13, "notice": 12,
            "info": 11, "debug": 10}


def gen_logging(w, path, level=None):
    """Logging options: (argv, env, level of the file)"""
    argv = ["--log-file", path]
    if level is None:
        level = w.pick(["debug", None, "info", "notice", "warning", "error",
                        "critical"], "level of the log file")
    if level is not None:
        argv += ["--log-file-level", level]
    k = w.draw(4, "standard error")
    if k == 1:
        argv += ["--stderr-level", w.pick(LEVELS, "level")]
    elif k == 2:
        argv.append(w.pick(["--quiet", "-q"], "quiet"))
    elif k == 3:
        argv.append(w.pick(["--verbose", "-v"], "verbose"))
    env = w.pick([None, None, "True", "False"], "threads disabled")
    return argv, {"DISC_SOLVER_DISABLE_THREADING": env}, level or "debug"


def expected(w, level, own):
    """The texts of the records to find, by process."""
    out = {}
    for actor, kind, *r in w.notes:
        if kind == "log" and own(actor):
            if r[0] >= LEVEL_OF[level]:
                out.setdefault(actor, []).append(r[2] + "\n")
    return out


def first_difference(have, want):
    n = 0
    while n < min(len(have), len(want)) and have[n] == want[n]:
        n += 1
    return (f"at character {n} of {len(have)} ({len(want)} expected): has "
            f"{have[n:n + 200]!r}, should have {want[n:n + 200]!r}")


def check_log(w, path, level, name, earlier, workers=False):
    text = lib.text_of(path)
    check(text.startswith(earlier), "earlier-content-lost",
          lambda: repr(text[:200]))
    have = text[len(earlier):]
    own = expected(w, level, lambda a: a == name)
    own = own.get(name, [])
    w.count("records", len(own))
    if not workers:
        want = "".join(own)
        check(have == want, "wrong-log",
              lambda: first_difference(have, want))
        return own
    others = expected(w, level, lambda a: a != name and a.startswith(name))
    seqs = [own] + list(others.values())
    w.count("records of workers", sum(map(len, others.values())))
    # records of several processes: some interleaving of theirs
    check(interleaving(have, seqs), "wrong-log",
          lambda: "not an interleaving of the records emitted: "
          f"{len(have)} characters, {sum(len(t) for s in seqs for t in s)} "
          f"expected in {sum(map(len, seqs))} records")
    return own


def interleaving(text, seqs):
    """Whether text is some interleaving of the given sequences of texts."""
    states = {tuple(0 for _ in seqs): 0}
    done = tuple(len(s) for s in seqs)
    total = sum(done)
    for _ in range(total):
        new = {}
        for pos, at in states.items():
            for i, s in enumerate(seqs):
                if pos[i] < len(s) and text.startswith(s[pos[i]], at):
                    p = pos[:i] + (pos[i] + 1,) + pos[i + 1:]
                    new[p] = at + len(s[pos[i]])
        states = new
        if not states:
            return False
    return states.get(done) == len(text)


def undated(texts, *dirs):
    out = []
    for t in texts:
        t = re.sub(r"^\[[^\]]*\]", "[]", t)
        for d in dirs:
            t = t.replace(d, "$D")
        out.append(t)
    return out


# ---------------------------------------------------------- commands
class Run:
    """How to run one command, repeatedly: run(name, dir, log argv, env)"""
    method = None


def gen_solve(w):
    case = cases.gen(w, methods=("single", "step", "step", "mcmc",
                                 "hydrostatic"))
    again = w.draw(3, "re-solve") == 2
    src = os.path.join(w.scratch, "src.hdf5")
    if again:
        case.source(w, src)
        split = case.row["split_method"]
    bad = w.draw(6, "unsolvable") == 5
    row = dict(case.row)
    if bad:
        row.update(w.pick(list(batch.NATURAL.values()), "why"))
    conf = os.path.join(w.scratch, "c.cfg")
    lib.write_file(conf, lib.conf_text(dict(row, label="")))

    def run(name, d, log, env):
        from disc_solver.solve import main
        from disc_solver.solve.resolve import main as resolve
        case.begin(w)
        out = os.path.join(d, "out.hdf5")
        if again:
            argv = [src, "0", "--sonic-method", case.method, "--output-file",
                    out, "--override", "split_method", split]
            if not case.internal:
                argv.append("--no-store-internal")
            if bad:
                argv += ["--override", "num_angles", "1"]
            f = resolve
        else:
            argv = lib.soln_argv(conf, case.method, out, None, case.internal)
            f = main
        return lib.run_cmd(w, name, f, log + argv, env=env, pre=cases.pre(
            watch(cases.seeded(case.seed))))
    return run


def gen_burst(w):
    """An integration that evaluates the derivatives very often."""
    case = cases.gen(w, "single")
    n = w.wpick([(1100, 6), (2600, 3), (10500, 1)], "evaluations")
    conf = os.path.join(w.scratch, "c.cfg")
    lib.write_file(conf, lib.conf_text(dict(case.row, label="")))

    def policy(call):
        if call.is_taylor:
            return None
        stub = lib.profile(call, "sign")
        k = len(stub.t)
        stub.rhs_points = [
            (stub.t[0] + 1e-9 * i, stub.y[i % k]) for i in range(n)]
        return ("stub", stub)

    def run(name, d, log, env):
        from disc_solver.solve import main
        case.begin(w)
        lib.use(policy)
        argv = lib.soln_argv(conf, case.method, os.path.join(d, "out.hdf5"),
                             None, False)
        return lib.run_cmd(w, name, main, log + argv, env=env,
                           pre=cases.pre(watch(cases.seeded(case.seed))))
    return run


def gen_analysis(names):
    def gen(w):
        picked = [w.pick(["step", "single", "real", "far"], "source")
                  for _ in range(w.between(1, 2, "sources"))]
        sources = analysis.make_sources(w, picked)
        sources = {p: r for p, r in sources.items() if os.path.exists(p)}
        if w.draw(2, "damaged file"):
            p = os.path.join(w.scratch, "bad.hdf5")
            if w.draw(2, "text"):
                lib.write_file(p, "no result file\n")
            sources[p] = ["0", "final"]
        call = analysis.gen_call(w, sources, names)

        def run(name, d, log, env):
            argv = log + call.argv(d)
            return lib.run_cmd(
                w, name, analysis.COMMANDS[call.name].main(), argv, env=env,
                pre=watch(analysis.record_figures))
        return run
    return gen


def gen_batch(w):
    method = w.pick(["step", "single"], "method")
    items = batch.gen_batch(w, method, 4)
    inp = os.path.join(w.scratch, "in.csv")
    lib.write_file(inp, lib.csv_text([it.row for it in items]))
    files = w.draw(2, "runner") == 1
    n = w.between(1, 3, "workers")
    internal = w.draw(2, "internal data") == 1

    def run(name, d, log, env):
        from disc_solver.solve import csvrunner, hdf5runner
        lib.use(batch.scripts(items))
        argv = [inp, "--sonic-method", method, "-n", str(n),
                "--store-internal" if internal else "--no-store-internal"]
        if files:
            argv += ["--output-dir", d]
            f = hdf5runner.main
        else:
            argv += ["--output-file", os.path.join(d, "out.csv")]
            f = csvrunner.main
        return lib.run_cmd(w, name, f, log + argv, env=env, pre=watch())
    run.workers = True
    return run


def gen_fault(w, name):
    """What ends the command early, or None."""
    k = w.wpick([("none", 3), ("interrupt", 2), ("disk", 2)], "what happens")
    if k == "none":
        return None
    kinds = ("h5.write", "h5.close", "h5.read", "h5.open", "out.write",
             "plot.save")
    n = w.draw(w.pick([4, 30, 120], "late"), "which point")
    return lib.OnePoint(
        lambda actor, kind, detail: actor == name and kind in kinds, n,
        ("interrupt",) if k == "interrupt" else ("oserror", errno.ENOSPC))


def scenario(gen, level=None):
    wanted = level

    def run(w):
        run1 = gen(w)
        workers = getattr(run1, "workers", False)
        log = os.path.join(w.scratch, "log.txt")
        earlier = EARLIER if w.draw(2, "log file exists") else ""
        if earlier:
            lib.write_file(log, earlier)
        argv, env, level = gen_logging(w, log, wanted)
        d = os.path.join(w.scratch, "d")
        os.mkdir(d)
        seams.H5_POINTS = frozenset(("write", "read"))
        fault = gen_fault(w, "cmd")
        w.hook = fault
        o = run1("cmd", d, argv, env)
        w.hook = None
        w.note((argv, env, repr(o)))
        own = check_log(w, log, level, "cmd", earlier, workers)
        w.count("ended with " + (
            "success" if o.ok else o.exc["type"] if o.kind == "raise"
            else "failure"))
        if own:
            w.nontrivial = True
        if workers or w.draw(2, "other options") == 0:
            return
        log2 = os.path.join(w.scratch, "log2.txt")
        argv, env, level = gen_logging(w, log2, level)
        d2 = os.path.join(w.scratch, "d2")
        os.mkdir(d2)
        if fault is not None:
            w.hook = lib.OnePoint(
                lambda actor, *a: fault.match(
                    "cmd" if actor == "cmd2" else "-", *a),
                fault.n, fault.what)
        run1("cmd2", d2, argv, env)
        w.hook = None
        own2 = check_log(w, log2, level, "cmd2", "")
        a, b = undated(own, d, log), undated(own2, d2, log2)
        check(a == b, "options-change-log",
              lambda: f"{argv} {env}: {len(b)} records instead of {len(a)}: "
              + first_difference("".join(b), "".join(a)))
        w.count("compared with other options")
    return run


TEXT = ("info", "tocsv", "tocfg", "stats", "dumpcsv")
PLOTS = tuple(n for n in analysis.COMMANDS if n not in TEXT)
PROP = Prop(
    "C19",
    [Scenario("solve", scenario(gen_solve), 40),
     Scenario("burst", scenario(gen_burst, "debug"), 12),
     Scenario("text", scenario(gen_analysis(TEXT)), 24),
     Scenario("plots", scenario(gen_analysis(PLOTS)), 16),
     Scenario("batch", scenario(gen_batch), 24)],
    rule="A run is a command with a log file, random logging options and "
    "scheduling of the logging threads, possibly interrupted or out of disk "
    "space; half are repeated with other options for standard error; "
    "non-trivial when at least one record was due in the log file.",
    real=["the commands", "logbook's loggers, handlers and queues",
          "the log file"],
    stub=["background logging threads (run when the tape says so, and no "
          "more once the process has ended)", "CVODE results (scripted)"],
    assumptions=["What a record says is what it says when it is emitted."],
)
