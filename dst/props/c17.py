"""Export commands report failed writes, never damage earlier output."""
import errno
import os

from .. import analysis, lib, procs, seams
from .. import world as W
from ..engine import Prop, Scenario
from ..lib import check

NAMES = ("info", "tocsv", "tocfg", "stats", "dumpcsv")
ERRNOS = {"file": (errno.ENOSPC, errno.EIO, errno.EDQUOT),
          "out": (errno.ENOSPC, errno.EIO, errno.EPIPE)}


def warm():
    analysis.warm()


class Budget:
    """
    The device takes so many bytes of the output; then it is full: for good,
    or until one write has failed.
    """

    def __init__(self, w, actor, match, size, for_good, number):
        self.w = w
        self.actor = actor
        self.match = match
        self.left = size
        self.for_good = for_good
        self.number = number
        self.failed = 0

    def __call__(self, actor, kind, detail):
        if actor != self.actor or not self.match(kind, detail):
            return None
        if self.failed and not self.for_good:
            return None
        n = int(detail.rpartition(" ")[2])
        if n <= self.left and not self.failed:
            self.left -= n
            return None
        # (what fits is written, the write of the rest fails)
        if self.left and not self.failed and n > 1:
            k, self.left = self.left, 0
            return ("short", k)
        self.failed += 1
        return ("oserror", self.number)


class Once:
    """One operation on the output goes wrong."""

    def __init__(self, actor, match, n, what):
        self.actor = actor
        self.match = match
        self.n = n
        self.what = what
        self.failed = 0

    def __call__(self, actor, kind, detail):
        if actor != self.actor or self.failed or not self.match(kind, detail):
            return None
        if self.n:
            self.n -= 1
            return None
        self.failed += 1
        return self.what


def watched(main):
    """Also notes whether the output was still open when the command ended."""
    def fn(argv):
        try:
            return main(argv)
        finally:
            for f in list(seams.OPEN_FILES):
                if not f.closed and "r" not in getattr(f, "mode", "r"):
                    W.current().record("open", str(f.name))
    return fn


def raw(w, name):
    return bytes(w.streams.get((name, 1), b""))


OLD = [None, "", "start,stop\n1,2\n", "#c\na,b\n\"x\ny\",3\n", "no newline"]


def gen(w):
    kinds = [w.pick(["single", "step", "mcmc", "real"], "kind of source")
             for _ in range(w.between(1, 2, "result files"))]
    sources = {p: r for p, r in analysis.make_sources(w, kinds).items()
               if os.path.exists(p)}
    return sources


def output_file(call, out):
    return os.path.join(out, "out.txt")


def listing(w):
    sources = gen(w)
    call = analysis.gen_call(w, sources, NAMES)
    w.note(call.describe())
    c = analysis.COMMANDS[call.name]
    to_file = c.output != "print" and w.draw(3, "to standard output") != 2
    seams.H5_POINTS = frozenset(("read", "lookup"))

    def argv(out):
        a = call.argv(out)
        if not to_file and "--file" in a:
            i = a.index("--file")
            w_ = w.draw(2, "say so") if out.endswith("good") else 0
            a[i:i + 2] = ["--file", "-"] if w_ else []
        return a
    good = os.path.join(w.scratch, "good")
    os.mkdir(good)
    ref = lib.run_cmd(w, "good", c.main(), argv(good))
    if to_file:
        p = output_file(call, good)
        want = lib.bytes_of(p) if os.path.exists(p) else b""
    else:
        want = raw(w, "good")
    if ref.kind == "return" and not ref.code:
        check(want, "nothing-written", lambda: repr(call.describe()))
    before = lib.snapshot(w.scratch)
    for k in range(w.between(1, 4, "attempts")):
        name = f"try{k}"
        attempt(w, call, c, name, argv, to_file, want, ref)
    lib.check_untouched(w, before, lib.snapshot(w.scratch), "file-changed")


def attempt(w, call, c, name, argv, to_file, want, ref):
    out = os.path.join(w.scratch, name)
    os.mkdir(out)
    path = output_file(call, out)
    old = b""
    kind = w.wpick([("full", 5), ("once", 3), ("open", 1), ("close", 1),
                    ("kill", 2), ("interrupt", 2), ("none", 1),
                    ("directory", 1), ("no directory", 1)],
                   "what goes wrong")
    if to_file:
        text = w.pick(OLD, "earlier output")
        if text is not None:
            old = text.encode()
            lib.write_file_bytes(path, old)
        rel = w.rel(path)

        def match(k, d):
            return k == "file.write" and d.startswith(rel)
        errors = ERRNOS["file"]
    else:
        def match(k, d):
            return k == "out.write"
        errors = ERRNOS["out"]
        if kind in ("open", "close", "directory", "no directory"):
            kind = "full"
    a = argv(out)
    number = w.pick(errors, "which error")
    hooks = []
    hook = None
    if kind == "full":
        size = w.draw(len(want) + 1, "bytes the device takes")
        hook = Budget(w, name, match, size, w.draw(2, "for good"), number)
    elif kind == "once":
        hook = Once(name, match, w.draw(3, "which write"),
                    ("oserror", number))
    elif kind == "open":
        hook = Once(name, lambda k, d: k == "file.open" and
                    d.startswith(rel), 0, ("oserror", number))
    elif kind == "close":
        hook = Once(name, lambda k, d: k == "file.close" and
                    d.startswith(rel), 0, ("oserror", number))
    elif kind == "kill":
        hook = Once(name, lambda k, d: k != "start",
                    w.draw(w.pick([20, 200], "late"), "when"), ("kill",))
    elif kind == "interrupt":
        hook = Once(name, match, w.draw(2, "which write"), ("interrupt",))
    elif kind == "directory":
        path = out
        a[a.index("--file") + 1] = path
    elif kind == "no directory":
        path = os.path.join(out, "none", "out.txt")
        a[a.index("--file") + 1] = path
    if hook is not None:
        hooks.append(hook)
    if w.draw(3, "short writes") == 2:
        hooks.append(lib.short_writes(w))
    w.hook = lib.Several(*hooks) if hooks else None
    o = lib.run_cmd(w, name, watched(c.main()), a)
    w.hook = None
    left = [r[2] for r in w.records("open") if r[0] == name]
    check(not left, "output-left-open",
          lambda: f"{call.describe()} {kind} ({o!r}): {left}")
    where = f"{call.describe()} {kind}"
    if kind in ("directory", "no directory"):
        have = b""
        check(not os.path.isfile(path), "unexpected-file", where)
    elif to_file:
        have = lib.bytes_of(path) if os.path.exists(path) else b""
    else:
        have = raw(w, name)
    failed = hook is not None and hook.failed
    w.count(f"{kind} {call.name}", bool(failed))
    append = to_file and c.output == "append"
    if append:
        check(have.startswith(old) if os.path.isfile(path) or not old
              else False if kind not in ("directory", "no directory") else
              True, "earlier-output-lost",
              lambda: f"{where}: {have[:200]!r}, was {old!r}")
        have = have[len(old):]
    if o.kind == "return" and not o.code:
        w.count("succeeded")
        check(ref.kind == "return", "succeeded-unlike-undisturbed", where)
        check(have == want, "incomplete-output",
              lambda: f"{where} succeeded ({hook and vars(hook)}): "
              f"{len(have)} of {len(want)} bytes: ...{have[-80:]!r}")
        check(kind not in ("directory", "no directory"),
              "success-without-output", where)
        return
    w.count("failed")
    w.nontrivial = True
    if kind == "kill" and failed:
        check(o.kind == "killed", "survived", repr(o))
    elif not failed and kind not in ("directory", "no directory"):
        check(o.kind == ref.kind and o.code == ref.code, "failed-by-itself",
              lambda: f"{where}: {o!r} {(o.exc or {}).get('tb')}, "
              f"undisturbed: {ref!r}")
    elif kind == "interrupt":
        check(o.kind == "raise" and o.exc["type"] == "KeyboardInterrupt"
              or not to_file and o.code, "interrupt-swallowed",
              lambda: f"{where}: {o!r}")
    elif failed:
        check(o.kind == "raise" and "OSError" in o.exc["mro"] and
              (o.exc["errno"] == number or ref.kind != "return")
              or not to_file and o.code, "wrong-error",
              lambda: f"{where}: {o!r}")
    if append or c.output == "print" or not to_file:
        check(want.startswith(have), "garbled-output",
              lambda: f"{where}: {have!r:.300}")


def together(w):
    """Several commands append to one file at the same time."""
    sources = gen(w)
    path = os.path.join(w.scratch, "out.txt")
    old = w.pick(OLD[1:4], "earlier output").encode()
    lib.write_file_bytes(path, old)
    calls, wants = [], []
    for k in range(w.between(2, 3, "commands")):
        call = analysis.gen_call(w, sources, ("tocsv", "stats", "dumpcsv"))
        out = os.path.join(w.scratch, f"good{k}")
        os.mkdir(out)
        lib.run_cmd(w, f"good{k}", analysis.COMMANDS[call.name].main(),
                    call.argv(out))
        p = output_file(call, out)
        wants.append(lib.bytes_of(p) if os.path.exists(p) else b"")
        calls.append(call)
    ps = []
    for k, call in enumerate(calls):
        a = call.argv("x")
        a[a.index("--file") + 1] = path
        ps.append(procs.SimProcess(w, f"cmd{k}", lib.command(
            analysis.COMMANDS[call.name].main(), a)))
    if w.draw(2, "one is killed"):
        w.hook = lib.OnePoint(
            lambda a, k, d: a == "cmd0" and k.startswith("file."),
            w.draw(8, "when"), ("kill",))
    killed = w.hook
    procs.run_concurrently(w, ps)
    w.hook = None
    text = lib.bytes_of(path)
    check(text.startswith(old), "earlier-output-lost",
          lambda: f"{text[:200]!r}, was {old!r}")
    got = text[len(old):].splitlines(keepends=True)
    w.nontrivial = True
    for k, want in enumerate(wants):
        if killed is not None and killed.fired and k == 0:
            continue
        at = 0
        for line in want.splitlines(keepends=True):
            try:
                at = got.index(line, at) + 1
            except ValueError:
                lib.check(False, "rows-lost", f"{calls[k].describe()}: "
                          f"{line!r:.200} is missing")
    if not (killed is not None and killed.fired):
        check(sorted(got) == sorted(
            x for v in wants for x in v.splitlines(keepends=True)),
            "rows-lost", "not the rows of the commands")


FLOW = ("s.txt", "v.txt", "b.txt")     # in the order they are written


def flow(w):
    """ds-flow-file writes three new files."""
    sources = analysis.make_sources(
        w, [w.pick(["real", "step"], "kind of source")])
    path, = sources
    call = analysis.gen_call(w, sources, ("flow_file",))
    call.options = [(o, ("1", "0") if o == "--v-start-position" else v)
                    for o, v in call.options]
    run = lib.stored_run(w, path)
    name = call.ranges[0]
    if name == "latest" or name == "final" and not lib.has_final(run):
        name = call.ranges[0] = sorted(run["solutions"])[0]
    w.note(call.describe())
    main = analysis.COMMANDS["flow_file"].main()
    seams.H5_POINTS = frozenset(("read", "lookup"))
    good = os.path.join(w.scratch, "good")
    os.mkdir(good)
    ref = lib.run_cmd(w, "good", main, call.argv(good))
    if name == "99":
        check(not ref.ok, "succeeds-wrongly", repr(ref))
        return
    from .c16 import plainly_usable, solution
    if plainly_usable(solution(run, name)):
        check(ref.ok, "fails-wrongly",
              lambda: f"{call.describe()}: {ref!r} {(ref.exc or {}).get('tb')}")
    if not ref.ok:
        return
    want = {f: lib.bytes_of(os.path.join(good, f)) for f in FLOW}
    check(all(want.values()), "nothing-written", repr(call.describe()))
    for k in range(w.between(1, 4, "attempts")):
        flow_attempt(w, f"try{k}", main, call, want)


def flow_attempt(w, name, main, call, want):
    out = os.path.join(w.scratch, name)
    os.mkdir(out)
    kind = w.wpick([("exists", 3), ("full", 3), ("once", 2), ("open", 1),
                    ("close", 1), ("kill", 2), ("interrupt", 1),
                    ("none", 1)], "what goes wrong")
    old = {}
    if kind == "exists":
        for f in FLOW:
            if w.draw(2, "there is one"):
                old[f] = w.pick([b"precious\n", b""], "content")
                lib.write_file_bytes(os.path.join(out, f), old[f])
    which = w.pick(FLOW, "which file")
    rel = w.rel(os.path.join(out, which))
    number = w.pick(ERRNOS["file"], "which error")

    def match(kind):
        return lambda k, d: k == kind and d.startswith(rel)
    hook = None
    if kind == "full":
        hook = Budget(w, name, match("file.write"),
                      w.draw(len(want[which]), "bytes the device takes"),
                      w.draw(2, "for good"), number)
    elif kind in ("once", "interrupt"):
        hook = Once(name, match("file.write"), w.draw(2, "which write"),
                    ("oserror", number) if kind == "once" else
                    ("interrupt",))
    elif kind in ("open", "close"):
        hook = Once(name, match("file." + kind), 0, ("oserror", number))
    elif kind == "kill":
        hook = Once(name, lambda k, d: k != "start",
                    w.draw(w.pick([20, 200], "late"), "when"), ("kill",))
    w.hook = lib.Several(*[hook] if hook else [])
    o = lib.run_cmd(w, name, watched(main), call.argv(out))
    w.hook = None
    where = f"{call.describe()} {kind} {which} {sorted(old)}"
    left = [r[2] for r in w.records("open") if r[0] == name]
    check(not left, "output-left-open", lambda: f"{where} ({o!r}): {left}")
    have = {f: lib.bytes_of(os.path.join(out, f)) for f in FLOW
            if os.path.exists(os.path.join(out, f))}
    for f in old:
        check(have.get(f) == old[f], "earlier-output-lost",
              lambda: f"{where}: {f} has {have.get(f)!r:.200}")
    failed = bool(hook is not None and hook.failed)
    w.count(f"{kind} flow_file", failed or bool(old))
    if o.kind == "return" and not o.code:
        check(not old and have == want, "incomplete-output",
              lambda: f"{where} succeeded: "
              f"{ {f: len(b) for f, b in have.items()} }, should be "
              f"{ {f: len(b) for f, b in want.items()} }")
        check(kind == "kill" or not failed, "error-swallowed", where)
        return
    w.nontrivial = True
    if kind == "kill" and failed:
        check(o.kind == "killed", "survived", repr(o))
    elif kind == "interrupt" and failed:
        check(o.kind == "raise" and o.exc["type"] == "KeyboardInterrupt",
              "interrupt-swallowed", lambda: f"{where}: {o!r}")
    elif failed:
        check(o.kind == "raise" and o.exc["errno"] == number, "wrong-error",
              lambda: f"{where}: {o!r}")
    else:
        check(bool(old), "failed-by-itself",
              lambda: f"{where}: {o!r} {(o.exc or {}).get('tb')}")
    for f, b in have.items():
        check(f in old or want[f].startswith(b), "garbled-output",
              lambda: f"{where}: {f} has {b[-200:]!r}")


PROP = Prop(
    "C17",
    [Scenario("writes", listing, 56), Scenario("together", together, 12),
     Scenario("flow", flow, 16)],
    rule="A run is an export command, first undisturbed, then up to four "
    "times with a device that takes only some bytes, another error at one "
    "write, open or close, a kill or an interrupt, or several commands "
    "appending to one file; non-trivial when one failed.",
    real=["ds-info, ds-tocsv, ds-tocfg, ds-stats, ds-dumpcsv, ds-flow-file",
          "Python's file buffering", "result files"],
    stub=["the device under the output", "CVODE results of sources"],
)
