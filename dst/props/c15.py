"""Analysis commands are read-only, repeatable and release their file."""
import errno
import os

from .. import analysis, lib
from ..engine import Prop, Scenario
from ..lib import check

# these go on with the next file after an error
TOLERANT = ("stats", "dumpcsv")


def warm():
    analysis.warm()


class OneCall:
    """One fault at the n-th matching point of the i-th call of a process."""

    def __init__(self, w, actor, call, kinds, n, what):
        self.w = w
        self.actor = actor
        self.call = call
        self.kinds = kinds
        self.n = n
        self.what = what
        self.seen = 0
        self.fired = None

    def __call__(self, actor, kind, detail):
        if actor != self.actor or kind not in self.kinds or self.fired:
            return None
        cur = [r[2] for r in self.w.notes
               if r[0] == actor and r[1] == "call"]
        if not cur or cur[-1] != self.call:
            return None
        self.seen += 1
        if self.seen == self.n + 1:
            self.fired = (kind, detail)
            return self.what
        return None


class Modes:
    """Notes how source files are opened."""

    def __init__(self, names):
        self.names = names
        self.bad = []

    def __call__(self, actor, kind, detail):
        if kind in ("h5.open", "file.open"):
            name, _, mode = detail.rpartition(" ")
            if os.path.basename(name) in self.names and mode not in (
                    "r", "rb"):
                self.bad.append((actor, detail))
        return None


def gen_fault(w, call, i, name="seq"):
    """What goes wrong during a call: a hook, or None."""
    kinds = ["read", "read", "interrupt"]
    output = analysis.COMMANDS[call.name].output
    if output == "figure":
        kinds += ["save", "save"]
    elif output != "print":
        kinds += ["write"]
    else:
        kinds += ["print"]
    k = w.pick(kinds, "kind of fault")
    n = w.draw(w.pick([3, 12, 40], "late"), "which point")
    if k == "read":
        return OneCall(w, name, i, ("h5.read", "h5.lookup"), n,
                       ("oserror", errno.EIO))
    if k == "interrupt":
        return OneCall(w, name, i, ("h5.read", "h5.lookup", "file.write",
                                    "plot.save", "h5.open"), n,
                       ("interrupt",))
    if k == "save":
        return OneCall(w, name, i, ("plot.save",), 0,
                       ("oserror", errno.ENOSPC))
    if k == "write":
        return OneCall(w, name, i, ("file.write", "file.open"), n % 3,
                       ("oserror", errno.ENOSPC))
    return OneCall(w, name, i, ("out.write",), 1 + n % 2,
                   ("oserror", errno.ENOSPC))


def damaged(w, sources):
    """Damaged files among the sources."""
    for k in range(w.wpick([(0, 4), (1, 2), (2, 1)], "damaged files")):
        p = os.path.join(w.scratch, f"bad{k}.hdf5")
        good = w.pick(sorted(x for x in sources if "bad" not in x), "of")
        data = lib.bytes_of(good)
        kind = w.pick(["short", "empty", "text", "missing"], "damage")
        if kind == "short":
            data = data[:w.draw(len(data), "bytes left")]
        elif kind == "empty":
            data = b""
        elif kind == "text":
            data = b"not a result file\n" * 40
        if kind != "missing":
            lib.write_file_bytes(p, data)
        sources[p] = ["0", "final"]


def strip(r):
    """What must be the same: not the traceback."""
    end = r["end"]
    if end and end[0] == "raise":
        end = end[:3]
    return {"end": end, "printed": r["printed"], "files": r["files"],
            "figures": r["figures"]}


def same(a, b, where, what):
    a, b = strip(a), strip(b)
    for k in a:
        check(a[k] == b[k], "depends-on-history",
              lambda: f"{where}: {k} {what}: {show(a[k], b[k])}")


def show(a, b):
    sa, sb = repr(a), repr(b)
    n = 0
    while n < min(len(sa), len(sb)) and sa[n] == sb[n]:
        n += 1
    lo = max(0, n - 60)
    return f"...{sa[lo:n + 160]} / ...{sb[lo:n + 160]}"


def gen_swaps(w, paths, n):
    """Which files are replaced by others before which commands."""
    out = {}
    have = {p: lib.bytes_of(p) for p in paths if os.path.exists(p)}
    if len(set(have.values())) < 2 or w.draw(3, "files replaced") != 2:
        return out
    for _ in range(w.between(1, 2, "how often")):
        i = w.draw(n, "before which command")
        out[i] = (w.pick(sorted(have), "which file"),
                  have[w.pick(sorted(have), "by which")])
    return dict(sorted(out.items()))


FAMILIES = [
    None, None,
    ("plot", "vert", "compare", "params", "derivs"),
    ("derivs", "params", "plot", "vert"),
    ("diverge", "combine", "plot"),
    ("eigenvalues", "eigenvectors", "eigencoef", "eigennorm"),
    ("sonic_ratio", "phys_ratio", "v_deriv", "compare", "component"),
    ("flow_plot", "flow_file"),
    ("acc", "j_e", "surface", "conserve", "validate", "hydro_check"),
]


def sequence(kinds, names=None, most=6, few=False):
    """few: the same one or two commands, with changing options"""
    every = names

    def run(w):
        from .. import seams
        picked = [w.pick(kinds, "kind of source")
                  for _ in range(w.between(1, 3, "result files"))]
        sources = analysis.make_sources(w, picked)
        sources = {p: r for p, r in sources.items() if os.path.exists(p)}
        names = every
        if few:
            names = w.pick(FAMILIES, "commands with code in common")
            if names is None:
                names = [w.pick(every, "of the commands") for _ in range(
                    w.between(1, 2, "different commands"))]
        else:
            damaged(w, sources)
        calls = []
        for _ in range(w.between(2, most, "commands")):
            if calls and w.draw(4, "again") == 3:
                calls.append(w.pick(calls, "which again"))
            else:
                calls.append(analysis.gen_call(
                    w, sources, names, 2 if few else 4))
        faults = {}
        for i, c in enumerate(calls):
            if w.draw(6 if few else 3, "fault") == 2:
                faults[i] = gen_fault(w, c, i)
        for i, c in enumerate(calls):
            w.note((i, c.describe(), i in faults))
        modes = Modes([os.path.basename(p) for p in sources])
        seams.H5_POINTS = frozenset(("read", "lookup"))
        swaps = gen_swaps(w, sorted(sources), len(calls))
        for i in swaps:
            w.note(("another file", i, os.path.basename(swaps[i][0])))
        before = lib.snapshot(w.scratch)
        outs = [os.path.join(w.scratch, f"seq{i}") for i in range(len(calls))]
        for o in outs:
            os.mkdir(o)
        w.hook = lib.Several(modes, *faults.values())
        o = lib.run_cmd(w, "seq", analysis.run_calls(calls, outs, swaps), [],
                        pre=analysis.record_figures)
        w.hook = modes
        check(o.kind == "return", "aborted", repr(o))
        got = analysis.outcomes(w, "seq", len(calls), outs)
        after = lib.snapshot(w.scratch)
        lib.check_untouched(w, {**before, **dict(swaps.values())}, after,
                            "file-changed")
        for p, _ in swaps.values():
            analysis.put(p, before[p])
        for i, (c, r) in enumerate(zip(calls, got)):
            where = f"command {i} {c.describe()}"
            if i in swaps:
                analysis.put(*swaps[i])
            check(not r["open"], "file-left-open",
                  lambda: f"{where} ({r['end']}): {r['open']}")
            f = faults.get(i)
            if f is not None and f.fired:
                w.count("commands with a fault")
                if c.name not in TOLERANT or (
                        f.fired[0].startswith("file") and
                        f.what != ("interrupt",)):
                    check(r["end"][0] == "raise", "fault-swallowed",
                          lambda: f"{where}: {f.fired} {f.what}: {r['end']}")
                continue
            out = os.path.join(w.scratch, f"alone{i}")
            os.mkdir(out)
            lib.run_cmd(w, f"alone{i}", analysis.run_calls([c], [out]), [],
                        pre=analysis.record_figures)
            alone, = analysis.outcomes(w, f"alone{i}", 1, [out])
            same(redirect(r, outs[i]), redirect(alone, out), where,
                 "as part of the sequence and alone")
            w.count("commands compared")
            w.count("commands that worked", alone["end"][0] == "return")
            if i:
                w.nontrivial = True
        check(not modes.bad, "opened-for-writing", lambda: str(modes.bad))
        lib.check_untouched(w, {**before, **dict(swaps.values())},
                            lib.snapshot(w.scratch), "file-changed")
    return run


def redirect(r, out):
    """The outcome without the directory written to."""
    r = dict(r)
    end = r["end"]
    if end and end[0] == "raise":
        r["end"] = tuple(x.replace(out, "$OUT") if isinstance(x, str) else x
                         for x in end)
    return r


def settings_calls(calls):
    """What the plot settings helper gives, called in this order."""
    def fn():
        from types import SimpleNamespace
        from disc_solver.analyse import utils
        out = []
        for ordering, sq, options, spoil in calls:
            try:
                got = utils.get_common_arguments(
                    utils.PlotOrdering[ordering],
                    initial_conditions=SimpleNamespace(norm_kepler_sq=sq),
                    **options)
                out.append(repr(got))
                if spoil:
                    # what the caller does with its settings
                    for x in got:
                        x["offset"] = -1
                        x.setdefault("extras", []).append("more")
            except (AttributeError, TypeError, KeyError):
                out.append(None)     # (there is no such helper any more)
        return out
    return fn


def settings(w):
    """Callers of the library ask for settings of plots."""
    calls = []
    for _ in range(w.between(2, 8, "calls")):
        options = {}
        if w.draw(2, "scale"):
            options["v_θ_scale"] = w.pick(["linear", "log"], "scale")
        k = w.draw(4, "offset")
        if k == 1:
            options["no_v_φ_offset"] = True
        elif k == 2:
            options["v_φ_offset"] = w.pick([0, 0.5], "offset")
        calls.append((w.pick(["B_φ_prime", "E_r", "B_φ_prime_vert",
                              "E_r_vert"], "ordering"),
                      w.pick([0.25, 1.0, 4.0], "Kepler speed"), options,
                      w.draw(3, "changes them") == 2))
    for c in calls:
        w.note(c)
    got = lib.in_process(w, "seq", settings_calls(calls))
    for i, (c, g) in enumerate(zip(calls, got)):
        alone, = lib.in_process(w, f"alone{i}", settings_calls([c]))
        if g is None or alone is None:
            continue
        check(g == alone, "depends-on-history",
              lambda: f"settings {c[:3]} after {calls[:i]}: {show(g, alone)}")
        w.nontrivial = w.nontrivial or i > 0


TEXT = ("info", "tocsv", "tocfg", "stats", "dumpcsv")
PLOTS = tuple(n for n in analysis.COMMANDS if n not in TEXT)
PROP = Prop(
    "C15",
    [Scenario("all", sequence(["real", "far", "single", "step"]), 28),
     Scenario("plots", sequence(["far", "real"], PLOTS, 6), 16),
     Scenario("options", sequence(["far", "real"], PLOTS, 6, few=True), 24),
     Scenario("text", sequence(["step", "single", "mcmc", "real"], TEXT), 20),
     Scenario("settings", settings, 6)],
    rule="A run is a sequence of analysis commands in one process, some with "
    "a failing read, write or save or an interrupt; every undisturbed one is "
    "also run alone in a new process; non-trivial when a command after the "
    "first was compared (or, for callers of the library, settings of plots "
    "asked for after others).",
    real=["all 29 analysis commands", "computing what plots show",
          "reading result files"],
    stub=["rendering and saving of figures (their content is compared)",
          "read and write errors"],
    assumptions=["A figure is what its artists say."],
)
