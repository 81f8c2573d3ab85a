"""
The analysis commands: which there are, how they may be called, and what they
produce (what they print, the files they write, what their figures show).
"""
import hashlib
import importlib
import os

import numpy as np

from . import lib
from . import world as W

PLOT_OPTIONS = [
    ("--title", ["a title", ""]),
    ("--style", ["bmh", "ggplot", "dark_background", "default"]),
    ("--start", ["0", "0.25", "1"]),
    ("--stop", ["90", "1", "0.75"]),
    ("--linestyle", ["-", ":", "."]),
    ("--figsize", [("4", "3"), ("10", "8")]),
    ("--no-show-version", [None]),
    ("--show", [None]),
]
FLOW_OPTIONS = [
    ("--title", ["a title"]),
    ("--style", ["ggplot"]),
    ("--no-show-version", [None]),
    ("--v-step-scaling", ["0.01", "0.1"]),
    ("--no-max-v-angle", [None]),
    ("--v-start-position", [("1", "0.005"), ("1", "0.02")]),
]
POINTS = [("--with-slow", [None]), ("--with-alfven", [None]),
          ("--with-fast", [None]), ("--with-sonic", [None])]


# (following the flow takes a million steps if nothing else is said)
FLOW_STEPS = [("--v-max-steps", ["5", "50", "0"]),
              ("--B-max-steps", ["5", "50", "0"])]


class Cmd:
    """kind: how it is told its files: one, runs, all, many"""

    def __init__(self, where, kind="one", options=(), output="figure",
                 extra=None, always=()):
        self.always = list(always)
        self.module, self.func = where.split(":")
        self.kind = kind
        self.options = list(options)
        self.output = output
        self.extra = extra           # positional arguments after the range

    def main(self):
        return getattr(importlib.import_module(
            "disc_solver." + self.module), self.func)


A = "analyse."
COMMANDS = {
    "info": Cmd(A + "info:info_main", output="print", extra=[
        "run", "status", "input", "initial-conditions", "sonic-points",
        "crosses-points", "sonic-on-scale", "solutions"]),
    "tocsv": Cmd(A + "dump_csv:dump_main", output="append",
                 options=[("--with-header", [None])]),
    "tocfg": Cmd(A + "dump_config:dump_main", output="write"),
    "stats": Cmd(A + "stats:stats_main", "many", output="append"),
    "dumpcsv": Cmd(A + "stats:dump_csv_inputs_main", "many",
                   output="append"),
    "plot": Cmd(A + "plot:plot_main", options=PLOT_OPTIONS + POINTS + [
        ("--v_θ", ["log", "linear"]), ("--portrait", [None]),
        ("--hide-roots", [None]), ("--hide-sonic-angle", [None])]),
    "combine": Cmd(A + "combine_plot:combine_main",
                   options=PLOT_OPTIONS + POINTS),
    "component": Cmd(A + "component_plot:plot_main", options=PLOT_OPTIONS + [
        ("--only", ["radial momentum", "continuity", "polar induction",
                    "v_r"])]),
    "vert": Cmd(A + "vert_plot:plot_main", options=PLOT_OPTIONS + [
        ("--v_θ", ["log", "linear"]), ("--with-sonic", [None])]),
    "derivs": Cmd(A + "derivs_plot:derivs_main", options=PLOT_OPTIONS + [
        ("--nolog", [None])]),
    "params": Cmd(A + "params_plot:params_main", options=PLOT_OPTIONS),
    "taylor": Cmd(A + "taylor_plot:taylor_main", options=PLOT_OPTIONS + [
        ("--show-values", [None])]),
    "validate": Cmd(A + "validate_plot:validate_plot_main",
                    options=PLOT_OPTIONS),
    "hydro_check": Cmd(A + "hydro_check_plot:hydro_check_plot_main",
                       options=PLOT_OPTIONS),
    "acc": Cmd(A + "acc_plot:acc_main", options=PLOT_OPTIONS),
    "j_e": Cmd(A + "j_e_plot:j_e_plot_main", options=PLOT_OPTIONS),
    "surface": Cmd(A + "surface_density_plot:surface_density_main",
                   options=PLOT_OPTIONS),
    "eigenvalues": Cmd(A + "compute_jacobian:jacobian_eigenvalues_main",
                       options=PLOT_OPTIONS + [("--eps", ["1e-6", "1e-8"])]),
    "eigenvectors": Cmd(A + "compute_jacobian:jacobian_eigenvectors_main",
                        options=PLOT_OPTIONS),
    "eigencoef": Cmd(A + "compute_jacobian:jacobian_eigenvector_coef_main",
                     options=PLOT_OPTIONS + [
                         ("--local-eigvecs", [None]),
                         ("--critical-point", ["slow", "sonic"])]),
    "eigennorm": Cmd(A + "compute_jacobian:jacobian_eigenvector_norm_main",
                     options=PLOT_OPTIONS),
    "diverge": Cmd(A + "diverge_plot:diverge_main", "all",
                   options=PLOT_OPTIONS + POINTS[:3] + [
                       ("--solutions", ["0", "0,1"]),
                       ("--hide-legend", [None])]),
    "conserve": Cmd(A + "conserve_plot:conserve_main", "all",
                    options=PLOT_OPTIONS),
    "compare": Cmd(A + "compare_plot:plot_main", "runs",
                   options=PLOT_OPTIONS + [("--v_θ", ["log", "linear"])]),
    "sonic_ratio": Cmd(A + "sonic_ratio_plot:plot_main", "runs",
                       options=PLOT_OPTIONS),
    "phys_ratio": Cmd(A + "phys_ratio_plot:plot_main", "runs",
                      options=PLOT_OPTIONS),
    "v_deriv": Cmd(A + "v_deriv_cmp:plot_main", "runs",
                   options=PLOT_OPTIONS),
    "flow_plot": Cmd(A + "trajectory:plot_main", options=FLOW_OPTIONS,
                     always=FLOW_STEPS),
    "flow_file": Cmd(A + "trajectory:traj_main", options=FLOW_OPTIONS[3:],
                     always=FLOW_STEPS,
                     output="three"),
}


def warm():
    for c in COMMANDS.values():
        c.main()
    import matplotlib.style  # noqa: F401


def describe_figure(fig):
    """What a figure shows, in a form that can be compared."""
    def number(x):
        a = np.asarray(x)
        if a.dtype.kind in "fc":
            return hashlib.blake2b(np.ascontiguousarray(a).tobytes(),
                                   digest_size=8).hexdigest() + str(a.shape)
        return repr(a.tolist())[:300]

    def style(art):
        out = []
        for name in ("get_color", "get_linestyle", "get_marker",
                     "get_linewidth", "get_alpha", "get_visible",
                     "get_facecolor", "get_edgecolor", "get_fontsize"):
            f = getattr(art, name, None)
            if f is not None:
                try:
                    out.append(repr(f()))
                except Exception:  # pylint: disable=broad-except
                    out.append("?")
        return out
    out = [("size", tuple(fig.get_size_inches()), fig.dpi)]
    for t in fig.texts:
        out.append(("text", t.get_text(), style(t)))
    for i, ax in enumerate(fig.axes):
        out.append(("axes", i, ax.get_title(), ax.get_xlabel(),
                    ax.get_ylabel(), ax.get_xscale(), ax.get_yscale(),
                    number(ax.get_xlim()), number(ax.get_ylim()),
                    style(ax)))
        for line in ax.get_lines():
            out.append(("line", line.get_label(), number(line.get_xdata()),
                        number(line.get_ydata()), style(line)))
        for t in ax.texts:
            out.append(("text", t.get_text(), number(t.get_position())))
        for c in list(ax.collections) + list(ax.patches) + list(ax.images):
            out.append((type(c).__name__, str(c.get_label()), style(c)))
        leg = ax.get_legend()
        if leg is not None:
            out.append(("legend", [t.get_text() for t in leg.get_texts()]))
    for leg in fig.legends:
        out.append(("legend", [t.get_text() for t in leg.get_texts()]))
    return out


def shown(fig):
    """The points a figure shows: [(index of axes, label, x, y)], texts"""
    out = []
    for i, ax in enumerate(fig.axes):
        for line in ax.get_lines():
            out.append((i, str(line.get_label()),
                        np.array(line.get_xdata(), dtype=float),
                        np.array(line.get_ydata(), dtype=float)))
    texts = [t.get_text() for t in fig.texts]
    if fig._suptitle is not None:    # pylint: disable=protected-access
        texts.append(fig._suptitle.get_text())
    return out, texts, [ax.get_yscale() for ax in fig.axes]


def record_figures(real=False):
    """Figures are described when they are saved (rendered only if real)."""
    from matplotlib.figure import Figure
    real_save = Figure.savefig

    def savefig(self, fname, *a, **k):
        w = W.current()
        w.point("plot.save", w.rel(os.fspath(fname)))
        desc = describe_figure(self)
        desc.append(("options", sorted((n, repr(v)) for n, v in k.items())))
        w.record("figure", os.path.basename(os.fspath(fname)), desc)
        w.record("shown", *shown(self))
        if real:
            return real_save(self, fname, *a, **k)
        with open(fname, "wb") as f:
            f.write(b"a plot")
        return None
    Figure.savefig = savefig


class Call:
    """One call of a command: its arguments, without the output files."""

    def __init__(self, name, files, ranges, options, extra):
        self.name = name
        self.files = files
        self.ranges = ranges
        self.options = options
        self.extra = extra

    def argv(self, out):
        """out: directory for what it writes."""
        c = COMMANDS[self.name]
        if c.kind == "one":
            argv = [self.files[0], self.ranges[0]]
        elif c.kind == "all":
            argv = [self.files[0]]
        elif c.kind == "runs":
            argv = []
            for f, r in zip(self.files, self.ranges):
                argv += ["-r", f, r]
        else:
            argv = list(self.files)
        if self.extra is not None:
            argv.append(self.extra)
        for o, v in self.options:
            argv.append(o)
            if isinstance(v, tuple):
                argv += v
            elif v is not None:
                argv.append(v)
        if c.output == "figure":
            argv += ["--filename", os.path.join(out, "fig.png")]
        elif c.output in ("append", "write"):
            argv += ["--file", os.path.join(out, "out.txt")]
        elif c.output == "three":
            argv += ["--stats-output-file", os.path.join(out, "s.txt"),
                     "--B-output-file", os.path.join(out, "b.txt"),
                     "--v-output-file", os.path.join(out, "v.txt")]
        return argv

    def describe(self):
        return (self.name, [os.path.basename(f) for f in self.files],
                self.ranges, self.options, self.extra)


def gen_call(w, sources, names=None, rare=4):
    """
    sources: {path: solution names to choose from}; one of so many (rare)
    options is given
    """
    name = w.pick(sorted(names or COMMANDS), "command")
    c = COMMANDS[name]
    n = 1
    if c.kind in ("runs", "many"):
        n = w.between(1, 3, "number of files")
    files, ranges = [], []
    for _ in range(n):
        f = w.pick(sorted(sources), "file")
        files.append(f)
        ranges.append(w.pick(sources[f], "solution"))
    options = []
    for o, values in c.options:
        if w.draw(rare, "option") == rare - 1:
            options.append((o, w.pick(values, "value")))
    for o, values in c.always:
        options.append((o, w.pick(values, "value")))
    extra = w.pick(c.extra, "what") if c.extra else None
    return Call(name, files, ranges, options, extra)


MARK = "\x01call %d\x01"


def open_files():
    """Names of HDF5 files this process has open."""
    import h5py
    out = []
    for i in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE):
        out.append(os.path.basename(h5py.h5f.get_name(i).decode()))
    return out


def put(path, data):
    """Another file takes the place of one."""
    lib.write_file_bytes(path + ".new", data)
    os.replace(path + ".new", path)


def run_calls(calls, outs, swaps=None):
    """
    Function for a simulated process: the calls one after the other; what
    became of each is recorded. swaps: {number of call: (file, bytes it has
    from then on)}
    """
    def entry(argv):
        # pylint: disable=unused-argument
        import sys
        w = W.current()
        w.record("call", None)
        for i, (call, out) in enumerate(zip(calls, outs)):
            print(MARK % i)
            sys.stdout.flush()
            if swaps and i in swaps:
                put(*swaps[i])
            w.record("call", i)
            try:
                code = COMMANDS[call.name].main()(call.argv(out))
                what = ("return", code if isinstance(
                    code, (int, str, type(None))) else repr(type(code)))
            except SystemExit as e:
                what = ("exit", e.code)
            except (Exception, KeyboardInterrupt) as e:
                import traceback
                what = ("raise", type(e).__name__, str(e)[:500],
                        traceback.format_exc()[-1500:])
            try:
                sys.stdout.flush()
            except OSError as e:
                what = ("raise", type(e).__name__, str(e), "flush")
            w.record("ended", i, what, open_files())
            w.record("call", None)       # faults belong to calls
            sys.stdout.flush()
        return 0
    return entry


def outcomes(w, name, n, outs):
    """What the calls of a process gave: [(end, printed, files, figures)]"""
    text = w.output(name)
    parts = {}
    for k, piece in enumerate(text.split("\x01call ")[1:]):
        head, _, body = piece.partition("\x01\n")
        parts[int(head)] = body
        del k
    figures = {}
    cur = None
    ended = {}
    still = {}
    for r in w.notes:
        if r[0] != name:
            continue
        if r[1] == "call":
            cur = r[2]
        elif r[1] == "figure":
            figures.setdefault(cur, []).append(r[2:])
        elif r[1] == "ended":
            ended[r[2]] = r[3]
            still[r[2]] = r[4]
    out = []
    for i in range(n):
        files = {}
        for f in sorted(os.listdir(outs[i])):
            files[f] = lib.bytes_of(os.path.join(outs[i], f))
        out.append({
            "end": ended.get(i), "printed": parts.get(i),
            "files": files, "figures": figures.get(i, []),
            "open": still.get(i, []),
        })
    return out


# ---------------------------------------------------------------- sources
def make_sources(w, kinds):
    """{path: solution names}"""
    from . import cases
    out = {}
    for k, kind in enumerate(kinds):
        path = os.path.join(w.scratch, f"run{k}.hdf5")
        if kind == "real":
            row = lib.gen_row(w, k, stop=w.pick(["1", "1.25"], "stop"),
                              angles=w.between(10, 20, "angles"))
            lib.make_source(w, path, row, ["real"], internal=w.draw(
                4, "without internal data") != 3, name=f"maker{k}")
            out[path] = ["0", "final", "latest"]
            continue
        if kind == "far":
            from . import shocks
            shocks.make(w, path)
            out[path] = ["0", "final", "latest"]
            continue
        case = cases.gen(w, kind, i=k)
        with lib.quiet(w):
            case.run_file(w, f"maker{k}", path)
        run = lib.in_process(w, "reader", lib.load_or_why(path))
        names = []
        if run[0] == "run":
            names = sorted(run[1]["solutions"], key=int)
            if isinstance(run[1]["final_solution"], lib.Plain):
                names.append("final")
            if names:
                names.append("latest")
        out[path] = names + ["99"]
    return out


def make_odd(w, path, base, final="last"):
    """
    A result file whose attempts are damaged variants of a solution of
    another one: too short, not finite, without internal data.
    """
    plans = []
    for _ in range(w.between(1, 4, "attempts")):
        plans.append((
            w.wpick([(None, 3), (1, 1), (2, 1), (3, 1), (5, 1), (0, 1)],
                    "angles left"),
            w.wpick([(None, 4), ("column", 1), ("row", 1), ("all", 1),
                     ("zero", 1)], "values"),
            w.draw(7, "which column"),
            w.draw(2, "without internal data")))

    def body():
        import attr
        from h5preserve import open as h5open
        from disc_solver.file_format import registries, Run
        with h5open(base, registries, mode="r") as f:
            old = f["run"]
            soln = old.solutions[min(old.solutions)]
            run = Run(
                config_input=old.config_input,
                config_filename=old.config_filename,
                disc_solver_version=old.disc_solver_version,
                float_type=old.float_type, sonic_method=old.sonic_method,
                use_E_r=old.use_E_r)
            with h5open(path, registries, mode="x") as out:
                out["run"] = run
                s = None
                for i, (n, what, col, internal) in enumerate(plans):
                    y = np.array(soln.solution)
                    a = np.array(soln.angles)
                    if n is not None:
                        y, a = y[:n], a[:n]
                    if what == "column":
                        y[:, col] = np.nan
                    elif what == "row" and len(y):
                        y[-1] = np.nan
                    elif what == "all":
                        y[:] = np.nan
                    elif what == "zero":
                        y[:, col] = 0
                    s = attr.evolve(
                        soln, angles=a, solution=y,
                        internal_data=None if internal else
                        soln.internal_data)
                    run.solutions[str(i)] = s
                run.final_solution = s if final == "last" else None
    lib.in_process(w, "maker", body)
    return plans
