"""Settings mean the same wherever they are given, typos are refused."""
import errno
import os

from .. import batch, lib
from .. import world as W
from ..engine import Prop, Scenario
from ..lib import check
from .c01 import runner_argv
from .c03 import clock, load_files

# other ways to write a value; the solves are made up, thus the values matter
# little, as long as the first integration can be set up
VALUES = {
    "start": ["0", "0.0", " 0", "0/5"],
    "taylor_stop_angle": ["0.001", "1e-3", "0.002", "1/1000", "+0.0015"],
    "max_steps": ["10000", "500", " 7000", "1_000", "+800"],
    "num_angles": ["40", "12", " 17", "+25", "024"],
    "relative_tolerance": ["1e-6", "1E-5", "0.000001", "1/100000"],
    "absolute_tolerance": ["1e-10", "0.0000000001", "2e-9"],
    "γ": ["0.001", "1e-3", "0.0015", "1/500", ".0012", "+0.0009"],
    "nwalkers": ["8", "10", "012"],
    "iterations": ["3", "1", "20"],
    "threads": ["1", "2"],
    "target_velocity": ["0.9", "9/10", "0.85", ".95"],
    "split_method": ["v_θ_deriv", "human"],
    "v_rin_on_c_s": ["1", "1.0", "0.9", "1e-1", "9/8"],
    "v_a_on_c_s": ["1", "0.8", "1.1", "4/5"],
    "c_s_on_v_k": ["0.03", "3/100", "0.025", "2.5e-2"],
    "η_O": ["0.001", "0.002", "1/1000"],
    "η_H": ["0.0001", "0", "-0.0001", "1e-5"],
    "η_A": ["0.0005", "0.00025", "5e-4"],
    "η_derivs": ["True", "False", "yes", "no", "on", "0", "TRUE"],
    "jump_before_sonic": ["None", "0.01", "1/50"],
    "use_taylor_jump": ["True", "False", "1", "off"],
    "mcmc_vars": ["v_r,v_a,v_k", "v_r", "v_a,v_k", "None", "v_k", "γ"],
    "v_θ_sonic_crit": ["None", "0.995", "99/100"],
    "after_sonic": ["None", "0.01", "1/40"],
    "sonic_interp_size": ["None", "0.02"],
    "interp_range": ["10", "7", "None", " 25"],
    "interp_slice": ["-1000,-100", "-40,-4", "5,50,3", "slice(3, None, None)",
                     "-400, -40, 2", "slice(-9, None, 2)"],
    "use_E_r": ["False", "no", "True", "true", "yes", "1", "on"],
}
# what the config file and the CSV file with columns left out stand for
FILE_DEFAULTS = dict(lib.DEFAULTS, num_angles="10000")
ROW_DEFAULTS = {
    "η_derivs": "True", "jump_before_sonic": "None",
    "use_taylor_jump": "True", "mcmc_vars": "None", "v_θ_sonic_crit": "None",
    "after_sonic": "None", "sonic_interp_size": "None", "interp_range": "10",
    "interp_slice": "-1000,-100", "use_E_r": "False",
}
LABELS = ["", "lab", "two words", "ünï", "50%", "a=b:c"]
TYPOS = ["gamma", "Γ", "stop ", " stop", "STOP", "Label", "", "filename",
         "solution_name", "γ=1", "v_rin", "eta_O", "η_o", "--stop",
         "overrides", "config.stop", "num_angle", "η_Ο", "None",
         "coordinate_system", "asdict", "to_soln_input", "__class__",
         "use_e_r", "max-steps", "store_internal"]


def warm():
    import disc_solver.solve.resolve  # noqa: F401
    import disc_solver.solve.csvrunner  # noqa: F401
    import disc_solver.solve.hdf5runner  # noqa: F401


def same_text(name, a, b):
    return lib.same_setting(name, lib.interpret(name, a),
                            lib.interpret(name, b))


def gen_settings(w, stop, most=14):
    row = dict(lib.DEFAULTS, stop=str(stop))
    if w.draw(8, "default number of angles") == 7:
        row["num_angles"] = "10000"
    if w.draw(8, "only γ varied") == 7:
        row["mcmc_vars"] = "γ"
    for _ in range(w.between(0, most, "settings given")):
        k = w.pick(sorted(VALUES), "setting")
        row[k] = w.pick(VALUES[k], k)
    if row["jump_before_sonic"] != "None":
        row["sonic_interp_size"] = "None"
    return row


def other_value(w, name, text):
    if name == "stop":
        return str(float(lib.number(text)) + 60)
    vals = [v for v in VALUES[name] if not same_text(name, v, text)]
    return w.pick(vals, "value overridden") if vals else text


def gen_overrides(w, final, label=None):
    """Settings given as overrides: ({name: text}, names with other values
    below, the label below)."""
    names = [k for k in lib.CSV_FIELDS
             if w.draw(6, "overridden") == 5] if w.draw(
                 4, "overrides") else []
    over = {k: final[k] for k in names}
    # a setting of the base that is not used at all
    base = dict(final)
    for k in names:
        if w.draw(3, "same value below"):
            base[k] = other_value(w, k, final[k])
    if label is not None and w.draw(3, "label overridden") == 2:
        over["label"] = label
    return over, base


def override_argv(w, over):
    argv = []
    for k in w.shuffled(sorted(over), "order of overrides"):
        v = over[k]
        if k != "label" and w.draw(8, "given twice") == 7:
            argv += ["--override", k, spaced(other_value(w, k, v))]
        argv += ["--override", k, spaced(v)]
    return argv


def spaced(v):
    """(argparse takes values starting with - for options)"""
    return " " + v if v.startswith("-") else v


def conf_file(w, base, label):
    """The text of a config file, its form from the tape."""
    lines = {"config": [], "initial": []}
    sep = w.pick([" = ", "=", ": ", " : "], "separator")
    given = dict(base)
    for k in list(given):
        if same_text(k, given[k], FILE_DEFAULTS[k]) and w.draw(
                2, "default left out"):
            del given[k]
    for k, v in given.items():
        where = "initial" if k in lib.INITIAL_FIELDS else "config"
        lines[where].append(f"{k}{sep}{v}")
    if label != "default" or w.draw(2, "default label given"):
        lines["config"].append(f"label{sep}" + label.replace("%", "%%"))
    out = []
    for sec in w.shuffled(sorted(lines), "sections"):
        out.append(f"[{sec}]")
        out += w.shuffled(lines[sec], "order")
        if w.draw(3, "comment"):
            out += ["# stop = 77", "", "; γ = 3"]
        if w.draw(4, "unknown setting") == 3:
            out.append(f"nonsense{sep}1")
    return "\n".join(out) + "\n"


def reads(w):
    """Short or failing reads of the input file."""
    kind = w.wpick([(None, 5), ("short", 3), ("fail", 1)], "reads")
    if kind is None:
        return None
    if kind == "short":
        most = w.pick([3, 40, 400], "most bytes")

        def hook(actor, point, detail):
            if point == "file.read":
                return ("short", w.between(1, most, "bytes read"))
            return None
        return hook
    # a file long enough not to fit into one read fails in its middle
    state = {"n": w.draw(3, "which read")}

    def failing(actor, point, detail):
        if point != "file.read":
            return None
        state["n"] -= 1
        if state["n"] < 0:
            failing.fired = True
            return ("oserror", errno.EIO)
        return ("short", 60)
    failing.fired = False
    return failing


def reference(w, row, label, internal):
    return lib.in_process(w, "alone", lib.memory_solve(
        row, "single", label=label, store_internal=internal,
        policy=scripted([row])))


def storage(internal):
    return ["--store-internal" if internal else "--no-store-internal"]


def scripted(rows):
    s = lib.Scripts()
    for r in rows:
        s.set(lib.number(r["stop"]), ["best"])

    def pol(call):
        W.current().record("ode")
        return s(call)
    return pol


def check_run(w, run, row, label, ref, where):
    lib.check_config(run["config_input"], row, "wrong-config", where, label)
    check(run["use_E_r"] == lib.interpret("use_E_r", row["use_E_r"]),
          "wrong-config", lambda: f"{where}: use_E_r of the run is "
          f"{run['use_E_r']}")
    want = lib.expected_input(row)
    if ref["status"] == "ok":
        check(len(run["solutions"]) == 1, "wrong-input",
              lambda: f"{where}: {len(run['solutions'])} solutions")
        for s in run["solutions"].values():
            lib.check_input(s["solution_input"], want, "wrong-input", where)
        lib.check_attempts(run, ref["run"], "wrong-result", where)
    w.count("runs compared")


def after_fault(w, o, where, before, allowed=()):
    """The read of the input failed: an error, and nothing came of it."""
    check(not o.ok, "half-read-used", lambda: f"{where}: {o!r}")
    new = [p for p in lib.snapshot(w.scratch) if p not in before and
           p not in allowed]
    check(not new, "half-read-used", lambda: f"{where}: wrote {new}")
    check(not w.records("ode"), "half-read-used",
          lambda: f"{where}: started to solve")
    w.count("failing reads")


def outcome(w, o, ref, where):
    if ref["status"] == "ok":
        check(o.kind == "return" and bool(o.code) == (not ref["returned"]),
              "ends-differently", lambda: f"{where}: {o!r}, in memory "
              f"{ref['returned']} {(o.exc or {}).get('tb')}")
        return True
    check(o.kind == "raise" and o.exc["type"] == ref["status"],
          "ends-differently",
          lambda: f"{where}: {o!r}, in memory {ref['status']} {ref['text']}"
          f"\n{(o.exc or {}).get('tb')}")
    return False


def by_config(w, final, label, internal, ref, k):
    from disc_solver.solve import main
    over, base = gen_overrides(w, final, label)
    conf = os.path.join(w.scratch, f"c{k}.cfg")
    outdir = os.path.join(w.scratch, f"o{k}")
    os.mkdir(outdir)
    base_label = "other" if "label" in over else label
    lib.write_file(conf, conf_file(w, base, base_label))
    argv = [conf, "--output-dir", outdir] + override_argv(
        w, over) + storage(internal)
    where = f"ds-soln with {sorted(over)} overridden"
    lib.use(scripted([final]))
    before = lib.snapshot(w.scratch)
    w.notes.clear()
    w.hook = hook = reads(w)
    o = lib.run_cmd(w, f"soln{k}", main, argv)
    w.hook = None
    if getattr(hook, "fired", False):
        return after_fault(w, o, where, before)
    if outcome(w, o, ref, where):
        (path,) = lib.h5_files(outdir)
        check(os.path.basename(path).startswith(label), "wrong-label",
              lambda: f"{where}: label {label!r}, file {path}")
        run = lib.stored_run(w, path)
        check_run(w, run, final, label, ref, where)
        check(run["config_filename"] == conf, "wrong-config", where)
    return None


def by_resolve(w, final, label, internal, ref, k):
    from disc_solver.solve.resolve import main
    over, base = gen_overrides(w, final, label)
    if base["jump_before_sonic"] != "None":
        if base["sonic_interp_size"] != "None":
            base["sonic_interp_size"] = "None"
            over["sonic_interp_size"] = final["sonic_interp_size"]
    base_ref = reference(w, base, "x", internal)
    if base_ref["status"] != "ok":
        return
    src = os.path.join(w.scratch, f"s{k}.hdf5")
    outdir = os.path.join(w.scratch, f"o{k}")
    os.mkdir(outdir)
    with lib.quiet(w):
        lib.make_source(w, src, base, ["best"],
                        label=("other" if "label" in over else
                               label.replace("%", "%%")),
                        internal=internal)
    argv = [src, w.pick(["0", "latest", "final"], "solution"),
            "--output-dir", outdir] + override_argv(
        w, over) + storage(internal)
    where = f"ds-resoln with {sorted(over)} overridden"
    lib.use(scripted([final]))
    o = lib.run_cmd(w, f"resoln{k}", main, argv)
    if outcome(w, o, ref, where):
        (path,) = lib.h5_files(outdir)
        check_run(w, lib.stored_run(w, path), final, label, ref, where)


def gen_rows(w, final, over, base):
    """Other inputs around the one looked at."""
    rows, finals = [], []
    n = w.between(1, 3, "inputs")
    at = w.draw(n, "position")
    if "stop" in over:
        n, at = 1, 0
    for i in range(n):
        if i == at:
            rows.append(base)
            finals.append(final)
            continue
        r = gen_settings(w, 20 + i, most=3)
        rows.append(r)
        finals.append(dict(r, **{k: v for k, v in over.items()
                                 if k != "label"}))
    return rows, finals


def csv_file(w, rows, path):
    form = w.pick(["header", "no header", "columns left out",
                   "columns moved"], "form of the CSV file")
    fields = list(lib.CSV_FIELDS)
    if form == "columns left out":
        for k, v in ROW_DEFAULTS.items():
            if all(same_text(k, r[k], v) for r in rows):
                fields.remove(k)
    rows = [dict(r) for r in rows]
    if form != "no header" and form != "header":
        fields += ["label", "filename", "solution_name", "comment"]
        fields = w.shuffled(fields, "columns")
        for r in rows:
            r.update(label="of the row", filename="x.hdf5",
                     solution_name="7", comment="1,2")
    for r in rows:
        for k in ("jump_before_sonic", "v_θ_sonic_crit", "after_sonic",
                  "sonic_interp_size", "mcmc_vars"):
            if r[k] == "None" and w.draw(4, "empty") == 3:
                r[k] = ""
    text = lib.csv_text(rows, fields, header=form != "no header",
                        comments=["by hand"] * w.draw(3, "comments"),
                        quoting=w.draw(2, "minimal quoting") == 0)
    if w.draw(3, "comments inside") == 2:
        lines = text.splitlines(keepends=True)
        lines.insert(w.draw(len(lines) + 1, "where"), "  # \"1\",2\n")
        text = "".join(lines)
    if w.draw(4, "no end of line") == 3:
        text = text[:-1]
    lib.write_file(path, text)
    return form


def by_csvrunner(w, final, label, internal, ref, k):
    from disc_solver.solve.csvrunner import main
    over, base = gen_overrides(w, final)
    rows, finals = gen_rows(w, final, over, base)
    inp = os.path.join(w.scratch, f"i{k}.csv")
    out = os.path.join(w.scratch, f"o{k}.csv")
    form = csv_file(w, rows, inp)
    argv = runner_argv(w, inp, out, "single") + override_argv(
        w, over) + storage(internal)
    where = f"ds-csvrunner ({form}) with {sorted(over)} overridden"
    lib.use(scripted(finals))
    before = lib.snapshot(w.scratch)
    w.notes.clear()
    w.hook = hook = reads(w)
    o = lib.run_cmd(w, f"csvrunner{k}", main, argv)
    w.hook = None
    if getattr(hook, "fired", False):
        return after_fault(w, o, where, before, (out,))
    check(o.ok, "ends-differently",
          lambda: f"{where}: {o!r} {(o.exc or {}).get('tb')}")
    _, header, have = lib.parse_csv(lib.text_of(out))
    want = []
    for f in finals:
        if f is final and ref["status"] == "ok" or f is not final and \
                reference(w, f, "", internal)["status"] == "ok":
            want.append(lib.expected_input(f))
    batch.check_rows(want, have, header, "wrong-input")
    w.count("rows compared", len(want))
    return None


def by_hdf5runner(w, final, label, internal, ref, k):
    from disc_solver.solve.hdf5runner import main
    over, base = gen_overrides(w, final, label)
    rows, finals = gen_rows(w, final, over, base)
    inp = os.path.join(w.scratch, f"i{k}.csv")
    outdir = os.path.join(w.scratch, f"o{k}")
    os.mkdir(outdir)
    form = csv_file(w, rows, inp)
    argv = runner_argv(w, inp, None, "single") + override_argv(
        w, over) + storage(internal)
    argv += ["--output-dir", outdir]
    if "label" not in over or w.draw(2, "label overridden twice"):
        argv += ["-l" if w.draw(2, "short option") else "--label",
                 "other" if "label" in over else label]
    where = f"ds-hdf5runner ({form}) with {sorted(over)} overridden"
    lib.use(scripted(finals))
    clock(w)
    before = lib.snapshot(w.scratch)
    w.notes.clear()
    w.hook = hook = reads(w)
    o = lib.run_cmd(w, f"hdf5runner{k}", main, argv)
    w.hook = None
    if getattr(hook, "fired", False):
        return after_fault(w, o, where, before)
    check(o.ok, "ends-differently",
          lambda: f"{where}: {o!r} {(o.exc or {}).get('tb')}")
    loaded = load_files(w, outdir)
    found = by_stop_of(loaded)
    for f in finals:
        r = ref if f is final else reference(w, f, label, internal)
        mine = found.get(float(lib.number(f["stop"])), [])
        if r["status"] == "ok":
            check(len(mine) == 1, "wrong-config",
                  lambda: f"{where}: {len(mine)} files for {f['stop']}")
            path, run = mine[0]
            check(os.path.basename(path).startswith(label), "wrong-label",
                  lambda: f"{where}: label {label!r}, file {path}")
            check_run(w, run, f, label, r, where)
    return None


def by_stop_of(loaded):
    out = {}
    for path, (what, run) in loaded.items():
        if what == "run":
            key = float(lib.number(run["config_input"]["stop"]))
            out.setdefault(key, []).append((path, run))
    return out


PATHS = [by_config, by_resolve, by_csvrunner, by_hdf5runner]


def paths(w):
    final = gen_settings(w, w.pick(["5", "3.5", "2e0", "9/2"], "stop"))
    label = w.pick(LABELS, "label")
    internal = w.draw(2, "no internal data") == 0
    ref = reference(w, final, label, internal)
    w.note(f"settings { {k: v for k, v in final.items() if v != lib.DEFAULTS[k]} }"
           f" label {label!r}: {ref['status']}")
    n = w.between(2, 4, "paths")
    for k in range(n):
        w.pick(PATHS, "path")(w, final, label, internal, ref, k)
    w.nontrivial = True


# ------------------------------------------------------------------- typos
def typos(w):
    which = w.pick(["soln", "resoln", "csvrunner", "hdf5runner"], "command")
    final = gen_settings(w, 5, most=2)
    outdir = os.path.join(w.scratch, "out")
    os.mkdir(outdir)
    out = os.path.join(outdir, "result")
    if which == "soln":
        from disc_solver.solve import main
        inp = os.path.join(w.scratch, "in.cfg")
        lib.write_file(inp, conf_file(w, final, "lab"))
        argv = [inp]
    elif which == "resoln":
        from disc_solver.solve.resolve import main
        inp = os.path.join(w.scratch, "in.hdf5")
        with lib.quiet(w):
            lib.make_source(w, inp, dict(lib.DEFAULTS, num_angles="12"),
                            ["best"])
        argv = [inp, "0"]
    else:
        if which == "csvrunner":
            from disc_solver.solve.csvrunner import main
        else:
            from disc_solver.solve.hdf5runner import main
        inp = os.path.join(w.scratch, "in.csv")
        csv_file(w, [final], inp)
        argv = runner_argv(w, inp, None, "single")
    over = {k: w.pick(VALUES[k], k)
            for k in [w.pick(sorted(VALUES), "right override")
                      for _ in range(w.draw(3, "right overrides"))]}
    parts = [["--override", k, spaced(v)] for k, v in over.items()]
    wrong = w.draw(6, "no typo") != 5
    if wrong:
        typo = w.pick(TYPOS, "typo")
        value = w.pick(["1", "0.001", "x", ""], "value")
        if typo.startswith("-"):
            parts.append(["--override", " " + typo, value])
        else:
            parts.append(["--override", typo, value])
    parts = w.shuffled(parts, "order of overrides")
    argv += ["--output-dir", outdir]
    if which != "hdf5runner" and w.draw(2, "named"):
        argv += ["--output-file", out]
        if w.draw(3, "file there before") == 2:
            lib.write_file(out, "precious")
    elif which == "csvrunner":
        argv += ["--output-file", out]
    argv += [x for p in parts for x in p]
    where = f"ds-{which} {argv}"
    lib.use(scripted([dict(final, **over), lib.DEFAULTS]))
    before = lib.snapshot(w.scratch)
    w.notes.clear()
    o = lib.run_cmd(w, which, main, argv)
    after = lib.snapshot(w.scratch)
    if not wrong:
        w.count("without typo")
        return
    check(not o.ok, "typo-accepted", lambda: f"{where}: {o!r}")
    check(o.kind == "raise" and o.exc["type"] == "SolverError" and
          (typo in o.exc["text"]), "typo-report",
          lambda: f"{where}: {o!r} {(o.exc or {}).get('tb')}")
    check(after == before, "typo-file", lambda: f"{where}: changed "
          f"{[p for p in after if before.get(p) != after[p]]}")
    check(not w.records("ode"), "typo-solve",
          lambda: f"{where}: started to solve")
    w.count("typos")
    w.nontrivial = True


PROP = Prop(
    "C22",
    [Scenario("paths", paths, 110),
     Scenario("typos", typos, 40)],
    rule="A run takes one set of settings (in different ways of writing "
    "them) along two to four paths - config file, CSV row in several forms, "
    "re-solve, each with part of the settings given as overrides over other "
    "values - or gives a command a misspelt override; non-trivial when a "
    "path was compared or a typo given.",
    real=["ds-soln", "ds-resoln", "ds-csvrunner", "ds-hdf5runner",
          "settings, overrides and labels", "result files"],
    stub=["CVODE results", "worker processes are scheduled by the simulator",
          "short and failing reads of input files"],
)
