"""
Batches: inputs with scripted outcomes and what the batch commands must make
of them, computed without DiscSolver.
"""
from . import lib
from .lib import CSV_FIELDS, expected_input

NATURAL = {
    # settings that cannot be solved, each for another reason
    "complex": {"c_s_on_v_k": "3"},
    "one angle": {"num_angles": "1"},
    "two methods": {"jump_before_sonic": "0.1", "sonic_interp_size": "0.1"},
}


class Item:
    """One input of a batch and its fate."""

    def __init__(self, row, method, verdicts=None, natural=None):
        self.row = row
        self.method = method
        self.verdicts = verdicts or []
        self.natural = natural
        self.found, self.final, self.attempts = outcome(self)


def step_model(γ0, verdicts, num_attempts=100, max_search=20):
    """
    The documented rule of the stepping search.
    Returns (status, list of parameters attempted, index of the final one);
    status: "found", "none" (search ended without), "error" (solver error).
    """
    step = 0.1 * γ0
    γ = γ0
    first = None
    changed = False
    searched = 0
    tried = []
    for n in range(num_attempts):
        v = verdicts[min(n, len(verdicts) - 1)]
        if v == "error":
            return "error", tried, None
        tried.append(γ)
        if v == "best":
            return "found", tried, n
        diverge = v == "diverge"
        if not changed:
            searched += 1
            if searched > max_search:
                return "none", tried, None
            if first is None:
                first = diverge
            elif first != diverge:
                changed = True
                step /= 2
        else:
            step /= 2
        new = γ - step if diverge else γ + step
        if new == γ:
            if diverge:
                return "found", tried, n
            bigger = 0.0
            while new == γ:
                bigger += step
                new += bigger
        γ = new
    return "none", tried, None


def outcome(item):
    """(found a final solution, its settings, settings of all attempts)."""
    want = expected_input(item.row)
    if item.natural:
        return False, None, []
    if item.method == "single":
        if item.verdicts and item.verdicts[0] == "error":
            return False, None, []
        return True, want, [want]
    if item.method == "step":
        status, tried, last = step_model(want["γ"], item.verdicts)
        attempts = [dict(want, γ=g) for g in tried]
        if status == "found":
            return True, attempts[last], attempts
        return False, None, attempts
    raise AssertionError(item.method)


def gen_verdicts(w, method, errors=True):
    kinds = ["best", "sign", "diverge", "fail"]
    if method == "single":
        k = w.wpick([("best", 3), ("sign", 2), ("diverge", 2), ("fail", 1),
                     ("flag", 2)] +
                    ([("error", 2)] if errors else []), "how solving ends")
        if k == "flag":
            return [("flag", w.pick(lib.FAIL_FLAGS, "flag"),
                     w.between(1, 12, "points before failing"))]
        return [k]
    n = w.wpick([(1, 3), (2, 3), (3, 2), (5, 2), (9, 1)],
                "attempts of the search")
    out = []
    for _ in range(n - 1):
        out.append(w.pick(kinds[1:], "verdict"))
    # the last verdict is repeated: for "sign" after a change of verdict the
    # search would take very long (it looks for ever smaller steps)
    last = [("best", 6), ("diverge", 1)]
    if "diverge" not in out:
        last.append(("sign", 1))
    if errors:
        last.append(("error", 2))
    out.append(w.wpick(last, "last verdict"))
    return out


def gen_batch(w, method, max_items=7, errors=True, natural=True, simple=False):
    n = w.between(0, max_items, "number of inputs")
    items = []
    for i in range(n):
        row = lib.gen_row(w, i, simple=simple)
        nat = None
        if natural and errors and w.chance(12, "unsolvable input"):
            nat = w.pick(sorted(NATURAL), "why unsolvable")
            row.update(NATURAL[nat])
        items.append(Item(row, method, gen_verdicts(w, method, errors), nat))
        w.note(f"input {row['stop']}: {items[-1].verdicts} {nat} "
               f"angles {row['num_angles']} γ {row['γ']}: "
               f"{'solution' if items[-1].found else 'no solution'} expected")
    return items


def scripts(items):
    s = lib.Scripts()
    for it in items:
        s.set(it.row["stop"], it.verdicts)
    return s


def expected_rows(items):
    return [it.final for it in items if it.found]


def check_rows(items_final, rows, header, cls="wrong-rows", tol=1e-11):
    """rows: as read from the CSV file, header: its header."""
    have = [dict(zip(header, r)) for r in rows]
    lib.check(
        len(have) == len(items_final), cls + "-count",
        lambda: f"{len(have)} rows, should be {len(items_final)}: stops "
        f"{[r.get('stop') for r in have]} should be "
        f"{[f['stop'] for f in items_final]}")
    for n, (r, want) in enumerate(zip(have, items_final)):
        check_row(r, want, f"row {n}", cls, tol)


def check_row(r, want, where, cls="wrong-rows", tol=1e-11):
    lib.check(set(r) >= set(CSV_FIELDS), cls,
              lambda: f"{where}: no column {set(CSV_FIELDS) - set(r)}")
    for k in CSV_FIELDS:
        v = lib.interpret(k, r[k])
        x = want[k]
        ok = lib.same_setting(k, v, x)
        if not ok and isinstance(v, float) and isinstance(x, float):
            ok = abs(v - x) <= tol * max(abs(v), abs(x))
        lib.check(ok, cls, lambda: f"{where}: {k} is {v!r}, should be {x!r}")
