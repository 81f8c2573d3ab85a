"""
The simulated world: one tape of choices decides everything.

Every source of nondeterminism asks `draw(n)` for a number in [0, n); 0 is
always the simplest choice (no fault, first actor, smallest size).  The numbers
drawn form the *tape*: a seed generates one, a replay file contains one.

There is one RootWorld per simulated execution.  Code under test runs in
simulated processes (forked, in lockstep: exactly one of them runs at any time,
see procs.py); those use a RemoteWorld, which forwards every request to the
process that started them and so finally to the root.
"""
import errno
import hashlib
import os
import random
from collections import Counter

KILL_STATUS = 137
PENDING_WORLD = None  # world of this OS process; None outside simulations


def current():
    return PENDING_WORLD


def set_current(w):
    global PENDING_WORLD
    PENDING_WORLD = w
    return w


class Violation(Exception):
    """A property does not hold in this execution."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class Discard(Exception):
    """This tape does not describe a usable execution (only while shrinking)."""


class StepLimit(Violation):
    pass


def check(cond, cls, msg=""):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)


class RandomSource:
    def __init__(self, seed):
        self._r = random.Random(seed)

    def next(self, n):
        return self._r.randrange(n)


class TapeSource:
    def __init__(self, tape):
        self._t = list(tape)
        self._i = 0

    def next(self, n):
        if self._i >= len(self._t):
            return 0
        v = self._t[self._i]
        self._i += 1
        return v % n


class World:
    """What code in any simulated process may ask for."""
    stream = "main"
    scratch = None
    silent = False   # this process takes no part in the simulation

    # -- helpers on top of draw
    def chance(self, percent, label=""):
        """True with the given probability in percent; 0 means False."""
        return self.draw(100, label) >= 100 - percent

    def pick(self, seq, label=""):
        seq = list(seq)
        return seq[self.draw(len(seq), label)]

    def between(self, lo, hi, label=""):
        return lo + self.draw(hi - lo + 1, label)

    def wpick(self, pairs, label=""):
        """Weighted choice; the first entry is the simplest one."""
        total = sum(wt for _, wt in pairs)
        v = self.draw(total, label)
        for item, wt in pairs:
            if v < wt:
                return item
            v -= wt
        raise AssertionError

    def rel(self, path):
        path = os.fspath(path)
        if self.scratch and path.startswith(self.scratch):
            return "$S" + path[len(self.scratch):]
        return path

    # -- scheduling / fault points
    def point(self, kind, detail=""):
        """
        An operation is about to happen here.  Other processes may run first,
        and a fault may be injected: most directives are carried out at once,
        the ones particular to an operation are returned to the caller.
        """
        if self.silent:
            return None
        self.background()
        return self.obey(self._point(kind, str(detail)))

    def shuffled(self, seq, label=""):
        """The same in an order from the tape (as it is for zeros)."""
        rest, out = list(seq), []
        while rest:
            out.append(rest.pop(self.draw(len(rest), label)))
        return out

    def background(self):
        """Let processes this process has started run for a while."""
        for pool in list(self.pools):
            pool.pump()

    def obey(self, d):
        if d is None:
            return None
        what = d[0]
        if what == "kill":
            os._exit(KILL_STATUS)
        if what == "oserror":
            raise OSError(d[1], os.strerror(d[1]) + " (injected)")
        if what == "exc":
            raise d[1]
        if what == "interrupt":
            raise KeyboardInterrupt("injected")
        return d


class RootWorld(World):
    def __init__(self, source, scratch, step_limit=200000, keep_log=False):
        self.source = source
        self.scratch = scratch
        self.tape = []
        self.labels = []
        self.log = []
        self.keep_log = keep_log
        self._h = hashlib.blake2b(digest_size=12)
        self.steps = 0
        self.step_limit = step_limit
        self.t0 = self.time = 1_600_000_000.0
        self.clock_policy = None
        self.faults = Counter()
        self.counts = Counter()
        self.kinds = Counter()
        self.hook = None
        self.streams = {}
        self.inputs = []
        self.pools = []
        self.actor = "root"
        self.nontrivial = False
        self.sched = hashlib.blake2b(digest_size=8)
        self._np_seed = 0
        self.procs_alive = 0
        self.children = []
        self.notes = []
        self.reached = {}     # (process with its workers, operation): count
        self.inject_exceptions = []

    # -- choices
    def draw(self, n, label=""):
        if n <= 1:
            return 0
        v = self.source.next(n)
        self.tape.append(v)
        if self.keep_log:
            self.log.append(f"      choice {label or '?'} = {v} of {n}")
        return v

    # -- history
    def event(self, actor, kind, detail=""):
        line = f"{actor} {kind} {detail}".replace(self.scratch, "$S")
        self._h.update(line.encode("utf-8", "replace") + b"\n")
        self.kinds[kind] += 1
        if self.keep_log:
            self.log.append(f"{self.steps:6d} {self.time - self.t0:12.6f} {line}")

    def note(self, text):
        text = str(text)
        if self.scratch:
            text = text.replace(self.scratch, "$S")
        self._h.update(text.encode("utf-8", "replace"))
        if self.keep_log:
            self.log.append(f"       -- {text}")

    def digest(self):
        return self._h.hexdigest()

    def _point(self, kind, detail, actor=None):
        actor = actor or self.actor
        self.steps += 1
        if self.steps > self.step_limit:
            raise StepLimit("no-progress",
                            f"execution did not end within {self.step_limit} steps")
        self.event(actor, kind, detail)
        key = (actor.split("/")[0], kind)
        self.reached[key] = self.reached.get(key, 0) + 1
        d = self.hook(actor, kind, detail) if self.hook else None
        if d is not None:
            name = d[0]
            if name == "oserror":
                name = errno.errorcode.get(d[1], str(d[1]))
            elif name == "exc":
                name = "exc:" + type(d[1]).__name__
            self.faults[f"{kind}:{name}"] += 1
            self.event(actor, "FAULT", f"{kind} {name}")
        return d

    def fault(self, name, n=1):
        """Count a fault injected by a scenario itself."""
        self.faults[name] += n
        self.event("sim", "FAULT", name)

    # -- services for simulated processes
    def service(self, actor, name, args):
        if name == "draw":
            return self.draw(*args)
        if name == "point":
            return self._point(*args, actor=actor)
        if name == "now":
            return self.now(actor)
        if name == "out":
            return self.out(*args)
        if name == "event":
            return self.event(actor, *args)
        if name == "input":
            return self.next_input()
        if name == "npseed":
            return self.np_seed()
        if name == "count":
            self.counts[args[0]] += args[1]
            return None
        if name == "note":
            return self.note(f"{actor}: {args[0]}")
        if name == "fault":
            return self.fault(*args)
        if name == "record":
            self.notes.append((actor, *args))
            return None
        raise AssertionError(name)

    def now(self, actor=None):
        if self.clock_policy is None:
            self.time += 0.000137
        else:
            self.time += self.clock_policy(self, actor or self.actor)
        return self.time

    def out(self, stream, fd, data):
        self.streams.setdefault((stream, fd), bytearray()).extend(data)
        return len(data)

    def output(self, stream, fd=1):
        return bytes(self.streams.get((stream, fd), b"")).decode("utf-8", "replace")

    def next_input(self):
        if self.inputs:
            return self.inputs.pop(0)
        return None

    def np_seed(self):
        self._np_seed += 1
        return self.seed_base + self._np_seed

    seed_base = 0

    def count(self, name, n=1):
        self.counts[name] += n

    def record(self, *args):
        self.notes.append((self.actor, *args))

    def records(self, kind):
        return [n for n in self.notes if n[1] == kind]


class RemoteWorld(World):
    """World of a simulated process: asks the process that started it."""

    def __init__(self, conn, actor, stream, scratch):
        self.conn = conn
        self.actor = actor
        self.stream = stream
        self.scratch = scratch
        self.pools = []

    def rpc(self, name, *args):
        try:
            self.conn.send(("rpc", name, args))
            tag, value = self.conn.recv()
        except (EOFError, BrokenPipeError, ConnectionResetError):
            os._exit(KILL_STATUS)  # whoever started us is gone
        if tag == "stop":  # the execution as a whole has ended
            os._exit(KILL_STATUS)
        return value

    def _point(self, kind, detail):
        try:
            self.conn.send(("point", kind, detail))
            tag, value = self.conn.recv()
        except (EOFError, BrokenPipeError, ConnectionResetError):
            os._exit(KILL_STATUS)
        if tag == "stop":
            os._exit(KILL_STATUS)
        return value

    def let_others(self):
        """Processes beside this one may run now."""
        try:
            self.conn.send(("yield",))
            tag, _ = self.conn.recv()
        except (EOFError, BrokenPipeError, ConnectionResetError):
            os._exit(KILL_STATUS)
        if tag == "stop":
            os._exit(KILL_STATUS)

    def service(self, actor, name, args):
        """Forward the request of a process started by this one."""
        return self.rpc("for", actor, name, args)

    def draw(self, n, label=""):
        return 0 if n <= 1 else self.rpc("draw", n, label)

    def now(self):
        return self.rpc("now")

    def out(self, stream, fd, data):
        return self.rpc("out", stream, fd, data)

    def event(self, kind, detail=""):
        return self.rpc("event", kind, detail)

    def next_input(self):
        return self.rpc("input")

    def np_seed(self):
        return self.rpc("npseed")

    def count(self, name, n=1):
        return self.rpc("count", name, n)

    def note(self, text):
        return self.rpc("note", text)

    def fault(self, name):
        return None if self.silent else self.rpc("fault", name)

    def record(self, *args):
        return self.rpc("record", *args)
