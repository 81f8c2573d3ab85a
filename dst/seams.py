"""
The seams: every source of nondeterminism and every fallible outside service
DiscSolver uses, replaced at library level, before disc_solver is imported.
(No change to /repo is needed: it takes all of these from libraries.)
"""
import builtins
import errno
import io
import os
import sys
import weakref

from . import world as W

REAL_OPEN = builtins.open
REAL_INPUT = builtins.input
INSTALLED = False
OPEN_FILES = weakref.WeakSet()
OPEN_H5 = {}          # id -> name, of this process
# which HDF5 operations are points (opening and closing a file always are)
H5_ALL = frozenset(("write", "group", "link", "read", "lookup", "attr"))
H5_POINTS = frozenset(("write",))
STDIN_LINES = []
CURRENT_STREAM = None


# ---------------------------------------------------------------- streams
class _StdRaw(io.RawIOBase):
    def __init__(self, fd):
        super().__init__()
        self._fd = fd
        self._full = False

    def writable(self):
        return True

    def fileno(self):
        return self._fd

    def isatty(self):
        return False

    def write(self, b):
        b = bytes(b)
        w = W.current()
        if w is None:
            return os.write(self._fd, b)
        if self._fd == 1:
            d = w.point("out.write", len(b))
            if d is not None and d[0] == "short":
                b = b[:max(1, d[1])]
            elif d is not None and d[0] == "partial":
                if self._full or not d[1]:
                    self._full = False
                    raise OSError(errno.ENOSPC,
                                  "No space left on device (injected)")
                b = b[:d[1]]
                self._full = True
            elif self._full:
                self._full = False
                raise OSError(errno.ENOSPC,
                              "No space left on device (injected)")
        return w.out(w.stream, self._fd, b)


class _Stdin:
    """Standard input with scripted content."""
    encoding = "utf-8"

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readline(self, *a):
        # pylint: disable=unused-argument
        if STDIN_LINES:
            return STDIN_LINES.pop(0)
        return ""

    def read(self, *a):
        # pylint: disable=unused-argument
        out = "".join(STDIN_LINES)
        STDIN_LINES.clear()
        return out

    def readlines(self):
        out = list(STDIN_LINES)
        STDIN_LINES.clear()
        return out

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def close(self):
        pass


def make_std_streams():
    sys.stdout = io.TextIOWrapper(
        io.BufferedWriter(_StdRaw(1)), encoding="utf-8")
    sys.stderr = io.TextIOWrapper(
        io.BufferedWriter(_StdRaw(2)), encoding="utf-8", line_buffering=True,
        errors="backslashreplace")
    sys.stdin = _Stdin()


def sim_input(prompt=""):
    w = W.current()
    if w is None:
        return REAL_INPUT(prompt)
    print(prompt, end="")
    w.point("input", "")
    line = w.next_input()
    if line is None:
        raise EOFError("EOF when reading a line")
    return line


# ---------------------------------------------------------------- files
class SimRaw(io.FileIO):
    """A raw file: each write that reaches the operating system is a point."""

    def __init__(self, name, mode):
        w = W.current()
        self._simname = w.rel(os.path.abspath(name))
        w.point("file.open", f"{self._simname} {mode}")
        super().__init__(name, mode)
        self._simclosed = False
        self._full = False

    def write(self, b):
        w = W.current()
        b = bytes(b)
        if w is None:
            return super().write(b)
        d = w.point("file.write", f"{self._simname} {len(b)}")
        if self._full:
            self._full = False
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if d is not None:
            if d[0] == "short":       # legal: fewer bytes than asked for
                return super().write(b[:max(1, min(len(b), d[1]))])
            if d[0] == "partial":     # disk full in the middle: what fits is
                # written, the write of the rest fails
                if d[1] and len(b) > 1:
                    self._full = True
                    return super().write(b[:min(len(b) - 1, d[1])])
                raise OSError(errno.ENOSPC,
                              "No space left on device (injected)")
            if d[0] == "partialkill":
                super().write(b[:min(len(b), d[1])])
                os._exit(W.KILL_STATUS)
        n = super().write(b)
        return n

    def readinto(self, b):
        w = W.current()
        if w is not None:
            d = w.point("file.read", self._simname)
            if d is not None and d[0] == "short":     # legal: fewer bytes
                return super().readinto(memoryview(b)[:max(1, d[1])])
        return super().readinto(b)

    def readall(self):
        w = W.current()
        if w is not None:
            w.point("file.read", self._simname)
        return super().readall()

    def close(self):
        if self.closed:
            return
        w = W.current()
        err = None
        if w is not None and not getattr(self, "_simclosed", True):
            self._simclosed = True
            try:
                w.point("file.close", self._simname)
            except OSError as e:
                err = e
        super().close()
        if err is not None:
            raise err


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    w = W.current()
    if (
        w is None or not isinstance(file, (str, os.PathLike)) or
        opener is not None or w.scratch is None or
        not os.path.abspath(os.fspath(file)).startswith(w.scratch)
    ):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    binary = "b" in mode
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimRaw(os.fspath(file), rawmode)
    try:
        if binary and buffering == 0:
            return raw
        line_buffering = buffering == 1 and not binary
        size = 8192 if buffering in (-1, 0, 1) else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif rawmode[0] == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            OPEN_FILES.add(buf)
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                                line_buffering)
        text.mode = mode
        OPEN_FILES.add(text)
        return text
    except BaseException:
        raw.close()
        raise


# ---------------------------------------------------------------- clock
def _install_clock():
    import arrow

    def now(tz=None):
        w = W.current()
        if w is None:
            return _real_now(tz) if tz is not None else _real_now()
        t = w.now()
        w.point("clock", "")
        return arrow.Arrow.fromtimestamp(t, tzinfo=tz or "UTC")

    def utcnow():
        return now("UTC")

    _real_now = arrow.now
    arrow.now = now
    arrow.utcnow = utcnow
    arrow.Arrow.utcnow = staticmethod(utcnow)
    # arrow.now and Arrow.now are separate entry points to the same clock
    arrow.Arrow.now = staticmethod(now)


# ---------------------------------------------------------------- randomness
def _install_random():
    import numpy.random
    real = numpy.random.mtrand.RandomState

    class SimRandomState(real):
        def __init__(self, seed=None):
            w = W.current()
            if seed is None and w is not None:
                seed = w.np_seed() % (2 ** 32)
            super().__init__(seed)

    numpy.random.mtrand.RandomState = SimRandomState
    numpy.random.RandomState = SimRandomState
    real_rng = numpy.random.default_rng

    def default_rng(seed=None):
        w = W.current()
        if seed is None and w is not None:
            seed = w.np_seed() % (2 ** 32)
        return real_rng(seed)

    numpy.random.default_rng = default_rng


# ---------------------------------------------------------------- sampler
SAMPLED = None       # list of (parameters, probability), when wanted
MOVE = None          # puts a proposal elsewhere


def _install_sampler():
    """The real sampler, with a record of what it asked and was told."""
    import emcee
    import emcee.ensemble
    real = emcee.EnsembleSampler

    class SimSampler(real):
        def __init__(self, nwalkers, ndim, log_prob_fn, *a, **k):
            def fn(x, *args, **kw):
                if SAMPLED is None:
                    return log_prob_fn(x, *args, **kw)
                if MOVE is not None:
                    x = MOVE(len(SAMPLED), x)
                rec = [[float(v) for v in x], None]
                SAMPLED.append(rec)
                p = log_prob_fn(x, *args, **kw)
                rec[1] = float(p)
                return p
            super().__init__(nwalkers, ndim, fn, *a, **k)

    emcee.EnsembleSampler = SimSampler
    emcee.ensemble.EnsembleSampler = SimSampler


# ---------------------------------------------------------------- root solver
def _install_root():
    """The real root solver, with a record of whether it converged."""
    import scipy.optimize
    real = scipy.optimize.root

    def root(*a, **k):
        w = W.current()
        r = real(*a, **k)
        if w is not None:
            w.record("root", bool(r.success))
        return r

    scipy.optimize.root = root


# ---------------------------------------------------------------- HDF5
def _install_h5():
    import h5py
    File, Group, Dataset = h5py.File, h5py.Group, h5py.Dataset
    Attrs = h5py.AttributeManager
    o_init, o_close = File.__init__, File.close
    o_ds, o_gr = Group.create_dataset, Group.create_group
    o_get, o_at = Dataset.__getitem__, Attrs.__setitem__
    o_link = Group.__setitem__
    o_grget = Group.__getitem__

    def sim(w, what):
        return w is not None and what in H5_POINTS

    def f_init(self, name, mode="r", *a, **k):
        w = W.current()
        if not isinstance(name, (str, os.PathLike)):
            return o_init(self, name, mode, *a, **k)   # not a new file
        if w is not None:
            w.point("h5.open",
                    f"{w.rel(os.path.abspath(os.fspath(name)))} {mode}")
        o_init(self, name, mode, *a, **k)
        if w is not None:
            self._sim_mode = mode
            OPEN_H5[id(self)] = (os.fspath(name), weakref.ref(self))

    def f_close(self):
        w = W.current()
        err = None
        d = None
        if w is not None and id(self) in OPEN_H5 and self.id.valid:
            name = OPEN_H5[id(self)][0]
            try:
                d = w.point("h5.close", w.rel(os.path.abspath(name)))
            except OSError as e:
                err = e
        o_close(self)
        OPEN_H5.pop(id(self), None)
        if d is not None and d[0] == "truncate":
            # what the library could not write any more is missing
            size = os.path.getsize(name)
            os.truncate(name, max(0, size - d[1]))
            raise OSError(errno.ENOSPC,
                          "Can't close file, flush failed (injected)")
        if err is not None:
            raise err

    def c_ds(self, name, *a, **k):
        w = W.current()
        if sim(w, "write"):
            w.point("h5.write", f"{name}")
        return o_ds(self, name, *a, **k)

    def c_gr(self, name, *a, **k):
        w = W.current()
        if sim(w, "group"):
            w.point("h5.group", f"{name}")
        return o_gr(self, name, *a, **k)

    def g_set(self, name, obj):
        w = W.current()
        if sim(w, "link"):
            w.point("h5.link", f"{name}")
        return o_link(self, name, obj)

    def d_get(self, *a, **k):
        w = W.current()
        if sim(w, "read"):
            w.point("h5.read", f"{self.name}")
        return o_get(self, *a, **k)

    def g_get(self, name):
        w = W.current()
        if sim(w, "lookup"):
            w.point("h5.lookup", f"{name if isinstance(name, str) else ''}")
        return o_grget(self, name)

    def a_set(self, name, value):
        w = W.current()
        if sim(w, "attr"):
            w.point("h5.attr", f"{name}")
        return o_at(self, name, value)

    File.__init__, File.close = f_init, f_close
    Group.create_dataset, Group.create_group = c_ds, c_gr
    Group.__setitem__ = g_set
    Group.__getitem__ = g_get
    Dataset.__getitem__ = d_get
    Attrs.__setitem__ = a_set


# ---------------------------------------------------------------- logging
class SimTWHController:
    """
    The background thread of a ThreadedWrapperHandler; it gets a turn when the
    tape says so, and none any more once the process has ended.
    """
    THREADS = []

    class Command:
        stop = object()
        emit = object()
        emit_batch = object()

    def __init__(self, wrapper_handler):
        self.h = wrapper_handler
        self.wrapper_handler = wrapper_handler
        self.running = False
        self.busy = False
        self.pid = None

    def start(self):
        self.running = True
        self.pid = os.getpid()
        self.stalled = 0    # turns it does not get
        SimTWHController.THREADS.append(self)
        w = W.current()
        if w is not None:
            w.pools.append(self)
            if w.draw(4, "logging thread is stalled") == 3:
                self.stalled = w.pick([5, 100, 20000], "for how long")
        q = self.h.queue
        real_put = q.put_nowait

        def put_nowait(item):
            real_put(item)
            self.turn()
        q.put_nowait = put_nowait

    def turn(self):
        w = W.current()
        if (w is None or os.getpid() != self.pid or not self.running
                or self.busy):
            return
        if self.stalled:
            self.stalled -= 1
            return
        n = w.draw(4, "records the logging thread handles now")
        self.busy = True   # it does one thing after the other
        try:
            for _ in range(n):
                if not self._one():
                    break
        finally:
            self.busy = False

    pump = turn

    def _one(self):
        import queue
        try:
            item = self.h.queue.get_nowait() if hasattr(
                self.h.queue, "get_nowait") else self.h.queue.get(block=False)
        except queue.Empty:
            return False
        command, data = item[0], item[1:]
        if command is self.Command.stop:
            self.running = False
            return False
        w = W.current()
        w.count("log.records", 1)
        if command is self.Command.emit:
            self.h.handler.emit(*data)
        else:
            self.h.handler.emit_batch(*data)
        return True

    def stop(self):
        if self.running and os.getpid() == self.pid:
            self.busy = True
            try:
                while self._one():
                    pass
            finally:
                self.busy = False
                self.running = False
            w = W.current()
            if w is not None and self in w.pools:
                w.pools.remove(self)


def _install_logging():
    import logbook.queues as q
    q.TWHThreadController = SimTWHController
    # the handlers refer to the commands through the class
    # (ThreadedWrapperHandler.emit uses TWHThreadController.Command)


def _install_pool():
    import multiprocessing
    import multiprocessing.pool
    from . import simpool
    multiprocessing.Pool = simpool.Pool
    multiprocessing.pool.Pool = simpool.SimPool
    for ctx in ("fork", "spawn", "forkserver", None):
        try:
            c = multiprocessing.get_context(ctx)
            c.Pool = simpool.Pool
        except ValueError:
            pass


def process_started(w):
    """Called in each new simulated process."""
    global CURRENT_STREAM
    import numpy.random
    CURRENT_STREAM = w.stream
    OPEN_H5.clear()
    for f in list(OPEN_FILES):
        OPEN_FILES.discard(f)
    SimTWHController.THREADS = []
    from . import simode
    simode.CALLS = []
    if "/w" not in w.actor and not w.actor.startswith("w"):
        numpy.random.seed(w.np_seed() % (2 ** 32))


def exit_flush():
    """File objects still open are flushed when the interpreter goes away."""
    for f in list(OPEN_FILES):
        try:
            f.close()
        except BaseException:  # pylint: disable=broad-except
            pass


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    assert not any(m.startswith("disc_solver") for m in sys.modules)
    import scikits.odes  # noqa: F401 pylint: disable=unused-import
    import scikits.odes.sundials  # noqa: F401 pylint: disable=unused-import
    from . import simode
    simode.install()
    make_std_streams()
    builtins.open = sim_open
    io.open = sim_open
    builtins.input = sim_input
    _install_clock()
    _install_random()
    _install_sampler()
    _install_root()
    _install_h5()
    _install_logging()
    _install_pool()
