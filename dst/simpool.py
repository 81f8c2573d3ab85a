"""
A simulated multiprocessing.Pool.

Same observable semantics as the real one (fork at creation, one pickle per
task, chunks, results by index, close/join/terminate), but the workers are
simulated processes and the tape decides which of them runs when.
"""
import itertools
import multiprocessing as _mp
import os
import pickle
from collections import deque
from multiprocessing.pool import MaybeEncodingError

from . import procs, simode
from . import world as W

DEFAULT_WORKERS = 3
START_FAULT = None      # exception to raise instead of starting workers
ITEM = None             # what the worker works on at present
ON_ITEM = None          # called when a process begins work on an item
WAITING = None          # called with the pool while its owner waits
ALL_POOLS = []          # pools created in this OS process (reset per process)


def input_in(item):
    """The input row in what a task was given."""
    if isinstance(item, dict):
        return dict(item)
    if isinstance(item, (list, tuple)):
        for x in item:
            x = input_in(x)
            if x is not None:
                return x
    return None


def begin_item(item):
    """The current process begins work on an item (for policies)."""
    global ITEM
    ITEM = input_in(item)
    simode.ITEM_CALLS = 0
    if ON_ITEM is not None:
        ON_ITEM(ITEM)
    w = W.current()
    if ITEM is not None and "stop" in ITEM and not w.silent:
        w.record("item", ITEM["stop"])


def hang(why):
    """The real pool would wait for ever here: wait for the operator's kill."""
    w = W.current()
    w.record("hang", why)
    w.event("HANG", why)
    os._exit(W.KILL_STATUS)


class _Batch:
    def __init__(self, n):
        self.n = n
        self.results = {}


class SimPool:
    _ids = itertools.count(1)

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        # pylint: disable=unused-argument
        self.w = W.current()
        if processes is None:
            processes = DEFAULT_WORKERS
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.w.point("pool.start", processes)
        if START_FAULT is not None:
            self.w.fault("pool.start:" + type(START_FAULT).__name__)
            raise START_FAULT
        self.processes = processes
        self.maxtasks = maxtasksperchild
        self.initializer = (initializer, initargs)
        self.queue = deque()
        self.state = "run"
        self.workers = []
        self.busy = {}
        self.completion_order = []
        self.lost = 0
        # one worker may be held up at some moment while the others go on
        self.held, self.moment = None, 0
        if processes > 1 and self.w.draw(3, "one worker is held up") == 2:
            self.held = self.w.draw(processes, "which worker")
            self.moment = self.w.draw(
                self.w.pick([6, 20, 60], "about when"), "when")
        for _ in range(processes):
            self._new_worker()
        self.w.pools.append(self)
        ALL_POOLS.append(self)

    # -- workers
    def _new_worker(self):
        i = next(SimPool._ids)
        name = f"ForkPoolWorker-{i}"
        init, initargs = self.initializer
        maxtasks = self.maxtasks
        me = os.getpid()

        def body():
            rw = W.current()
            del ALL_POOLS[:]
            _mp.current_process()._name = name
            _mp.current_process()._parent_pid = me
            if init is not None:
                init(*initargs)
            done = 0
            while maxtasks is None or done < maxtasks:
                rw.conn.send(("idle",))
                tag, task = rw.conn.recv()
                if tag == "stop" or task is None:
                    break
                key, blob = task
                try:
                    fn, items, star = pickle.loads(blob)
                    out = []
                    for a in items:
                        begin_item(a)
                        out.append(fn(*a) if star else fn(a))
                    res = (True, out)
                except Exception as e:  # pylint: disable=broad-except
                    res = (False, e)
                try:
                    data = pickle.dumps(res)
                except Exception as e:  # pylint: disable=broad-except
                    data = pickle.dumps(
                        (False, MaybeEncodingError(e, res[1])))
                rw.point("task.done", "")
                rw.conn.send(("result", key, data))
                tag, _ = rw.conn.recv()
                if tag == "stop":
                    break
                done += 1
            return None

        base = self.w.actor if self.w.actor != "root" else ""
        p = procs.SimProcess(
            self.w, (base + "/" if base else "") + f"w{len(self.workers)}",
            body, stream=self.w.stream, at_exit=False)
        p.state = "starting"
        self.workers.append(p)

    def _runnable(self):
        out = []
        for p in self.workers:
            if p.ended:
                continue
            if p.state == "idle" and not self.queue and self.state == "run":
                continue
            if p.state == "idle" and not self.queue and self.state == "closed":
                out.append(p)   # takes its sentinel and ends
                continue
            out.append(p)
        return out

    def _step(self, p):
        if p.state == "idle":
            if self.queue:
                key, blob = self.queue.popleft()
                p.reply = (key, blob)
                self.busy[p] = key
                p.state = "busy"
                self.w.note(f"{p.name} takes task {key[1]}")
            else:
                p.reply = None
                p.state = "busy"
        p.step()
        if p.ended:
            if p in self.busy:
                self.lost += 1      # as in the real pool: the task is gone
                del self.busy[p]
            if self.state == "run" or (self.state == "closed" and self.queue):
                self._new_worker()  # the real pool replaces the worker
            return
        while p.messages:
            msg = p.messages.pop(0)
            if msg[0] == "idle":
                p.state = "idle"
            elif msg[0] == "result":
                _, key, data = msg
                self.busy.pop(p, None)
                batch, idx = self.batches[key[0]], key[1]
                batch.results[idx] = pickle.loads(data)
                self.completion_order.append(key)

    batches = None
    joined = False

    def pump(self):
        """Called at every point of the process that owns the pool."""
        n = self.w.draw(6, "steps of workers before the owner goes on")
        for _ in range(n):
            r = self._runnable()
            if not r:
                return
            self._step(self._choose(r))

    def _choose(self, r):
        """Which of the workers r runs next."""
        if self.held is not None and self.moment <= 0 and len(r) > 1:
            r = [p for p in r if p is not self.workers[self.held]]
        p = r[self.w.draw(len(r), "which worker runs")]
        if self.held is not None and p is self.workers[self.held]:
            self.moment -= 1
        return p

    def _wait_for(self, cond):
        while not cond():
            if WAITING is not None:
                WAITING(self)
            r = self._runnable()
            if not r:
                hang("waiting for a result that no worker will ever deliver")
            self._step(self._choose(r))
            if hasattr(self.w, "let_others"):
                self.w.let_others()

    # -- submitting
    def _submit(self, fn, items, star=False, chunksize=1):
        if self.state != "run":
            raise ValueError("Pool not running")
        if self.batches is None:
            self.batches = []
        chunks = []
        it = iter(items)
        while True:
            c = list(itertools.islice(it, chunksize))
            if not c:
                break
            chunks.append(c)
        b = _Batch(len(chunks))
        bid = len(self.batches)
        self.batches.append(b)
        for i, c in enumerate(chunks):
            try:
                blob = pickle.dumps((fn, c, star))
            except Exception as e:  # pylint: disable=broad-except
                b.results[i] = (False, e)
                continue
            self.queue.append(((bid, i), blob))
        return b

    def first_done(self):
        """How many inputs are done before the first that is not."""
        n = 0
        for b in self.batches or []:
            for i in range(b.n):
                if i not in b.results:
                    return n
                ok, value = b.results[i]
                n += len(value) if ok else 1
        return n

    def _default_chunk(self, n):
        chunk, extra = divmod(n, self.processes * 4)
        return max(1, chunk + (1 if extra else 0))

    # -- public interface
    def imap(self, func, iterable, chunksize=1):
        b = self._submit(func, iterable, chunksize=chunksize)
        return _Iter(self, b, ordered=True)

    def imap_unordered(self, func, iterable, chunksize=1):
        b = self._submit(func, iterable, chunksize=chunksize)
        return _Iter(self, b, ordered=False)

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None, star=False):
        items = list(iterable)
        b = self._submit(func, items, star=star,
                         chunksize=chunksize or self._default_chunk(len(items)))
        return _Async(self, b, callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self.map_async(func, iterable, chunksize, callback,
                              error_callback, star=True)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds=None, callback=None,
                    error_callback=None):
        call = _Call(func, kwds or {})
        b = self._submit(call, [tuple(args)], star=True)
        return _Async(self, b, callback, error_callback, single=True)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        if self.state == "run":
            self.state = "closed"

    def terminate(self):
        self.state = "terminated"
        self.queue.clear()
        for p in self.workers:
            p.kill()

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        while True:
            r = self._runnable()
            if not r:
                break
            self._step(self._choose(r))
            if hasattr(self.w, "let_others"):
                self.w.let_others()
        if self in self.w.pools:
            self.w.pools.remove(self)
        self.joined = True
        if self.lost and self.state == "closed":
            hang("join waits for a task whose worker died")

    def __enter__(self):
        if self.state != "run":
            raise ValueError("Pool not running")
        return self

    def __exit__(self, *exc):
        self.terminate()


class _Call:
    def __init__(self, func, kwds):
        self.func = func
        self.kwds = kwds

    def __call__(self, *args):
        return self.func(*args, **self.kwds)


class _Iter:
    def __init__(self, pool, batch, ordered):
        self.pool = pool
        self.b = batch
        self.ordered = ordered
        self.i = 0
        self.buffer = deque()
        self.given = set()

    def __iter__(self):
        return self

    def __next__(self):
        if self.buffer:
            return self.buffer.popleft()
        if self.i >= self.b.n:
            raise StopIteration
        self.pool.w.point("pool.next", self.i)
        if self.ordered:
            k = self.i
            self.pool._wait_for(lambda: k in self.b.results)
        else:
            self.pool._wait_for(
                lambda: any(j not in self.given for j in self.b.results))
            k = next(j for j in self.b.results if j not in self.given)
        self.given.add(k)
        self.i += 1
        ok, value = self.b.results[k]
        if not ok:
            raise value
        self.buffer.extend(value)
        return self.buffer.popleft()

    def next(self, timeout=None):
        # pylint: disable=unused-argument
        return self.__next__()


class _Async:
    def __init__(self, pool, batch, callback, error_callback, single=False):
        self.pool = pool
        self.b = batch
        self.single = single
        self.callback = callback
        self.error_callback = error_callback
        self.called = False

    def ready(self):
        self.pool.w.point("pool.ready", "")
        return len(self.b.results) >= self.b.n

    def wait(self, timeout=None):
        # pylint: disable=unused-argument
        self.pool._wait_for(lambda: len(self.b.results) >= self.b.n)

    def successful(self):
        return all(ok for ok, _ in self.b.results.values())

    def get(self, timeout=None):
        # pylint: disable=unused-argument
        self.wait()
        out = []
        for i in range(self.b.n):
            ok, value = self.b.results[i]
            if not ok:
                if self.error_callback and not self.called:
                    self.called = True
                    self.error_callback(value)
                raise value
            out.extend(value)
        value = out[0] if self.single else out
        if self.callback and not self.called:
            self.called = True
            self.callback(value)
        return value


def Pool(processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    return SimPool(processes, initializer, initargs, maxtasksperchild)
