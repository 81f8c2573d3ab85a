"""
Simulated processes: forked, real memory isolation, run in lockstep.

A simulated process stops at every seam (world.point) until the process that
started it lets it continue, so exactly one process of a simulated execution
runs at any time and the order is decided by the tape.
"""
import atexit
import os
import pickle
import resource
import signal
import sys
import threading
import traceback
from multiprocessing import connection as _mpc

from . import world as W

CPU_LIMIT = 40       # of a simulated process
_PARENT_ENDS = []  # ends of pipes to processes we started; closed after fork


class Outcome:
    """How a simulated process ended."""
    # kind: "return", "raise", "killed"
    def __init__(self, kind, value=None, exc=None, code=None):
        self.kind = kind
        self.value = value
        self.exc = exc
        self.code = code

    @property
    def ok(self):
        return self.kind == "return" and self.code == 0

    def __repr__(self):
        if self.kind == "raise":
            return f"raised {self.exc['type']}: {self.exc['text']}"
        if self.kind == "return":
            return f"returned {self.value!r} (exit status {self.code})"
        return "killed"


def describe_exception(e):
    chain = []
    c = e.__context__
    n = 0
    while c is not None and n < 5:
        chain.append(type(c).__name__)
        c = c.__context__
        n += 1
    try:
        text = str(e)
    except Exception:  # pylint: disable=broad-except
        text = "<unprintable>"
    return {
        "type": type(e).__name__,
        "mro": [t.__name__ for t in type(e).__mro__],
        "text": text[:2000],
        "errno": getattr(e, "errno", None),
        "context": chain,
        "tb": "".join(traceback.format_exception(e))[-4000:],
    }


def _exit_status(kind, value):
    """What sys.exit(main()) would give."""
    if kind == "raise":
        return 1
    if value is None:
        return 0
    if isinstance(value, (bool, int)):
        return int(value) & 0xff
    return 1


class SimProcess:
    """
    A process under the control of the world `w` of the calling process.

    exclusive: the caller runs nothing else until it has ended (`run`);
    otherwise the caller steps it (`step`) among others.
    """

    def __init__(self, w, name, fn, stream=None, at_exit=True):
        self.w = w
        self.name = name
        self.ended = False
        self.outcome = None
        self.pending = False   # waits at a point, reply not yet sent
        self.reply = None
        self.messages = []     # non-control messages (pool results)
        self.last_kind = "start"
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except Exception:  # pylint: disable=broad-except
                pass
        mine, theirs = _mpc.Pipe()
        pid = os.fork()
        if pid == 0:
            try:
                hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
                resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, hard))
                mine.close()
                for c in _PARENT_ENDS:
                    try:
                        c.close()
                    except OSError:
                        pass
                _PARENT_ENDS.clear()
                rw = W.RemoteWorld(theirs, name, stream or name, w.scratch)
                W.set_current(rw)
                self._child(rw, theirs, fn, at_exit)
            finally:
                os._exit(99)
        theirs.close()
        _PARENT_ENDS.append(mine)
        self.pid = pid
        self.conn = mine

    @staticmethod
    def _child(rw, conn, fn, at_exit):
        from . import seams
        # nothing happens before the first scheduling decision
        rw._point("start", "")
        seams.process_started(rw)
        try:
            value = fn()
            kind, exc = "return", None
        except SystemExit as e:
            kind, value, exc = "return", e.code, None
        except BaseException as e:  # pylint: disable=broad-except
            kind, value, exc = "raise", None, describe_exception(e)
        code = _exit_status(kind, value)
        if at_exit:
            # what the interpreter does at exit
            try:
                threading._shutdown()
            except BaseException:  # pylint: disable=broad-except
                pass
            try:
                atexit._run_exitfuncs()
            except BaseException:  # pylint: disable=broad-except
                pass
            seams.exit_flush()
        for s in (sys.stdout, sys.stderr):
            try:
                s.flush()
            except BaseException:  # pylint: disable=broad-except
                if kind == "return" and code == 0:
                    code = 120  # as the interpreter does
        try:
            payload = pickle.dumps((kind, value, exc, code))
        except Exception:  # pylint: disable=broad-except
            payload = pickle.dumps((kind, repr(value), exc, code))
        conn.send(("end", payload))
        try:
            conn.recv()
        except (EOFError, OSError):
            pass
        os._exit(0)

    def step(self):
        """Let it run up to its next point (or its end, or a message)."""
        assert not self.ended
        if self.pending:
            self.pending = False
            self._send(("go", self.reply))
        while True:
            try:
                msg = self.conn.recv()
            except (EOFError, ConnectionResetError):
                return self._finish(Outcome("killed", code=W.KILL_STATUS))
            tag = msg[0]
            if tag == "rpc":
                name, args = msg[1], msg[2]
                if name == "for":
                    actor, name, args = args
                else:
                    actor = self.name
                self._send(("go", self.w.service(actor, name, args)))
            elif tag == "point":
                self.last_kind = msg[1]
                self.reply = self.w.service(self.name, "point", (msg[1], msg[2]))
                self.pending = True
                return None
            elif tag == "end":
                kind, value, exc, code = pickle.loads(msg[1])
                return self._finish(Outcome(kind, value, exc, code))
            else:
                self.messages.append(msg)
                self.last_kind = tag
                # the message is delivered; the process goes on when stepped
                self.reply = None
                self.pending = True
                return None

    def _send(self, msg):
        try:
            self.conn.send(msg)
        except (BrokenPipeError, ConnectionResetError):
            pass

    def _finish(self, outcome):
        self.ended = True
        self.outcome = outcome
        try:
            self.conn.close()
        except OSError:
            pass
        if self.conn in _PARENT_ENDS:
            _PARENT_ENDS.remove(self.conn)
        status = 0
        try:
            _, status = os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        if status & 0x7f == signal.SIGXCPU and isinstance(self.w, W.RootWorld):
            raise W.Violation("no-progress", f"{self.name} used more than "
                              f"{CPU_LIMIT} s of CPU and did not end")
        return outcome

    def kill(self):
        if not self.ended:
            self._send(("stop", None))
            # it may be blocked in a send; closing our end makes that fail
            self._finish(Outcome("killed", code=W.KILL_STATUS))

    def run(self):
        while not self.ended:
            self.step()
        return self.outcome


def run_process(w, name, fn, **kw):
    """Run fn in a simulated process of its own, nothing else meanwhile."""
    return SimProcess(w, name, fn, **kw).run()


def run_concurrently(w, procs, before=None):
    """
    Interleave the given processes as the tape decides: any time another one,
    in bursts, or with one that is held up at some moment till the others
    have ended (before: an operation before which that often happens).
    """
    style = w.wpick([("any", 3), ("bursts", 2), ("one is held up", 2),
                     ("one is held up before an operation", 3)],
                    "how processes interleave")
    victim, moment, burst, op = None, 0, 0, None
    if style.startswith("one is held up"):
        victim = procs[w.draw(len(procs), "which is held up")]
        if style == "one is held up":
            moment = w.draw(w.pick([8, 30, 120], "about when"), "when")
        else:
            op = before if before and w.draw(2, "elsewhere") == 0 else \
                w.wpick([("h5.open", 4), ("file.open", 2), ("h5.close", 1),
                          ("file.write", 2), ("file.close", 1)],
                         "before which operation")
            moment = w.between(1, 3, "before which of them")
    p = None
    while True:
        alive = [p for p in procs if not p.ended]
        if not alive:
            return [p.outcome for p in procs]
        ready = alive
        held = moment <= 0 if op is None else \
            w.reached.get((victim.name, op), 0) >= moment
        if victim is not None and held and len(alive) > 1:
            ready = [p for p in alive if p is not victim]
        if burst <= 0 or p not in ready:
            p = ready[w.draw(len(ready), "which process runs")]
            burst = w.pick([1, 3, 10, 40, 150], "for how many steps") \
                if style == "bursts" else 1
        burst -= 1
        if p is victim and op is None:
            moment -= 1
        p.step()
