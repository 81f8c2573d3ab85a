"""
The integrator seam: replaces scikits.odes.ode.

Without a policy the real CVODE integrator runs.  A policy decides per
integration (a "call") to
  - let CVODE run                                   -> None
  - let CVODE run but stop it early and fail         -> ("fail", flag, keep)
  - raise an exception of its own                    -> ("raise", exc)
  - replace the integration by a made-up result      -> ("stub", Stub(...))
Every call is a point of the simulation.
"""
import hashlib

import numpy as np

from . import world as W

POLICY = None
CALLS = []        # calls of this process, when recording is on
RECORD = False
COUNT = 0         # integrations started in this process
ITEM_CALLS = 0    # integrations started for the current item of a pool
REAL_ODE = None
LIMITS = ("rtol", "atol", "max_steps")


class Call:
    __slots__ = ("index", "t", "y0", "opts", "rhs", "real", "name", "of_item",
                 "evaluations", "end")

    def __init__(self, index, t, y0, opts, rhs, real, name):
        self.index = index
        self.t = t
        self.y0 = y0
        self.opts = opts
        self.rhs = rhs
        self.real = real
        self.name = name
        self.evaluations = None   # [(position, values, status)], if recorded
        self.end = None           # how it ended, if recorded

    @property
    def is_taylor(self):
        return self.opts.get("tstop") is not None

    @property
    def has_root(self):
        return self.opts.get("rootfn") is not None

    def described(self):
        """Plain form of what was asked and what came of it."""
        return dict(self.end, t0=self.t, y0=self.y0, taylor=self.is_taylor,
                    rooted=self.has_root, evaluations=self.evaluations,
                    limits={k: self.opts.get(k) for k in LIMITS})

    def signature(self):
        h = hashlib.blake2b(digest_size=8)
        h.update(np.asarray(self.t, dtype=float).tobytes())
        h.update(np.asarray(self.y0, dtype=float).tobytes())
        return h.hexdigest()


class Stub:
    """A made-up integration result."""

    def __init__(self, t, y, flag=0, root=False, rhs_points=()):
        self.t = np.asarray(t, dtype=float)
        self.y = np.asarray(y, dtype=float)
        self.flag = flag
        self.root = root
        self.rhs_points = list(rhs_points)


def _classes():
    from scikits.odes.sundials import cvode
    from scikits.odes import sundials
    return cvode, sundials


def _fail(call, flag, keep):
    """Run CVODE on part of the range, then fail as if it had broken there."""
    cvode, sundials = _classes()
    n = len(call.t)
    upto = max(1, min(n, keep))
    vals = None
    if upto >= 2:
        try:
            r = call.real.solve(call.t[:upto], call.y0)
        except (sundials.CVODESolveFailed, sundials.CVODESolveFoundRoot,
                sundials.CVODESolveReachedTSTOP) as e:
            r = e.soln
        vals = r.values
    if vals is None or vals.t is None or not len(vals.t):
        t = np.array(call.t[:1], dtype=float)
        y = np.array([call.y0], dtype=float)
    else:
        t = np.array(vals.t)
        y = np.array(vals.y)
    SV = type_of_values()
    status = cvode.StatusEnum(flag)
    err_t = float(t[-1])
    soln = make_return(
        status, SV(t=t, y=y), errors=SV(t=np.array(err_t), y=np.array(y[-1])),
        message="injected failure")
    raise sundials.CVODESolveFailed(soln)


def type_of_values():
    from scikits.odes.sundials.cvode import SolverVariables
    return SolverVariables


def make_return(flag, values, errors=None, roots=None, tstop=None, message=""):
    from scikits.odes.sundials.cvode import SolverReturn
    SV = type_of_values()
    none = SV(t=None, y=None)
    return SolverReturn(flag=flag, values=values, errors=errors or none,
                        roots=roots or none, tstop=tstop or none,
                        message=message)


def _stub(call, stub):
    cvode, sundials = _classes()
    SV = type_of_values()
    out = np.zeros(len(call.y0))
    for t, y in stub.rhs_points:
        try:
            call.rhs(t, np.array(y, dtype=float), out)
        except Exception:  # pylint: disable=broad-except
            pass
    flag = cvode.StatusEnum(stub.flag)
    roots = None
    values = SV(t=stub.t, y=stub.y)
    if stub.root:
        flag = cvode.StatusEnum.ROOT_RETURN
        roots = SV(t=stub.t[-1:].copy(), y=stub.y[-1:].copy())
        raise sundials.CVODESolveFoundRoot(
            make_return(flag, values, roots=roots, message="root"))
    if flag < 0:
        raise sundials.CVODESolveFailed(make_return(
            flag, values, errors=SV(t=np.array(stub.t[-1]),
                                    y=np.array(stub.y[-1])),
            message="made-up failure"))
    return make_return(flag, values, message="made up")


def _copy(x):
    return None if x is None else np.array(x)


def _end(kind, soln=None, exc=None):
    if soln is None:
        return dict(end=kind, exc=exc, flag=None, t=None, y=None, rt=None,
                    ry=None, st=None, sy=None)
    return dict(end=kind, exc=None, flag=int(soln.flag),
                t=_copy(soln.values.t), y=_copy(soln.values.y),
                rt=_copy(soln.roots.t), ry=_copy(soln.roots.y),
                st=_copy(soln.tstop.t), sy=_copy(soln.tstop.y))


class SimODE:
    def __init__(self, name, rhs, *args, **opts):
        self._name = name
        self._rhs = rhs
        self._opts = dict(opts)
        self._evaluations = None
        if RECORD:
            self._evaluations = log = []

            def recorded(x, params, derivs):
                status = rhs(x, params, derivs)
                log.append((float(x), np.array(params), status))
                return status
            self._rhs = recorded
        self._real = REAL_ODE(name, self._rhs, *args, **opts)

    def __getattr__(self, attr):
        return getattr(self._real, attr)

    def solve(self, tspan, y0, *args, **kw):
        global COUNT, ITEM_CALLS
        w = W.current()
        if w is None:
            return self._real.solve(tspan, y0, *args, **kw)
        call = Call(COUNT, np.array(tspan, dtype=float),
                    np.array(y0, dtype=float), self._opts, self._rhs,
                    self._real, self._name)
        call.of_item = ITEM_CALLS
        COUNT += 1
        ITEM_CALLS += 1
        w.point("ode", call.signature())
        d = POLICY(call) if POLICY is not None else None
        if not RECORD:
            return self._carry_out(call, d, tspan, y0, args, kw)
        CALLS.append(call)
        call.evaluations = self._evaluations
        try:
            soln = self._carry_out(call, d, tspan, y0, args, kw)
        except BaseException as e:
            soln = getattr(e, "soln", None)
            call.end = _end(type(e).__name__, soln, str(e)[:200])
            raise
        call.end = _end("", soln)
        return soln

    def _carry_out(self, call, d, tspan, y0, args, kw):
        w = W.current()
        if d is None:
            return self._real.solve(tspan, y0, *args, **kw)
        if d[0] == "fail":
            w.fault("ode:" + str(d[1]))
            return _fail(call, d[1], d[2])
        if d[0] == "raise":
            w.fault("ode:" + type(d[1]).__name__)
            raise d[1]
        return _stub(call, d[1])


def ode(name, rhs, *args, **opts):
    return SimODE(name, rhs, *args, **opts)


def install():
    global REAL_ODE
    import sys
    import scikits.odes
    REAL_ODE = scikits.odes.ode
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith(("scikits", "scikits_odes")):
            continue
        if name == REAL_ODE.__module__:
            continue    # where it is defined and refers to itself
        if getattr(mod, "ode", None) is REAL_ODE:
            mod.ode = ode
    assert scikits.odes.ode is ode
