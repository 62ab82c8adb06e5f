"""Core of the deterministic simulator: one integer decides everything.

A *scenario* is a JSON document {"prop", "seed", "cfg", "ops"}.  It is drawn
from a PRNG derived from VERIF_SEED and the run index, and is the complete
schedule and fault trace of one simulated execution: replaying a scenario file
is a pure function of the file and the code under test.
"""
import ctypes
import gc
import hashlib
import json
import os
import pickle
import random
import signal
import sys
import traceback

LIBC = ctypes.CDLL(None)

REPO_SRC = os.environ.get("QM_SRC", "/repo/src")


class Violation(Exception):
    """The property is broken.  `kind` is the violation class kept by ddmin."""

    def __init__(self, kind, detail=""):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = str(detail)[:2000]

    def __str__(self):
        return "%s: %s" % (self.kind, self.detail)


class HarnessError(Exception):
    """The machinery itself is wrong (never reported as a violation)."""


class InjectedFault(Exception):
    """Raised by the simulator inside user callbacks / backends."""


class InjectedOSError(OSError):
    """Raised by the simulated disk."""


class InjectedBackendError(RuntimeError):
    """Raised by the simulated linear algebra backend."""


class Hang(BaseException):
    """CPU budget of one simulated execution exhausted (raised from a signal)."""


def derive(*parts):
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def make_rng(*parts):
    return random.Random(derive(*parts))


def canon(obj):
    """Canonical, platform independent text of a result (for digests)."""
    import numpy as np
    if isinstance(obj, float) or isinstance(obj, np.floating):
        v = float(obj)
        if v == 0:
            v = 0.0
        return "%.7g" % v if abs(v) > 1e-9 else "0"
    if isinstance(obj, (bool, np.bool_)):
        return str(bool(obj))
    if isinstance(obj, (int, np.integer)):
        return str(int(obj))
    if isinstance(obj, np.ndarray):
        return "[" + ",".join(canon(x) for x in obj.tolist()) + "]"
    if isinstance(obj, dict):
        return "{" + ",".join(sorted(canon(k) + ":" + canon(v) for k, v in obj.items())) + "}"
    if isinstance(obj, (set, frozenset)):
        return "<" + ",".join(sorted(canon(x) for x in obj)) + ">"
    if isinstance(obj, (list, tuple)):
        return "[" + ",".join(canon(x) for x in obj) + "]"
    return str(obj)


class Sim(object):
    """State of one simulated execution."""

    def __init__(self, scn):
        self.scn = scn
        self.seed = scn["seed"]
        self.cfg = scn.get("cfg", {})
        self.step = 0
        self._h = hashlib.sha256()
        self.n_events = 0
        self.events = []
        self.states = set()
        self.faults = {}
        self.probes = {}
        self.checks = 0
        self.op = None
        self.keep_events = False

    # --- randomness inside a run (named streams; all derived from the seed)
    def rng(self, name):
        return make_rng(self.seed, "stream", name)

    # --- event log
    def log(self, *parts):
        s = canon(list(parts))
        self._h.update(s.encode())
        self._h.update(b"\n")
        self.n_events += 1
        if self.keep_events:
            self.events.append(s[:400])

    def digest(self):
        return self._h.hexdigest()[:24]

    # --- reach
    def state(self, key):
        self.states.add(hashlib.sha256(canon(key).encode()).hexdigest()[:16])

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # --- oracle
    def check(self, cond, kind, detail=""):
        self.checks += 1
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(kind, "op#%s %s: %s" % (self.step, self.op, detail))

    def fail(self, kind, detail=""):
        self.check(False, kind, detail)

    def observing(self, what):
        return _Observing(self, what)


class _Observing(object):
    """Anything malformed met while reading results back is a violation."""

    def __init__(self, sim, what):
        self.sim, self.what = sim, what

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception):
            return False
        if issubclass(et, (Violation, HarnessError, InjectedFault)):
            return False
        raise Violation("malformed:" + self.what,
                        "op#%s %s: %s: %s | %s" % (self.sim.step, self.sim.op,
                        et.__name__, ev, tb_summary(tb)))


def tb_summary(tb, n=4):
    fr = traceback.extract_tb(tb)
    return " <- ".join("%s:%s:%s" % (os.path.basename(f.filename), f.lineno, f.name)
                       for f in reversed(fr[-n:]))


def lib_frames(tb):
    root = os.path.realpath(REPO_SRC)
    out = []
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root + os.sep):
            out.append(f)
    return out


def _on_alarm(signum, frame):
    raise Hang("cpu budget")


def install_alarm():
    signal.signal(signal.SIGVTALRM, _on_alarm)


def isolated(fn):
    """fn() in a forked process: (True, result) or (False, why); whatever fn leaves behind goes with it."""
    r, w = os.pipe()
    gc.freeze()
    pid = os.fork()
    if pid == 0:
        try:
            LIBC.prctl(1, signal.SIGKILL)
            os.close(r)
            try:
                data = pickle.dumps((True, fn()), protocol=4)
            except BaseException as e:
                data = pickle.dumps((False, "%s: %s" % (type(e).__name__, tb_summary(e.__traceback__, 8))), protocol=4)
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    parts = []
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        parts.append(b)
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    try:
        return pickle.loads(b"".join(parts))
    except Exception:
        return False, "the process died with status %s" % status


def execute(scn, module, cpu_limit=30.0, keep_events=False):
    """Run one scenario in a process of its own: nothing the library keeps outlives a run."""
    if os.environ.get("SIM_NOFORK"):
        return execute_here(scn, module, cpu_limit, keep_events)
    ok, res = isolated(lambda: execute_here(scn, module, cpu_limit, keep_events))
    if ok:
        return res
    return {"violation": None, "harness_error": res, "digest": "", "events": 0, "states": [], "faults": {},
            "probes": {}, "checks": 0, "sim_time": 0.0, "steps": 0, "event_log": []}


def execute_here(scn, module, cpu_limit=30.0, keep_events=False):
    """Run one scenario.  Returns a plain result dictionary."""
    from . import seams
    sim = Sim(scn)
    sim.keep_events = keep_events
    res = {"violation": None, "harness_error": None}
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu_limit)
    seams.reset(sim)
    try:
        try:
            module.run(scn, sim)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            seams.unload()
    except Violation as v:
        res["violation"] = {"kind": v.kind, "detail": v.detail}
    except HarnessError as e:
        res["harness_error"] = "%s" % e
    except Hang as e:
        fr = lib_frames(e.__traceback__)
        if fr:
            res["violation"] = {"kind": "hang:%s" % opname(sim.op),
                                "detail": "no progress within the cpu budget in %s" % fr[-1].name}
        else:
            res["harness_error"] = "cpu budget exhausted outside the library: " + tb_summary(e.__traceback__, 8)
    except MemoryError as e:
        fr = lib_frames(e.__traceback__)
        if fr:
            res["violation"] = {"kind": "exhausted:%s" % opname(sim.op), "detail": "memory"}
        else:
            res["harness_error"] = "memory"
    except Exception as e:
        fr = lib_frames(e.__traceback__)
        if fr:
            res["violation"] = {"kind": "exception:%s:%s" % (opname(sim.op), type(e).__name__),
                                "detail": "op#%s %s: %s: %s | %s" % (sim.step, sim.op,
                                type(e).__name__, str(e)[:500], tb_summary(e.__traceback__, 6))}
        elif isinstance(e, (OSError, ImportError, NameError, RecursionError)):
            res["harness_error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        else:
            # the oracle could not make sense of what the library returned
            res["violation"] = {"kind": "malformed_result:%s:%s" % (opname(sim.op), type(e).__name__),
                                "detail": "op#%s %s: %s: %s | %s" % (sim.step, sim.op,
                                type(e).__name__, str(e)[:500], tb_summary(e.__traceback__, 6))}
    res.update(digest=sim.digest(), events=sim.n_events, states=sorted(sim.states),
               faults=sim.faults, probes=sim.probes, checks=sim.checks,
               sim_time=seams.sim_time(), steps=sim.step)
    if keep_events:
        res["event_log"] = sim.events
    return res


def opname(op):
    if isinstance(op, dict):
        return str(op.get("op"))
    return str(op)


def dump(path, obj):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)
