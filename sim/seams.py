"""Seams: every source of nondeterminism the library meets goes through here.

  hash order   identity hashes of library objects decide the iteration order of
               sets/dicts of cells, vertices and bases; in deployment they are
               memory addresses.  Here: a seeded function of a serial number.
  clock        time.time & co read a virtual clock that jumps as the plan says.
  random       numpy's global generator and unseeded default_rng are seeded per
               run; a plan may substitute the stream of normal variates.
  disk         open() of a simulated path yields a faulty file.
  backend      sparse/dense LA back ends can fail at the k-th call, or be absent.
  callbacks    user functions handed to the library (props/common.py).
"""
import builtins
import errno
import io
import sys
import time as _time
import zlib

from . import core

REAL_TIME = _time.time
REAL_PERF = _time.perf_counter
REAL_OPEN = builtins.open

_state = {"sim": None}
LIBMODS = ("mesh", "fem", "assembler", "function", "solver", "spd", "gmrf", "diagnostics")


# --------------------------------------------------------------------- clock
class VirtualClock(object):
    def __init__(self):
        self.configure(0, "steady")

    def configure(self, seed, mode):
        self.rng = core.make_rng("clock", seed)
        self.mode = mode
        self.now = 1.6e9
        self.covered = 0.0
        self.reads = 0
        self.jumps = 0

    def read(self):
        self.reads += 1
        m = self.mode
        d = 0.001
        if m == "frozen":
            d = 0.0
        elif m == "skew":
            d = self.rng.random() * 10
        elif m == "jumps":
            r = self.rng.random()
            if r < 0.3:
                d = -3600 * self.rng.random()
                self.jumps += 1
            elif r < 0.6:
                d = 86400 * 365 * self.rng.random()
                self.jumps += 1
        self.now += d
        self.covered += abs(d)
        if m == "jumps" and d < 0 or m == "jumps" and d > 1000:
            s = _state["sim"]
            if s is not None:
                s.fault("clock_jump")
        return self.now


CLOCK = VirtualClock()


def sim_time():
    return CLOCK.covered


def install_clock():
    for name in ("time", "perf_counter", "monotonic", "process_time"):
        setattr(_time, name, CLOCK.read)
    _time.sleep = lambda s: None


# ---------------------------------------------------------------------- hash
class HashSeam(object):
    def __init__(self):
        self.seed = 0
        self.mode = "seeded"
        self.serial = 0

    def configure(self, seed, mode="seeded"):
        self.seed = seed & 0xFFFFFFFF
        self.mode = mode
        self.serial = 0

    def of(self, obj):
        d = obj.__dict__
        n = d.get("_sim_serial")
        if n is None:
            self.serial += 1
            n = self.serial
            d["_sim_serial"] = n
        if self.mode == "ascending":
            return n
        if self.mode == "descending":
            return (1 << 20) - n
        if self.mode == "colliding":
            return n & 3
        return zlib.crc32(b"%d:%d" % (n, self.seed))


HASH = HashSeam()


def _sim_hash(self):
    return HASH.of(self)


def install_hash():
    patched = []
    for name in LIBMODS:
        mod = sys.modules.get(name)
        if mod is None:
            continue
        for attr, cls in sorted(vars(mod).items()):
            if not isinstance(cls, type) or cls.__module__ != name:
                continue
            if issubclass(cls, BaseException):
                continue
            if cls.__hash__ is object.__hash__ and hasattr(cls, "__dict__"):
                # classes whose instances have no __dict__ keep address hashes
                if any("__slots__" in vars(k) for k in cls.__mro__):
                    continue
                cls.__hash__ = _sim_hash
                patched.append("%s.%s" % (name, attr))
    return patched


# -------------------------------------------------------------------- random
class RandomSeam(object):
    """numpy.random.normal / standard_normal / randn share one stream."""

    def __init__(self):
        self.plan = None          # callable(shape) -> array or None
        self.draws = 0
        self.calls = []

    def install(self):
        import numpy as np
        self.np = np
        self._normal = np.random.normal
        self._std = np.random.standard_normal
        self._randn = np.random.randn
        self._default_rng = np.random.default_rng
        seam = self

        def normal(loc=0.0, scale=1.0, size=None):
            z = seam.take(size)
            if z is None:
                return seam._normal(loc, scale, size)
            return loc + scale * z

        def standard_normal(size=None):
            z = seam.take(size)
            return seam._std(size) if z is None else z

        def randn(*shape):
            z = seam.take(shape if shape else None)
            return seam._randn(*shape) if z is None else z

        def default_rng(seed=None):
            if seed is None:
                seed = int(np.random.randint(0, 2 ** 31 - 1))
            return seam._default_rng(seed)

        np.random.normal = normal
        np.random.standard_normal = standard_normal
        np.random.randn = randn
        np.random.default_rng = default_rng

    def take(self, size):
        self.draws += 1
        self.calls.append(size)
        if self.plan is None or size is None:
            return None
        return self.plan(size)

    def reset(self, seed):
        self.plan = None
        self.draws = 0
        self.calls = []
        self.np.random.seed(seed & 0xFFFFFFFF)


RANDOM = RandomSeam()


# ---------------------------------------------------------------------- disk
class FaultyRaw(io.RawIOBase):
    """A simulated file: short reads, errors at an offset, torn content."""

    def __init__(self, data, plan, sim):
        super().__init__()
        self.data, self.pos, self.plan, self.sim = data, 0, plan, sim
        self.rng = core.make_rng("disk", plan.get("seed", 0))
        self.eofs = 0
        self.reads = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, off, whence=0):
        base = {0: 0, 1: self.pos, 2: len(self.data)}[whence]
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        if not self.closed:
            DISK.open_handles -= 1
        super().close()

    def readinto(self, b):
        self.reads += 1
        fail_at = self.plan.get("eio_at")
        n = min(len(b), len(self.data) - self.pos)
        if self.plan.get("eintr") and self.rng.random() < 0.2 and n > 0:
            # what the kernel does after EINTR is retried by Python: a short read
            n = 1
            self.sim.fault("disk_eintr_short_read")
        elif self.plan.get("short") and n > 1:
            n = 1 + self.rng.randrange(min(n, self.plan["short"]))
            self.sim.fault("disk_short_read")
        if fail_at is not None and self.pos + n > fail_at:
            n = fail_at - self.pos
            if n <= 0:
                self.sim.fault("disk_eio")
                DISK.eio_fired += 1
                raise core.InjectedOSError(errno.EIO, "simulated I/O error")
        if n == 0:
            self.eofs += 1
            if self.eofs > 5000:
                raise core.Violation("hang:read_past_eof",
                                     "the reader asked for data 5000 times after end of file")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Disk(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}
        self.open_handles = 0
        self.opened = 0
        self.eio_fired = 0

    def put(self, path, data, plan=None):
        self.files[path] = (data, plan or {})

    def open(self, path, mode="r", *args, **kw):
        key = path
        try:
            key = str(path)
        except Exception:
            pass
        if isinstance(path, (str, bytes)) or hasattr(path, "__fspath__"):
            if key in self.files:
                data, plan = self.files[key]
                if any(c in mode for c in "wax+"):
                    raise core.InjectedOSError(errno.EROFS, "simulated disk is read-only")
                self.opened += 1
                if plan.get("enoent"):
                    _state["sim"].fault("disk_enoent")
                    raise FileNotFoundError(errno.ENOENT, "simulated", key)
                self.open_handles += 1
                raw = FaultyRaw(data, plan, _state["sim"])
                bs = plan.get("buffer", 8192)
                buf = io.BufferedReader(raw, buffer_size=bs)
                if "b" in mode:
                    return buf
                enc = kw.get("encoding") or "utf-8"
                return io.TextIOWrapper(buf, encoding=enc, errors=kw.get("errors"),
                                        newline=kw.get("newline"))
            if key.startswith("/simdisk/"):
                raise FileNotFoundError(errno.ENOENT, "simulated", key)
        return REAL_OPEN(path, mode, *args, **kw)


DISK = Disk()


def install_disk():
    builtins.open = DISK.open
    io.open = DISK.open


# ------------------------------------------------------------------- backend
class Backend(object):
    """Counts calls into the LA back ends; fails the k-th call when planned."""

    def __init__(self):
        self.plan = {}
        self.calls = {}
        self.fired = 0

    def reset(self):
        self.plan = {}
        self.calls = {}
        self.fired = 0

    def arm(self, after=0, family=None, exc="runtime"):
        """Fail the (after+1)-th call into a back end of `family` from now."""
        self.plan = {"after": after, "family": family, "exc": exc}

    def disarm(self):
        self.plan = {}

    def enter(self, family, name):
        self.calls[name] = self.calls.get(name, 0) + 1
        p = self.plan
        if p and (p["family"] is None or p["family"] == family):
            if p["after"] <= 0:
                self.plan = {}
                self.fired += 1
                s = _state["sim"]
                if s is not None:
                    s.fault("backend_" + p["exc"])
                if p["exc"] == "memory":
                    raise InjectedMemory("simulated allocation failure in %s" % name)
                raise core.InjectedBackendError("simulated failure in %s" % name)
            p["after"] -= 1


class InjectedMemory(MemoryError):
    pass


BACKEND = Backend()


def _wrap(mod, name, family):
    import functools
    fn = getattr(mod, name, None)
    if fn is None:
        return

    @functools.wraps(fn)
    def wrapper(*a, **k):
        if _state["sim"] is not None and not _state.get("oracle"):
            BACKEND.enter(family, name)
        return fn(*a, **k)
    wrapper.__wrapped_backend__ = fn
    setattr(mod, name, wrapper)


def install_backend():
    import scipy.linalg
    import scipy.sparse.linalg as spla
    for n in ("spsolve", "factorized", "splu"):
        _wrap(spla, n, "sparse")
    for n in ("eigh", "cholesky", "solve", "solve_triangular", "qr", "svd", "lstsq", "ldl"):
        _wrap(scipy.linalg, n, "dense")
    try:
        import sksparse.cholmod as ch
        for n in ("cholesky", "cholesky_AAt"):
            _wrap(ch, n, "cholmod")
    except ImportError:
        pass


class oracle(object):
    """Reference computations bypass the simulated back end."""

    def __enter__(self):
        self.old = _state.get("oracle")
        _state["oracle"] = True

    def __exit__(self, *a):
        _state["oracle"] = self.old


# ------------------------------------------------------------------- install
_installed = {"hash": None}


def install():
    if _installed["hash"] is not None:
        return
    import warnings
    warnings.simplefilter("ignore")
    install_clock()
    install_disk()
    RANDOM.install()
    install_backend()
    if core.REPO_SRC not in sys.path:
        sys.path.insert(0, core.REPO_SRC)
    import importlib
    for m in LIBMODS:
        importlib.import_module(m)
    _installed["hash"] = install_hash()
    core.install_alarm()


def reset(sim):
    """Called before each simulated execution."""
    _state["sim"] = sim
    cfg = sim.cfg
    HASH.configure(cfg.get("hash_seed", 1), cfg.get("hash_mode", "seeded"))
    CLOCK.configure(cfg.get("clock_seed", 0), cfg.get("clock", "steady"))
    RANDOM.reset(core.derive(sim.seed, "numpy"))
    DISK.reset()
    BACKEND.reset()
    import random
    random.seed(core.derive(sim.seed, "pyrandom"))


def unload():
    _state["sim"] = None
