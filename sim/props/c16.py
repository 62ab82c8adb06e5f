"""Gaussian fields: samples, truncations and conditioned fields follow the law the field stands for."""
import numpy as np

from . import asm
from .c11 import gen_world, mesh_op
from .c15 import arr, guarded
from .common import check_close, pick
from .. import seams

KERNELS = ["constant", "linear", "gaussian", "exponential", "matern", "rational"]


def gen_params(rng, dim):
    k = rng.choice(KERNELS[1:] * 2 + KERNELS[:1])
    s = {"name": k, "sgm": rng.choice([None, 0.5, 1, 2]), "l": rng.choice([None, 0.3, 1.5]), "nu": rng.choice([0.5, 1.5, 2]),
         "a": rng.choice([1, 2]), "M": rng.random() < 0.35, "periodic": rng.random() < 0.25}
    return s


def gen(rng, tier, index):
    mesh = rng.random() < 0.45
    w, prep = gen_world(rng, periodic=False)
    ops = []
    for _ in range(rng.randrange(6, 18 if tier == "quick" else 30)):
        k = rng.choices(["new", "cov", "mesh", "kernel", "set", "compute", "sample", "kl", "truncate", "condition",
                         "support", "project"],
                        [2, 1.2 if mesh else 0, 0.5 if mesh else 0, 0.6 if mesh else 0, 1.5, 0.8, 5, 2, 1.2, 3, 1.2, 0.7])[0]
        op = {"op": k, "client": rng.randrange(3), "i": rng.randrange(1000), "s": rng.randrange(1 << 16)}
        if k in ("new", "set"):
            op.update(n=rng.choice([1, 2, 3, 4, 5, 6]), kind=rng.choice(["pd", "pd", "psd", "diag"]),
                      form=rng.choice(["array", "eig", "eig", "chol", "sparse", "mass"]), nm=rng.choice([1, 1, 2, 3]),
                      which=rng.choice(["cov", "cov", "prec", "both"]), pform=rng.choice(["array", "sparse", "chol", "eig"]),
                      mean=rng.random() < 0.8, b=rng.random() < 0.5, what=rng.choice(["mean", "b", "cov", "prec"]))
        if k == "cov":
            op.update(h=rng.randrange(1000), sub=rng.randrange(6), disc=rng.choice(["interpolation", "interpolation", "galerkin"]),
                      k=gen_params(rng, w["dim"]), mean=rng.random() < 0.5)
        if k == "kernel":
            op.update(k=gen_params(rng, w["dim"]))
        if k == "mesh":
            op.update(mesh=rng.choice(["split", "split", "refine_sub"]), lab="C", n=rng.randrange(1, 3), j=rng.randrange(1000))
        if k == "compute":
            op["what"] = rng.choice(["mean", "b"])
        if k == "sample":
            op.update(mode=rng.choice(["covariance", "covariance", "precision", "canonical"]), col=rng.randrange(3),
                      draw=rng.choice(["law", "law", "stream", "z"]), m=rng.choice([1, 2, 4]))
        if k == "kl":
            op.update(lo=rng.randrange(6), hi=rng.choice([None, rng.randrange(6)]), draw=rng.choice(["law", "law", "stream"]),
                      m=rng.choice([1, 2, 4]))
        if k == "truncate":
            op["level"] = rng.randrange(1, 7)
        if k == "condition":
            op.update(mode=rng.choice(["covariance", "covariance", "precision"]), out=rng.choice(["sample", "field", "field"]),
                      rows=rng.choice([1, 1, 2, 3]), index=rng.random() < 0.5, draw=rng.choice(["law", "stream"]),
                      m=rng.choice([1, 3]))
        if rng.random() < 0.25:
            op["fault"] = {"after": rng.randrange(3), "exc": rng.choice(["runtime", "memory"])}
        ops.append(op)
    return {"cfg": {"world": w, "prep": prep, "elems": [rng.choice(["Q1", "Q1", "Q2", "DQ0", "DQ1"]) for _ in range(2)],
                    "mseed": rng.randrange(1 << 16)}, "ops": ops}


# ------------------------------------------------------------------ reference kernels
def params(k, dim, box):
    """(arguments for the library, reference function of two (n, dim) arrays)."""
    name = k["name"]
    sgm, l, nu, a = k["sgm"], k["l"], k["nu"], k["a"]
    p = {}
    M = None
    if name == "constant":
        p = {"sgm": 1}
        return p, lambda x, y: np.ones(len(x))
    if k["M"]:
        M = 2.5 if dim == 1 else np.array([[2.0, 0.5], [0.5, 1.0]])
        p["M"] = M
    m = np.eye(dim) if M is None else np.array([[M]]) if dim == 1 else M
    if name == "linear":
        if sgm is not None:
            p["sgm"] = sgm
        s = 1 if sgm is None else sgm
        return p, lambda x, y: s ** 2 + np.einsum("ni,ij,nj->n", x, m, y)
    if k["periodic"]:
        p["periodic"], p["box"] = True, tuple(box)

    def dist(x, y):
        d = np.abs(x - y)
        if k["periodic"]:
            for i in range(dim):
                d[:, i] = np.minimum(d[:, i], box[2 * i + 1] - box[2 * i] - d[:, i])
        return np.sqrt(np.einsum("ni,ij,nj->n", d, m, d))
    if name == "rational":
        p["a"] = a
        return p, lambda x, y: (1 + dist(x, y) ** 2) ** (-float(a))
    if sgm is not None or name == "matern":
        p["sgm"] = 1 if sgm is None else sgm
    if l is not None or name == "matern":
        p["l"] = 0.7 if l is None else l
    s = p.get("sgm", 1)
    if name == "gaussian":
        ll = p.get("l", 1)
        return p, lambda x, y: s ** 2 * np.exp(-dist(x, y) ** 2 / (2 * ll ** 2))
    if name == "exponential":
        ll = p.get("l", 0.1)
        return p, lambda x, y: s ** 2 * np.exp(-dist(x, y) / ll)
    p["nu"] = nu
    ll = p["l"]

    def mat(x, y):
        from scipy.special import kv, gamma
        r = np.sqrt(2 * nu) * dist(x, y) / ll
        safe = np.where(r > 0, r, 1.0)
        return np.where(r > 0, s ** 2 * 2 ** (1 - nu) / gamma(nu) * safe ** nu * kv(nu, safe), s ** 2)
    return p, mat


# ------------------------------------------------------------------ reference fields
class Field(object):
    """X: library field; mean (n, c), b, C: covariance of the law or None; P: of the precision or None."""

    def __init__(self):
        self.b = self.C = self.P = self.R = None
        self.fact, self.modes, self.mass, self.sup = None, None, False, False
        self.caller = []

    def keep(self, *arrays):
        for a in arrays:
            if a is not None and not hasattr(a, "get_size"):
                self.caller.append((a, arr(a).copy()))


def modes_of(C):
    d, V = np.linalg.eigh(C)
    return d[::-1], V[:, ::-1]


def spd(n, kind, s):
    g = np.random.Generator(np.random.PCG64(s))
    if kind == "diag":
        return np.diag(g.permutation(np.arange(1, n + 1)).astype(float))
    if kind == "psd" and n > 1:
        R = g.uniform(-1, 1, size=(n, max(1, n // 2)))
        return R @ R.T
    R = g.uniform(-1, 1, size=(n, n))
    return R @ R.T + 0.5 * np.eye(n)


def covariance(op, n, s):
    """Library argument, law, modes (d, V), whether it carries a mass matrix, the kind of decomposition."""
    import scipy.sparse as sp
    from spd import CholeskyDecomposition, EigenDecomposition
    form, kind = op["form"], op["kind"]
    if kind == "psd" and form in ("array", "chol", "sparse"):
        form = "eig"
    K = spd(n, kind, s)
    if form == "array":
        return K.copy(), K, modes_of(K), False, "eig"
    if form == "sparse":
        return sp.csc_matrix(K), K, modes_of(K), False, "eig"
    if form == "chol":
        return CholeskyDecomposition(K.copy()), K, None, False, "chol"
    if form == "mass":
        import scipy.linalg as sl
        M = spd(n, "pd", s + 1)
        C = M @ K @ M
        C = (C + C.T) / 2
        with seams.oracle():
            d, V = sl.eigh(C, M)
        return EigenDecomposition(C.copy(), M.copy(), delta=0), K, (d[::-1], V[:, ::-1]), True, "eig"
    return EigenDecomposition(K.copy(), delta=0), K, modes_of(K), False, "eig"


def precision(op, n, s):
    import scipy.sparse as sp
    from spd import CholeskyDecomposition, EigenDecomposition
    Q = spd(n, "pd", s)
    f = op["pform"]
    lib = {"array": lambda: Q.copy(), "sparse": lambda: sp.csc_matrix(Q), "chol": lambda: CholeskyDecomposition(Q.copy()),
           "eig": lambda: EigenDecomposition(Q.copy())}[f]()
    return lib, Q


def mean_of(n, c, s):
    g = np.random.Generator(np.random.PCG64(s + 7))
    return np.round(g.uniform(-3, 3, (n, c)), 2)


class Stream(object):
    """Every variate drawn is a different known number."""

    def __init__(self, s):
        self.g = np.random.Generator(np.random.PCG64(s))
        self.used = []

    def __call__(self, size):
        z = self.g.uniform(-2, 2, size)
        self.used += list(np.ravel(z))
        return z


def run(scn, sim):
    F = []
    S = None
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o = op["op"]
        if o in ("cov", "mesh", "kernel") and S is None:
            S = asm.Session(scn, sim, cap=12)
        if o in ("new", "cov"):
            if len(F) > 5:
                F.pop(0)
            f = new(sim, op) if o == "new" else from_kernel(S, op)
            if f is not None:
                F.append(f)
        elif o == "mesh":
            mesh_op(S, op)
        elif o == "kernel":
            kernel_values(S, op)
        elif not F:
            continue
        else:
            f = pick(F, op["i"])
            g = {"set": change, "compute": compute, "sample": sample, "kl": kl, "truncate": truncate,
                 "condition": condition, "support": support, "project": project}[o](sim, f, op)
            if g is not None:
                if len(F) > 5:
                    F.pop(0)
                F.append(g)
        with seams.oracle(), sim.observing("state"):
            for f in F:
                settled(sim, f)
        sim.log(o, op["client"], len(F), [(f.n, f.fact, f.sup, f.P is not None) for f in F])
        sim.state([o, [(f.n, f.fact, f.mass, f.sup, f.C is not None, f.P is not None, f.b is not None, f.mean.shape[1])
                       for f in F], op.get("mode"), op.get("out"), op.get("draw")])


def settled(sim, f):
    """A field stands for the law stated last, whatever was asked of it or of fields derived from it."""
    X = f.X
    sim.check(X.get_size() == f.n and X.size() == f.n, "size")
    check_close(sim, X.get_mean(), f.mean, "mean", tol=1e-6)
    for j in range(f.mean.shape[1]):
        check_close(sim, X.mean(col=j), f.mean[:, j:j + 1], "mean_column", tol=1e-6)
        check_close(sim, X.mean(j, n_copies=1 + 2 * (f.n % 2)), np.tile(f.mean[:, j:j + 1], (1, 1 + 2 * (f.n % 2))),
                    "mean_copies", tol=1e-6)
    b = X.get_canonical_mean()
    sim.check((b is None) == (f.b is None), "canonical_mean_set")
    if b is not None:
        check_close(sim, b, f.b, "canonical_mean", tol=1e-6)
    K, Q = X.get_covariance(), X.get_precision()
    sim.check((K is None) == (f.C is None) and (Q is None) == (f.R is None), "dependence_set")
    if K is not None:
        W = X.support()
        k = K.get_size()
        D = arr(K.dot(np.eye(k)))
        if f.sup:
            D = W @ D @ W.T
        check_close(sim, D, f.C, "covariance", tol=f.tol)
    if Q is not None:
        D = arr(Q.dot(np.eye(Q.get_size())))
        if f.sup and f.C is None:
            D = X.support() @ D @ X.support().T
        check_close(sim, D, f.R, "precision", tol=1e-7 if not f.sup else 1e-6)
    for a, c in f.caller:
        sim.check(np.array_equal(arr(a), c), "input_changed", "an array given by the caller")


def new(sim, op):
    from gmrf import GaussianField
    f = Field()
    n = f.n = op["n"]
    f.tol = 1e-6
    f.mean = mean_of(n, op["nm"], op["s"])
    kw = {}
    if op["mean"]:
        kw["mean"] = f.mean.copy()
    else:
        f.mean = np.zeros((n, 1))
    if op["b"]:
        f.b = mean_of(n, 1, op["s"] + 3)
        kw["canonical_mean"] = f.b.copy()
    if op["which"] in ("cov", "both"):
        kw["covariance"], f.C, f.modes, f.mass, f.fact = covariance(op, n, op["s"])
    if op["which"] in ("prec", "both"):
        kw["precision"], f.R = precision(op, n, op["s"] + 11)
        f.P = np.linalg.inv(f.R)
    f.keep(*kw.values())
    f.X = guarded(sim, op, lambda: GaussianField(n, **kw), "definition")
    return f


def from_kernel(S, op):
    """The covariance of a kernel on the current (sub)mesh."""
    from gmrf import Covariance, GaussianField
    import scipy.linalg as sl
    sim = S.sim
    H = pick(S.H, op["h"])
    sub = pick(S.subs, op["sub"])
    dofs = S.dofs_on(H, sub)
    leaves = sorted(S.w.ref.f.leaves(sub))
    n = len(dofs)
    if n > 60 or (op["disc"] == "galerkin" and len(leaves) > 14):
        return
    p, ker = params(op["k"], S.w.dim, S.w.cfg["box"])
    k2 = lambda X, Y: ker(np.repeat(X, len(Y), axis=0), np.tile(Y, (len(X), 1))).reshape(len(X), len(Y))
    at = {d: i for i, d in enumerate(dofs)}
    pos, M, B = np.zeros((n, S.w.dim)), np.zeros((n, n)), np.zeros((n, n))
    pts = []
    for a in leaves:
        idx = [at[d] for d in H.known[a]]
        pos[idx] = H.positions(S.w, a)
        r, w = asm.quad(S, "cell", a, (4, 16))
        T = asm.shape(H.elem, H.rn, S.w.ref.corners(a), r, "v")
        M[np.ix_(idx, idx)] += T.T @ (w[:, None] * T)
        pts.append((idx, asm.phys(S.w.ref.corners(a), r), T * w[:, None]))
    if op["disc"] == "galerkin":
        for i, x, T in pts:
            for j, y, U in pts:
                B[np.ix_(i, j)] += T.T @ k2(x, y) @ U
    else:
        B = M @ k2(pos, pos) @ M.T
    B = (B + B.T) / 2
    f = Field()
    f.n = n
    par = dict(p)
    X = guarded(sim, op, lambda: Covariance(H.h, discretization=op["disc"], subforest_flag=sub, name=op["k"]["name"],
                                            parameters=par), "covariance")
    sim.check(sorted(par) == sorted(p), "input_changed", "the caller's parameters")
    with seams.oracle():
        d, V = sl.eigh(B, M)
    delta = np.sqrt(np.finfo(float).eps) * np.linalg.norm(B)
    d = np.maximum(d, delta)[::-1]
    V = V[:, ::-1]
    f.C = (V * d) @ V.T
    f.modes, f.mass, f.fact = (d, V), True, "eig"
    f.tol = 1e-6
    with sim.observing("covariance"):
        sim.check(X.get_size() == n, "covariance_size", "%d, not %d" % (X.get_size(), n))
        check_close(sim, X.get_eigenvalues(), d, "covariance_spectrum", "%s %s" % (op["k"], op["disc"]), tol=1e-7)
        R, _ = X.reconstruct()
        check_close(sim, R, f.C, "covariance_operator", "%s %s" % (op["k"], op["disc"]), tol=1e-6)
    sim.probe("covariance_" + op["disc"])
    if op["k"]["M"] and op["k"]["name"] != "constant":
        sim.probe("anisotropic")
    f.mean = np.zeros((n, 1))
    kw = {}
    if op["mean"]:
        f.mean = mean_of(n, 1, op["s"])
        kw["mean"] = f.mean.copy()
    f.X = GaussianField(n, covariance=X, **kw)
    return f


def kernel_values(S, op):
    import gmrf
    dim, box = S.w.dim, S.w.cfg["box"]
    p, ker = params(op["k"], dim, box)
    g = np.random.Generator(np.random.PCG64(op["s"]))
    lo, hi = np.array(box[::2], float), np.array(box[1::2], float)
    x, y = (lo + (hi - lo) * g.random((7, dim)) for _ in range(2))
    y[:2] = x[:2]
    with S.sim.observing("kernel"):
        v = np.ravel(getattr(gmrf, op["k"]["name"])(x.copy(), y.copy(), **p))
        check_close(S.sim, v, ker(x, y), "kernel_value", "%s" % op["k"], tol=1e-9)


# ------------------------------------------------------------------ requests
def change(sim, f, op):
    w, n = op["what"], f.n
    if w == "mean":
        f.mean = mean_of(n, op["nm"], op["s"])
        a = f.mean.copy()
        f.keep(a)
        f.X.set_mean(a)
    elif w == "b":
        f.b = mean_of(n, 1, op["s"])
        a = f.b.copy()
        f.keep(a)
        f.X.set_canonical_mean(a)
    elif f.sup or n > 8:
        return
    elif w == "cov":
        lib, C, modes, mass, fact = covariance(op, n, op["s"])
        guarded(sim, op, lambda: f.X.set_covariance(lib), "statement")
        f.C, f.modes, f.mass, f.fact, f.tol = C, modes, mass, fact, 1e-6
    else:
        lib, f.R = precision(op, n, op["s"])
        guarded(sim, op, lambda: f.X.set_precision(lib), "statement")
        f.P = np.linalg.inv(f.R)
    sim.probe("restated")


def compute(sim, f, op):
    if f.sup:
        return
    if op["what"] == "mean":
        if f.b is None or (f.P is None and f.C is None):
            return
        guarded(sim, op, f.X.compute_mean, "compute")
        f.mean = (f.P if f.P is not None else f.C) @ f.b
    else:
        if f.R is None and (f.C is None or f.mass or np.linalg.cond(f.C) > 1e8):
            return
        mu = f.mean[:, :1]
        b = f.R @ mu if f.R is not None else np.linalg.solve(f.C, mu)
        if op["s"] % 3 == 0:
            # asked for: as stated, or else computed
            f.b = b if f.b is None else f.b
            check_close(sim, guarded(sim, op, f.X.b, "compute"), f.b, "canonical_mean", tol=1e-6)
        else:
            guarded(sim, op, f.X.compute_canonical_mean, "compute")
            f.b = b
    sim.probe("computed_" + op["what"])


def law_of(sim, draw, k, m0, C, tol, what, detail):
    """draw(z) must be m0 + W z with W W' = C."""
    z = np.hstack([np.zeros((k, 1)), np.eye(k)])
    zc = z.copy()
    X = arr(draw(z))
    sim.check(np.array_equal(z, zc), "input_changed", "the caller's variates")
    sim.check(X.shape == (len(m0), k + 1), what + "_shape", "%s %s" % (X.shape, detail))
    check_close(sim, X[:, :1], m0, what + "_mean", detail, tol=tol)
    W = X[:, 1:] - X[:, :1]
    check_close(sim, W @ W.T, C, what + "_covariance", detail, tol=tol)
    return W


def stream_of(sim, op, draw, W, m0, m, what, detail):
    """Samples drawn by the library use each variate of the random stream at most once."""
    st = Stream(op["s"] + 17)
    seams.RANDOM.plan = st
    try:
        X = arr(draw(m))
    finally:
        seams.RANDOM.plan = None
    sim.check(X.shape == (len(m0), m), what + "_shape", "%s %s" % (X.shape, detail))
    r = X - m0
    z, *_ = np.linalg.lstsq(W, r, rcond=1e-10)
    check_close(sim, W @ z, r, what + "_off_support", detail, tol=1e-6)
    sv = np.linalg.svd(W, compute_uv=False)
    if not st.used or W.shape[1] > W.shape[0] or sv.min() < 1e-5 * max(sv.max(), 1e-300):
        return
    if sv.min() < 1e-8 * (1 + np.max(np.abs(m0))):
        return  # lost among the rounding errors of the mean
    used = np.array(sorted(st.used))
    v = np.sort(np.ravel(z))
    j = np.array([int(np.argmin(np.abs(used - q))) for q in v])
    sim.check(np.max(np.abs(used[j] - v)) < 1e-6 * (1 + sv.max() / sv.min()), what + "_variates", "samples are not made of the variates drawn; %s" % detail)
    sim.check(len(set(j)) == len(j), what + "_repeated_variates", "samples share variates; %s" % detail)
    sim.probe("stream_followed")


def size_of(f, mode):
    return (f.X.get_covariance() if mode == "covariance" else f.X.get_precision()).get_size()


def sample(sim, f, op):
    mode = op["mode"]
    if mode != "covariance" and (f.R is None or f.sup and (f.C is not None or mode == "canonical")) or mode == "covariance" and f.C is None:
        return
    col = op["col"] % f.mean.shape[1]
    C = f.C if mode == "covariance" else f.P
    m0 = f.mean[:, col:col + 1]
    if mode == "canonical" and f.b is not None:
        m0 = f.P @ f.b
        sim.probe("canonical_sample")
    k = size_of(f, mode)
    det = "%s field of size %d, %s, %s" % (mode, f.n, f.fact, "on a support" if f.sup else "")
    kw = {"mode": mode, "m_col": col}
    W = law_of(sim, lambda z: guarded(sim, op, lambda: f.X.sample(z=z, **kw), "sampling"), k, m0, C, f.tol * 10, "sample", det)
    if op["draw"] == "z":
        z = np.random.Generator(np.random.PCG64(op["s"])).uniform(-2, 2, (k, op["m"]))
        check_close(sim, arr(f.X.sample(z=z, n_samples=1, **kw)), m0 + W @ z, "sample", det, tol=1e-7)
    elif op["draw"] == "stream":
        stream_of(sim, op, lambda m: f.X.sample(n_samples=m, **kw), W, m0, op["m"], "sample", det)
    if f.sup:
        sim.probe("sample_on_support")


def clear(d, i):
    """There is a gap between modes i-1 and i."""
    return i <= 0 or i >= len(d) or d[i - 1] - d[i] > 1e-4 * d[0]


def kl(sim, f, op):
    if f.C is None or f.fact != "eig":
        return
    k = size_of(f, "covariance")
    lo = op["lo"] % k
    hi = None if op["hi"] is None else lo + op["hi"] % (k - lo)
    top = k - 1 if hi is None else hi
    d, V = f.modes
    det = "modes %d to %s of %d" % (lo, hi, k)
    m0 = f.mean[:, :1]
    kw = {"i_min": lo, "i_max": hi}
    nz = top - lo + 1
    z = np.hstack([np.zeros((nz, 1)), np.eye(nz)])
    X = guarded(sim, op, lambda: f.X.KL_sample(z=z, **kw), "kl")
    sim.check(X.shape == (f.n, nz + 1), "kl_shape", "%s %s" % (X.shape, det))
    check_close(sim, X[:, :1], m0, "kl_mean", det, tol=1e-6)
    W = X[:, 1:] - X[:, :1]
    if clear(d, lo) and clear(d, top + 1):
        C = (V[:, lo:top + 1] * d[lo:top + 1]) @ V[:, lo:top + 1].T
        check_close(sim, W @ W.T, C, "kl_covariance", det, tol=f.tol * 10)
        sim.probe("kl_range" if nz < k else "kl_full")
    if op["draw"] == "stream":
        stream_of(sim, op, lambda m: f.X.KL_sample(n_samples=m, **kw), W, m0, op["m"], "kl", det)


def truncate(sim, f, op):
    if f.C is None or f.fact != "eig":
        return
    k = size_of(f, "covariance")
    lev = 1 + (op["level"] - 1) % k
    d, V = f.modes
    if not clear(d, lev):
        return
    g = Field()
    g.X = guarded(sim, op, lambda: f.X.truncate(lev), "truncate")
    g.n, g.mean, g.tol = f.n, f.mean, 1e-5
    g.C = (V[:, :lev] * d[:lev]) @ V[:, :lev].T
    g.C = (g.C + g.C.T) / 2
    sim.probe("truncated")
    adopt(sim, g)
    return g


def adopt(sim, g):
    """Modes and support of a field made by the library."""
    with seams.oracle():
        g.modes = modes_of(g.C)
        K = g.X.get_covariance()
        g.fact = "eig"
        g.sup = g.X.support() is not None
        if g.sup:
            g.modes = (g.modes[0][:K.get_size()], g.modes[1][:, :K.get_size()])


def condition(sim, f, op):
    mode = op["mode"]
    if mode == "covariance" and f.C is None or mode == "precision" and (f.R is None or f.sup and f.C is not None):
        return
    n = f.n
    C = f.C if mode == "covariance" else f.P
    g = np.random.Generator(np.random.PCG64(op["s"]))
    rows = min(op["rows"], max(n - 1, 1))
    if op["index"]:
        idx = g.permutation(n)[:rows]
        A, lib = np.eye(n)[idx], idx
    else:
        A = g.integers(-2, 3, size=(rows, n)).astype(float)
        lib = A.copy()
    G = A @ C @ A.T
    if np.linalg.matrix_rank(A) < rows or np.linalg.cond(G) > 1e4 or np.abs(G).max() < 1e-6 * np.abs(C).max() * np.abs(A).max():
        return
    e = np.round(g.uniform(-2, 2, (rows, 1)), 2)
    mu = f.mean[:, :1]
    Gain = C @ A.T @ np.linalg.inv(G)
    mc = mu - Gain @ (A @ mu - e)
    Cc = C - Gain @ A @ C
    Cc = (Cc + Cc.T) / 2
    if op["out"] == "field" and np.abs(Cc).max() < 1e-6 * np.abs(C).max():
        return                      # nothing random is left
    det = "%s, %d rows on size %d, %s" % (mode, rows, n, "on a support" if f.sup else "full")
    ec = e.copy()
    k = size_of(f, mode)
    tol = 1e-5
    out = None
    sim.probe("conditioned_" + op["out"])
    if f.sup:
        sim.probe("conditioned_on_support")
    if op["out"] == "sample":
        def draw(z):
            X = guarded(sim, op, lambda: f.X.condition(lib, e, z=z, mode=mode), "condition")
            check_close(sim, A @ X, np.tile(e, (1, X.shape[1])), "constraint", det, tol=1e-6)
            return X
        W = law_of(sim, draw, k, mc, Cc, tol, "conditioned", det)
        if op["draw"] == "stream":
            X = f.X.condition(lib, e, n_samples=op["m"], mode=mode)
            sim.check(X.shape == (n, op["m"]), "conditioned_shape", "%s" % (X.shape,))
            check_close(sim, A @ X, np.tile(e, (1, op["m"])), "constraint", det, tol=1e-6)
    else:
        X = guarded(sim, op, lambda: f.X.condition(lib, e, mode=mode, output="field"), "condition")
        out = Field()
        out.X, out.n, out.mean, out.C, out.tol = X, n, mc, Cc, 1e-5
        adopt(sim, out)
        K = X.get_covariance()
        law_of(sim, lambda z: X.sample(z=z), K.get_size(), mc, Cc, tol, "conditioned", det)
        check_close(sim, A @ X.sample(n_samples=2), np.tile(e, (1, 2)), "constraint", det, tol=1e-5)
    sim.check(np.array_equal(e, ec), "input_changed", "the caller's data")
    sim.check(np.array_equal(lib, idx if op["index"] else A), "input_changed", "the caller's constraints")
    return out


def support(sim, f, op):
    if f.C is None and f.R is not None and op["s"] % 2:
        guarded(sim, op, lambda: f.X.update_support(mode="precision"), "support")
        W = f.X.support()
        sim.check(W is not None and W.shape == (f.n, f.n), "support_shape", lambda: str(np.shape(W)))
        check_close(sim, W.T @ W, np.eye(f.n), "support_orthonormal", tol=1e-8)
        f.sup, f.fact = True, "eig"
        sim.probe("support_of_the_precision")
        return
    if f.C is None or f.R is not None:
        return
    d, V = modes_of(f.C)
    d = np.abs(d)
    if np.any((d > 1e-16 * f.n) & (d < 1e-9)):
        # rank not clear cut at the library's tolerance: only the law is compared
        guarded(sim, op, f.X.update_support, "support")
    else:
        guarded(sim, op, f.X.update_support, "support")
        r = int(np.sum(d > 1e-10))
        W = f.X.support()
        sim.check(W is not None and W.shape == (f.n, r), "support_shape", "%s, rank %d of %d" % (np.shape(W), r, f.n))
    W = f.X.support()
    check_close(sim, W.T @ W, np.eye(W.shape[1]), "support_orthonormal", tol=1e-8)
    f.fact, f.mass, f.sup = "eig", False, True
    f.modes = (modes_of(f.C)[0][:W.shape[1]], V[:, :W.shape[1]])
    f.tol = max(f.tol, 1e-6)
    sim.probe("support_updated")


def project(sim, f, op):
    if not f.sup:
        return
    g = np.random.Generator(np.random.PCG64(op["s"]))
    v = g.uniform(-1, 1, (f.n, 2))
    W = f.X.support()
    P = W @ W.T
    check_close(sim, f.X.project(v), P @ v, "project", tol=1e-9)
    check_close(sim, f.X.project(v, "nullspace"), v - P @ v, "project", tol=1e-9)
    if f.C is None:
        return
    big = modes_of(f.C)[1][:, modes_of(f.C)[0] > 1e-3 * max(modes_of(f.C)[0][0], 1e-300)]
    check_close(sim, f.X.project(big), big, "range", "the support misses a mode", tol=1e-6)


def shrink_cfg(scn):
    return iter(())
