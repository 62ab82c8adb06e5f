"""Matrix decompositions: all operations describe one matrix, whatever was decomposed, solved or interrupted before."""
import numpy as np

from .common import check_close, pick
from ..core import InjectedBackendError, make_rng
from .. import seams

KINDS = ["pd", "pd", "pd", "psd", "psd", "indef", "diag", "lap", "zerorow"]


def gen_matrix(rng, eig=False):
    return {"kind": rng.choice([k for k in KINDS if not (eig and k == "indef")]), "n": rng.choice([1, 2, 3, 4, 5, 6, 8]),
            "seed": rng.randrange(1 << 16), "fmt": rng.choice(["dense", "dense", "fortran", "csr", "csc", "coo", "int"])}


def gen(rng, tier, index):
    ops = []
    for _ in range(rng.randrange(6, 22 if tier == "quick" else 36)):
        k = rng.choices(["chol", "eig", "again", "solve", "sqrt_dot", "sqrt_solve", "dot", "rebuild", "parts"],
                        [2.5, 2, 1.2, 4, 3, 4, 3, 2, 1.5])[0]
        op = {"op": k, "client": rng.randrange(3), "i": rng.randrange(1000), "s": rng.randrange(1 << 16)}
        if k in ("chol", "again"):
            op["m"] = gen_matrix(rng)
        if k == "eig":
            op.update(m=gen_matrix(rng, True), mass=rng.choice([None, None, "dense", "sparse"]),
                      delta=rng.choice([None, None, 0, 0.01]))
        if k in ("solve", "sqrt_dot", "sqrt_solve", "dot"):
            op.update(cols=rng.choice([0, 0, 1, 3]), T=rng.random() < 0.5, range=rng.random() < 0.5,
                      b=rng.choice(["float", "float", "int", "sparse", "fortran"]), gen=rng.random() < 0.5)
        if rng.random() < 0.3:
            op["fault"] = {"after": rng.randrange(3), "exc": rng.choice(["runtime", "memory"])}
        ops.append(op)
    return {"cfg": {}, "ops": ops}


def matrix(m):
    """The matrix itself (dense, float) and the form in which it is handed to the library."""
    import scipy.sparse as sp
    n, k = m["n"], m["kind"]
    g = np.random.Generator(np.random.PCG64(m["seed"]))
    if k == "pd":
        R = g.integers(-2, 3, size=(n, n)).astype(float)
        A = R @ R.T + (1 + g.integers(0, 3)) * np.eye(n)
    elif k == "psd":
        R = g.integers(-2, 3, size=(n, max(1, n // 2))).astype(float)
        A = R @ R.T
    elif k == "indef":
        R = g.integers(-3, 4, size=(n, n)).astype(float)
        A = R + R.T
    elif k == "diag":
        A = np.diag(g.integers(1, 6, size=n).astype(float))
    elif k == "lap":
        A = 2.0 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
        p = g.permutation(n)
        A = A[p][:, p]
    else:
        R = g.integers(-2, 3, size=(n, n)).astype(float)
        A = R @ R.T + np.eye(n)
        z = g.integers(n)
        A[z, :] = 0
        A[:, z] = 0
    f = m["fmt"]
    lib = {"dense": lambda: A.copy(), "fortran": lambda: np.asfortranarray(A), "csr": lambda: sp.csr_matrix(A),
           "csc": lambda: sp.csc_matrix(A), "coo": lambda: sp.coo_matrix(A), "int": lambda: A.astype(int)}[f]()
    return A, lib


def arr(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def guarded(sim, op, fn, what):
    """Run a request; a planned back-end failure must surface, and the request is then repeated."""
    fl = op.get("fault")
    if not fl:
        return fn()
    seams.BACKEND.arm(after=fl["after"], exc=fl["exc"])
    fired = seams.BACKEND.fired
    try:
        r = fn()
        sim.check(seams.BACKEND.fired == fired, "swallowed_failure",
                  "a back end failed during %s and the request succeeded" % what)
        return r
    except (InjectedBackendError, seams.InjectedMemory):
        sim.probe("interrupted_" + what)
    finally:
        seams.BACKEND.disarm()
    return fn()


class Dec(object):
    pass


def run(scn, sim):
    decs = []
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o = op["op"]
        if o == "chol" or (o == "eig"):
            if len(decs) > 5:
                decs.pop(0)
            decs.append(build(sim, op))
        elif not decs:
            continue
        else:
            D = pick(decs, op["i"])
            if o == "again":
                again(sim, D, op)
            elif o == "parts":
                parts(sim, D)
            elif o == "rebuild":
                represent(sim, D, op)
            else:
                request(sim, D, op)
        with seams.oracle(), sim.observing("reconstruct"):
            for D in decs:
                settled(sim, D)
        sim.log(o, op["client"], len(decs), [(D.kind, D.sing) for D in decs])
        D = decs[-1]
        sim.state([o, [(d.kind, d.m["kind"], d.m["fmt"], d.m["n"], d.sing) for d in decs], op.get("T"), op.get("b")])


def build(sim, op):
    from spd import CholeskyDecomposition, EigenDecomposition
    D = Dec()
    D.m = op["m"]
    D.A, lib = matrix(op["m"])
    D.lib, D.copy = lib, arr(lib).copy()
    D.M = None
    if op["op"] == "chol":
        D.kind = "chol"
        D.x = guarded(sim, op, lambda: CholeskyDecomposition(lib), "decomposition")
    else:
        import scipy.sparse as sp
        D.kind = "eig"
        kw = {}
        if op["mass"]:
            g = np.random.Generator(np.random.PCG64(op["s"]))
            n = D.A.shape[0]
            M = np.diag(g.uniform(0.5, 2, n))
            if n > 1:
                M[0, 1] = M[1, 0] = 0.2
            D.M = M
            kw["M"] = M.copy() if op["mass"] == "dense" else sp.csc_matrix(M)
            sim.probe("generalized")
        if op["delta"] is not None:
            kw["delta"] = op["delta"]
        D.delta = op["delta"]
        D.x = guarded(sim, op, lambda: EigenDecomposition(lib, **kw), "decomposition")
    refer(sim, D)
    return D


def again(sim, D, op):
    """Another matrix of any size is stated and decomposed in place."""
    import scipy.sparse as sp
    A, lib = matrix(op["m"])
    if D.kind == "eig" and (D.M is not None or op["m"]["kind"] == "indef"):
        return
    sim.probe("redecomposed")

    def go():
        D.x.set_matrix(lib)
        D.x.set_sparsity(bool(sp.issparse(lib)))
        if D.kind == "chol":
            D.x.decompose(lib, verbose=False)
        else:
            D.x.set_eigenvalue_lower_bound(D.delta)
            D.x.decompose()
    guarded(sim, op, go, "decomposition")
    D.m, D.A, D.lib, D.copy = op["m"], A, lib, arr(lib).copy()
    refer(sim, D)


def refer(sim, D):
    """The matrix D stands for: A itself, or its definite version."""
    A, n = D.A, D.A.shape[0]
    lam = np.linalg.eigvalsh(A)
    top = max(abs(lam).max(), 1e-300)
    sim.check(D.x.get_size() == n, "size")
    with seams.oracle():
        if D.kind == "eig":
            import scipy.linalg as sl
            d, V = sl.eigh(A, D.M) if D.M is not None else sl.eigh(A)
            D.delta_ = D.delta if D.delta is not None else np.sqrt(np.finfo(float).eps) * np.linalg.norm(A)
            D.d = np.maximum(d[::-1], D.delta_)
            D.R = (V * np.maximum(d, D.delta_)) @ V.T
            D.sing = bool(D.d.min() <= 1e-12 * max(D.d.max(), 1e-300))
            D.cond = D.d.max() / max(D.d.min(), 1e-300) if D.d.max() > 0 else np.inf
            return
        D.sing = lam.min() < 1e-6 * top
        deg = D.x.is_degenerate()
        if lam.min() > 1e-6 * top:
            sim.check(deg is False, "degenerate", "a definite matrix is called degenerate")
        if lam.min() < -1e-6 * top:
            sim.check(deg is True, "degenerate", "an indefinite matrix is not called degenerate")
        D.deg = deg
        if deg:
            sim.probe("modified_cholesky_" + D.m["kind"])
        R = arr(D.x.reconstruct())
        if not deg:
            check_close(sim, R, A, "reconstruct", tol=1e-9)
            D.R = A
        else:
            check_close(sim, arr(D.x.reconstruct(degenerate=True)), A, "reconstruct_original", tol=1e-9)
            check_close(sim, R, R.T, "perturbed_symmetric", tol=1e-9)
            raised(sim, D, A, D.x.get_factors())
            if lam.min() > -1e-9 * top:
                check_close(sim, R, A, "perturbation", "a semidefinite matrix is changed", tol=1e-5)
            if np.any(A):
                sim.check(np.linalg.eigvalsh(R).min() > 0, "perturbed_definite",
                          lambda: "smallest eigenvalue %g" % np.linalg.eigvalsh(R).min())
            D.R = R
        ev = np.linalg.eigvalsh(D.R)
        D.cond = ev.max() / max(ev.min(), 1e-300) if ev.max() > 0 else np.inf


def raised(sim, D, A, factors):
    """P (A + E) P' = L D L' and P A P' = L D0 L', where D is D0 with its small eigenvalues raised."""
    L, DM, P, D0 = [arr(f) for f in factors]
    n = A.shape[0]
    sim.check(np.array_equal(L, np.tril(L)) and np.allclose(np.diag(L), 1), "factors", "L is not unit lower triangular")
    sim.check(np.array_equal(P @ P.T, np.eye(n)), "factors", "P is not a permutation")
    check_close(sim, L @ D0 @ L.T, P @ A @ P.T, "factors", "P A P' is not L D0 L'", tol=1e-9)
    d, V = np.linalg.eigh(D0)
    delta = np.sqrt(np.finfo(float).eps) * np.linalg.norm(A)
    check_close(sim, DM, (V * np.maximum(d, delta)) @ V.T, "perturbation", "other than raising the small eigenvalues", tol=1e-7)


def settled(sim, D):
    """Nothing asked of one decomposition changes another, nor the caller's matrix."""
    sim.check(np.array_equal(arr(D.lib), D.copy), "input_changed", "the caller's matrix")
    represent(sim, D, {})


def represent(sim, D, op):
    R = D.x.reconstruct()
    if D.kind == "eig" and D.M is not None:
        R, M = R
        check_close(sim, arr(M), D.M, "mass_matrix")
    check_close(sim, arr(R), D.R, "reconstruct", tol=1e-6 if D.sing else 1e-8)


def rhs(D, op, want_range):
    g = np.random.Generator(np.random.PCG64(op["s"] + 5))
    n = D.A.shape[0]
    c = op["cols"]
    b = g.integers(-3, 4, size=(n, max(c, 1))).astype(float)
    if want_range:
        b = D.A @ b
    if c == 0:
        b = b[:, 0]
    if op["b"] == "int":
        return b, np.round(b).astype(int)
    if op["b"] == "fortran":
        return b, np.asfortranarray(b)
    return b, b.copy()


def request(sim, D, op):
    o = op["op"]
    import scipy.sparse as sp
    x = D.x
    b, lib = rhs(D, op, o == "solve" and (op["range"] or D.sing))
    n = D.A.shape[0]
    bad = D.cond > 1e13
    if o == "dot":
        B = b
        if op["b"] == "sparse" and D.kind == "chol" and b.ndim == 2:
            lib = sp.csc_matrix(b)
        want = (D.A if D.kind == "chol" else D.R) @ B
        y = guarded(sim, op, lambda: x.dot(lib), "product")
        check_close(sim, arr(y), want, "dot", "%s %s" % (D.m, op), tol=1e-8)
    elif o == "sqrt_dot":
        W = guarded(sim, op, lambda: arr(x.sqrt_dot(np.eye(n))), "sqrt_dot")
        check_close(sim, W @ W.T, D.R, "square_root", "%s" % D.m, tol=1e-7)
        y = x.sqrt_dot(lib, transpose=op["T"])
        check_close(sim, arr(y), (W.T if op["T"] else W) @ b, "sqrt_dot", "%s %s" % (D.m, op), tol=1e-8)
    elif o == "sqrt_solve":
        if bad:
            return
        y = guarded(sim, op, lambda: x.sqrt_solve(lib, transpose=op["T"]), "sqrt_solve")
        back = arr(x.sqrt_dot(y, transpose=op["T"]))
        check_close(sim, back, b, "sqrt_solve", "%s %s cond %.1e" % (D.m, op, D.cond), tol=1e-5 if D.sing else 1e-7)
    elif o == "solve":
        if not np.any(D.A):
            return
        if D.kind == "eig":
            kw = {}
            if D.M is not None and op["gen"]:
                kw["generalized"] = True
            if D.sing or D.cond > 1e13:
                kw["eps"] = 1e-9 * D.d.max()
            y = guarded(sim, op, lambda: x.solve(lib, **kw), "solve")
            C = D.R if D.M is None else D.M @ D.R @ D.M
            want = D.M @ b if kw.get("generalized") else b
            if kw.get("eps") and D.M is not None and kw.get("generalized"):
                return
            check_close(sim, C @ y, want, "solve", "%s %s delta %s" % (D.m, op, D.delta),
                        tol=1e-6 if D.sing or D.cond > 1e6 else 1e-8)
            return
        if bad:
            return
        y = guarded(sim, op, lambda: x.solve(lib), "solve")
        check_close(sim, D.R @ arr(y), b, "solve", "%s %s cond %.1e" % (D.m, op, D.cond), tol=1e-6 if D.sing else 1e-8)
    sim.check(np.array_equal(arr(lib), np.round(b).astype(int) if op["b"] == "int" else b), "input_changed", "the caller's vector")


def parts(sim, D):
    if D.kind != "eig":
        return
    with sim.observing("eigen"):
        d, V = D.x.get_factors()
        check_close(sim, d, D.d, "eigenvalues", "%s" % D.m, tol=1e-9)
        M = np.eye(len(d)) if D.M is None else D.M
        check_close(sim, V.T @ M @ V, np.eye(len(d)), "eigenvectors_orthonormal", tol=1e-9)
        big = D.d > D.delta_
        check_close(sim, D.A @ V[:, big], (M @ V * d)[:, big], "eigenvectors", tol=1e-8)
        if D.delta == 0:
            tol = 1e-9
            r = int(np.sum(D.d > tol))
            sim.check(int(D.x.get_rank(tol)) == r, "rank")
            N, Rg = D.x.get_nullspace(tol), D.x.get_range(tol)
            sim.check(N.shape == (len(d), len(d) - r) and Rg.shape == (len(d), r), "subspace_sizes")
            check_close(sim, D.A @ N, np.zeros_like(N), "nullspace", tol=1e-7)
            sim.probe("subspaces")


def shrink_cfg(scn):
    return iter(())
