"""Finite element functions keep their values while meshes, submeshes and dofs change around them."""
import math

import numpy as np

from . import dofs
from .common import Callback, World, check_close, gen_mesh_cfg, curved, pick
from ..core import InjectedFault

ELEMS = ["Q1", "Q1", "Q2", "Q2", "Q3", "DQ0", "DQ1", "DQ2"]
DERIVS = ["fx", "fy", "fxx", "fxy", "fyx", "fyy"]


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, small=True, periodic=rng.random() < 0.3, bent=True)
    ops = []
    n = rng.randrange(5, 16 if tier == "quick" else 26)
    for _ in range(n):
        k = rng.choices(["split", "define", "eval", "modify", "add", "setdata", "interp", "diff", "two", "balance"],
                        [4, 5, 6, 2, 1.5, 1, 2.5, 1.5, 0.8, 0.7])[0]
        op = {"op": k, "client": rng.randrange(3), "i": rng.randrange(1000), "j": rng.randrange(1000),
              "s": rng.randrange(1 << 16), "n": rng.randrange(1, 3), "lab": "A"}
        if k in ("define", "setdata", "two"):
            op.update(how=rng.choice(["poly", "poly", "smooth", "data"]), ns=rng.choice([1, 1, 2, 3]),
                      flat=rng.random() < 0.3, snap=rng.random() < 0.75, fault=rng.random() < 0.2)
        if k == "eval":
            op.update(form=rng.choice(["array", "tuples", "vertices", "one", "cell", "ancestor", "finer", "finer", "finer", "phi", "nodes", "basis", "basis"]),
                      der=rng.choice([None, None, None] + DERIVS))
        if k == "diff":
            op["der"] = rng.choice(["fx", "fy", "fx"])
        if k == "interp":
            op["snap"] = rng.random() < 0.6
        ops.append(op)
    return {"cfg": {"world": w, "elems": [rng.choice(ELEMS) for _ in range(3)]}, "ops": ops}


# ------------------------------------------------------------ reference functions
def lag(p, k, t):
    if p == 0:
        return 1.0
    v = 1.0
    for j in range(p + 1):
        if j != k:
            v *= (t - j / p) / (k / p - j / p)
    return v


def shapes(elem, rn, r):
    p = int(elem[-1])
    out = []
    for node in rn:
        v = 1.0
        for c, t in zip(node, r):
            v *= lag(p, int(round(c * p)) if p else 0, t)
        out.append(v)
    return np.array(out)


def inverse(corners, x):
    """Local coordinates of a physical point (Newton on the bilinear map)."""
    if len(corners) == 2:
        l, h = corners[0][0], corners[1][0]
        return ((x[0] - l) / (h - l),)
    r = np.array([0.5, 0.5])
    for _ in range(30):
        p = np.array(dofs.bilinear(corners, r))
        e = 1e-6
        J = np.array([(np.array(dofs.bilinear(corners, r + d)) - np.array(dofs.bilinear(corners, r - d))) / (2 * e)
                      for d in (np.array([e, 0]), np.array([0, e]))]).T
        st = np.linalg.solve(J, np.array(x) - p)
        r = r + st
        if np.max(np.abs(st)) < 1e-14:
            break
    return tuple(r)


class Fn(object):
    """Reference finite element function: values per dof, leaves frozen at creation."""

    def __init__(self, w, H, sub, leaves):
        self.w, self.H, self.sub = w, H, sub
        self.leaves = list(leaves)
        self.dofs = sorted(set(d for a in leaves for d in H.known[a]))
        self.idx = {d: i for i, d in enumerate(self.dofs)}
        self.cd = {a: H.known[a] for a in leaves}
        self.elem, self.rn = H.elem, H.rn
        self.data = None
        self.lib = None

    def nodes(self):
        out = {}
        for a in self.leaves:
            for p, d in zip(self.H.positions(self.w, a), self.cd[a]):
                out.setdefault(d, p)
        return [out[d] for d in self.dofs]

    def on(self, a, x):
        r = inverse(self.w.ref.corners(a), x)
        s = shapes(self.elem, self.rn, r)
        return s @ self.data[[self.idx[d] for d in self.cd[a]], :]

    def der(self, a, x, der):
        """Richardson-extrapolated central differences inside one cell."""
        ax = ["xy".index(c) for c in der[1:]]
        size = max(abs(p[d] - q[d]) for p in self.w.ref.corners(a) for q in self.w.ref.corners(a) for d in range(len(p)))

        def at(*steps):
            y = list(x)
            for d, t in steps:
                y[d] += t
            return self.on(a, y)

        def diff(h):
            if len(ax) == 1:
                return (at((ax[0], h)) - at((ax[0], -h))) / (2 * h)
            if ax[0] == ax[1]:
                return (at((ax[0], h)) - 2 * self.on(a, x) + at((ax[0], -h))) / h ** 2
            return (at((0, h), (1, h)) - at((0, h), (1, -h)) - at((0, -h), (1, h)) + at((0, -h), (1, -h))) / (4 * h * h)
        h = (1e-3 if len(ax) == 1 else 8e-3) * size
        return (4 * diff(h / 2) - diff(h)) / 3

    def containing(self, x, tol=1e-9):
        out = []
        for a in self.leaves:
            r = inverse(self.w.ref.corners(a), x) if self.near(a, x) else None
            if r is not None and all(-tol <= t <= 1 + tol for t in r):
                out.append(a)
        return out

    def near(self, a, x):
        cs = self.w.ref.corners(a)
        return all(min(c[d] for c in cs) - 1e-9 <= x[d] <= max(c[d] for c in cs) + 1e-9 for d in range(len(x)))


def rule(how, dim, p, k, s):
    """One sample function: of x (n_points, dim)."""
    g = make(s + 31 * k)
    c = [g(-2, 2) for _ in range(4)]
    if how == "poly":
        q = min(p, 2)
        if q == 0:
            return lambda x: c[0] + 0 * x[:, 0]
        if dim == 1:
            return lambda x: c[0] + c[1] * x[:, 0] ** q
        return lambda x: c[0] + c[1] * x[:, 0] ** q + c[2] * x[:, 1] + c[3] * x[:, 0] * x[:, 1]
    if dim == 1:
        return lambda x: c[0] + np.sin(c[1] + 2 * x[:, 0])
    return lambda x: c[0] + np.sin(c[1] + 2 * x[:, 0]) * np.cos(c[2] * x[:, 1])


def make(seed):
    import random
    r = random.Random(seed)
    return lambda a, b: round(r.uniform(a, b), 3)


def run(scn, sim):
    w = World(scn["cfg"]["world"])
    hs = [dofs.Handler(w, e) for e in scn["cfg"]["elems"]]
    for H in hs:
        H.held = []
    fns = []
    nsnap = [0]
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        H = hs[op["client"]]
        o = op["op"]
        if o in ("split", "balance"):
            if o == "split" and len(w.ref.f.flags) > 120:
                continue
            before = set(w.ref.f.flags)
            dofs.mesh_step(sim, w, op)
            if set(w.ref.f.flags) != before:
                fns = [f for f in fns if f.sub is not None]
                if fns:
                    sim.probe("mesh_changed_under_a_function")
        elif o in ("define", "two"):
            before = set(w.ref.f.flags)
            if w.dim == 2:
                dofs.balance_all(w)
            if set(w.ref.f.flags) != before:
                fns = [f for f in fns if f.sub is not None]
            sub = snapshot(w, nsnap) if op["snap"] else None
            dofs.distribute(sim, w, H, sub)
            dofs.numbering(sim, w, H, sub)
            if o == "two":
                two(sim, w, H, sub, op)
                continue
            F = Fn(w, H, sub, w.ref.f.leaves(sub))
            if define(sim, w, F, op):
                fns.append(F)
                fns = fns[-6:]
        else:
            F = pick(fns, op["i"])
            if F is None:
                continue
            if o == "eval":
                evaluate(sim, w, F, op)
            elif o == "modify":
                modify(sim, F, op)
            elif o == "add":
                d = rand(op["s"], (len(F.dofs), op["n"]))
                F.H.held = F.H.held[-5:] + [(d, d.copy())]
                F.lib.add_samples(d)
                F.data = np.hstack([F.data, d])
            elif o == "setdata":
                setdata(sim, w, F, op)
            elif o == "interp":
                G = interp(sim, w, F, H, op, nsnap)
                if G is not None:
                    fns.append(G)
            elif o == "diff":
                diff(sim, w, F, op)
        for F in fns:
            quick(sim, F)
        for g, was in (h for K in hs for h in K.held):
            sim.check(np.array_equal(g, was), "callers_array_changed",
                      lambda: "given as data, now %s, was %s" % (np.ravel(g)[:6], np.ravel(was)[:6]))
        sim.log(o, op["client"], len(w.ref.f.flags), [np.round(F.data[:3, 0], 6) for F in fns])
        sim.state([sorted(w.ref.f.flags), o, [(f.elem, f.sub, f.data.shape[1]) for f in fns]])


def snapshot(w, nsnap):
    lab = "S%d" % nsnap[0]
    nsnap[0] += 1
    w.ref.f.record(lab)
    w.forest().record(lab)
    return lab


def rand(seed, shape):
    return np.round(np.random.Generator(np.random.PCG64(seed)).uniform(-2, 2, size=shape), 4)


def content(sim, w, F, op, fault_ok=True):
    """(kwargs for the library, reference data)."""
    ns = op["ns"]
    if op["how"] == "data":
        d = rand(op["s"], (len(F.dofs), ns))
        given = d[:, 0].copy() if (op["flat"] and ns == 1) else d.copy()
        # the caller keeps its array, and may define several functions from it
        held = [h for h in F.H.held if h[0].shape == given.shape]
        if held and op["s"] % 3 == 0:
            given = held[op["s"] % len(held)][0]
            d = given.reshape(len(F.dofs), ns).copy()
            sim.probe("array_given_twice")
        else:
            F.H.held = F.H.held[-5:] + [(given, given.copy())]
        return {"data": given}, d
    p = int(F.elem[-1])
    rules = [rule(op["how"], w.dim, p, k, op["s"]) for k in range(ns)]
    x = np.array(F.nodes(), dtype=float).reshape(len(F.dofs), w.dim)
    d = np.column_stack([np.ravel(f(x)) for f in rules])
    return {"f": rules if ns > 1 else rules[0]}, d


def per_safe(w, op):
    return not (w.cfg.get("periodic") and op["how"] != "data")


def define(sim, w, F, op):
    from fem import Basis
    from function import Nodal
    if not per_safe(w, op):
        op = dict(op, how="data")
    b = Basis(F.H.h, "v", subforest_flag=F.sub)
    kw, d = content(sim, w, F, op)
    if op["fault"] and "f" in kw:
        fs = kw["f"] if isinstance(kw["f"], list) else [kw["f"]]
        cbs = [Callback(sim, f, fail_at=0 if i == len(fs) - 1 else None) for i, f in enumerate(fs)]
        try:
            Nodal(f=[lambda x, c=c: c(x) for c in cbs], basis=b)
        except InjectedFault:
            pass
        else:
            sim.fail("swallowed_failure", "a rule failed but the function was defined")
    F.lib = Nodal(basis=b, **kw)
    F.data = d
    return True


def quick(sim, F):
    """Stored values are what they should be, always."""
    with sim.observing("data"):
        check_close(sim, F.lib.data(), F.data, "nodal_data", "submesh %s" % F.sub)
        sim.check(F.lib.n_samples() == F.data.shape[1], "n_samples")


def points(w, F, op, n):
    g = make(op["s"])
    a = pick(sorted(F.leaves), op["j"])
    out = []
    for k in range(n):
        r = [0.05 + 0.9 * abs(g(-1, 1)) for _ in range(w.dim)]
        b = pick(sorted(F.leaves), op["j"] + 7 * k)
        out.append((b, dofs.bilinear(w.ref.corners(b), r)))
    return a, out


def evaluate(sim, w, F, op):
    from mesh import Vertex
    der = op["der"]
    if der is not None and (w.dim == 1 and "y" in der[1:]):
        der = "fx" if len(der) == 2 else "fxx"
    form = op["form"]
    a, pts = points(w, F, op, 1 if form == "one" else 4)
    kw = {}
    if form in ("cell", "ancestor"):
        g = make(op["s"] + 5)
        c = a if form == "cell" else a[:1 + op["i"] % len(a)]
        pts = [(b, x) for b, x in
               [(b, dofs.bilinear(w.ref.corners(b), [0.1 + 0.8 * abs(g(-1, 1)) for _ in range(w.dim)]))
                for b in F.leaves if b[:len(c)] == c][:4]]
        kw["cell"] = w.cell(c)
    if form == "finer":
        # a cell of the mesh below the function's own cells
        a = pick(sorted(q for q in F.leaves if q not in w.ref.f.leaves()), op["j"]) or a
        c = pick([q for q in w.ref.f.leaves() if q[:len(a)] == a], op["i"])
        if c is None:
            return
        pts = [(a, dofs.bilinear(w.ref.corners(c), [0.1 + 0.8 * t, 0.3 + 0.5 * t][:w.dim])) for t in (0.1, 0.5, 0.9)]
        kw["cell"] = w.cell(c)
        sim.probe("evaluated_on_a_finer_cell" if c != a else "evaluated")
    if form == "basis":
        return by_basis(sim, w, F, a, der, op)
    if form == "phi" and der is None:
        return supplied(sim, w, F, a, op)
    if form == "nodes" and der is None:
        pts = [(a, p) for p in F.H.positions(w, a)]
    xs = [p for b, p in pts]
    if form == "vertices":
        x = [Vertex(tuple(p)) for p in xs]
    elif form in ("tuples",):
        x = [tuple(p) for p in xs]
    elif form == "one":
        x = Vertex(tuple(xs[0]))
    else:
        x = np.array(xs, dtype=float).reshape(len(xs), w.dim)
    if der is not None:
        kw["derivative"] = der
    with sim.observing("eval"):
        got = np.asarray(F.lib.eval(x, **kw), dtype=float)
    sim.check(got.shape == (len(xs), F.data.shape[1]), "eval_shape", lambda: "%s for %d points, %d samples" % (
        got.shape, len(xs), F.data.shape[1]))
    for i, (b, p) in enumerate(pts):
        if der is None:
            ok = [F.on(c, p) for c in (F.containing(p) if form == "nodes" else [b])]
            sim.check(any(np.allclose(got[i], v, atol=1e-7, rtol=1e-7) for v in ok), "eval_value",
                      lambda: "at %s (cell %s, submesh %s): %s, expected %s" % (p, b, F.sub, got[i], ok))
        else:
            v = F.der(b, p, der)
            sc = 1 + np.max(np.abs(F.data)) * (8.0 ** len(der)) * 4.0 ** max(len(b) - 1, 0)
            sim.check(np.max(np.abs(got[i] - v)) <= 1e-5 * sc, "eval_derivative",
                      lambda: "%s at %s (cell %s): %s, expected %s" % (der, p, b, got[i], v))
    sim.probe("evaluated")


def by_basis(sim, w, F, a, der, op):
    """The shape functions themselves, at reference points or at physical points of (or inside) a cell."""
    from fem import Basis
    from mesh import Vertex
    B = Basis(F.H.h, "v" + (der or "f")[1:], subforest_flag=F.sub)
    V = F.lib.basis()
    sim.check(B.same_mesh(V) and V.same_mesh(mesh=w.mesh, subforest_flag=F.sub) and B.same_dofs(V), "same_mesh",
              "two bases of one submesh are told apart")
    sim.check(not B.same_mesh(mesh=w.mesh, subforest_flag="elsewhere"), "same_mesh_flag", "submeshes taken for one")
    sim.check([int(d) for d in B.dofs()] == list(F.dofs) and int(B.n_dofs()) == len(F.dofs), "basis_dofs",
              lambda: "%s expected %s" % (list(B.dofs())[:10], F.dofs[:10]))
    g = make(op["s"] + 3)
    r = [[0.05 + 0.9 * abs(g(-1, 1)) for _ in range(w.dim)] for _ in range(3)]
    c = a
    if op["i"] % 2:
        c = pick([q for q in w.ref.f.leaves() if q[:len(a)] == a], op["i"]) or a
        xs = [dofs.bilinear(w.ref.corners(c), t) for t in r]
        x = [Vertex(tuple(p)) for p in xs] if op["i"] % 4 == 1 else np.array(xs, dtype=float).reshape(3, w.dim)
        got = np.asarray(B.eval(x, w.cell(c), location="physical"), dtype=float)
        sim.probe("basis_at_physical_points")
    else:
        xs = [dofs.bilinear(w.ref.corners(a), t) for t in r]
        got = np.asarray(B.eval(np.array(r), w.cell(a)), dtype=float)
    cd = [int(d) for d in B.dofs(w.cell(c))]
    sim.check(cd == [int(d) for d in F.cd[a]], "basis_cell_dofs", lambda: "%s expected %s" % (cd, F.cd[a]))
    sim.check(got.shape == (3, len(cd)), "basis_shape", lambda: "%s" % (got.shape,))
    y = got @ F.data[[list(F.dofs).index(d) for d in cd]]
    for p, v in zip(xs, y):
        want = F.on(a, p) if der is None else F.der(a, p, der)
        sc = 1 + np.max(np.abs(F.data)) * ((8.0 ** len(der)) * 4.0 ** max(len(a) - 1, 0) if der else 1)
        sim.check(np.max(np.abs(v - want)) <= (1e-5 if der else 1e-7) * sc, "basis_value",
                  lambda: "%s at %s (cell %s of %s): %s, expected %s" % (der, p, c, a, v, want))
    sim.probe("evaluated")


def supplied(sim, w, F, a, op):
    """Evaluation from supplied shape values, in any order of the dofs."""
    g = make(op["s"] + 5)
    ds = list(dict.fromkeys(F.cd[a]))
    phi = np.array([[g(-1, 1) for _ in ds] for _ in range(3)])
    if op["i"] % 2:
        ds, phi = ds[::-1], phi[:, ::-1].copy()
    before = phi.copy()
    with sim.observing("eval_phi"):
        got = np.asarray(F.lib.eval(phi=phi, dofs=[int(d) for d in ds]), dtype=float)
    sim.check(np.array_equal(phi, before), "shape_values_changed")
    check_close(sim, got.reshape(3, -1), before @ F.data[[F.idx[d] for d in ds], :], "eval_phi", "cell %s" % (a,))
    sim.probe("evaluated_from_shapes")


def modify(sim, F, op):
    g = make(op["s"])
    k = 1 + op["n"]
    ds = [F.dofs[(op["j"] + 3 * t) % len(F.dofs)] for t in range(k)]
    ds = list(dict.fromkeys(ds))
    v = np.array([g(-3, 3) for _ in ds])
    i = op["i"] % F.data.shape[1]
    F.lib.modify_data(v.copy() if op["i"] % 2 else v[:, None].copy(), i_sample=i, dofs=ds)
    F.data = F.data.copy()
    F.data[[F.idx[d] for d in ds], i] = v


def setdata(sim, w, F, op):
    if not per_safe(w, op):
        op = dict(op, how="data")
    kw, d = content(sim, w, F, op)
    F.lib.set_data(**kw)
    F.data = d


def interp(sim, w, F, H, op, nsnap):
    if w.dim == 2 and not w.ref.balanced(None):
        return None
    if w.cfg.get("periodic") and not op["snap"]:
        return None
    sub = snapshot(w, nsnap) if op["snap"] else None
    G = F.lib.interpolant(H.h, subforest_flag=sub)
    H.subs.add(sub)
    dofs.numbering(sim, w, H, sub)
    R = Fn(w, H, sub, w.ref.f.leaves(sub))
    R.lib = G
    with sim.observing("interpolant"):
        d = np.asarray(G.data(), dtype=float)
        sim.check(d.shape == (len(R.dofs), F.data.shape[1]), "interpolant_shape", lambda: str(d.shape))
    if w.cfg.get("periodic"):
        R.data = d.copy()
        return R
    for i, p in enumerate(R.nodes()):
        ok = [F.on(c, p) for c in F.containing(p)]
        sim.check(any(np.allclose(d[i], v, atol=1e-7, rtol=1e-7) for v in ok), "interpolant_value",
                  lambda: "at %s: %s, expected %s" % (p, d[i], ok))
    sim.probe("interpolated")
    R.data = d.copy()
    return R


def diff(sim, w, F, op):
    if curved(w.cfg):
        return
    if w.dim == 2 and not w.ref.balanced(None):
        return
    der = op["der"] if w.dim == 2 else "fx"
    D = F.lib.differentiate(der)
    with sim.observing("derivative_function"):
        a, pts = points(w, F, op, 5)
        got = np.asarray(D.eval(np.array([p for b, p in pts]).reshape(len(pts), w.dim)), dtype=float)
    for i, (b, p) in enumerate(pts):
        v = F.der(b, p, der)
        sc = 1 + np.max(np.abs(F.data)) * 64 * 4.0 ** max(len(b) - 1, 0)
        sim.check(np.max(np.abs(got[i] - v)) <= 1e-5 * sc, "derivative_function",
                  lambda: "%s at %s (cell %s): %s, expected %s" % (der, p, b, got[i], v))
    sim.probe("differentiated")


def two(sim, w, H, sub, op):
    """A function of two points: tensor product of the space with itself."""
    from fem import Basis
    from function import Nodal
    F = Fn(w, H, sub, w.ref.f.leaves(sub))
    n = len(F.dofs)
    if n > 40 or w.cfg.get("periodic"):
        return
    b = Basis(H.h, "v", subforest_flag=sub)
    ns = op["ns"]
    x = np.array(F.nodes(), dtype=float).reshape(n, w.dim)
    if op["how"] == "data":
        M = rand(op["s"], (n, n, ns))
        f = Nodal(data=M.copy(), basis=b, n_variables=2)
    else:
        cs = [make(op["s"] + k)(-2, 2) for k in range(ns)]
        rules = [lambda x, y, c=c: 1 + c * x[:, 0] + x[:, 0] * y[:, -1] ** 2 for c in cs]
        f = Nodal(f=rules if ns > 1 else rules[0], basis=b, n_variables=2)
        M = np.empty((n, n, ns))
        for i in range(n):
            for j in range(n):
                M[i, j] = [np.ravel(r(x[[i]], x[[j]]))[0] for r in rules]
    if op["s"] % 4 == 1:
        # more samples
        more = rand(op["s"] + 1, (n, n, 1 + op["i"] % 2))
        f.add_samples(more[:, :, 0].copy() if more.shape[2] == 1 and op["j"] % 2 else more.copy())
        M = np.concatenate([M, more], axis=2)
        ns = M.shape[2]
        sim.probe("bivariate_extended")
    a, p1 = points(w, F, op, 3)
    a, p2 = points(w, F, dict(op, s=op["s"] + 9), 3)
    X = np.array([p for b_, p in p1]).reshape(3, w.dim)
    Y = np.array([p for b_, p in p2]).reshape(3, w.dim)
    with sim.observing("eval_two"):
        got = np.asarray(f.eval((X, Y)), dtype=float)
    want = np.empty((3, ns))
    for k in range(3):
        s = [shapes(F.elem, F.rn, inverse(w.ref.corners(c), p)) for c, p in (p1[k], p2[k])]
        i = [[F.idx[d] for d in F.cd[c]] for c, p in (p1[k], p2[k])]
        want[k] = np.einsum("i,j,ijk->k", s[0], s[1], M[np.ix_(i[0], i[1])])
    check_close(sim, got, want, "bivariate_value", tol=1e-7)
    # the same on given cells, and from supplied shape values
    (c1, q1), (c2, q2) = p1[0], p2[0]
    k1 = pick([q for q in w.ref.f.leaves() if q[:len(c1)] == c1], op["i"]) if op["j"] % 2 else c1
    q1 = q1 if k1 == c1 else dofs.bilinear(w.ref.corners(k1), [0.4] * w.dim)
    s1, s2 = shapes(F.elem, F.rn, inverse(w.ref.corners(c1), q1)), shapes(F.elem, F.rn, inverse(w.ref.corners(c2), q2))
    i1, i2 = [F.idx[d] for d in F.cd[c1]], [F.idx[d] for d in F.cd[c2]]
    want = np.einsum("i,j,ijk->k", s1, s2, M[np.ix_(i1, i2)])
    with sim.observing("eval_two_cells"):
        got = np.asarray(f.eval((np.array([q1]).reshape(1, -1), np.array([q2]).reshape(1, -1)),
                                cell=(w.cell(k1), w.cell(c2))), dtype=float)
    check_close(sim, got.ravel(), want, "bivariate_on_cells", tol=1e-7)
    with sim.observing("eval_two_phi"):
        got = np.asarray(f.eval(phi=(s1[None, :].copy(), s2[None, :].copy()),
                                dofs=([int(d) for d in F.cd[c1]], [int(d) for d in F.cd[c2]])), dtype=float)
    check_close(sim, got.ravel(), want, "bivariate_phi", tol=1e-7)
    sim.probe("bivariate")


def shrink_cfg(scn):
    c = scn["cfg"]
    if c["world"]["dim"] == 2:
        for r in ([1, 1], [2, 1]):
            yield dict(scn, cfg=dict(c, world=dict(c["world"], kind="grid", res=r, periodic=None)))
    for e in ("Q1", "DQ0"):
        yield dict(scn, cfg=dict(c, elems=[e] * 3))
