"""Assembly, shared by C11, C12 and C14: forms described by data, built in the library and summed by hand.

The reference loops over the cells of the reference mesh with its own Gauss-Legendre
points, its own Lagrange polynomials and its own chain rule, and adds entries by
degree of freedom.
"""
import numpy as np

from . import dofs
from .common import World, gen_mesh_cfg, curved, pick

GAUSS = [[4, 16], [4, 16], [3, 9], [2, 4], [5, 25], [6, 36], [1, 1], [3, 16], [4, 9]]
ELEMS = ["Q1", "Q1", "Q2", "Q2", "Q3", "DQ0", "DQ1", "DQ2"]


# ------------------------------------------------------------------ reference numerics
def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


_LAG = {}


def lagpoly(p, k, d):
    key = (p, k, d)
    if key not in _LAG:
        if p == 0:
            q = np.poly1d([1.0])
        else:
            nodes = [j / p for j in range(p + 1)]
            q = np.poly1d([n for j, n in enumerate(nodes) if j != k], r=True)
            q = q / q(nodes[k])
        _LAG[key] = q.deriv(d) if d else q
    return _LAG[key]


def ref_shape(elem, rn, r, ders):
    """d^a/ds^a d^b/dt^b of every shape function at reference points r (n, dim)."""
    p = int(elem[-1])
    out = np.ones((len(r), len(rn)))
    for i, node in enumerate(rn):
        for d, (c, k) in enumerate(zip(node, ders)):
            out[:, i] *= lagpoly(p, int(round(c * p)) if p else 0, k)(r[:, d])
    return out


def jac(corners, r):
    """(n, dim, dim) Jacobians dx/dr of the bilinear map."""
    if len(corners) == 2:
        return np.full((len(r), 1, 1), corners[1][0] - corners[0][0])
    c = np.array(corners)
    s, t = r[:, 0], r[:, 1]
    ds = np.outer(-(1 - t), c[0]) + np.outer(1 - t, c[1]) + np.outer(t, c[2]) + np.outer(-t, c[3])
    dt = np.outer(-(1 - s), c[0]) + np.outer(-s, c[1]) + np.outer(s, c[2]) + np.outer(1 - s, c[3])
    return np.stack([ds, dt], axis=2)


def phys(corners, r):
    c = np.array(corners)
    if len(corners) == 2:
        return c[0] + (c[1] - c[0]) * r
    s, t = r[:, :1], r[:, 1:]
    return c[0] * (1 - s) * (1 - t) + c[1] * s * (1 - t) + c[2] * s * t + c[3] * (1 - s) * t


def shape(elem, rn, corners, r, der):
    """Physical derivative 'v', 'vx', ... of the shape functions at reference points."""
    ax = ["xy".index(c) for c in der[1:]]
    dim = r.shape[1]
    unit = lambda *k: tuple(sum(1 for q in k if q == d) for d in range(dim))
    if not ax:
        return ref_shape(elem, rn, r, unit())
    G = np.linalg.inv(jac(corners, r))           # dr/dx
    if len(ax) == 1:
        return sum(G[:, k, ax[0]][:, None] * ref_shape(elem, rn, r, unit(k)) for k in range(dim))
    # second derivatives are requested on affine cells only
    return sum((G[:, k, ax[0]] * G[:, m, ax[1]])[:, None] * ref_shape(elem, rn, r, unit(k, m))
               for k in range(dim) for m in range(dim))


def in_ancestor(ref, a, anc, r):
    """Reference coordinates of the same points in an ancestor cell."""
    r = r.copy()
    for k in range(len(a), len(anc), -1):
        i = a[k - 1]
        off = np.array([i] if r.shape[1] == 1 else [[0, 0], [1, 0], [1, 1], [0, 1]][i], dtype=float)
        r = (r + off) / 2
    return r


# ------------------------------------------------------------------ scenario pieces
def gen_kernel(rng, dim, biv=False):
    k = rng.choices(["num", "exp", "const", "nod", "mix"], [2, 3, 1, 2, 1.5])[0] if not biv else "exp"
    ns = rng.choice([1, 1, 1, 2, 3])
    s = {"k": k, "s": rng.randrange(1 << 16), "ns": ns}
    if k == "nod":
        s.update(h=rng.randrange(1000), coarse=rng.random() < 0.4, der=rng.choice([None, None, None, "fx", "fy"]))
    if k == "mix":
        s.update(parts=[gen_kernel_part(rng) for _ in range(rng.choice([2, 2, 3]))], F=rng.choice(["prod", "lin", "cell"]))
    if biv:
        s.update(ns=1, sym=rng.random() < 0.5)
    return s


def gen_kernel_part(rng):
    k = rng.choice(["exp", "const", "nod"])
    return {"k": k, "s": rng.randrange(1 << 16), "ns": rng.choice([1, 1, 2]), "h": rng.randrange(1000),
            "coarse": rng.random() < 0.3, "der": rng.choice([None, None, "fx"])}


def gen_problem(rng, dim, integral=True):
    ders = ["v", "v", "vx", "vxx"] if dim == 1 else ["v", "v", "vx", "vy", "vxx", "vxy"]
    nforms = rng.choice([1, 1, 2, 3])
    galerkin = rng.random() < 0.5
    p = {"hl": rng.randrange(1000), "ht": rng.randrange(1000), "hr": rng.randrange(1000), "galerkin": galerkin,
         "coarse": rng.random() < 0.3, "coarse_r": rng.random() < 0.3, "forms": []}
    for _ in range(nforms):
        t = rng.choices(["c", "l", "b", "ii", "ip"], [1.5, 3, 4, 0.4 if integral else 0, 0.4 if integral else 0])[0]
        f = {"t": t, "test": rng.choice(ders), "trial": rng.choice(ders),
             "dmu": rng.choices(["dx", "ds", "dv"], [6, 2 if dim == 2 else 0, 0.7])[0] if t in "clb" else "dx",
             "flag": rng.choice([None, None, "R0", "R1"]), "ker": gen_kernel(rng, dim, t in ("ii", "ip")),
             "share": rng.random() < 0.5}
        if f["dmu"] == "dv":
            f["flag"] = "R0"
        p["forms"].append(f)
    return p


class Form(object):
    """A form under test: library object and its description."""


class Session(object):
    """World, handlers with dofs on the mesh and on the submeshes, marks of cells, edges and vertices."""

    def __init__(self, scn, sim, cap=20, two_level=True):
        cfg = scn["cfg"]
        self.sim = sim
        self.w = w = World(cfg["world"])
        for op in cfg["prep"]:
            dofs.mesh_step(sim, w, op, cap=cap)
        dofs.balance_all(w) if w.dim == 2 else None
        self.subs = [None] + [s for s in ("A", "B") if w.ref.f.leaves(s) and w.ref.f.rooted(s)]
        self.affine = not curved(w.cfg)
        self.H = []
        for e in cfg["elems"]:
            self.H.append(dofs.Handler(w, e))
        self.number()
        self.frozen = {}         # (handler, sub) -> leaves when last numbered
        self.mark(cfg["mseed"])
        self.cache = {}

    def number(self):
        for H in self.H:
            for s in self.subs:
                dofs.distribute(self.sim, self.w, H, s)
                for a in dofs.cells_of(self.w, s):
                    H.known[a] = tuple(int(d) for d in H.h.get_cell_dofs(self.w.cell(a)))

    def mark(self, seed):
        """Labels R0, R1 on some current cells, half-edges and vertices; labels are input here."""
        r = np.random.Generator(np.random.PCG64(seed))
        w = self.w
        for s in self.subs:
            for a in sorted(w.ref.f.leaves(s)):
                c = w.cell(a)
                for lab in ("R0", "R1"):
                    if r.random() < 0.5:
                        c.mark(lab)
                    if w.dim == 2:
                        for h in c.get_half_edges():
                            if r.random() < 0.25:
                                h.mark(lab)
                    for v in c.get_vertices():
                        if r.random() < 0.15:
                            v.mark(lab)

    def coarser(self, sub):
        """Submeshes of which the given one is a refinement."""
        f = self.w.ref.f
        out = []
        for s in self.subs:
            if s == sub:
                continue
            if s is None:
                continue
            ls = set(f.leaves(s))
            if all(any(a[:k] in ls for k in range(1, len(a) + 1)) for a in f.leaves(sub)):
                out.append(s)
        return out

    def anc(self, a, sub):
        """Cell of the submesh that carries the basis on cell a."""
        if sub is None:
            return a
        f = self.w.ref.f
        while sub not in f.flags[a]:
            a = a[:-1]
        return a

    def dofs_on(self, H, sub):
        return sorted(set(d for a in self.w.ref.f.leaves(sub) for d in H.known[a]))


# ------------------------------------------------------------------ functions and kernels
def coefs(s, k):
    g = np.random.Generator(np.random.PCG64(s + 1000 * k))
    return np.round(g.uniform(-2, 2, 4), 2)


def explicit(s, ns, dim):
    out = []
    for k in range(ns):
        c = coefs(s, k)
        out.append(lambda x, a=1.0, c=c: a * (c[0] + c[1] * x[:, 0] + c[2] * x[:, -1] ** 2 + c[3] * x[:, 0] * x[:, -1]))
    return out


def bivariate(s, sym):
    c = coefs(s, 0)
    if sym:
        return lambda x, y: 1.0 + c[0] * x[:, 0] * y[:, 0] + c[1] * (x[:, -1] + y[:, -1])
    return lambda x, y: 1.0 + c[0] * x[:, 0] * y[:, 0] ** 2 + c[1] * x[:, -1] + c[2] * y[:, -1]


class Fun(object):
    """A coefficient function: library object and reference evaluation."""

    def __init__(self, S, spec, sub, state):
        from function import Constant, Explicit, Nodal
        from fem import Basis
        self.spec, self.k = spec, spec["k"]
        dim = S.w.dim
        self.ns = spec["ns"]
        if self.k == "exp":
            self.f = explicit(spec["s"], self.ns, dim)
            self.par = 1.0
            self.lib = Explicit([hook(state, g) for g in self.f], dim=dim)
        elif self.k == "const":
            self.vals = [float(coefs(spec["s"], k)[0]) for k in range(self.ns)]
            self.lib = Constant(np.array(self.vals) if self.ns > 1 else self.vals[0])
        elif self.k == "nod":
            self.H = pick(S.H, spec["h"])
            co = S.coarser(sub)
            self.sub = pick(co, spec["s"]) if spec["coarse"] and co else sub
            self.der = spec["der"] if not (spec["der"] == "fy" and dim == 1) else "fx"
            self.dofs = S.dofs_on(self.H, self.sub)
            g = np.random.Generator(np.random.PCG64(spec["s"]))
            self.data = np.round(g.uniform(-2, 2, (len(self.dofs), self.ns)), 2)
            self.lib = Nodal(data=self.data.copy(), basis=Basis(self.H.h, "v", self.sub), dim=dim)

    def value(self, S, a, r, x):
        if self.k == "exp":
            return np.column_stack([g(x, a=self.par) for g in self.f])
        if self.k == "const":
            return np.tile(np.array(self.vals), (len(x), 1))
        b = S.anc(a, self.sub)
        P = shape(self.H.elem, self.H.rn, S.w.ref.corners(b), in_ancestor(S.w.ref, a, b, r),
                  "v" + (self.der or "f")[1:])
        idx = {d: i for i, d in enumerate(self.dofs)}
        return P @ self.data[[idx[d] for d in self.H.known[b]], :]


def hook(state, f):
    def rule(*x, **p):
        state["calls"] += 1
        if state["fail"] is not None and state["calls"] == state["fail"]:
            from ..core import InjectedFault
            state["fail"] = None
            state["sim"].fault("callback_exception")
            raise InjectedFault("simulated failure of a coefficient function")
        return f(*x, **p)
    return rule


class Ker(object):
    def __init__(self, S, spec, sub, state, funs):
        from assembler import Kernel
        from function import Explicit
        self.spec = spec
        k = spec["k"]
        self.biv = "sym" in spec
        if self.biv:
            self.f2 = bivariate(spec["s"], spec["sym"])
            self.lib = Kernel(Explicit(hook(state, self.f2), dim=S.w.dim, n_variables=2, symmetric=spec["sym"]))
            self.parts, self.F = [], "biv"
            return
        if k == "num":
            self.num = float(coefs(spec["s"], 0)[0])
            self.lib, self.parts, self.F = self.num, [], "num"
            return
        if k == "mix":
            self.parts = []
            for q in spec["parts"]:
                f = Fun(S, q, sub, state)
                sizes = set(p.ns for p in self.parts) - {1}
                if f.ns > 1 and sizes and f.ns not in sizes:
                    continue
                self.parts.append(f)
            self.F = spec["F"]
        else:
            # functions are shared between forms, as clients do
            old = [f for f in funs if f.k == k and f.ns == spec["ns"] and (k != "nod" or f.sub == sub)]
            self.parts = [old[spec["s"] % len(old)]] if old and spec["s"] % 3 == 0 else [Fun(S, spec, sub, state)]
            self.F = "one"
        funs.extend(p for p in self.parts if p not in funs)
        libs = [p.lib for p in self.parts]
        ders = [p.der if p.k == "nod" else None for p in self.parts]
        ders = ders if any(ders) else None
        pos = lambda cell: cell.get_node_position() + 1
        F = {"one": None, "prod": lambda *f: np.prod(np.array(f), axis=0),
             "lin": lambda *f: sum((i + 1) * v for i, v in enumerate(f)),
             "cell": {1: lambda f, cell: f * pos(cell), 2: lambda f, g, cell: (f + g) * pos(cell),
                      3: lambda f, g, h, cell: (f + g + h) * pos(cell)}.get(len(libs))}[self.F]
        if self.F == "one" and ders is None and spec["s"] % 2:
            self.lib = libs[0]
        else:
            self.lib = Kernel(libs, derivatives=ders, F=F)

    def ns(self):
        return max([p.ns for p in self.parts] + [1])

    def value(self, S, a, r, x):
        if self.F == "num":
            return np.full((len(x), 1), self.num)
        n = self.ns()
        v = [np.tile(q, (1, n)) if q.shape[1] < n else q for q in (p.value(S, a, r, x) for p in self.parts)]
        if self.F == "one":
            return v[0]
        if self.F == "prod":
            return np.prod(np.array(v), axis=0)
        if self.F == "lin":
            return sum((i + 1) * q for i, q in enumerate(v))
        return sum(v) * (a[-1] + 1)


# ------------------------------------------------------------------ problems
class Problem(object):
    def __init__(self, S, spec, sub, state, funs, bases):
        from assembler import Form as LForm, IIForm, IPForm
        from fem import Basis
        self.spec, self.sub = spec, sub
        self.lt = pick(S.H, spec["hl"])                      # linear test
        self.bt = self.lt if spec["galerkin"] else pick(S.H, spec["ht"])
        self.br = self.bt if spec["galerkin"] else pick(S.H, spec["hr"])
        co = S.coarser(sub)
        tsub = pick(co, spec["hl"]) if co and spec["coarse"] else sub
        rsub = tsub if spec["galerkin"] else (pick(co, spec["hr"]) if co and spec["coarse_r"] else sub)
        self.tsub, self.rsub = tsub, rsub
        self.forms = []
        self.ns = {0: 1, 1: 1, 2: 1}

        def basis(H, der, s, share):
            if not S.affine and len(der) > 2:
                der = der[:2]
            if share:
                for b in bases:
                    if b[0] == (H, der, s):
                        return b[1], der
            b = Basis(H.h, der, s)
            bases.append(((H, der, s), b))
            return b, der
        for fs in spec["forms"]:
            f = Form()
            t = fs["t"]
            if t in ("ii", "ip") and len(S.w.ref.f.leaves(sub)) > 8:
                t = None
            if t == "ii" and S.w.cfg.get("periodic"):
                t = None         # collocation points on a periodic boundary are not unique
            if t is None:
                continue
            f.t, f.flag, f.dmu = t, fs["flag"], fs["dmu"]
            f.ker = Ker(S, fs["ker"], sub, state, funs)
            d = {"c": 0, "l": 1}.get(t, 2)
            n = f.ker.ns()
            if n > 1 and self.ns[d] > 1 and n != self.ns[d]:
                continue
            kw = {"kernel": f.ker.lib, "dmu": f.dmu, "flag": f.flag}
            if t == "c":
                f.lib = LForm(**kw)
            elif t == "l":
                f.test, f.td = basis(self.lt, fs["test"], tsub, fs["share"])
                f.th = self.lt
                f.lib = LForm(test=f.test, **kw)
            else:
                f.test, f.td = basis(self.bt, fs["test"] if t != "ii" else "v", tsub, fs["share"])
                f.trial, f.rd = basis(self.br, fs["trial"], rsub, fs["share"])
                f.th, f.rh = self.bt, self.br
                f.lib = {"b": LForm, "ii": IIForm, "ip": IPForm}[t](test=f.test, trial=f.trial, **kw)
            self.ns[d] = max(self.ns[d], n)
            f.d, f.n = d, n
            self.forms.append(f)

    def refresh(self):
        """Sample counts are those at construction; functions change values, not counts."""


def regions(S, f, a, c):
    """(reference points, weights relative to the region) of the regions of a form in a cell."""
    w = S.w
    cs = w.ref.corners(a)
    if f.dmu == "dx":
        if f.flag is None or c.is_marked(f.flag):
            yield "cell"
    elif f.dmu == "ds":
        for k, h in enumerate(c.get_half_edges()):
            if f.flag is None or h.is_marked(f.flag):
                yield ("edge", k)
    else:
        for k, v in enumerate(c.get_vertices()):
            if f.flag is None or v.is_marked(f.flag):
                yield ("vertex", k)


CORN = np.array([[0., 0.], [1., 0.], [1., 1.], [0., 1.]])


def quad(S, reg, a, n_gauss):
    dim = S.w.dim
    cs = S.w.ref.corners(a)
    if reg == "cell":
        n = n_gauss[0] if dim == 1 else int(round(n_gauss[1] ** 0.5))
        x, w = gauss(n)
        if dim == 1:
            return x[:, None], w * (cs[1][0] - cs[0][0])
        r = np.array([[s, t] for t in x for s in x])
        ww = np.array([p * q for q in w for p in w])
        return r, ww * np.abs(np.linalg.det(jac(cs, r)))
    if reg[0] == "edge":
        x, w = gauss(n_gauss[0])
        p, q = CORN[reg[1]], CORN[(reg[1] + 1) % 4]
        L = np.linalg.norm(np.array(cs[(reg[1] + 1) % 4]) - np.array(cs[reg[1]]))
        return p + np.outer(x, q - p), w * L
    r = np.array([[float(reg[1])]]) if dim == 1 else CORN[reg[1]][None, :]
    return r, np.ones(1)


def basis_at(S, H, sub, der, a, r):
    b = S.anc(a, sub)
    return (shape(H.elem, H.rn, S.w.ref.corners(b), in_ancestor(S.w.ref, a, b, r), der), H.known[b])


def reference(S, P, leaves, n_gauss):
    """{0: array (ns,), 1: {dof: (ns,)}, 2: {(r, c): (ns,)}} over the given cells; absent forms omitted."""
    out = {}
    for f in P.forms:
        ns = P.ns[f.d]
        if f.d not in out:
            out[f.d] = np.zeros(ns) if f.d == 0 else {}
        up = lambda v: np.tile(v, (1,) * (v.ndim - 1) + (ns,)) if v.shape[-1] < ns else v
        for a in leaves:
            c = S.w.cell(a)
            if f.t == "ip":
                for b in leaves:
                    pair(S, P, f, a, b, n_gauss, out[2])
                continue
            for reg in regions(S, f, a, c):
                r, w = quad(S, reg, a, n_gauss)
                x = phys(S.w.ref.corners(a), r)
                if f.t == "ii":
                    colloc(S, P, f, a, r, w, x, out[2])
                    continue
                K = up(f.ker.value(S, a, r, x))
                if f.d == 0:
                    out[0] += w @ K
                    continue
                T, td = basis_at(S, f.th, P.tsub, f.td, a, r)
                if f.d == 1:
                    L = T.T @ (w[:, None] * K)
                    for i, d in enumerate(td):
                        out[1][d] = out[1].get(d, 0) + L[i]
                    continue
                R, rd = basis_at(S, f.rh, P.rsub, f.rd, a, r)
                B = np.einsum("gi,gj,gs->ijs", T, R, w[:, None] * K)
                for i, d in enumerate(td):
                    for j, e in enumerate(rd):
                        out[2][(d, e)] = out[2].get((d, e), 0) + B[i, j]
            if f.d == 1:
                for d in f.th.known[S.anc(a, P.tsub)]:
                    out[1].setdefault(d, np.zeros(ns))
            elif f.t == "b":
                for d in f.th.known[S.anc(a, P.tsub)]:
                    for e in f.rh.known[S.anc(a, P.rsub)]:
                        out[2].setdefault((d, e), np.zeros(ns))
            elif f.t == "ii":
                for d in S.dofs_on(f.th, P.tsub):
                    for e in f.rh.known[S.anc(a, P.rsub)]:
                        out[2].setdefault((d, e), np.zeros(ns))
    return out


def pair(S, P, f, a, b, n_gauss, out):
    ra = list(regions(S, f, a, S.w.cell(a)))
    rb = list(regions(S, f, b, S.w.cell(b)))
    td, rd = f.th.known[S.anc(a, P.tsub)], f.rh.known[S.anc(b, P.rsub)]
    for d in td:
        for e in rd:
            out.setdefault((d, e), np.zeros(P.ns[2]))
    if not ra or not rb:
        return
    r1, w1 = quad(S, "cell", a, n_gauss)
    r2, w2 = quad(S, "cell", b, n_gauss)
    x1, x2 = phys(S.w.ref.corners(a), r1), phys(S.w.ref.corners(b), r2)
    T, _ = basis_at(S, f.th, P.tsub, f.td, a, r1)
    R, _ = basis_at(S, f.rh, P.rsub, f.rd, b, r2)
    i, j = np.meshgrid(np.arange(len(x1)), np.arange(len(x2)), indexing="ij")
    K = f.ker.f2(x1[i.ravel()], x2[j.ravel()]).reshape(len(x1), len(x2))
    B = (T * w1[:, None]).T @ K @ (R * w2[:, None])
    for p, d in enumerate(td):
        for q, e in enumerate(rd):
            out[(d, e)] = out[(d, e)] + B[p, q]


def colloc(S, P, f, a, r, w, x, out):
    td = S.dofs_on(f.th, P.tsub)
    pos = {}
    for c in S.w.ref.f.leaves(P.tsub):
        for q, d in zip(f.th.positions(S.w, c), f.th.known[c]):
            pos.setdefault(d, q)
    X = np.array([pos[d] for d in td])
    R, rd = basis_at(S, f.rh, P.rsub, f.rd, a, r)
    i, j = np.meshgrid(np.arange(len(X)), np.arange(len(x)), indexing="ij")
    K = f.ker.f2(X[i.ravel()], x[j.ravel()]).reshape(len(X), len(x))
    B = K @ (R * w[:, None])
    for p, d in enumerate(td):
        for q, e in enumerate(rd):
            out[(d, e)] = out.get((d, e), np.zeros(P.ns[2])) + B[p, q]
