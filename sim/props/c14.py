"""Adaptive solution processes: refine, number, assemble, constrain, solve, transfer, measure, repeat."""
import numpy as np

from . import asm, c08, dofs
from .common import Callback, World, check_close, gen_mesh_cfg, curved, pick
from .. import seams
from ..core import InjectedBackendError, InjectedFault

LABELS = ["A", "B"]


# ------------------------------------------------------------------ polynomials
class Poly(object):
    """Polynomial in one or two variables, evaluated at (n, dim) arrays."""

    def __init__(self, c, dim):
        self.c = {k: v for k, v in c.items() if v}
        self.dim = dim

    def __call__(self, x):
        x = np.asarray(x, dtype=float).reshape(-1, self.dim)
        out = np.zeros(len(x))
        for k, v in self.c.items():
            t = np.full(len(x), v)
            for d in range(self.dim):
                t = t * x[:, d] ** k[d]
            out += t
        return out

    def d(self, ax):
        out = {}
        for k, v in self.c.items():
            if k[ax]:
                q = list(k)
                q[ax] -= 1
                out[tuple(q)] = out.get(tuple(q), 0) + v * k[ax]
        return Poly(out, self.dim)

    def __add__(self, o):
        out = dict(self.c)
        for k, v in o.c.items():
            out[k] = out.get(k, 0) + v
        return Poly(out, self.dim)

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return Poly({k: v * o for k, v in self.c.items()}, self.dim)
        out = {}
        for k, v in self.c.items():
            for m, u in o.c.items():
                q = tuple(i + j for i, j in zip(k, m))
                out[q] = out.get(q, 0) + u * v
        return Poly(out, self.dim)


def const(v, dim):
    return Poly({(0,) * dim: v}, dim)


def poly(seed, w, degree, total):
    """A polynomial the element reproduces: degree per variable, or in all variables together."""
    g = np.random.Generator(np.random.PCG64(seed))
    dim = w["dim"]
    fixed = periodic_axes(w)
    c = {}
    for k in np.ndindex(*(degree + 1,) * dim):
        v = float(np.round(g.uniform(-1, 1), 2))
        if any(k[ax] for ax in fixed) or (total and sum(k) > degree):
            continue
        c[tuple(int(i) for i in k)] = v
    return Poly(c, dim)


def periodic_axes(w):
    if w["dim"] == 1:
        return [0] if w["periodic"] else []
    return w.get("periodic") or []


# ------------------------------------------------------------------ scenario
def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, small=True, bent=True)
    prep = [gen_mesh_op(rng, ["split", "split", "record", "refine_sub"]) for _ in range(rng.randrange(0, 4))]
    ops = []
    for _ in range(rng.randrange(4, 10 if tier == "quick" else 20)):
        k = rng.choices(["mesh", "solve", "transfer", "measure", "indicate"], [3, 4, 1.5, 1.5, 1.5])[0]
        op = {"op": k, "client": rng.randrange(3), "s": rng.randrange(1 << 16)}
        if k == "mesh":
            op.update(gen_mesh_op(rng, ["split", "split", "split", "refine_sub", "record", "balance", "coarsen_sub"]))
            op["op"], op["mesh"] = "mesh", op["op"]
        if k == "solve":
            op.update(gen_solve(rng, w))
        if k == "transfer":
            op.update(sub=rng.randrange(3))
        if k == "indicate":
            op.update(frac=rng.choice([0.25, 0.5]))
        ops.append(op)
    ops.append(dict({"op": "solve", "client": rng.randrange(3), "s": rng.randrange(1 << 16)}, **gen_solve(rng, w)))
    return {"cfg": {"world": w, "prep": prep, "elems": [rng.choice(["Q1", "Q1", "Q2", "Q2", "Q3"]) for _ in range(2)]},
            "ops": ops}


def gen_mesh_op(rng, kinds):
    return {"op": rng.choice(kinds), "i": rng.randrange(1000), "lab": rng.choice(LABELS), "n": rng.randrange(1, 3),
            "j": rng.randrange(1000), "client": rng.randrange(3)}


def gen_solve(rng, w):
    return {"sub": rng.choice([0, 0, 1, 2]), "path": rng.choice(["assembler", "system", "factored"]),
            "bc": [rng.choice("DDDNR") for _ in range(8)], "adv": rng.random() < 0.4, "var": rng.random() < 0.5,
            "mode": rng.choices(["steady", "step", "picard", "samples"], [5, 3, 0.6, 1.2])[0],
            "degree": rng.choice([None, None, 1]), "split": rng.random() < 0.4,
            "fault": rng.choice(["rule", "backend"]) if rng.random() < 0.2 else None, "at": rng.randrange(40)}


# ------------------------------------------------------------------ the run
class Client(object):
    pass


class State(object):
    pass


def run(scn, sim):
    cfg = scn["cfg"]
    S = State()
    S.sim, S.n = sim, 0
    S.w = w = World(cfg["world"])
    S.cap = 22 if "Q3" not in cfg["elems"] else 14
    for op in cfg["prep"]:
        dofs.mesh_step(sim, w, op, cap=S.cap)
    S.affine = not curved(w.cfg)
    S.sides = boundary_groups(w)
    S.H = [dofs.Handler(w, e) for e in cfg["elems"]]
    clients = [Client() for _ in range(3)]
    for i, c in enumerate(clients):
        c.H, c.sol = S.H[i % 2], None
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        c = clients[op["client"]]
        o = op["op"]
        if o == "mesh":
            dofs.mesh_step(sim, w, dict(op, op=op["mesh"]), cap=S.cap)
        elif o == "solve":
            solve(S, c, op)
        elif o == "transfer" and c.sol:
            transfer(S, c, op)
        elif o == "measure" and c.sol:
            measure(S, c, op)
        elif o == "indicate" and c.sol:
            indicate(S, c, op)
        for q in clients:
            if q.sol:
                nodal_values(S, q.sol)
        sim.state([o, op["client"], len(w.ref.f.leaves()), [q.sol and [q.sol.sub, q.sol.mode] for q in clients]])


def boundary_groups(w):
    """Straight boundary sides: flag, normal, and segments on it."""
    if w.dim == 1:
        if w.cfg["periodic"]:
            return []
        b = w.cfg["box"]
        return [("S0", (-1.0,), [((b[0],), (b[0],))]), ("S1", (1.0,), [((b[1],), (b[1],))])]
    out = {}
    for a in w.ref.f.roots:
        for s in range(4):
            if w.ref.across(a, s) is not None:
                continue
            p, q = w.ref.side(a, s)
            t = np.subtract(q, p)
            n = np.array([t[1], -t[0]]) / np.hypot(*t)
            key = (tuple(float(v) for v in np.round(n, 9) + 0.0), round(float(np.dot(n, p)), 9))
            out.setdefault(key, []).append((p, q))
    return [("S%d" % i, key[0], out[key]) for i, key in enumerate(sorted(out))]


def on_group(g, tol=1e-9):
    """Predicate: the point lies on one of the segments of the side."""
    flag, n, segs = g
    if len(n) == 1:
        return lambda x: abs(x - segs[0][0][0]) < tol

    def f(x, y):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        hit = np.zeros(x.shape, dtype=bool)
        for p, q in segs:
            t = np.subtract(q, p)
            L2 = float(t @ t)
            cr = t[0] * (y - p[1]) - t[1] * (x - p[0])
            al = (x - p[0]) * t[0] + (y - p[1]) * t[1]
            hit = hit | ((abs(cr) < tol) & (al > -tol) & (al < L2 + tol))
        return hit if hit.ndim else bool(hit)
    return f


def ready(S, c, op):
    """Balance, number and label the mesh the client is about to work on; boundary sides are marked."""
    w = S.w
    f = w.ref.f
    sub = None
    if op["sub"]:
        lab = LABELS[op["sub"] - 1]
        if f.leaves(lab) and f.rooted(lab):
            sub = lab
    if w.dim == 2:
        dofs.balance_all(w, sub)
    # the client's own label for this mesh: its solutions stay attached to it
    S.n += 1
    mine = "m%d" % S.n
    if sub is None:
        f.record(mine)
        w.forest().record(mine)
    else:
        if any(sub in f.flags[a] and a not in f.kids for a in f.leaves(sub)):
            S.sim.probe("solve_on_submesh")
        w.forest().coarsen(subforest_flag=sub, coarsening_flag="nowhere", new_label=mine, clean_up=False)
        f.coarsen(sub, "nowhere", mine, False)
    for H in S.H:
        # every client keeps its numbering up to date with the meshes in use
        dofs.distribute(S.sim, w, H, mine)
        for a in dofs.cells_of(w, mine):
            H.known[a] = tuple(int(d) for d in H.h.get_cell_dofs(w.cell(a)))
    ent = "vertex" if w.dim == 1 else "half_edge"
    for g in S.sides:
        w.mesh.mark_region(g[0], on_group(g), entity_type=ent, on_boundary=True, subforest_flag=mine)
    return mine


class Solution(object):
    pass


class Problem(object):
    """-div(a grad u) + b.grad u + c u = f with exact solution u, per sample."""

    def __init__(self, S, c, op, us):
        w, dim = S.w, S.w.dim
        s = op["s"]
        g = np.random.Generator(np.random.PCG64(s + 1))
        self.us, self.dim = us, dim
        per = periodic_axes(w.cfg)
        co = {(0,) * dim: 2.0}
        if op["var"]:
            b = w.cfg["box"]
            for ax in range(dim):
                if ax in per:
                    continue
                k = tuple(int(i == ax) for i in range(dim))
                v = float(np.round(g.uniform(0.1, 0.5), 2))
                co[k] = v
                co[(0,) * dim] += v * abs(b[2 * ax]) if b[2 * ax] < 0 else 0
        self.a = Poly(co, dim)
        self.b = [float(np.round(g.uniform(-0.5, 0.5), 2)) if op["adv"] else 0.0 for _ in range(dim)]
        self.c = float(np.round(g.uniform(0.5, 2), 2))
        self.alpha = float(np.round(g.uniform(0.5, 2), 2))
        self.bc = {q[0]: op["bc"][i % 8] for i, q in enumerate(S.sides)}

    def load(self, u, c=None):
        out = u * (self.c if c is None else c)
        for ax in range(self.dim):
            out = out + (self.a * u.d(ax)).d(ax) * -1.0 + u.d(ax) * self.b[ax]
        return out

    def flux(self, u, n):
        out = const(0.0, self.dim)
        for ax in range(self.dim):
            out = out + self.a * u.d(ax) * float(n[ax])
        return out


def explicit(S, ps, fault=None):
    from function import Explicit
    fs = []
    for p in ps:
        cb = Callback(S.sim, p, fail_at=None if fs else fault)
        fs.append(cb)
    return Explicit([(lambda x, q=q: q(x)) for q in fs], dim=S.w.dim) if len(fs) > 1 else Explicit(
        lambda x, q=fs[0]: q(x), dim=S.w.dim)


def solve(S, c, op):
    from fem import Basis
    from function import Nodal
    sim, w = S.sim, S.w
    mine = ready(S, c, op)
    deg = int(c.H.elem[-1])
    deg = min(deg, op["degree"] or deg)
    mode = op["mode"]
    if mode == "step" and (c.sol is None or len(c.sol.us) != 1 or not contained(w, mine, c.sol.sub)):
        mode = "steady"
    if mode == "samples" and not S.sides:
        mode = "steady"
    us = [poly(op["s"] + 17 * k, w.cfg, deg, not S.affine) for k in range(3 if mode == "samples" else 1)]
    P = Problem(S, c, op, us)
    if mode == "samples":
        # several solutions at once share their (natural) boundary conditions
        P.bc = {k: ("N" if v == "D" else v) for k, v in P.bc.items()}
    if not S.sides:
        sim.probe("closed_domain")
    sol = Solution()
    sol.sub, sol.us, sol.mode, sol.H = mine, us, mode, c.H
    leaves = w.ref.f.leaves(mine)
    sol.dofs = sorted(set(d for a in leaves for d in c.H.known[a]))
    sol.at = {}
    for a in leaves:
        for p, d in zip(c.H.positions(w, a), c.H.known[a]):
            sol.at[d] = p
    sol.basis = Basis(c.H.h, "v", mine)
    fault = op["fault"]
    extra = []
    if mode == "step":
        sim.probe("time_step")
        tau = 0.25
        extra = [(c.sol, tau)]
    if mode == "picard":
        data = Nodal(data=np.zeros((len(sol.dofs), 1)), basis=sol.basis, dim=w.dim)
        for it in range(9):
            values = system(S, c, op, P, sol, lagged=data)
            data = Nodal(data=values[:, :1], basis=sol.basis, dim=w.dim)
        sim.probe("nonlinear_iteration")
    else:
        values = system(S, c, op, P, sol, extra=extra, fault=fault)
    sol.values = values
    sol.fn = Nodal(data=values.copy(), basis=sol.basis, dim=w.dim)
    c.sol = sol
    if c08.expected(w, c.H, mine):
        sim.probe("hanging_nodes_present")
    sim.probe("mode_" + mode)
    nodal_values(S, sol)
    sim.log("u", mode, np.round(values, 6).ravel()[:40])
    anywhere(S, sol, op["s"])


EPS = 0.05


def system(S, c, op, P, sol, extra=(), lagged=None, fault=None):
    from assembler import Assembler, Form, Kernel
    from fem import Basis
    from function import Constant
    from solver import LinearSystem
    sim, w, dim = S.sim, S.w, S.w.dim
    H, mine = c.H, sol.sub
    u, ux, uy = Basis(H.h, "v", mine), Basis(H.h, "vx", mine), None
    ders = [ux]
    if dim == 2:
        ders.append(Basis(H.h, "vy", mine))
    fl = explicit(S, [P.load(q) for q in P.us], fault=op["at"] if fault == "rule" else None)
    ka = explicit(S, [P.a])
    F = []
    if lagged is not None:
        # reaction c + eps u^2, taken from the previous iterate; P.load is corrected accordingly
        q = P.us[0]
        eps = EPS / (1.0 + max(float(q(np.array(p))[0]) ** 2 for p in sol.at.values()))
        F.append(Form(Kernel([lagged], F=lambda z: P.c + eps * z ** 2), trial=u, test=u))
        fl = explicit(S, [P.load(q) + q * q * q * eps])
    elif op["split"]:
        F += [Form(P.c / 4, trial=u, test=u), Form(Constant(3 * P.c / 4), trial=u, test=u)]
    else:
        F.append(Form(P.c, trial=u, test=u))
    F += [Form(ka if k % 2 or not op["split"] else Kernel(ka), trial=d, test=d) for k, d in enumerate(ders)]
    F += [Form(b, trial=d, test=u) for b, d in zip(P.b, ders) if b]
    F.append(Form(fl, test=u))
    for old, tau in extra:
        # (u - u_old) / tau: the old solution lives on an earlier, coarser mesh
        F.append(Form(1 / tau, trial=u, test=u))
        F.append(Form(Kernel([old.fn], F=lambda z: z / tau), test=u))
        # the load makes up for the difference of the exact solutions
        F.append(Form(explicit(S, [(P.us[0] + old.us[0] * -1.0) * (1 / tau)]), test=u))
    dmu = "dv" if dim == 1 else "ds"
    for flag, n, _ in S.sides:
        t = P.bc[flag]
        if t in "NR":
            g = [P.flux(q, n) for q in P.us]
            if t == "R":
                F.append(Form(P.alpha, trial=u, test=u, dmu=dmu, flag=flag))
                g = [p + q * P.alpha for p, q in zip(g, P.us)]
            F.append(Form(explicit(S, g), test=u, dmu=dmu, flag=flag))
            sim.probe("natural_boundary")
    A = Assembler([F], w.mesh, subforest_flag=mine, n_gauss=(5, 25))
    hang = c08.expected(w, H, mine)
    path = op["path"]
    data = explicit(S, [P.us[0]])
    dirichlet = [flag for flag, _, _ in S.sides if P.bc[flag] == "D"]

    def assemble():
        if fault == "rule":
            try:
                A.assemble()
            except InjectedFault:
                sim.probe("assembly_interrupted")
                A.assemble()
        else:
            A.assemble()
    if path == "assembler":
        for flag in dirichlet:
            A.add_dirichlet(flag, data)
        if hang or op["s"] % 2:
            A.add_hanging_nodes()
        assemble()
        cols = []
        for k in range(len(P.us)):
            cols.append(backend(S, fault, lambda k=k: A.solve(i_vector=k)))
        return np.column_stack(cols)
    assemble()
    if op["s"] % 3 == 0:
        x = LinearSystem(u, A=A.get_matrix())
    else:
        x = LinearSystem(u, A=A.get_matrix(), b=A.get_vector())
    for flag in dirichlet:
        x.add_dirichlet_constraint(flag, data)
    cols = []
    kw = {"factor": True} if path == "factored" else {}
    for k in range(len(P.us)):
        b = A.get_vector(i_sample=k)
        backend(S, fault, lambda: x.solve_system(b, **kw))
        v = x.get_solution(as_function=False)
        cols.append(np.array(v.toarray() if hasattr(v, "toarray") else v).reshape(len(sol.dofs), -1)[:, 0].copy())
    return np.column_stack(cols)


def backend(S, fault, go):
    if fault != "backend":
        return go()
    seams.BACKEND.arm(after=0, exc="runtime")
    try:
        return go()
    except (InjectedBackendError, seams.InjectedMemory):
        S.sim.probe("solve_interrupted")
        seams.BACKEND.disarm()
        return go()
    finally:
        seams.BACKEND.disarm()


def contained(w, test, ref):
    """Every cell of the mesh `test` lies in a cell of the mesh `ref`."""
    ls = set(w.ref.f.leaves(ref))
    return all(any(a[:k] in ls for k in range(1, len(a) + 1)) for a in w.ref.f.leaves(test))


# ------------------------------------------------------------------ what solutions must be
def nodal_values(S, sol):
    x = np.array([sol.at[d] for d in sol.dofs], dtype=float)
    want = np.column_stack([q(x) for q in sol.us])
    check_close(S.sim, sol.values, want, "nodal_solution", "mode %s, submesh %s" % (sol.mode, sol.sub), tol=2e-7)
    with S.sim.observing("solution"):
        check_close(S.sim, np.asarray(sol.fn.data()).reshape(len(sol.dofs), -1), want, "solution_function", tol=2e-7)


def points(S, seed, sub, n=5):
    """Points inside cells of the mesh, with the cells."""
    g = np.random.Generator(np.random.PCG64(seed + 5))
    leaves = sorted(S.w.ref.f.leaves(sub))
    out = []
    for _ in range(n):
        a = leaves[int(g.integers(len(leaves)))]
        r = np.round(g.uniform(0.1, 0.9, (1, S.w.dim)), 3)
        out.append(asm.phys(S.w.ref.corners(a), r)[0])
    return np.array(out)


def anywhere(S, sol, seed):
    x = points(S, seed, sol.sub)
    with S.sim.observing("solution"):
        got = np.asarray(sol.fn.eval(x=x))
        check_close(S.sim, got.reshape(len(x), -1), np.column_stack([q(x) for q in sol.us]), "solution_values", tol=5e-7)


def transfer(S, c, op):
    """The solution carried over to the mesh the client works on now is the same function."""
    from function import Nodal
    sim, w = S.sim, S.w
    mine = ready(S, c, op)
    old = c.sol
    if not contained(w, mine, old.sub):
        return
    if mine != old.sub:
        sim.probe("solution_transferred")
    f = old.fn.interpolant(old.H.h, subforest_flag=mine)
    sol = Solution()
    sol.sub, sol.us, sol.mode, sol.H, sol.fn = mine, old.us, "transfer", old.H, f
    leaves = w.ref.f.leaves(mine)
    sol.at = {}
    for a in leaves:
        for p, d in zip(old.H.positions(w, a), old.H.known[a]):
            sol.at[d] = p
    sol.dofs = sorted(sol.at)
    with sim.observing("interpolant"):
        sol.values = np.array(f.data(), dtype=float).reshape(len(sol.dofs), -1)
        sol.basis = f.basis()
    nodal_values(S, sol)
    anywhere(S, sol, op["s"])
    c.sol = sol


def measure(S, c, op):
    """Integrals of the solution over the domain and its boundary, and its distance from the exact one."""
    from assembler import Assembler, Form, Kernel
    sim, w, dim, sol = S.sim, S.w, S.w.dim, c.sol
    dmu = "dv" if dim == 1 else "ds"
    ex = explicit(S, sol.us)
    probs = [Form(Kernel([sol.fn])), Form(Kernel([sol.fn, ex], F=lambda p, q: (p - q) ** 2)),
             Form(Kernel([sol.fn], derivatives=["fx"]))]
    flags = [g for g in S.sides]
    for g in flags:
        probs.append(Form(Kernel([sol.fn]), dmu=dmu, flag=g[0]))
        probs.append(Form(Kernel([sol.fn], derivatives=["fx"]), dmu=dmu, flag=g[0]))
    A = Assembler([[p] for p in probs], w.mesh, subforest_flag=sol.sub, n_gauss=(5, 25))
    A.assemble()
    K = len(sol.us)
    want = [domain_integral(S, sol, sol.us), np.zeros(K), domain_integral(S, sol, [u.d(0) for u in sol.us])]
    for g in flags:
        want.append(side_integral(g, sol.us))
        want.append(side_integral(g, [u.d(0) for u in sol.us]))
    sim.probe("functionals")
    with sim.observing("scalars"):
        for i, v in enumerate(want):
            got = [float(np.ravel(A.get_scalar(i, k))[0]) for k in range(K)]
            check_close(sim, got, v, "functional", "number %d" % i, tol=1e-6)


def domain_integral(S, sol, ps):
    t, wt = asm.gauss(6)
    out = np.zeros(len(ps))
    for a in S.w.ref.f.roots:
        cs = S.w.ref.corners(a)
        if S.w.dim == 1:
            r, ww = t[:, None], wt
        else:
            r = np.array([(p, q) for p in t for q in t])
            ww = np.array([p * q for p in wt for q in wt])
        J = asm.jac(cs, r)
        det = J[:, 0, 0] if S.w.dim == 1 else J[:, 0, 0] * J[:, 1, 1] - J[:, 0, 1] * J[:, 1, 0]
        x = asm.phys(cs, r)
        out += np.array([float(np.sum(p(x) * ww * np.abs(det))) for p in ps])
    return out


def side_integral(g, ps):
    flag, n, segs = g
    if len(n) == 1:
        return np.array([float(p(np.array([segs[0][0]]))[0]) for p in ps])
    t, wt = asm.gauss(6)
    out = np.zeros(len(ps))
    for p0, p1 in segs:
        x = np.outer(1 - t, p0) + np.outer(t, p1)
        out += np.array([float(np.sum(p(x) * wt)) for p in ps]) * np.hypot(*np.subtract(p1, p0))
    return out


def indicate(S, c, op):
    """Mark and refine where the solution is large, as adaptive codes do, from cellwise assembled data."""
    from assembler import Assembler, Form, Kernel
    sim, w, sol = S.sim, S.w, c.sol
    f = w.ref.f
    A = Assembler([[Form(Kernel([sol.fn], F=lambda z: z ** 2))]], w.mesh, subforest_flag=sol.sub, n_gauss=(5, 25))
    A.assemble(keep_cellwise_data=True)
    leaves = sorted(f.leaves(sol.sub))
    eta = {}
    with sim.observing("cellwise_data"):
        data = A.assembled_forms(0)[0].cellwise_data()
        sim.check(len(data) == len(leaves), "indicator_cells", lambda: "%d of %d" % (len(data), len(leaves)))
        for a in leaves:
            cs = w.ref.corners(a)
            got = float(np.ravel(np.sum(np.array(data[w.cell(a)]["vals"]), axis=0))[0])
            t, wt = asm.gauss(6)
            r = t[:, None] if w.dim == 1 else np.array([(p, q) for p in t for q in t])
            ww = wt if w.dim == 1 else np.array([p * q for p in wt for q in wt])
            J = asm.jac(cs, r)
            det = J[:, 0, 0] if w.dim == 1 else J[:, 0, 0] * J[:, 1, 1] - J[:, 0, 1] * J[:, 1, 0]
            eta[a] = float(np.sum(sol.us[0](asm.phys(cs, r)) ** 2 * ww * np.abs(det)))
            check_close(sim, got, eta[a], "indicator", str(a), tol=1e-6)
    sim.probe("error_indicator")
    if len(f.leaves()) > S.cap or len(f.flags) > 4 * S.cap:
        return
    n = max(1, int(op["frac"] * len(leaves)))
    worst = sorted(leaves, key=lambda a: (-round(eta[a], 7), a))[:min(n, 3)]
    tag = "e%d" % S.n
    for a in worst:
        if a in f.kids or len(a) > 4:
            continue
        f.mark(a, tag)
        w.cell(a).mark(tag)
    f.refine(None, tag)
    w.forest().refine(refinement_flag=tag)


def shrink_cfg(scn):
    c = scn["cfg"]
    for i in range(len(c["prep"])):
        yield dict(scn, cfg=dict(c, prep=c["prep"][:i] + c["prep"][i + 1:]))
    if c["elems"] != ["Q1", "Q1"]:
        yield dict(scn, cfg=dict(c, elems=["Q1", "Q1"]))
