"""Linear systems: constrained solves under any order of requests, back-end faults and retries."""
import numpy as np

from . import c08, dofs
from .common import Callback, World, check_close, gen_mesh_cfg, pick, predicate
from ..core import InjectedBackendError, InjectedFault
from .. import seams

SUBS = [None, None, "A"]
MARKS = ["left", "right", "bottom", "top", "bnd"]


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, small=True, bent=True)
    if w["dim"] == 2 and w.get("kind") == "ring":
        w["kind"] = "lshape"
    prep = [{"op": rng.choice(["split", "split", "record", "refine_sub"]), "client": 0, "i": rng.randrange(1000),
             "lab": "A", "n": rng.randrange(1, 3), "j": rng.randrange(1000)} for _ in range(rng.randrange(1, 5))]
    ops = []
    n = rng.randrange(5, 18 if tier == "quick" else 30)
    for _ in range(n):
        k = rng.choices(["new", "matrix", "rhs", "dirichlet", "solve", "manual", "read"], [1.5, 2, 2, 3, 6, 1.5, 2])[0]
        op = {"op": k, "client": rng.randrange(3), "s": rng.randrange(1 << 16)}
        if k == "new":
            op.update(sub=rng.choice(SUBS), rhs=rng.random() < 0.4)
        if k == "matrix" or k == "new":
            op.update(sym=rng.choice([True, True, True, False, False, "nearly"]), fmt=rng.choice(["csr", "csc"]))
        if k in ("rhs", "solve", "new"):
            op.update(cols=rng.choice([0, 1, 1, 3]), sparse=rng.random() < 0.25)
        if k == "dirichlet":
            op.update(mark=rng.choice(MARKS + ["east"]), val=rng.choice(["zero", "const", "fn"]), c=rng.choice([1, -2, 0.5]),
                      fault=rng.random() < 0.25)
        if k in ("solve", "manual"):
            op.update(factor=rng.random() < 0.5, newb=rng.random() < 0.5)
            if rng.random() < 0.3:
                op["fault"] = {"exc": rng.choice(["runtime", "memory"])}
        ops.append(op)
    ops.append({"op": "solve", "client": rng.randrange(3), "s": 5, "factor": rng.random() < 0.5, "newb": True,
                "cols": 1, "sparse": False})
    return {"cfg": {"world": w, "prep": prep, "elem": rng.choice(["Q1", "Q1", "Q2", "Q3"])}, "ops": ops}


class Sys(object):
    pass


def matrix(seed, n, sym, fmt):
    import scipy.sparse as sp
    g = np.random.Generator(np.random.PCG64(seed))
    R = np.zeros((n, n))
    for i in range(n):
        for _ in range(3):
            R[i, g.integers(n)] += g.uniform(-1, 1)
    if sym:
        A = R @ R.T + 2 * np.eye(n)
        if sym == "nearly" and n > 1:
            A[0, n - 1] += 1e-4
    else:
        A = R + np.diag(np.abs(R).sum(1) + np.abs(R).sum(0) + 1)
    return A, (sp.csr_matrix(A) if fmt == "csr" else sp.csc_matrix(A))


def vector(seed, n, cols, sparse):
    import scipy.sparse as sp
    g = np.random.Generator(np.random.PCG64(seed + 77))
    b = np.round(g.uniform(-2, 2, size=(n, max(cols, 1))), 3)
    if sparse:
        return b, sp.csc_matrix(b)
    return b, (b[:, 0].copy() if cols == 0 else b.copy())


def mark_boundaries(w, subs):
    c = w.cfg
    ent = "vertex" if w.dim == 1 else "half_edge"
    for s in subs:
        for m in MARKS:
            f = marker(c, m)
            if f is not None:
                w.mesh.mark_region(m, f, entity_type=ent, on_boundary=True, subforest_flag=s)
        w.mesh.mark_region("east", east(c), entity_type=ent, subforest_flag=s)


def east(c):
    """A part of the domain, where values may be prescribed inside as well as on the boundary."""
    x0 = c["box"][0] + 0.4 * (c["box"][1] - c["box"][0])
    return (lambda x: x > x0) if c["dim"] == 1 else (lambda x, y: x > x0)


def marker(c, m):
    b = c["box"]
    per = c["periodic"] if c["dim"] == 1 else (c.get("periodic") or [])
    if c["dim"] == 1:
        if per:
            return None
        return {"left": lambda x: abs(x - b[0]) < 1e-9, "right": lambda x: abs(x - b[1]) < 1e-9,
                "bnd": lambda x: abs(x - x) < 1}.get(m)
    if m in ("left", "right") and 0 in per or m in ("bottom", "top") and 1 in per:
        return None
    return {"left": lambda x, y: abs(x - b[0]) < 1e-9, "right": lambda x, y: abs(x - b[1]) < 1e-9,
            "bottom": lambda x, y: abs(y - b[2]) < 1e-9, "top": lambda x, y: abs(y - b[3]) < 1e-9,
            "bnd": lambda x, y: abs(x - x) < 1}[m]


def dirichlet_dofs(w, H, sub, m):
    """{dof: position} of the closed boundary sides carrying the mark."""
    f = east(w.cfg) if m == "east" else marker(w.cfg, m)
    out = {}
    if f is None:
        return out
    if w.dim == 1:
        for a in w.ref.f.leaves(sub):
            for p, d in list(zip(H.positions(w, a), H.known[a]))[:2]:
                on = m == "east" or min(abs(p[0] - w.cfg["box"][0]), abs(p[0] - w.cfg["box"][1])) < 1e-9
                if on and f(p[0]):
                    out[d] = p
        return out
    sides = [(a, s) for a in w.ref.f.leaves(sub) for s in range(4)] if m == "east" else w.ref.boundary_sides(sub)
    for (a, s) in sorted(sides):
        q0, q1 = w.ref.side(a, s)
        if f(*q0) and f(*q1):
            for p, d in zip(H.positions(w, a), H.known[a]):
                if dofs.on_segment(p, q0, q1):
                    out.setdefault(d, p)
    return out


def fn(c, dim):
    if dim == 1:
        return lambda x: 1.0 + c * x + x * x
    return lambda x, y: 1.0 + c * x - 0.5 * y + x * y


def setup(scn, sim):
    w = World(scn["cfg"]["world"])
    for op in scn["cfg"]["prep"]:
        dofs.mesh_step(sim, w, op, cap=24 if scn["cfg"]["elem"] != "Q3" else 16)
    sub = "A" if w.ref.f.rooted("A") and w.ref.f.leaves("A") else None
    if w.dim == 2:
        dofs.balance_all(w, sub)
    H = dofs.Handler(w, scn["cfg"]["elem"])
    for s in ([None] if sub is None else [None, sub]):
        dofs.distribute(sim, w, H, s)
        dofs.numbering(sim, w, H, s)
    mark_boundaries(w, [None] if sub is None else [None, sub])
    return w, H, sub


def run(scn, sim):
    w, H, asub = setup(scn, sim)
    per = bool(w.cfg.get("periodic"))
    systems = [None, None, None]
    kept = []
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        c = op["client"]
        if op["op"] == "new" or systems[c] is None:
            sub = op.get("sub", None) if op["op"] == "new" else None
            systems[c] = new_system(sim, w, H, asub if sub == "A" else None, op)
        S = systems[c]
        o = op["op"]
        if o == "matrix":
            S.A, lib = matrix(op["s"], S.n, op["sym"], op["fmt"])
            S.stated.append(("matrix", lib, S.A.copy()))
            S.x.set_matrix(lib)
            S.sol = None
        elif o == "rhs":
            S.b, lib = vector(op["s"], S.n, op["cols"], op["sparse"])
            S.stated.append(("load", lib, S.b.copy()))
            S.x.set_rhs(lib)
        elif o == "dirichlet":
            dirichlet(sim, w, H, S, op, per)
        elif o in ("solve", "manual"):
            solve(sim, S, op, kept)
        elif o == "read" and S.sol is not None:
            compare(sim, S)
        sim.log(o, c, S.n, None if S.sol is None else np.round(S.sol, 6))
        sim.state([o, c, S.sub, sorted(S.dir), S.n, S.sol is not None])
        for arr, copy in kept:
            sim.check(np.array_equal(arr, copy), "result_overwritten", "an earlier solution changed")


def new_system(sim, w, H, sub, op):
    from fem import Basis
    from solver import LinearSystem
    S = Sys()
    S.sub = sub
    S.basis = Basis(H.h, "u", subforest_flag=sub)
    leaves = w.ref.f.leaves(sub)
    S.dofs = sorted(set(d for a in leaves for d in H.known[a]))
    S.n = len(S.dofs)
    S.idx = {d: i for i, d in enumerate(S.dofs)}
    S.hang = c08.expected(w, H, sub)
    S.dir = {}
    S.A, libA = matrix(op["s"], S.n, op.get("sym", True), op.get("fmt", "csr"))
    S.stated = [("matrix", libA, S.A.copy())]
    if op.get("rhs"):
        S.b, libb = vector(op["s"], S.n, op["cols"], op["sparse"])
        S.stated.append(("load", libb, S.b.copy()))
        S.x = LinearSystem(S.basis, A=libA, b=libb)
    else:
        S.b = None
        S.x = LinearSystem(S.basis, A=libA)
    S.sol = None
    if S.hang:
        sim.probe("hanging_nodes_present")
    if sub is not None:
        sim.probe("submesh_system")
    return S


def dirichlet(sim, w, H, S, op, per):
    where = dirichlet_dofs(w, H, S.sub, op["mark"])
    if not where:
        return
    if S.sol is not None:
        sim.probe("constraint_added_after_a_solve")
    kw = {}
    if op["mark"] == "east":
        kw["on_boundary"] = False
        sim.probe("values_prescribed_inside")
        if any(d in S.hang for d in where):
            sim.probe("value_prescribed_at_a_hanging_node")
    if op["val"] == "fn" and not per:
        from function import Explicit
        f = fn(op["c"], w.dim)
        if op["fault"]:
            cb = Callback(sim, f, fail_at=0)
            try:
                S.x.add_dirichlet_constraint(op["mark"], Explicit(lambda x: cb(*x.T), dim=w.dim), **kw)
            except InjectedFault:
                pass
            else:
                sim.fail("swallowed_failure", "the boundary function failed but the request succeeded")
        S.x.add_dirichlet_constraint(op["mark"], Explicit(lambda x: f(*x.T), dim=w.dim), **kw)
        for d, p in where.items():
            S.dir[d] = float(f(*p))
    else:
        v = 0 if op["val"] == "zero" else op["c"]
        if v == 0:
            S.x.add_dirichlet_constraint(op["mark"], **kw)
        else:
            S.x.add_dirichlet_constraint(op["mark"], v, **kw)
        for d in where:
            S.dir[d] = float(v)
    S.sol = None


def reference(S):
    """Dense elimination x = T y + d, independent of the library's row/column operations."""
    free = [d for d in S.dofs if d not in S.hang and d not in S.dir]
    col = {d: j for j, d in enumerate(free)}
    T = np.zeros((S.n, len(free)))
    g = np.zeros((S.n, 1))
    for d in S.dofs:
        if d in S.dir:
            g[S.idx[d]] = S.dir[d]
        elif d in S.hang:
            for s, c in S.hang[d].items():
                if s in S.dir:
                    g[S.idx[d]] += c * S.dir[s]
                else:
                    T[S.idx[d], col[s]] += c
        else:
            T[S.idx[d], col[d]] = 1.0
    if not free:
        return np.repeat(g, S.b.shape[1], axis=1)
    y = np.linalg.solve(T.T @ S.A @ T, T.T @ (S.b - S.A @ g))
    return T @ y + g


def solve(sim, S, op, kept):
    b = None
    if op["newb"] or S.b is None:
        S.b, b = vector(op["s"], S.n, op.get("cols", 1), op.get("sparse", False))
        S.stated.append(("load", b, S.b.copy()))
    if S.sol is not None:
        sim.probe("re_solve")
    fl = op.get("fault")

    def go(b):
        if op["op"] == "manual":
            late = op["s"] % 3 == 0 and b is not None
            if b is not None and not late:
                S.x.set_rhs(b)
            S.x.set_constraint_relation()
            if not S.x.matrix_is_constrained():
                S.x.constrain_matrix()
            if not late and not S.x.rhs_is_constrained():
                S.x.constrain_rhs()
            S.x.invert_matrix(b if late else None, factor=op["factor"])
            S.x.resolve_constraints()
        else:
            kw = {"factor": True} if op["factor"] else {}
            if b is None:
                S.x.solve_system(**kw)
            else:
                S.x.solve_system(b, **kw)
    if fl:
        seams.BACKEND.arm(after=0, exc=fl["exc"])
        try:
            go(b)
        except (InjectedBackendError, seams.InjectedMemory):
            sim.probe("solve_interrupted")
            seams.BACKEND.disarm()
            go(None)
        finally:
            seams.BACKEND.disarm()
    else:
        go(b)
    S.sol = reference(S)
    compare(sim, S)
    u = S.x.get_solution(as_function=False)
    if isinstance(u, np.ndarray):
        kept.append((u, u.copy()))


def compare(sim, S):
    with sim.observing("get_solution"):
        u = S.x.get_solution(as_function=False)
        if not isinstance(u, np.ndarray):
            u = u.toarray()
        check_close(sim, u, S.sol, "solution", "submesh %s" % S.sub, tol=1e-7)
        v = S.x.get_solution()
        check_close(sim, v.data(), S.sol, "solution_function", tol=1e-7)
        sim.check(v.basis().subforest_flag() == S.sub and v.basis().dofhandler() is S.basis.dofhandler(),
                  "solution_basis")
        d = [int(t) for t in S.x.get_dofs()]
        sim.check(d == S.dofs, "system_dofs", lambda: "%s expected %s" % (d[:9], S.dofs[:9]))
        sim.check([int(t) for t in S.x.dof2eqn(np.array(S.dofs))] == list(range(S.n)), "equation_numbers")
        C, g = S.x.get_C(), np.ravel(S.x.get_d())
        check_close(sim, C @ S.sol + g[:, None], S.sol, "constraint_relation", "submesh %s" % S.sub, tol=1e-7)
        # a vector of one's own, made to satisfy the constraints
        y = np.random.Generator(np.random.PCG64(S.n)).uniform(-1, 1, (S.n, 1 + S.n % 3))
        want, mine = y.copy(), y.copy()
        for c, e in S.hang.items():
            if c not in S.dir:
                want[S.idx[c]] = sum(k * (S.dir[s] if s in S.dir else y[S.idx[s]]) for s, k in e.items())
        for c, v in S.dir.items():
            want[S.idx[c]] = v
        check_close(sim, S.x.resolve_constraints(mine), want, "constraints_imposed", "submesh %s" % S.sub, tol=1e-9)
        sim.check(np.array_equal(mine, y), "vector_overwritten", "a vector handed in for the constraints changed")
        for what, lib, own in S.stated:
            now = lib if isinstance(lib, np.ndarray) else lib.toarray()
            sim.check(np.array_equal(now.reshape(own.shape), own), "input_overwritten", "the caller's %s changed" % what)


def shrink_cfg(scn):
    c = scn["cfg"]
    for i in range(len(c["prep"])):
        yield dict(scn, cfg=dict(c, prep=c["prep"][:i] + c["prep"][i + 1:]))
    if c["elem"] != "Q1":
        yield dict(scn, cfg=dict(c, elem="Q1"))
