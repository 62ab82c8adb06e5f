"""Assemblers keep no memory of earlier requests: repetition, faults, constraints, changed coefficients."""
import numpy as np

from . import asm, c08, c11, c13
from .common import check_close, pick
from ..core import InjectedFault


def gen(rng, tier, index):
    w, prep = c11.gen_world(rng)
    elems = [rng.choice(asm.ELEMS) for _ in range(2)]
    if all(e.startswith("D") for e in elems):
        elems[0] = "Q1"
    ops = []
    for _ in range(rng.randrange(5, 12 if tier == "quick" else 22)):
        k = rng.choices(["build", "assemble", "setpar", "dirichlet", "hanging", "read", "solve", "mesh"],
                        [2.5, 5, 1.5, 2.5, 1.5, 2, 2.5, 0.5])[0]
        op = {"op": k, "client": rng.randrange(3), "s": rng.randrange(1 << 16), "p": rng.randrange(100)}
        if k == "build":
            op.update(sub=rng.randrange(6), gauss=rng.randrange(len(asm.GAUSS)), nest="list",
                      problems=[gen_system(rng, w["dim"]) for _ in range(rng.choice([1, 1, 2]))])
        if k == "mesh":
            op.update(mesh="split", i=rng.randrange(1000), lab="C", n=1, j=rng.randrange(1000))
        if k == "assemble":
            op.update(region=rng.choice([None] * 5 + ["R0"]), keep=rng.random() < 0.35,
                      fail=rng.randrange(60) if rng.random() < 0.3 else None, twice=rng.random() < 0.3)
        if k == "setpar":
            op.update(v=rng.choice([2, -1, 0.5, 3]))
        if k == "dirichlet":
            op.update(mark=rng.choice(c13.MARKS + ["east"]), val=rng.choice(["zero", "const", "fn", "nodal", "many", "other", "other"]), c=rng.choice([1, -2, 0.5]))
        ops.append(op)
    ops = [{"op": "build", "client": rng.randrange(3), "s": 3, "p": 0, "sub": rng.randrange(6), "gauss": 0,
            "nest": "list", "problems": [gen_system(rng, w["dim"])]}] + ops
    if rng.random() < 0.6:
        # one complete solution process, interleaved with whatever the other clients do
        c, sub, pos = rng.randrange(3), rng.randrange(6), 0
        seq = [{"op": "build", "sub": sub, "gauss": 1, "nest": "list", "problems": [gen_pde(rng, w["dim"])]}]
        seq += [{"op": "dirichlet", "mark": rng.choice(c13.MARKS + ["east"]), "val": rng.choice(["zero", "const", "fn", "nodal", "many", "other", "other"]),
                 "c": rng.choice([1, -2, 0.5])} for _ in range(rng.randrange(3))]
        seq += [{"op": "hanging"}] if rng.random() < 0.7 else []
        seq += [{"op": "assemble", "region": None, "keep": rng.random() < 0.3, "twice": rng.random() < 0.3,
                 "fail": rng.randrange(30) if rng.random() < 0.2 else None}, {"op": "solve"}]
        for op in seq:
            op.update(client=c, s=rng.randrange(1 << 16), p=0)
            pos = rng.randrange(pos, min(len(ops), pos + 3) + 1)
            ops.insert(pos, op)
            pos += 1
    return {"cfg": {"world": w, "prep": prep, "elems": elems, "mseed": rng.randrange(1 << 16)}, "ops": ops}


def gen_pde(rng, dim):
    """Reaction-diffusion problem on the space of the assembler's own submesh."""
    p = gen_system(rng, dim)
    p["forms"] = [asm_form(rng, "b", "v", dim), asm_form(rng, "l", "v", dim)]
    p["forms"] += [asm_form(rng, "b", q, dim) for q in ["vx", "vy"][:dim] if rng.random() < 0.5]
    p.update(coarse=False, coarse_r=False)
    return p


def gen_system(rng, dim):
    """A problem as clients set up: one space for all test and trial functions."""
    p = asm.gen_problem(rng, dim, integral=rng.random() < 0.3)
    if rng.random() < 0.7:
        p["forms"] = p["forms"][:1] + [asm_form(rng, "b", "v", dim), asm_form(rng, "l", "v", dim)]
        if rng.random() < 0.6:
            p["forms"] = p["forms"][1:]
    p.update(galerkin=True)
    return p


def asm_form(rng, t, der, dim):
    return {"t": t, "test": der, "trial": der, "dmu": "dx", "flag": None, "ker": asm.gen_kernel(rng, dim), "share": True}


def run(scn, sim):
    S = asm.Session(scn, sim)
    c13.mark_boundaries(S.w, S.subs)
    asms, funs, bases = {}, {}, []
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o, c = op["op"], op["client"]
        if o == "build":
            A = c11.build(S, op, funs.setdefault(pick(S.subs, op["sub"]), []), bases)
            if A is None:
                continue
            A.dir = [{} for _ in A.P]
            A.hng = [{} for _ in A.P]
            A.want = None
            asms[c] = A
        elif o == "mesh":
            c11.mesh_op(S, op)
            c13.mark_boundaries(S.w, S.subs)
            for q in list(asms):
                if asms[q].sub is None or any(P.tsub is None or P.rsub is None for P in asms[q].P):
                    del asms[q]
            # whole-mesh bases and functions describe the old mesh
            funs.pop(None, None)
            bases[:] = [b for b in bases if b[0][2] is not None]
            for q in list(funs):
                funs[q] = [f for f in funs[q] if f.k != "nod" or f.sub is not None]
        elif c in asms:
            A = asms[c]
            if o == "assemble":
                assemble(S, A, op, asms)
            elif o == "setpar":
                setpar(S, A, op)
            elif o == "dirichlet":
                dirichlet(S, A, op)
            elif o == "hanging":
                hanging(S, A, op)
            elif o == "solve":
                solve(S, A, op)
            # what an assembler holds changes only when it assembles
            for q in sorted(asms):
                if o == "read" or q == c:
                    if asms[q].want is not None:
                        compare(S, asms[q])
        sim.state([o, c, len(S.w.ref.f.leaves()), None if c not in asms else asms[c].key + [
            [sorted(d) for d in asms[c].dir], [bool(h) for h in asms[c].hng]]])


def assemble(S, A, op, asms):
    sim = S.sim
    leaves = c11.leaves_of(S, A.sub, op["region"])
    if not leaves:
        return
    if op["fail"] is not None:
        A.state["fail"] = A.state["calls"] + op["fail"] + 1
        try:
            A.lib.assemble(keep_cellwise_data=op["keep"], region_flag=op["region"])
        except InjectedFault:
            A.want = None
            sim.probe("assembly_interrupted")
            if op["s"] % 3 == 0:
                return          # the client comes back later
        A.state["fail"] = None
    for _ in range(2 if op["twice"] else 1):
        if A.want is not None:
            sim.probe("reassembly")
        A.lib.assemble(keep_cellwise_data=op["keep"], region_flag=op["region"])
    A.leaves, A.keep = leaves, op["keep"]
    A.want = []
    for i, P in enumerate(A.P):
        ref = asm.reference(S, P, leaves, A.gauss)
        A.want.append((constrain(ref, P, A.dir[i], A.hng[i]), dict(A.dir[i]), dict(A.hng[i])))
    compare(S, A)
    cellwise(S, A)


def constrain(ref, P, bc, hng):
    """Entries after eliminating hanging nodes and boundary values."""
    def spread(d):
        return list(hng[d].items()) if d in hng else [(d, 1.0)]
    out = dict(ref)
    if 1 in ref:
        v = {}
        for r, x in ref[1].items():
            for r2, w in spread(r):
                if r2 not in bc:
                    v[r2] = v.get(r2, 0) + w * x
        out[1] = v
    if 2 in ref:
        m, b = {}, {}
        for (r, c), x in ref[2].items():
            for r2, w in spread(r):
                if r2 in bc:
                    continue
                for c2, u in spread(c):
                    if c2 in bc:
                        b[r2] = b.get(r2, 0) + w * u * x * np.array(bc[c2])
                    else:
                        m[(r2, c2)] = m.get((r2, c2), 0) + w * u * x
        out[2], out["bnd"] = m, b
    return out


def compare(S, A):
    sim = S.sim
    for i, P in enumerate(A.P):
        ref, bc, hng = A.want[i]
        af = A.lib.assembled_forms(i)
        what = "problem %d" % i
        with sim.observing("assembled"):
            if 0 in ref:
                got = [np.ravel(A.lib.get_scalar(i, k)) for k in range(P.ns[0])]
                check_close(sim, got, ref[0][:, None], "scalar", what)
            if 1 in ref:
                rows = sorted(ref[1])
                if not rows:
                    continue
                ud = [int(t) for t in af[1].aggregate_data()["udofs"][0]]
                sim.check(ud == rows, "vector_dofs", lambda: "%s expected %s" % (ud, rows))
                got = np.column_stack([A.lib.get_vector(i, k) for k in range(P.ns[1])])
                check_close(sim, got, np.array([ref[1][r] for r in rows]), "vector", what)
            if 2 in ref:
                rows, cols = sorted(set(r for r, _ in ref[2])), sorted(set(c for _, c in ref[2]))
                if not rows:
                    continue
                ud = [[int(t) for t in u] for u in af[2].aggregate_data()["udofs"]]
                sim.check(ud == [rows, cols], "matrix_dofs", lambda: "%s expected %s" % (ud, [rows, cols]))
                ri, ci = {r: n for n, r in enumerate(rows)}, {c: n for n, c in enumerate(cols)}
                sim.check(sorted(int(t) for t in A.lib.get_dofs("interior", i)) == rows, "interior_dofs")
                for k in range(P.ns[2]):
                    want = np.zeros((len(rows), len(cols)))
                    for (r, c), v in ref[2].items():
                        want[ri[r], ci[c]] += v[k]
                    check_close(sim, A.lib.get_matrix(i, k).toarray(), want, "matrix", what + " sample %d" % k)
                    b = np.zeros(len(rows))
                    for r, v in ref["bnd"].items():
                        b[ri[r]] += v[k]
                    x0 = np.ravel(A.lib.assembled_bnd(i, k))
                    check_close(sim, x0, b, "dirichlet_correction", what + " sample %d" % k)
                sim.log("m", i, np.round(np.ravel(want), 6)[:40])


def cellwise(S, A):
    """Cellwise data holds the local contributions if asked for, and nothing otherwise."""
    sim = S.sim
    for i, P in enumerate(A.P):
        for d in range(3):
            fs = [f for f in P.forms if f.d == d]
            af = A.lib.assembled_forms(i)[d]
            if not fs:
                continue
            with sim.observing("cellwise_data"):
                data = af.cellwise_data()
                if not A.keep:
                    sim.check(len(data) == 0, "cellwise_kept", lambda: "%d cells" % len(data))
                    continue
                sim.probe("cellwise_data_kept")
                if any(f.t == "ip" for f in fs):
                    continue
                sim.check(len(data) == len(A.leaves), "cellwise_cells", lambda: "%d of %d" % (len(data), len(A.leaves)))
                for a in A.leaves:
                    loc = asm.reference(S, P, [a], A.gauss)[d]
                    got = data[S.w.cell(a)]
                    if d == 0:
                        check_close(sim, np.sum(np.array(got["vals"]), axis=0).ravel(), loc, "cellwise_scalar", str(a))
                        continue
                    acc = {}
                    keys = [int(t) for t in got["dofs"][0]] if d == 1 else list(zip(*[[int(t) for t in q] for q in got["dofs"]]))
                    sim.check(len(keys) == len(got["vals"]), "cellwise_length")
                    for q, v in zip(keys, got["vals"]):
                        acc[q] = acc.get(q, 0) + np.asarray(v)
                    sim.check(set(acc) == set(loc), "cellwise_dofs", lambda: "%s" % (a,))
                    check_close(sim, np.array([acc[q] for q in sorted(acc)]), np.array([loc[q] for q in sorted(loc)]),
                                "cellwise", str(a))


def setpar(S, A, op):
    f = pick([f for f in A.used if f.k == "exp"], op["p"])
    if f is None:
        return
    f.par = float(op["v"])
    f.lib.set_parameters({"a": f.par})
    S.sim.probe("coefficient_changed")


def constrained_problem(A, op):
    """Problem with one space and a bilinear form."""
    i = op["p"] % len(A.P)
    P = A.P[i]
    if not any(f.d == 2 for f in P.forms) or P.lt is not P.bt:
        return None, None
    return i, P


def dirichlet(S, A, op):
    from fem import Basis
    from function import Explicit, Nodal
    i, P = constrained_problem(A, op)
    if i is None or P.bt.torn:
        return
    where = c13.dirichlet_dofs(S.w, P.bt, P.rsub, op["mark"])
    if not where or set(where) & set(A.hng[i]):
        return
    val = op["val"]
    kw = {"i_problem": i}
    if op["mark"] == "east":
        kw["on_bnd"] = False
        S.sim.probe("values_prescribed_inside")
    if S.w.cfg.get("periodic") and val == "fn":
        val = "const"
    if val == "other" and (S.w.cfg.get("periodic") or S.w.dim == 2 and not S.w.ref.balanced(None)):
        val = "nodal"
    if val == "fn":
        f = c13.fn(op["c"], S.w.dim)
        A.lib.add_dirichlet(op["mark"], Explicit(lambda x: f(*x.T), dim=S.w.dim), **kw)
        new = {d: float(f(*p)) for d, p in where.items()}
    elif val == "other":
        # a function on the mesh as it is now, in another client's numbering
        from fem import DofHandler, QuadFE
        elem = P.bt.elem if op["s"] % 3 else ("Q1", "Q2")[op["s"] % 2]
        h = DofHandler(S.w.mesh, QuadFE(S.w.dim, elem))
        g = np.random.Generator(np.random.PCG64(op["s"]))
        c = np.round(g.uniform(-2, 2, 3), 2)
        f = lambda x: c[0] + c[1] * x[:, 0] + c[2] * x[:, -1] if S.w.dim == 2 else c[0] + c[1] * x[:, 0]
        if op["s"] % 2 and P.rsub is not None:
            h.distribute_dofs(subforest_flag=P.rsub)
        elif S.subs[op["s"] % len(S.subs)] is not None:
            h.distribute_dofs(subforest_flag=S.subs[op["s"] % len(S.subs)])
        h.distribute_dofs()
        sub = P.rsub if op["s"] % 5 < 4 else None
        if sub is not None:
            S.sim.probe("dirichlet_same_submesh_other_numbering")
        A.lib.add_dirichlet(op["mark"], Nodal(f=f, basis=Basis(h, "v", sub), dim=S.w.dim), **kw)
        new = {d: float(f(np.array([p]))[0]) for d, p in where.items()}
    elif val == "many" and P.ns[2] > 1:
        # one boundary value for each sample of the matrix
        dd = S.dofs_on(P.bt, P.rsub)
        data = np.round(np.random.Generator(np.random.PCG64(op["s"])).uniform(-2, 2, (len(dd), P.ns[2])), 2)
        A.lib.add_dirichlet(op["mark"], Nodal(data=data, basis=Basis(P.bt.h, "v", P.rsub), dim=S.w.dim), **kw)
        new = {d: tuple(data[dd.index(d)]) for d in where}
    elif val in ("nodal", "many"):
        val = "nodal"
        dd = S.dofs_on(P.bt, P.rsub)
        data = np.round(np.random.Generator(np.random.PCG64(op["s"])).uniform(-2, 2, (len(dd), 1)), 2)
        A.lib.add_dirichlet(op["mark"], Nodal(data=data, basis=Basis(P.bt.h, "v", P.rsub), dim=S.w.dim), **kw)
        new = {d: float(data[dd.index(d), 0]) for d in where}
    elif val == "const":
        A.lib.add_dirichlet(op["mark"], op["c"], **kw)
        new = {d: float(op["c"]) for d in where}
    else:
        A.lib.add_dirichlet(op["mark"], **kw)
        new = {d: 0.0 for d in where}
    A.dir[i].update(new)
    S.sim.probe("dirichlet_" + val)
    with S.sim.observing("get_dirichlet"):
        got = {int(d): np.ravel(v) for d, v in A.lib.get_dirichlet(i).items()}
        S.sim.check(sorted(got) == sorted(A.dir[i]), "dirichlet_dofs", lambda: "%s expected %s" % (sorted(got), sorted(A.dir[i])))
        if len(set(len(v) for v in got.values())) == 1:
            dd, vv = A.lib.get_dirichlet(i, asdict=False)
            S.sim.check(sorted(int(d) for d in dd) == sorted(got) and all(
                np.array_equal(np.ravel(v), got[int(d)]) for d, v in zip(dd, vv)), "dirichlet_arrays")
        S.sim.check(sorted(int(d) for d in A.lib.get_dofs("dirichlet", i)) == sorted(got), "dirichlet_list")
        check_close(S.sim, np.concatenate([got[d] for d in sorted(got)]),
                    np.concatenate([np.ravel(A.dir[i][d]) for d in sorted(got)]), "dirichlet_values")


def hanging(S, A, op):
    i, P = constrained_problem(A, op)
    if i is None or not (S.w.dim == 1 or S.w.ref.balanced(P.rsub)):
        return
    h = c08.expected(S.w, P.bt, P.rsub)
    if set(h) & set(A.dir[i]):
        return
    A.lib.add_hanging_nodes(i)
    A.hng[i] = h
    if h:
        S.sim.probe("hanging_nodes_present")
    with S.sim.observing("get_dofs"):
        got = sorted(int(d) for d in A.lib.get_dofs("hanging_nodes", i))
        S.sim.check(got == sorted(h), "hanging_dofs", lambda: "%s expected %s" % (got, sorted(h)))


def solve(S, A, op):
    sim = S.sim
    i, P = constrained_problem(A, op)
    if i is None or A.want is None or not any(f.d == 1 for f in P.forms):
        return
    ref, bc, hng = A.want[i]
    # constraints added since the last assembly take effect with the next one
    if bc != A.dir[i] or hng != A.hng[i] or A.leaves != c11.leaves_of(S, A.sub, None):
        return
    dd = S.dofs_on(P.bt, P.tsub)
    rows = sorted(set(r for r, _ in ref[2]))
    if sorted(ref[1]) != rows or rows != [d for d in dd if d not in bc and d not in hng] or not rows:
        return
    k, m = op["s"] % P.ns[2], (op["s"] // 7) % P.ns[1]
    ri = {r: n for n, r in enumerate(rows)}
    M = np.zeros((len(rows), len(rows)))
    for (r, c), v in ref[2].items():
        M[ri[r], ri[c]] += v[k]
    if np.linalg.cond(M) > 1e7:
        return

    def expected(m):
        b = np.zeros(len(rows))
        for r, v in ref[1].items():
            b[ri[r]] += v[m]
        for r, v in ref["bnd"].items():
            b[ri[r]] -= v[k]
        u = {d: float(t) for d, t in zip(rows, np.linalg.solve(M, b))}
        u.update({d: float(v[k]) if isinstance(v, tuple) else v for d, v in bc.items()})
        for d, s in hng.items():
            u[d] = sum(c * u[t] for t, c in s.items())
        return [u[d] for d in dd]
    sim.probe("solved")
    if hng:
        sim.probe("solved_with_hanging_nodes")
    if op["s"] % 4 == 0:
        # several load vectors at once
        ms = [(m + j) % P.ns[1] for j in range(1 + op["s"] % 3)]
        got = A.lib.solve(i_problem=i, i_matrix=k, i_vector=ms)
        want = np.column_stack([expected(j) for j in ms])
        sim.probe("solved_for_several_vectors")
        sim.check(np.shape(got) == want.shape, "solution_shape", lambda: "%s for %s" % (np.shape(got), ms))
    else:
        got = A.lib.solve(i_problem=i, i_matrix=k, i_vector=m)
        want = np.array(expected(m))
    check_close(sim, got, want, "solution", "submesh %s" % (P.tsub,), tol=1e-6)


shrink_cfg = c11.shrink_cfg
