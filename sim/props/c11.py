"""Assembly equals the sum over cells of the forms, whatever else is assembled with it."""
import numpy as np

from . import asm, dofs
from .common import check_close, gen_mesh_cfg, pick


def gen_world(rng, periodic=True):
    w = gen_mesh_cfg(rng, small=True, periodic=periodic, bent=True)
    if w["dim"] == 2 and w.get("kind") == "ring":
        w["kind"] = "lshape"
    prep = [{"op": rng.choice(["split", "split", "record", "refine_sub", "coarsen_sub"]), "client": 0,
             "i": rng.randrange(1000), "lab": rng.choice(["A", "A", "B"]), "n": rng.randrange(1, 3),
             "j": rng.randrange(1000)} for _ in range(rng.randrange(1, 6))]
    return w, prep


def gen(rng, tier, index):
    w, prep = gen_world(rng)
    ops = []
    for _ in range(rng.randrange(2, 6 if tier == "quick" else 10)):
        k = rng.choices(["build", "assemble", "mesh"], [4, 2, 0.7])[0]
        op = {"op": k, "client": rng.randrange(3), "s": rng.randrange(1 << 16)}
        if k == "build":
            op.update(sub=rng.randrange(6), gauss=rng.randrange(len(asm.GAUSS)), nest=rng.choice(["list", "flat", "one"]),
                      problems=[asm.gen_problem(rng, w["dim"]) for _ in range(rng.choice([1, 1, 2, 3]))])
        if k == "mesh":
            op.update(mesh=rng.choice(["split", "split", "refine_sub"]), i=rng.randrange(1000), lab="C",
                      n=rng.randrange(1, 3), j=rng.randrange(1000))
        if k != "mesh":
            op.update(region=rng.choice([None, None, None, "R0", "R1"]), keep=rng.random() < 0.25)
        ops.append(op)
    if not any(o["op"] == "build" for o in ops):
        ops[0] = {"op": "build", "client": 0, "s": 1, "sub": 0, "gauss": 0, "nest": "list",
                  "problems": [asm.gen_problem(rng, w["dim"])], "region": None, "keep": False}
    return {"cfg": {"world": w, "prep": prep, "elems": [rng.choice(asm.ELEMS) for _ in range(3)],
                    "mseed": rng.randrange(1 << 16)}, "ops": ops}


def run(scn, sim):
    S = asm.Session(scn, sim)
    asms = {}
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o, c = op["op"], op["client"]
        if o == "build":
            A = build(S, op)
            if A is None:
                continue
            asms[c] = A
            assemble(S, A, op)
        elif o == "assemble":
            # an assembler built earlier, used for the first time by another problem list
            A = asms.get(c)
            if A is None:
                continue
            asms[c] = A = rebuild(S, A)
            assemble(S, A, op)
        elif o == "mesh":
            mesh_op(S, op)
            for q in list(asms):
                if asms[q].sub is None:
                    del asms[q]
        sim.state([o, c, len(S.w.ref.f.leaves()), None if c not in asms else asms[c].key])


def mesh_op(S, op):
    """Another client refines the mesh; labelled submeshes stay as they are."""
    w = S.w
    before = {s: list(w.ref.f.leaves(s)) for s in S.subs if s}
    if op["mesh"] == "split":
        a = pick([a for a in sorted(w.ref.f.leaves()) if len(a) < 4], op["i"])
        if a is None or len(w.ref.f.leaves()) > 26:
            return
        w.ref.f.split(a)
        w.cell(a).split()
    else:
        if len(w.ref.f.leaves()) > 26:
            return
        dofs.mesh_step(S.sim, w, dict(op, op="record"))
        dofs.mesh_step(S.sim, w, dict(op, op="refine_sub"))
    if w.dim == 2:
        dofs.balance_all(w)
    for s, l in before.items():
        if sorted(w.ref.f.leaves(s)) != sorted(l):
            S.sim.fail("submesh_moved", "%s" % s)
    S.sim.probe("mesh_refined_between")
    S.number()
    S.mark(op["s"])


class Client(object):
    pass


def build(S, op, funs=None, bases=None):
    from assembler import Assembler
    A = Client()
    A.sub = pick(S.subs, op["sub"])
    A.state = {"calls": 0, "fail": None, "sim": S.sim}
    A.gauss = asm.GAUSS[op["gauss"]]
    funs = [] if funs is None else funs
    bases = [] if bases is None else bases
    A.P = [asm.Problem(S, p, A.sub, A.state, funs, bases) for p in op["problems"]]
    A.P = [p for p in A.P if p.forms]
    A.used = [q for p in A.P for f in p.forms for q in f.ker.parts]
    if not A.P:
        return None
    nest = op["nest"]
    if nest == "one" and len(A.P) == 1 and len(A.P[0].forms) == 1:
        A.prob = A.P[0].forms[0].lib
    elif nest == "flat" and len(A.P) == 1:
        A.prob = [f.lib for f in A.P[0].forms]
    elif nest == "flat" and len(A.P[-1].forms) == 1:
        A.prob = [[f.lib for f in p.forms] for p in A.P[:-1]] + [A.P[-1].forms[0].lib]
    else:
        A.prob = [[f.lib for f in p.forms] for p in A.P]
    return construct(S, A, Assembler)


def construct(S, A, Assembler):
    shape = [list(p) if isinstance(p, list) else p for p in A.prob] if isinstance(A.prob, list) else None
    A.lib = Assembler(A.prob, S.w.mesh, A.sub, n_gauss=tuple(A.gauss))
    if shape is not None:
        S.sim.check(A.prob == shape, "problem_list_changed", "the caller's list of forms was changed")
    A.key = [str(A.sub), A.gauss, [[(f.t, f.dmu, f.flag, f.ker.F) for f in p.forms] for p in A.P]]
    A.leaves = None
    if A.sub is not None:
        S.sim.probe("assembled_on_a_submesh")
    if any(p.tsub != A.sub or p.rsub != A.sub for p in A.P):
        S.sim.probe("basis_on_a_coarser_submesh")
    return A


def rebuild(S, A):
    """A new assembler for the same forms (bases and functions are reused, their caches are warm)."""
    from assembler import Assembler
    B = Client()
    B.__dict__.update(A.__dict__)
    return construct(S, B, Assembler)


def leaves_of(S, sub, region):
    out = sorted(S.w.ref.f.leaves(sub))
    return [a for a in out if region is None or S.w.cell(a).is_marked(region)]


def assemble(S, A, op):
    leaves = leaves_of(S, A.sub, op["region"])
    if not leaves:
        return
    A.lib.assemble(keep_cellwise_data=op["keep"], region_flag=op["region"])
    A.leaves, A.region = leaves, op["region"]
    compare(S, A)


def compare(S, A):
    sim = S.sim
    for i, P in enumerate(A.P):
        ref = asm.reference(S, P, A.leaves, A.gauss)
        af = A.lib.assembled_forms(i)
        for d in range(3):
            sim.check((af[d] is not None) == (d in ref), "forms_present")
            if d not in ref:
                continue
            ns = P.ns[d]
            what = "problem %d, %s" % (i, [(f.t, f.dmu, f.flag, f.ker.F) for f in P.forms if f.d == d])
            with sim.observing("n_samples"):
                n = A.lib.n_samples(i, ("constant", "linear", "bilinear")[d])
                sim.check((1 if n is None else int(n)) == ns, "n_samples", lambda: "%s expected %s: %s" % (n, ns, what))
            with sim.observing("assembled"):
                if d == 0:
                    got = [np.ravel(A.lib.get_scalar(i, k)) for k in range(ns)]
                    check_close(sim, got, ref[0][:, None], "scalar", what)
                elif d == 1:
                    want = sorted(ref[1])
                    ud = [int(t) for t in af[1].aggregate_data()["udofs"][0]]
                    sim.check(ud == want, "vector_dofs", lambda: "%s: %s expected %s" % (what, ud[:20], want[:20]))
                    got = np.column_stack([A.lib.get_vector(i, k) for k in range(ns)])
                    check_close(sim, got, np.array([ref[1][r] for r in want]), "vector", what)
                    got = np.asarray(A.lib.get_vector(i, list(range(ns))), dtype=float)
                    check_close(sim, got, np.array([ref[1][r] for r in want]).T, "vectors", what)
                else:
                    rows = sorted(set(r for r, _ in ref[2]))
                    cols = sorted(set(c for _, c in ref[2]))
                    ud = [[int(t) for t in u] for u in af[2].aggregate_data()["udofs"]]
                    sim.check(ud == [rows, cols], "matrix_dofs", lambda: "%s: %s expected %s" % (what, ud, [rows, cols]))
                    for k in range(ns):
                        want = np.zeros((len(rows), len(cols)))
                        ri, ci = {r: n for n, r in enumerate(rows)}, {c: n for n, c in enumerate(cols)}
                        for (r, c), v in ref[2].items():
                            want[ri[r], ci[c]] += v[k]
                        check_close(sim, A.lib.get_matrix(i, k).toarray(), want, "matrix", what + " sample %d" % k)
                sim.log(i, d, np.round(np.ravel(got if d < 2 else want), 6)[:40])


def shrink_cfg(scn):
    c = scn["cfg"]
    for i in range(len(c["prep"])):
        yield dict(scn, cfg=dict(c, prep=c["prep"][:i] + c["prep"][i + 1:]))
    for k, e in enumerate(c["elems"]):
        if e != "Q1":
            yield dict(scn, cfg=dict(c, elems=c["elems"][:k] + ["Q1"] + c["elems"][k + 1:]))
    for k, op in enumerate(scn["ops"]):
        if op["op"] != "build":
            continue
        for j, p in enumerate(op["problems"]):
            if len(op["problems"]) > 1:
                yield dict(scn, ops=scn["ops"][:k] + [dict(op, problems=op["problems"][:j] + op["problems"][j + 1:])] + scn["ops"][k + 1:])
            for f in range(len(p["forms"])):
                if len(p["forms"]) > 1:
                    q = dict(p, forms=p["forms"][:f] + p["forms"][f + 1:])
                    yield dict(scn, ops=scn["ops"][:k] + [dict(op, problems=op["problems"][:j] + [q] + op["problems"][j + 1:])] + scn["ops"][k + 1:])
