"""Hanging-node constraints make functions continuous, on every (sub)mesh of a history."""
import numpy as np

from . import dofs
from .common import World, gen_mesh_cfg, pick
from ..models import rnd

KINDS = ["split", "record", "refine_sub", "coarsen_sub", "balance", "constrain", "early"]
ELEMS = ["Q1", "Q1", "Q2", "Q2", "Q3", "DQ1", "DQ0"]


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, dims=(2, 2, 2, 2, 1), bent=True)
    ops = dofs.gen_ops(rng, tier, w, KINDS, [4, 1.5, 3, 1, 1, 5, 1], 13)
    ops.append({"op": "constrain", "client": rng.randrange(2), "i": rng.randrange(1000), "lab": "A",
                "sub": rng.choice(dofs.SUBS), "n": 1, "j": 0})
    for op in ops:
        op["client"] %= 2
    return {"cfg": {"world": w, "elems": [rng.choice(ELEMS) for _ in range(2)]}, "ops": ops}


def run(scn, sim):
    w = World(scn["cfg"]["world"])
    hs = [dofs.Handler(w, e) for e in scn["cfg"]["elems"]]
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        H = hs[op["client"]]
        if op["op"] == "constrain":
            sub = dofs.usable(w, op["sub"])
            if w.dim == 2:
                dofs.balance_all(w, sub)
            sub = dofs.distribute(sim, w, H, sub)
            dofs.numbering(sim, w, H, sub)
            constraints(sim, w, H, sub)
            # asked again, and for the other submeshes that are numbered and balanced
            for s in dofs.SUBS:
                if s != sub and s in H.subs and ok(w, H, s):
                    constraints(sim, w, H, s)
                    sim.probe("second_submesh")
            sim.log("constrain", H.elem, sub, len(H.known))
        elif op["op"] == "early":
            # constraints are asked for before the (new) mesh has been numbered
            if ok(w, H, None) and H.known:
                H.h.get_hanging_nodes()
                sim.probe("asked_early")
        else:
            dofs.mesh_step(sim, w, op, cap=200)
            for G in hs:
                G.subs = set(s for s in G.subs if all(a in G.known for a in w.ref.f.leaves(s)))
            sim.log(op["op"], len(w.ref.f.flags))
        sim.state([sorted(w.ref.f.flags.items(), key=str), op["op"], H.elem])


def ok(w, H, s):
    return (s is None or w.ref.f.rooted(s)) and all(a in H.known for a in dofs.cells_of(w, s)) and (
        w.dim == 1 or w.ref.balanced(s))


def lagrange(p, i, t):
    v = 1.0
    for j in range(p + 1):
        if j != i:
            v *= (t - j / p) / (i / p - j / p)
    return v


def expected(w, H, sub):
    """{dof: {dof: coefficient}} from geometry and 1D Lagrange polynomials."""
    out = {}
    if w.dim == 1 or H.torn:
        return out
    ref, p = w.ref, int(H.elem[-1])
    ne = p - 1
    for a in ref.f.leaves(sub):
        for s in range(4):
            kind, nb = ref.neighbor(a, s, sub)
            if kind != "coarser":
                continue
            b = nb[0]
            # the side of b that contains the side of a
            up = ref.across(a[:-1], s)
            assert up is not None and up[0] == b, (a, s, up, b)
            t = up[1]
            db = H.known[b]
            long = [db[t]] + list(db[4 + t * ne: 4 + (t + 1) * ne]) + [db[(t + 1) % 4]]
            da = H.known[a]
            short = [da[s]] + list(da[4 + s * ne: 4 + (s + 1) * ne]) + [da[(s + 1) % 4]]
            # child a occupies the first or second half of its parent's side s,
            # which runs against side t of b
            first = a[-1] == s
            for k, d in enumerate(short):
                x = 0.5 * k / p + (0.0 if first else 0.5)
                if d in long:
                    continue
                out[d] = {}
                for i in range(p + 1):
                    out[d][long[i]] = out[d].get(long[i], 0.0) + lagrange(p, i, 1 - x)
    return out


def constraints(sim, w, H, sub):
    want = expected(w, H, sub)
    with sim.observing("get_hanging_nodes"):
        got = H.h.get_hanging_nodes(subforest_flag=sub)
        sim.check(got is not None, "no_constraints")
        g = {int(d): (list(v[0]), list(v[1])) for d, v in got.items()}
        sim.check(set(g) == set(want), "hanging_set", lambda: "submesh %s: missing %s, extra %s" % (
            sub, sorted(set(want) - set(g))[:6], sorted(set(g) - set(want))[:6]))
        if want:
            sim.probe("hanging_nodes_present")
        for d, (supp, co) in g.items():
            sim.check(len(supp) == len(co), "constraint_shape", lambda: "%s %s" % (supp, co))
            sim.check(not any(s in g for s in supp), "chained_constraint", lambda: "%s %s" % (d, supp))
            e = want[d]
            m = {}
            for s, c in zip(supp, co):
                m[int(s)] = m.get(int(s), 0.0) + float(c)
            bad = [s for s in set(m) | set(e) if abs(m.get(s, 0.0) - e.get(s, 0.0)) > 1e-9]
            sim.check(not bad, "constraint_coefficients", lambda: "dof %s: %s expected %s" % (d, m, e))
    if want:
        continuous(sim, w, H, sub, g)


def continuous(sim, w, H, sub, g):
    """A random member of the constrained space, evaluated on both sides of coarse edges."""
    rng = sim.rng("cont%d" % sim.step)
    u = {}
    for a in w.ref.f.leaves(sub):
        for d in H.known[a]:
            u.setdefault(d, rng.uniform(-1, 1))
    for d, (supp, co) in g.items():
        u[d] = sum(c * u[s] for s, c in zip(supp, co))
    el = H.h.element
    ref = w.ref

    def trace(a, s, t):
        """Library shape functions of cell a at parameter t of its side s."""
        c = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
        p, q = c[s], c[(s + 1) % 4]
        x = np.array([[p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])]])
        v = [float(np.ravel(el.phi(i, x))[0]) for i in range(el.n_dofs())]
        return sum(vi * u[d] for vi, d in zip(v, H.known[a]))
    n = 0
    for a in ref.f.leaves(sub):
        for s in range(4):
            kind, nb = ref.neighbor(a, s, sub)
            if kind not in ("coarser", "same"):
                continue
            if kind == "coarser":
                b, t = ref.across(a[:-1], s)
                off = 0.0 if a[-1] == s else 0.5
            else:
                b, t = ref.across(a, s)
                off = None
            for y in (0.0, 0.3, 0.77):
                z = y if off is None else off + 0.5 * y
                l, r = trace(a, s, y), trace(b, t, 1 - z)
                sim.check(abs(l - r) < 1e-8, "discontinuous", lambda: "side %d of %s against %s: %s and %s" % (
                    s, a, b, l, r))
            n += 1
            if n > 60:
                return



def shrink_cfg(scn):
    wc = scn["cfg"]["world"]
    if wc["dim"] == 2:
        for r in ([1, 1], [2, 1], [2, 2]):
            yield dict(scn, cfg=dict(scn["cfg"], world=dict(wc, kind="grid", res=r, periodic=None)))
    for e in ("Q1", "Q2"):
        yield dict(scn, cfg=dict(scn["cfg"], elems=[e] * 2))
