"""Numbering of degrees of freedom: shared by C07 and C08.

The reference knows only geometry: the nodes of a cell are the images of the
element's reference nodes under the bilinear map of the reference mesh.
"""
import numpy as np

from . import common
from .common import World, addr, gen_mesh_cfg, pick
from ..models import rnd

ELEMS = ["Q1", "Q1", "Q2", "Q2", "Q3", "DQ0", "DQ1", "DQ2", "DQ3"]
SUBS = [None, "A", "B"]


def own_neighbor(w, a):
    """Does the cell meet itself across a periodic side?"""
    return bool(w.cfg["periodic"]) and len(a) == 1 and 1 in w.cfg["res"]


def gen_ops(rng, tier, w, kinds, weights, nmax):
    ops = []
    for _ in range(rng.randrange(4, nmax if tier == "quick" else nmax + 8)):
        ops.append({"op": rng.choices(kinds, weights)[0], "client": rng.randrange(3), "i": rng.randrange(1000),
                    "lab": rng.choice(["A", "A", "B"]), "sub": rng.choice(SUBS), "n": rng.randrange(1, 4),
                    "j": rng.randrange(1000)})
    return ops


def ref_nodes(dim, elem):
    """Nodes on [0,1]^dim in the library's documented local order."""
    p = int(elem[-1])
    if p == 0:
        return [(0.5,)] if dim == 1 else [(0.5, 0.5)]
    t = [i / p for i in range(1, p)]
    if dim == 1:
        return [(0.0,), (1.0,)] + [(s,) for s in t]
    out = [(0., 0.), (1., 0.), (1., 1.), (0., 1.)]
    out += [(s, 0.) for s in t] + [(1., s) for s in t]
    out += [(s, 1.) for s in reversed(t)] + [(0., s) for s in reversed(t)]
    out += [(s, r) for r in t for s in t]
    return out


def bilinear(corners, r):
    if len(corners) == 2:
        l, h = corners[0][0], corners[1][0]
        return (l + (h - l) * r[0],)
    x, y = r
    w = ((1 - x) * (1 - y), x * (1 - y), x * y, (1 - x) * y)
    return tuple(sum(w[k] * corners[k][d] for k in range(4)) for d in (0, 1))


def wrap(w, p):
    """Representative of a point modulo the periodic directions."""
    c = w.cfg
    q = list(p)
    if c["dim"] == 1:
        if c["periodic"] and abs(q[0] - c["box"][1]) < 1e-9:
            q[0] = c["box"][0]
    elif c.get("periodic"):
        for ax in c["periodic"]:
            if abs(q[ax] - c["box"][2 * ax + 1]) < 1e-9:
                q[ax] = c["box"][2 * ax]
    # the offset keeps dyadic points away from rounding boundaries
    return rnd([c + 1.4142135e-8 for c in q], 7)


class Handler(object):
    """A client: library handler, plus what the reference knows of it."""

    def __init__(self, w, elem):
        from fem import DofHandler, QuadFE
        self.elem = elem
        self.torn = elem.startswith("D")
        self.h = DofHandler(w.mesh, QuadFE(w.dim, elem))
        self.rn = ref_nodes(w.dim, elem)
        self.known = {}      # address -> tuple of dofs, after the last distribution
        self.subs = set()    # submeshes on which everything is numbered
        self.placed = {}     # dof -> where the library placed it when first asked

    def positions(self, w, a):
        cs = w.ref.corners(a)
        return [bilinear(cs, r) for r in self.rn]


def mesh_step(sim, w, op, cap=260):
    """Refinement, labelling and balancing; True when the mesh may have changed."""
    f, k = w.ref.f, op["op"]
    full = len(f.flags) > cap
    if k == "split":
        if full:
            return False
        a = pick(sorted(f.leaves()), op["i"])
        for j in range(op["n"]):
            if len(a) > 4:
                break
            f.split(a)
            w.cell(a).split()
            a = a + ((op["j"] + j) % f.nc,)
    elif k == "record":
        f.record(op["lab"])
        w.forest().record(op["lab"])
    elif k == "refine_sub":
        if full:
            return False
        f.root_subtrees(op["lab"])
        w.forest().root_subtrees(op["lab"])
        a = pick(f.leaves(op["lab"]), op["i"])
        t = "t%d" % op["client"]
        f.mark(a, t)
        w.cell(a).mark(t)
        f.refine(op["lab"], t)
        w.forest().refine(subforest_flag=op["lab"], refinement_flag=t)
    elif k == "coarsen_sub":
        f.root_subtrees(op["lab"])
        w.forest().root_subtrees(op["lab"])
        t = "z%d" % op["client"]
        cand = [a for a in f.flags if a in f.kids and op["lab"] in f.flags[a]]
        a = pick(sorted(cand), op["i"])
        if a is None:
            return False
        for c in f.children(a):
            if op["lab"] in f.flags[c]:
                f.mark(c, t)
                w.cell(c).mark(t)
        f.coarsen(op["lab"], t)
        w.forest().coarsen(subforest_flag=op["lab"], coarsening_flag=t)
    elif k == "balance" and w.dim == 2:
        balance_all(w, op["lab"] if op["i"] % 2 else None)
    return True


def balance_all(w, sub=None):
    """The mesh, and the submesh too when one is named."""
    if sub is not None:
        w.ref.f.root_subtrees(sub)
        w.forest().root_subtrees(sub)
        w.ref.balance(sub)
        w.mesh.balance(sub)
    w.ref.balance(None)
    w.mesh.balance()


def usable(w, sub):
    """A submesh argument is used only for rooted submeshes."""
    return sub if sub is None or w.ref.f.rooted(sub) else None


def distribute(sim, w, H, sub, ready=True):
    """Number the (sub)mesh; on an unbalanced mesh the request must be refused whole."""
    sub = usable(w, sub)
    if w.dim == 2 and not w.ref.balanced(None):
        if not ready:
            sim.fault("request_refused_unbalanced")
            try:
                H.h.distribute_dofs(subforest_flag=sub)
            except AssertionError:
                pass
            else:
                sim.fail("unbalanced_accepted", "dofs were distributed on an unbalanced mesh")
        balance_all(w)
    if H.known:
        sim.probe("redistribution")
    H.h.distribute_dofs(subforest_flag=sub)
    H.subs.add(sub)
    return sub


def cells_of(w, sub):
    f = w.ref.f
    if sub is None:
        return list(f.flags)
    return [a for a in f.flags if sub in f.flags[a]]


def numbering(sim, w, H, sub):
    """Complete, conforming, stable numbering of every cell of the submesh."""
    with sim.observing("get_cell_dofs"):
        new = {}
        for a in cells_of(w, sub):
            d = H.h.get_cell_dofs(w.cell(a))
            sim.check(d is not None and len(d) == len(H.rn) and all(x is not None for x in d),
                      "incomplete_numbering", lambda: "%s of submesh %s has %s" % (a, sub, d))
            new[a] = tuple(int(x) for x in d)
            sim.check(own_neighbor(w, a) or len(set(new[a])) == len(d), "repeated_dof_in_cell", lambda: "%s: %s" % (a, d))
    for a, d in new.items():
        if a in H.known:
            sim.check(H.known[a] == d, "renumbered", lambda: "%s had %s, now %s" % (a, H.known[a], d))
    H.known.update(new)
    conformity(sim, w, H)
    return new


def conformity(sim, w, H):
    if not H.torn:
        at, of = {}, {}
        for a in sorted(H.known):
            for p, d in zip(H.positions(w, a), H.known[a]):
                p = wrap(w, p)
                if p in at:
                    sim.check(at[p][0] == d, "split_node", lambda: "node %s is dof %s in %s and dof %s in %s" % (
                        p, at[p][0], at[p][1], d, a))
                else:
                    at[p] = (d, a)
                if d in of:
                    sim.check(of[d][0] == p, "merged_nodes", lambda: "dof %s is at %s in %s and at %s in %s" % (
                        d, of[d][0], of[d][1], p, a))
                else:
                    of[d] = (p, a)
    for sub in sorted(H.subs, key=str):
        if not H.torn:
            break
        owner = {}
        for a in w.ref.f.leaves(sub):
            for d in H.known.get(a, ()):
                sim.check(d not in owner, "torn_dof_shared", lambda: "dof %s belongs to %s and %s" % (d, owner.get(d), a))
                owner[d] = a


def region(sim, w, H, sub):
    """dofs, counts and vertices of a numbered submesh."""
    leaves = w.ref.f.leaves(sub)
    want = sorted(set(d for a in leaves for d in H.known[a]))
    with sim.observing("get_region_dofs"):
        got = [int(d) for d in H.h.get_region_dofs(subforest_flag=sub)]
        n = int(H.h.n_dofs(subforest_flag=sub))
        sim.check(got == want, "region_dofs", lambda: "submesh %s: %s expected %s" % (sub, got[:12], want[:12]))
        sim.check(n == len(want), "n_dofs", lambda: "%s expected %s" % (n, len(want)))
        if not H.torn:
            nodes = set(wrap(w, p) for a in leaves for p in H.positions(w, a))
            sim.check(n == len(nodes), "n_dofs_nodes", lambda: "%d dofs for %d nodes" % (n, len(nodes)))
    with sim.observing("get_dof_vertices"):
        x = np.asarray(H.h.get_dof_vertices(subforest_flag=sub), dtype=float).reshape(len(want), -1)
        where = {}
        for a in leaves:
            for p, d in zip(H.positions(w, a), H.known[a]):
                where[d] = wrap(w, p)
        for d, p in zip(want, x):
            sim.check(wrap(w, p) == where[d], "dof_vertex", lambda: "dof %s placed at %s, is at %s" % (d, p, where[d]))
            q = H.placed.setdefault(d, tuple(p))
            sim.check(tuple(p) == q, "dof_vertex_moved", lambda: "dof %s at %s, was at %s" % (d, p, q))
        # some of them, one of them, and as they appear in a particular cell
        rng = np.random.Generator(np.random.PCG64(len(want) + 17 * len(leaves)))
        some = [want[int(i)] for i in rng.integers(0, len(want), 4)]
        y = np.asarray(H.h.get_dof_vertices(some), dtype=float).reshape(len(some), -1)
        sim.check(np.array_equal(y, x[[want.index(d) for d in some]]), "dof_vertices_asked_for", lambda: "%s at %s" % (some, y.tolist()))
        y = H.h.get_dof_vertices(some, as_array=False)
        sim.check(len(y) == len(some) and all(np.array_equal(np.ravel(a), x[want.index(d)]) for a, d in zip(y, some)),
                  "dof_vertices_listed", lambda: "%s at %s" % (some, y))
        y = np.ravel(H.h.get_dof_vertices(some[0]))
        sim.check(np.array_equal(y, x[want.index(some[0])]), "dof_vertex_alone", lambda: "%s at %s" % (some[0], y))
        cells, at = {}, {}
        for a in sorted(w.ref.f.flags):
            for p, d in zip(H.positions(w, a), H.known.get(a, ())):
                if d in some[:3] and not own_neighbor(w, a) and (d not in at or rng.random() < 0.4):
                    cells[d], at[d] = w.cell(a), p
        y = np.asarray(H.h.get_dof_vertices(some, cells=cells), dtype=float).reshape(len(some), -1)
        for d, p in zip(some, y):
            if d in at:
                q = np.asarray(at[d])
                sim.check(np.allclose(p, q, rtol=0, atol=1e-9 * (1 + np.max(np.abs(q)))), "dof_vertex_in_cell",
                          lambda: "dof %s placed at %s, is at %s in the cell" % (d, p, q))
    with sim.observing("basis"):
        from fem import Basis
        B = Basis(H.h, "v", sub)
        sim.check([int(d) for d in B.dofs()] == want and int(B.n_dofs()) == len(want), "basis_dofs", lambda: "%s" % (B.dofs(),))
        sim.check([int(i) for i in B.d2i(want)] == list(range(len(want))), "basis_index")
        sim.check([int(d) for d in B.i2d(np.arange(len(want)))] == want, "basis_dof_of_index")
        below = sorted(a for a in w.ref.f.flags if any(a[:k] in set(leaves) for k in range(1, len(a) + 1)))
        for i in rng.integers(0, len(below), 2):
            a = below[int(i)]
            top = [a[:k] for k in range(len(a), 0, -1) if sub is None or w.ref.f.marked(a[:k], sub)][0]
            if top in H.known:
                sim.check(tuple(int(d) for d in B.dofs(w.cell(a))) == H.known[top], "basis_cell_dofs",
                          lambda: "cell %s in submesh %s" % (a, sub))
    with sim.observing("n_dofs"):
        every = set(d for t in H.known.values() for d in t)
        n = int(H.h.n_dofs(all_dofs=True))
        sim.check(n >= len(every) and (not every or n > max(every)), "n_dofs_all", lambda: "%d, known %d" % (n, len(every)))


def entity_dofs(sim, w, H, sub, op):
    """dofs of vertices, edges, the boundary, and of cell interiors."""
    ref, f = w.ref, w.ref.f
    leaves = f.leaves(sub)
    p = int(H.elem[-1])
    with sim.observing("get_cell_dofs"):
        a = pick(sorted(leaves), op["i"])
        c = w.cell(a)
        d = H.known[a]
        # how the element attaches its dofs to entities
        nv = 2 if w.dim == 1 else 4
        ne = (0 if p < 2 else p - 1) if w.dim == 2 else 0
        if p == 0:
            nv = 0
        if nv:
            for k, v in enumerate(c.get_vertices()):
                got = [int(t) for t in H.h.get_cell_dofs(c, v)]
                sim.check(got == [d[k]], "vertex_dofs", lambda: "vertex %d of %s: %s of %s" % (k, a, got, d))
        if w.dim == 2:
            for k, h in enumerate(c.get_half_edges()):
                ins = list(d[nv + k * ne: nv + (k + 1) * ne])
                got = [int(t) for t in H.h.get_cell_dofs(c, h, interior=True)]
                sim.check(got == ins, "edge_dofs", lambda: "edge %d of %s: %s of %s" % (k, a, got, d))
                if nv:
                    got = sorted(int(t) for t in H.h.get_cell_dofs(c, h))
                    sim.check(got == sorted([d[k], d[(k + 1) % 4]] + ins), "edge_dofs_closed",
                              lambda: "edge %d of %s: %s of %s" % (k, a, got, d))
        got = [int(t) for t in H.h.get_cell_dofs(c, c, interior=True)]
        sim.check(got == list(d[nv + 4 * ne:] if w.dim == 2 else d[nv:]), "interior_dofs", lambda: "%s of %s" % (got, d))
        loc = [int(t) for t in H.h.get_cell_dofs(c, c, interior=True, doftype="local")]
        sim.check([d[t] for t in loc] == got, "local_dofs", lambda: "%s" % loc)
    if p == 0 or H.torn:
        return
    with sim.observing("get_region_dofs"):
        if w.dim == 2:
            sides = ref.boundary_sides(sub)
            want = set()
            for (b, s) in sides:
                q0, q1 = ref.side(b, s)
                for pos, dd in zip(H.positions(w, b), H.known[b]):
                    if on_segment(pos, q0, q1):
                        want.add(dd)
            got = H.h.get_region_dofs(entity_type="half_edge", on_boundary=True, subforest_flag=sub)
            sim.check([int(t) for t in got] == sorted(want), "boundary_dofs",
                      lambda: "%s expected %s" % (got, sorted(want)))
            got = H.h.get_region_dofs(entity_type="half_edge", on_boundary=True, subforest_flag=sub, interior=True)
            vs = set(H.known[b][k] for b in leaves for k in range(4))
            inn = set()
            for (b, s) in sides:
                inn.update(H.known[b][4 + s * ne: 4 + (s + 1) * ne])
            sim.check([int(t) for t in got] == sorted(inn), "boundary_interior_dofs")
            del vs
        else:
            want = set()
            for b in leaves if not w.cfg["periodic"] else []:
                for pos, dd in zip(H.positions(w, b), H.known[b]):
                    if min(abs(pos[0] - w.cfg["box"][0]), abs(pos[0] - w.cfg["box"][1])) < 1e-9:
                        want.add(dd)
            got = H.h.get_region_dofs(entity_type="vertex", on_boundary=True, subforest_flag=sub)
            sim.check([int(t) for t in got] == sorted(want), "boundary_dofs",
                      lambda: "%s expected %s" % (got, sorted(want)))


def on_segment(p, a, b, tol=1e-9):
    cr = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    if abs(cr) > tol:
        return False
    t = (p[0] - a[0]) * (b[0] - a[0]) + (p[1] - a[1]) * (b[1] - a[1])
    return -tol <= t <= (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2 + tol
