"""Adjacency, half-edge structure, shared vertices, boundary segments, 1D neighbours."""
from . import common, c03, hier
from .common import World, addr, gen_mesh_cfg, pick
from ..models import rnd


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, bent=True)
    s = c03.gen(rng, tier, index)
    if w["dim"] == 2 and rng.random() < 0.5:
        s["cfg"]["world"]["gseed"] = w["gseed"]
    else:
        s["cfg"]["world"] = w
    n = 10 if s["cfg"]["world"]["dim"] == 2 else 18
    s["ops"] = s["ops"][:n]
    if s["cfg"]["world"]["dim"] == 1:
        for o in s["ops"]:
            if o["op"] == "balance":
                o["op"] = "split"
    for o in s["ops"]:
        if rng.random() < 0.1:
            o["op"] = "mark_edges"
    return s


def run(scn, sim):
    w = World(scn["cfg"]["world"])
    f = w.ref.f
    edge_marks = set()
    n = len(scn["ops"])
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        if op["op"] == "mark_edges":
            mark_edges(sim, w, op, edge_marks)
        elif op["op"] == "balance" and w.dim == 1:
            continue
        elif op["op"] == "deep" and w.dim == 1:
            a = pick(sorted(f.leaves()), op["i"])
            for j in range(op["n"]):
                if len(a) > 7:
                    break
                f.split(a)
                w.cell(a).split()
                a = a + ((op["i"] + j) % 2,)
        else:
            c03.step(sim, w, op)
        sim.state([op["op"], sorted(f.leaves())])
        if k == n - 1 or k % 4 == 1:
            check2d(sim, w, edge_marks) if w.dim == 2 else check1d(sim, w)
        sim.log(op["op"], sorted(f.flags))


def labels(w):
    return [None] + [l for l in ("A", "B", 1) if w.ref.f.rooted(l)]


def mark_edges(sim, w, op, marks):
    """A client labels a few boundary half-edges of the finest mesh."""
    if w.dim == 1:
        return
    with sim.observing("boundary_segments"):
        segs = w.mesh.get_boundary_segments()
        hes = [h for s in segs for h in s]
    hes.sort(key=lambda h: (ends(h)))
    if not hes:
        return
    for j in range(op["n"] + 1):
        h = hes[(op["i"] + j) % len(hes)]
        h.mark("E")
        marks.add(ends(h))


def ends(h):
    return rnd(h.base().coordinates()), rnd(h.head().coordinates())


def check2d(sim, w, edge_marks):
    ref, f = w.ref, w.ref.f
    mesh = w.mesh
    per = bool(w.cfg.get("periodic"))
    with sim.observing("adjacency"):
        verts = {}
        nodes = {addr(c): c for c in mesh.cells.traverse()}
        for a, c in sorted(nodes.items()):
            cs = [rnd(p) for p in ref.corners(a)]
            hes = c.get_half_edges()
            vs = c.get_vertices()
            sim.check(len(hes) == 4 and len(vs) == 4, "four_sides", str(a))
            for s in range(4):
                h = hes[s]
                sim.check(ends(h) == (cs[s], cs[(s + 1) % 4]), "half_edge_geometry",
                          lambda: "cell %s side %d runs %s" % (a, s, ends(h)))
                sim.check(h.cell() is c, "half_edge_cell", lambda: "cell %s side %d" % (a, s))
                sim.check(h.next() is hes[(s + 1) % 4] and h.previous() is hes[(s - 1) % 4], "half_edge_loop",
                          lambda: "cell %s side %d" % (a, s))
                sim.check(c.get_vertex(s) is h.base(), "vertex_is_base")
                v = h.base()
                if not per:
                    o = verts.setdefault(rnd(v.coordinates()), v)
                    sim.check(o is v, "one_vertex_per_point", lambda: "two vertices at %s" % (rnd(v.coordinates()),))
                nb = ref.across(a, s)
                want = nb[0] if nb is not None and nb[0] in f.flags else None
                got = c.get_neighbors(h)
                g = addr(got) if got is not None else None
                sim.check(g == want, "side_neighbor", lambda: "cell %s side %d: neighbour %s expected %s" % (
                    a, s, g, want))
                t = h.twin()
                if want is not None:
                    sim.check(t is not None and t.twin() is h, "twin_symmetric", lambda: "%s side %d" % (a, s))
                    sim.check(t is nodes[want].get_half_edge(nb[1]), "twin_side",
                              lambda: "cell %s side %d: twin is not side %d of %s" % (a, s, nb[1], want))
                    if (not per) or not h.is_periodic():
                        sim.check(t.base() is h.head() and t.head() is h.base(), "twin_reversed",
                                  lambda: "%s side %d" % (a, s))
                    sim.check(got.get_neighbors(t) is c, "neighbor_symmetric", lambda: "%s side %d" % (a, s))
                for lab in ("A", "B"):
                    got = c.get_neighbors(h, flag=lab)
                    g = addr(got) if got is not None else None
                    w2 = want if want is not None and lab in f.flags[want] else None
                    sim.check(g == w2, "flagged_side_neighbor", lambda: "%s side %d %s" % (a, s, lab))
            # neighbours around a corner
            for s in range(4):
                want = around(ref, a, s)
                got = sorted(addr(x) for x in c.get_neighbors(vs[s]))
                sim.check(got == want, "corner_neighbors", lambda: "cell %s corner %d: %s expected %s" % (
                    a, s, got, want))
                got = sorted(addr(x) for x in c.get_neighbors(vs[s], flag="A"))
                want = [b for b in want if "A" in f.flags[b]]
                sim.check(got == want, "flagged_corner_neighbors", lambda: "cell %s corner %d: %s expected %s" % (
                    a, s, got, want))
    with sim.observing("mesh_kind"):
        axes = set(w.cfg.get("periodic") or ())
        sim.check(mesh.is_periodic() == bool(axes), "is_periodic")
        for q in ({0}, {1}, {0, 1}):
            sim.check(mesh.is_periodic(q) == q.issubset(axes), "is_periodic", lambda: "%s of %s" % (q, axes))
        sim.check(mesh.is_quadmesh() and mesh.dim() == 2, "kind")
        box = all(ref.is_box(r) for r in f.roots)
        sim.check(box or not mesh.is_rectangular(), "is_rectangular")
    with sim.observing("boundary"):
        for lab in labels(w):
            want = {}
            for (a, s) in ref.boundary_sides(lab):
                p, q = ref.side(a, s)
                want[(rnd(p), rnd(q))] = a
            segs = mesh.get_boundary_segments(subforest_flag=lab)
            got = [ends(h) for seg in segs for h in seg]
            sim.check(sorted(got) == sorted(want), "boundary_sides", lambda: "submesh %s: got %d sides, expected %d" % (
                lab, len(got), len(want)))
            for seg in segs:
                for h in seg:
                    sim.check(addr(h.cell()) == want[ends(h)], "boundary_cell")
                for x, y in zip(seg, seg[1:]):
                    sim.check(x.head() is y.base(), "boundary_chain", lambda: "%s then %s" % (ends(x), ends(y)))
            ncomp = components(want)
            sim.check(len([s for s in segs if s]) == ncomp, "boundary_components",
                      lambda: "%d segments, boundary has %d" % (len(segs), ncomp))
            vs = mesh.get_boundary_vertices(subforest_flag=lab)
            got = sorted(rnd(v.coordinates()) for v in vs)
            sim.check(got == sorted(k[0] for k in want), "boundary_vertices")
            if edge_marks:
                sim.probe("flagged_boundary_segments")
                got = sorted(ends(h) for seg in mesh.get_boundary_segments(subforest_flag=lab, flag="E") for h in seg)
                w2 = sorted(k for k in want if k in edge_marks)
                sim.check(got == w2, "flagged_boundary_sides", lambda: "submesh %s: %s expected %s" % (
                    lab, got[:6], w2[:6]))
        xs = [p[0] for i in range(len(f.roots)) for p in ref.corners((i,))]
        ys = [p[1] for i in range(len(f.roots)) for p in ref.corners((i,))]
        got = tuple(float(t) for t in mesh.bounding_box())
        sim.check(max(abs(g - e) for g, e in zip(got, (min(xs), max(xs), min(ys), max(ys)))) < 1e-9, "bounding_box")


def components(sides):
    """Number of connected chains of the directed boundary sides."""
    nxt = {p: q for (p, q) in sides}
    ends_ = set(nxt.values())
    seen = set()
    n = 0
    for p in sorted(nxt):
        if p not in ends_:          # open chain (periodic meshes)
            n += 1
            while p in nxt and p not in seen:
                seen.add(p)
                p = nxt[p]
    for p in sorted(nxt):
        if p not in seen:
            n += 1
            while p not in seen:
                seen.add(p)
                p = nxt[p]
    return n


def around(ref, a, s):
    """Same-size cells met when rotating about corner s of a through shared sides."""
    f = ref.f
    out = []
    for direction in (1, -1):
        b, j = a, s
        while True:
            # corner j of b: incoming side j-1, outgoing side j
            side = (j - 1) % 4 if direction == 1 else j
            nb = ref.across(b, side)
            if nb is None or nb[0] not in f.flags:
                break
            b2, t = nb
            # head of incoming side is my corner; it is the base of the twin
            j2 = t if direction == 1 else (t + 1) % 4
            if (b2, j2) == (a, s):
                return sorted(out)
            # through periodic sides a cell may be met at several of its corners
            if b2 != a and b2 not in out:
                out.append(b2)
            b, j = b2, j2
    return sorted(out)


def check1d(sim, w):
    ref, f = w.ref, w.ref.f
    mesh = w.mesh
    with sim.observing("mesh_kind"):
        sim.check(mesh.is_periodic() == bool(ref.periodic) and mesh.dim() == 1, "is_periodic")
    with sim.observing("adjacency1d"):
        every = {addr(c): c for c in mesh.cells.traverse()}
        for lab in labels(w):
            order = ref.ordered_leaves(lab)
            cells = {addr(c): c for c in mesh.cells.get_leaves(subforest_flag=lab)}
            for a in order:
                c = cells[a]
                for side in (0, 1):
                    want = ref.neighbor_leaf(a, side, lab)
                    got = c.get_neighbor(side, subforest_flag=lab)
                    g = addr(got) if got is not None else None
                    sim.check(g == want, "side_neighbor", lambda: "interval %s side %d in %s: %s expected %s" % (
                        a, side, lab, g, want))
                    if not ref.periodic or want is not None:
                        v = c.base() if side == 0 else c.head()
                        got = c.get_neighbor(v, subforest_flag=lab)
                        g = addr(got) if got is not None else None
                        sim.check(g == want, "vertex_neighbor", lambda: "%s %d" % (a, side))
            for a, c in sorted(x for x in every.items() if f.marked(x[0], lab)):
                for side in (0, 1):
                    want = ref.neighbor_level(a, side, lab)
                    got = c.get_neighbor(side, subforest_flag=lab, mode="level-wise")
                    g = addr(got) if got is not None else None
                    sim.check(g == want, "level_neighbor", lambda: "interval %s side %d in %s: %s expected %s" % (
                        a, side, lab, g, want))
            for a, b in zip(order, order[1:]):
                sim.check(cells[a].head() is cells[b].base(), "shared_vertex", lambda: "%s %s" % (a, b))
            bc = mesh.get_boundary_cells(subforest_flag=lab)
            if ref.periodic:
                sim.check(bc is None, "boundary_cells")
            else:
                sim.check((addr(bc[0]), addr(bc[1])) == (order[0], order[-1]), "boundary_cells",
                          lambda: "%s" % ([addr(x) for x in bc],))
        bb = [float(t) for t in mesh.bounding_box()]
        sim.check(bb == [float(t) for t in w.cfg["box"]], "bounding_box")
        if not ref.periodic:
            v0, v1 = mesh.get_boundary_vertices()
            sim.check([float(v0.coordinates()[0]), float(v1.coordinates()[0])] == [float(t) for t in w.cfg["box"]],
                      "boundary_vertices")
