"""Geometry of cells and edges: where they are never depends on what happened around them."""
import numpy as np

from .common import World, addr, check_close, gen_mesh_cfg, pick
from ..core import Violation, make_rng


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, bent=True)
    if w["dim"] == 2 and not w["periodic"] and rng.random() < 0.5:
        w["kind"] = rng.choice(["warped", "three", "tri", "bent", "fan"])
    ops = [{"op": "split", "client": 0, "i": rng.randrange(1000), "j": 0, "k": 0, "n": 1, "s": 0, "lab": "A", "form": "array"}
           for _ in range(rng.randrange(3))]
    for _ in range(rng.randrange(5, 16 if tier == "quick" else 30)):
        k = rng.choices(["split", "deep", "record", "refine_sub", "balance", "cell", "map", "inside", "position", "edge", "onedge",
                         "segment", "total", "outsider"], [2, 1.5, 1, 0.7, 0.5, 2, 2.5, 2, 3, 2.5, 2.5, 2.5, 1, 1])[0]
        ops.append({"op": k, "client": rng.randrange(3), "i": rng.randrange(1000), "j": rng.randrange(1000),
                    "k": rng.randrange(1000), "n": rng.randrange(1, 7), "s": rng.randrange(1 << 18), "lab": rng.choice(["A", "B"]),
                    "form": rng.choice(["array", "array", "tuples", "vertices"])})
    return {"cfg": {"world": w}, "ops": ops}


def run(scn, sim):
    cfg = scn["cfg"]["world"]
    w = World(cfg)
    f = w.ref.f
    S = State()
    S.sim, S.w = sim, w
    S.where = {}
    remember(S)
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o = op["op"]
        if o in ("split", "deep"):
            a = pick(sorted(f.leaves()), op["i"])
            for j in range(1 if o == "split" else op["n"] % 4 + 1):
                if len(a) > 6 or len(f.flags) > 250:
                    break
                f.split(a)
                w.cell(a).split()
                a = a + ((op["j"] + j) % f.nc,)
        elif o == "record":
            f.record(op["lab"])
            w.forest().record(op["lab"])
        elif o == "refine_sub":
            if f.rooted(op["lab"]) and len(f.flags) < 100:
                f.refine(op["lab"], None)
                w.forest().refine(subforest_flag=op["lab"])
        elif o == "balance":
            if w.dim == 2 and len(f.flags) < 200:
                w.ref.balance(None)
                w.mesh.balance()
        else:
            with sim.observing(o):
                globals()["do_" + o](S, op)
        remember(S)
        sim.log(o, len(f.flags))
        sim.state([o, cfg.get("kind", "1d"), cfg.get("periodic"), op["n"], sorted(f.leaves())])


class State(object):
    pass


def remember(S):
    """Corners of cells never move."""
    w = S.w
    with S.sim.observing("corners"):
        for a in sorted(w.ref.f.flags):
            c = np.array([v.coordinates() for v in w.cell(a).get_vertices()], dtype=float).reshape(-1, w.dim)
            if a not in S.where:
                check_close(S.sim, c, np.array(w.ref.corners(a), dtype=float).reshape(-1, w.dim), "corners", str(a), 1e-12)
                S.where[a] = c
            else:
                S.sim.check(np.array_equal(c, S.where[a]), "corners_moved", lambda: str(a))


def some(S, op):
    a = pick(sorted(S.w.ref.f.flags), op["i"])
    return a, S.w.cell(a), np.array(S.w.ref.corners(a), dtype=float).reshape(-1, S.w.dim)


def edges(S, op):
    """Some half-edge on some level, with its end points."""
    a = pick(sorted(S.w.ref.f.flags), op["i"])
    c = S.w.cell(a)
    if S.w.dim == 1:
        return a, 0, c, np.array(S.w.ref.corners(a), dtype=float).reshape(2, 1)
    s = op["j"] % 4
    return a, s, c.get_half_edge(s), np.array(S.w.ref.side(a, s), dtype=float)


def form(p, how):
    from mesh import Vertex
    if how == "tuples":
        return [tuple(float(v) for v in q) for q in p]
    if how == "vertices":
        return [Vertex(tuple(float(v) for v in q) if len(q) == 2 else float(q[0])) for q in p]
    return np.array(p, dtype=float)


def refused(S, go, kind, detail):
    try:
        r = go()
    except Exception as e:
        if isinstance(e, Violation):
            raise
        S.sim.fault("refused_request")
        return
    S.sim.fail(kind, "%s: answered %s" % (detail, r))


# ------------------------------------------------------------------ cells
def do_cell(S, op):
    sim, w = S.sim, S.w
    a, c, p = some(S, op)
    if w.dim == 1:
        check_close(sim, c.length(), abs(p[1, 0] - p[0, 0]), "length", str(a), 1e-12)
        sim.check([v.coordinates()[0] for v in (c.base(), c.head())] == [v.coordinates()[0] for v in (c.get_vertex(0), c.get_vertex(1))],
                  "end_points")
        return
    check_close(sim, c.area(), w.ref.measure(a), "area", str(a), 1e-12)
    c.check_winding_order()
    check_close(sim, c.bounding_box(), [p[:, 0].min(), p[:, 0].max(), p[:, 1].min(), p[:, 1].max()], "cell_bounding_box", str(a), 1e-12)
    sim.check(c.n_vertices() == 4 and c.n_half_edges() == 4, "cell_counts")
    for k in range(4):
        v = c.get_vertex(k)
        check_close(sim, v.coordinates(), p[k], "vertex", "%s corner %d" % (a, k), 1e-12)
        inn, out = c.incident_half_edge(v), c.incident_half_edge(v, reverse=True)
        sim.check(inn is c.get_half_edge((k - 1) % 4) and out is c.get_half_edge(k), "incident_edges", lambda: "%s corner %d" % (a, k))
    if a in w.ref.f.kids:
        check_close(sim, sum(ch.area() for ch in c.get_children()), c.area(), "area_of_children", str(a), 1e-12)
        sim.probe("parent_cell")


def do_total(S, op):
    """Measures of the leaves of every mesh add up to the domain's, and the box is the domain's."""
    sim, w = S.sim, S.w
    f = w.ref.f
    for lab in (None, "A", "B"):
        if lab is not None and not f.rooted(lab):
            continue
        got = sum((c.length() if w.dim == 1 else c.area()) for c in w.mesh.cells.get_leaves(subforest_flag=lab))
        want = sum(w.ref.measure((i,)) for i in range(len(f.roots)))
        check_close(sim, got, want, "total_measure", str(lab), 1e-11)
    pts = np.array([p for r in f.roots for p in w.ref.corners(r)], dtype=float).reshape(-1, w.dim)
    want = [g(pts[:, d]) for d in range(w.dim) for g in (np.min, np.max)]
    got = w.mesh.bounding_box()
    check_close(sim, np.ravel(np.array([g.coordinates() if hasattr(g, "coordinates") else g for g in got], dtype=float)), want,
                "mesh_bounding_box", "", 1e-12)


def bilinear(p, r):
    """Map, Jacobian (n, 2, 2) and Hessian (component, i, j) of the bilinear map."""
    s, t = r[:, 0], r[:, 1]
    x = np.outer((1 - s) * (1 - t), p[0]) + np.outer(s * (1 - t), p[1]) + np.outer(s * t, p[2]) + np.outer((1 - s) * t, p[3])
    ds = np.outer(1 - t, p[1] - p[0]) + np.outer(t, p[2] - p[3])
    dt = np.outer(1 - s, p[3] - p[0]) + np.outer(s, p[2] - p[1])
    J = np.stack([ds, dt], axis=2)
    m = p[0] - p[1] + p[2] - p[3]
    H = np.array([[[0, m[k]], [m[k], 0]] for k in range(2)])
    return x, J, H


def do_map(S, op):
    sim, w = S.sim, S.w
    g = np.random.Generator(np.random.PCG64(op["s"]))
    a, c, p = some(S, op)
    r = g.uniform(0, 1, (op["n"], w.dim))
    if op["k"] % 4 == 0:
        r = np.round(r)                       # corners
    sc = float(np.max(np.abs(p - p[0])))
    if w.dim == 1:
        h = p[1, 0] - p[0, 0]
        x, mg = c.reference_map(r, jac_r2p=True, hess_r2p=True)
        check_close(sim, np.asarray(x).reshape(-1, 1), p[0] + h * r, "map", str(a), 1e-12)
        check_close(sim, np.ravel(mg["jac_r2p"]), np.full(len(r), h), "map_jacobian", str(a), 1e-12)
        y, mh = c.reference_map(form(p[0] + h * r, op["form"]), mapsto="reference", jac_p2r=True, hess_p2r=True)
        check_close(sim, np.asarray(y).reshape(-1, 1), r, "inverse_map", str(a), 1e-9)
        check_close(sim, np.ravel(mh["jac_p2r"]), np.full(len(r), 1 / h), "inverse_jacobian", str(a), 1e-9)
        check_close(sim, np.ravel(mg["hess_r2p"]), np.zeros(len(r)), "map_hessian")
        check_close(sim, np.ravel(mh["hess_p2r"]), np.zeros(len(r)), "inverse_hessian")
        return
    x, J, H = bilinear(p, r)
    got, mg = c.reference_map(r.copy(), jac_r2p=True, hess_r2p=True)
    check_close(sim, got, x, "map", str(a), 1e-12)
    check_close(sim, np.array(mg["jac_r2p"]), J, "map_jacobian", str(a), 1e-11)
    for k in range(2):
        check_close(sim, np.array(mg["hess_r2p"])[:, :, :, k], np.tile(H[k], (len(r), 1, 1)), "map_hessian", str(a), 1e-11)
    got, mg = c.reference_map(form(x, op["form"]), mapsto="reference", jac_p2r=True, hess_p2r=True)
    Ji = np.linalg.inv(J)
    exact = max(1e-10, 1e3 * np.finfo(float).eps * np.max(np.abs(p)) * np.max(np.abs(Ji)))
    check_close(sim, got, r, "inverse_map", str(a), exact)
    check_close(sim, np.array(mg["jac_p2r"]) * sc, Ji * sc, "inverse_jacobian", str(a), 1e-5)
    want = np.zeros((len(r), 2, 2, 2))
    for n in range(len(r)):
        for k in range(2):
            want[n, :, :, k] = -sum(Ji[n, k, q] * Ji[n].T @ H[q] @ Ji[n] for q in range(2))
    check_close(sim, np.array(mg["hess_p2r"]) * sc ** 2, want * sc ** 2, "inverse_hessian", str(a), 1e-4)
    # each derivative is the same when asked for alone
    for name in ("jac_r2p", "jac_p2r", "hess_r2p", "hess_p2r"):
        if op["s"] % 5 < 3:
            back = op["s"] % 2 == 0
            pts, way = (form(x, op["form"]), "reference") if back else (r.copy(), "physical")
            got, m1 = c.reference_map(pts, mapsto=way, **{name: True})
            check_close(sim, got, r if back else x, "map_with_" + name, str(a), 1e-6)
            sim.check(list(m1) == [name], "derivatives_returned", lambda: "%s for %s" % (sorted(m1), name))
            every = {"jac_r2p": J, "jac_p2r": Ji, "hess_r2p": np.tile(np.moveaxis(H, 0, -1), (len(r), 1, 1, 1)), "hess_p2r": want}
            u = sc ** {"jac_r2p": -1, "jac_p2r": 1, "hess_r2p": -1, "hess_p2r": 2}[name]
            check_close(sim, np.array(m1[name]) * u, every[name] * u, name + "_alone", str(a), 1e-4)
            sim.probe("alone_" + name)
    if not c.is_rectangle():
        sim.probe("curved_map")
    elif abs(p[1, 0] - p[0, 0]) < 1e-9:
        sim.probe("turned_rectangle")
    straight = all(abs(np.dot(p[(k + 1) % 4] - p[k], p[k] - p[k - 1])) < 1e-12 and min(abs(p[k] - p[k - 1])) < 1e-12 for k in range(4))
    sim.check(c.is_rectangle() == straight, "is_rectangle", lambda: "%s %s" % (a, p.tolist()))


def do_inside(S, op):
    sim, w = S.sim, S.w
    g = np.random.Generator(np.random.PCG64(op["s"]))
    a, c, p = some(S, op)
    sc = float(np.max(np.abs(p - p[0])))
    pts, want = [], []
    for _ in range(op["n"]):
        d = float(10.0 ** g.uniform(-6, -0.5)) * sc      # distance from a side, or from the end
        if w.dim == 1:
            k = int(g.integers(2))
            out = bool(g.integers(2))
            sgn = -1 if k == 0 else 1
            pts.append(p[k] + (sgn if out else -sgn) * min(d, 0.4 * sc))
            want.append(not out)
            continue
        k = int(g.integers(4))
        u, v = p[k], p[(k + 1) % 4]
        t = g.uniform(0.3, 0.7)
        n = np.array([v[1] - u[1], u[0] - v[0]]) / np.hypot(*(v - u))
        out = bool(g.integers(2))
        q = u + t * (v - u) + (n if out else -n) * (d if out else min(d, 0.05 * sc))
        pts.append(q)
        want.append(all((p[(m + 1) % 4][0] - p[m][0]) * (q[1] - p[m][1]) - (p[(m + 1) % 4][1] - p[m][1]) * (q[0] - p[m][0]) > 0
                        for m in range(4)))
    # corners and points on sides belong to the cell
    k = op["k"] % len(p)
    pts.append(p[k])
    want.append(True)
    got = np.asarray(c.contains_points(form(pts, op["form"]))).ravel()
    sim.check(got.dtype == bool and got.tolist() == want, "contains_points",
              lambda: "%s: %s of %s, expected %s" % (a, got, np.array(pts).tolist(), want))


def do_position(S, op):
    """Sub-cells and sub-edges: position and width say where they are in the cell."""
    sim, w = S.sim, S.w
    f = w.ref.f
    g = np.random.Generator(np.random.PCG64(op["s"]))
    b = pick(sorted(f.flags, key=lambda t: (-len(t), t)), op["i"] % max(1, len(f.flags) // 2))
    a = b[:1 + op["j"] % len(b)]
    c, d = w.cell(a), w.cell(b)
    sim.probe("levels_%d" % (len(b) - len(a)))
    r = g.uniform(0, 1, (3, w.dim))
    pos, width = c.subcell_position(d)
    if w.dim == 1:
        check_close(sim, c.reference_map(pos + width * r), d.reference_map(r), "subcell_position", "%s in %s" % (b, a), 1e-11)
        return
    check_close(sim, c.reference_map(np.asarray(pos) + width * r), d.reference_map(r), "subcell_position", "%s in %s" % (b, a), 1e-11)
    check_close(sim, width, 2.0 ** (len(a) - len(b)), "subcell_width", "%s in %s" % (b, a), 1e-12)
    # an edge and one of its descendants
    he = c.get_half_edge(op["k"] % 4)
    p, q = np.array(he.base().coordinates()), np.array(he.head().coordinates())
    lo, hi, sub = 0.0, 1.0, he
    for _ in range(op["n"] % 4):
        if not sub.has_children():
            break
        k = int(g.integers(2))
        sub = sub.get_child(k)
        lo, hi = (lo, (lo + hi) / 2) if k == 0 else ((lo + hi) / 2, hi)
    pos, width = he.subcell_position(sub)
    if abs(p[0] - q[0]) < 1e-9:
        sim.probe("vertical_edge")
    check_close(sim, [pos, width], [lo, hi - lo], "subedge_position", "edge %s-%s" % (p, q), 1e-9)


def do_outsider(S, op):
    """Cells that are not part of a cell are refused."""
    sim, w = S.sim, S.w
    f = w.ref.f
    a, c, p = some(S, op)
    b = pick([b for b in sorted(f.flags) if b[:len(a)] != a and len(b) >= len(a)], op["j"])
    if b is not None:
        refused(S, lambda: c.subcell_position(w.cell(b)), "outsider_has_position", "%s in %s" % (b, a))
    if len(a) > 1:
        refused(S, lambda: c.subcell_position(w.cell(a[:-1])), "outsider_has_position", "parent of %s" % (a,))
    if w.dim == 2:
        he = c.get_half_edge(op["k"] % 4)
        refused(S, lambda: he.subcell_position(he.next()), "outsider_has_position", "next edge in %s" % (a,))
        m = 0.5 * (p[0] + p[2])
        refused(S, lambda: he.reference_map([tuple(m)], mapsto="reference"), "outsider_on_edge", str(a))


# ------------------------------------------------------------------ edges
def do_edge(S, op):
    sim, w = S.sim, S.w
    g = np.random.Generator(np.random.PCG64(op["s"]))
    a, s, he, e = edges(S, op)
    v = e[1] - e[0]
    check_close(sim, np.ravel(he.to_vector()), v, "edge_vector", str((a, s)), 1e-12)
    check_close(sim, he.length(), float(np.linalg.norm(v)), "edge_length", str((a, s)), 1e-12)
    if w.dim == 1:
        return
    n = np.array([v[1], -v[0]]) / np.linalg.norm(v)
    check_close(sim, he.unit_normal(), n, "normal", str((a, s)), 1e-12)
    ctr = np.mean(w.ref.corners(a), axis=0)
    sim.check(float(np.dot(np.asarray(he.unit_normal()), e[0] - ctr)) > 0, "normal_points_outward", lambda: str((a, s)))
    if he.twin() is not None:
        check_close(sim, he.twin().to_vector(), -v, "twin_vector", str((a, s)), 1e-12)
        check_close(sim, he.twin().unit_normal(), -n, "twin_normal", str((a, s)), 1e-12)
    if he.has_children():
        ch = list(he.get_children())
        check_close(sim, sum(q.length() for q in ch), he.length(), "length_of_children", str((a, s)), 1e-12)
        mid = 0.5 * (e[0] + e[1])
        check_close(sim, [q.coordinates() for q in (ch[0].base(), ch[0].head(), ch[1].base(), ch[1].head())],
                    [e[0], mid, mid, e[1]], "children_of_edge", str((a, s)), 1e-12)
        sim.probe("split_edge")
    r = g.uniform(0, 1, op["n"])
    if op["k"] % 3 == 0:
        r = np.round(r)
    x, mg = he.reference_map(r.copy(), jac_r2p=True, hess_r2p=True)
    want = e[0] + np.outer(r, v)
    check_close(sim, np.array(x, dtype=float).reshape(-1, 2), want, "edge_map", str((a, s)), 1e-12)
    check_close(sim, np.array(mg["jac_r2p"]).reshape(-1, 2), np.tile(v, (len(r), 1)), "edge_jacobian", str((a, s)), 1e-12)
    y = he.reference_map(form(want, op["form"]), mapsto="reference")
    check_close(sim, np.ravel(np.array(y, dtype=float)), r, "edge_inverse_map", str((a, s)), 1e-9)


def do_onedge(S, op):
    sim, w = S.sim, S.w
    if w.dim == 1:
        return
    g = np.random.Generator(np.random.PCG64(op["s"]))
    a, s, he, e = edges(S, op)
    if op["k"] % 3 == 0 and he.twin() is not None and not he.is_periodic():
        he, e = he.twin(), e[::-1]
    v = e[1] - e[0]
    if v[1] < -1e-6 and abs(v[0]) > 1e-6:
        sim.probe("downward_slanted_edge")
    L = float(np.linalg.norm(v))
    n = np.array([v[1], -v[0]]) / L
    pts, want = [e[0], e[1]], [True, True]
    for _ in range(op["n"]):
        t = float(g.uniform(0.02, 0.98))
        k = int(g.integers(3))
        if k == 0:
            pts.append(e[0] + t * v)
        elif k == 1:
            d = float(10.0 ** g.uniform(-5, 0)) * L
            pts.append(e[0] + t * v + (d if g.integers(2) else -d) * n)
        else:
            d = float(10.0 ** g.uniform(-5, 0))
            pts.append(e[0] + (1 + d if g.integers(2) else -d) * v)
        want.append(k == 0)
    got = np.asarray(he.contains_points(form(pts, op["form"]))).ravel()
    sim.check(got.tolist() == want, "edge_contains_points",
              lambda: "edge %s: %s of %s, expected %s" % (e.tolist(), got.tolist(), np.array(pts).tolist(), want))


def cross(u, v):
    return float(u[0] * v[1] - u[1] * v[0])


def meet(e, l, tol):
    """Do segments meet?  None: too close to call."""
    r, s = e[1] - e[0], l[1] - l[0]
    o = [cross(r, l[0] - e[0]), cross(r, l[1] - e[0]), cross(s, e[0] - l[0]), cross(s, e[1] - l[0])]
    if any(abs(v) < tol for v in o):
        return None
    return o[0] * o[1] < 0 and o[2] * o[3] < 0


def do_segment(S, op):
    """A line segment meets an edge or a cell, or not."""
    sim, w = S.sim, S.w
    if w.dim == 1:
        return
    g = np.random.Generator(np.random.PCG64(op["s"]))
    a, s, he, e = edges(S, op)
    p = np.array(w.ref.corners(a), dtype=float)
    sc = float(np.max(np.abs(p - p[0])))
    k = op["k"] % 4
    if k == 0:
        # crossing or missing the edge near one of its ends
        q = e[0] + float(g.choice([-0.01, 0.01, 0.5, 0.99, 1.01])) * (e[1] - e[0])
        d = g.normal(size=2)
        d *= sc / np.linalg.norm(d)
        l = np.array([q - float(g.uniform(-0.2, 1)) * d, q + float(g.uniform(0.3, 1)) * d])
    elif k == 1:
        # within, through, or beside the cell
        m = p.mean(axis=0)
        l = m + sc * g.uniform(-1.5, 1.5, (2, 2)) * float(g.choice([0.05, 0.5, 1, 2]))
    elif k == 2:
        # parallel to the edge, at a distance
        n = np.array([e[1][1] - e[0][1], e[0][0] - e[1][0]])
        l = np.array([e[0] + float(g.uniform(-2, 2)) * (e[1] - e[0]), e[0] + float(g.uniform(-2, 2)) * (e[1] - e[0])])
        l = l + float(g.choice([-0.3, 0.01, 0.3, 3])) * n
    else:
        l = p.mean(axis=0) + sc * g.normal(size=(2, 2)) * 2
    if np.linalg.norm(l[1] - l[0]) < 1e-3 * sc:
        return
    line = [tuple(float(v) for v in q) for q in l]
    want = meet(e, l, 1e-9)
    if k == 2:
        want = False
    if want is not None:
        got = he.intersects_line_segment(line)
        sim.check(bool(got) == want, "edge_meets_segment", lambda: "edge %s, segment %s: %s" % (e.tolist(), line, got))
        sim.probe("segment_meets" if want else "segment_misses")
    sides = [meet(np.array([p[m], p[(m + 1) % 4]]), l, 1e-9) for m in range(4)]
    if any(v is None for v in sides):
        return
    inside = all(cross(p[(m + 1) % 4] - p[m], l[0] - p[m]) > 0 for m in range(4))
    got = w.cell(a).intersects_line_segment(line)
    sim.check(bool(got) == (any(sides) or inside), "cell_meets_segment", lambda: "cell %s %s, segment %s: %s" % (a, p.tolist(), line, got))


def shrink_cfg(scn):
    return iter(())
