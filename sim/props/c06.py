"""Locating points, and local coordinates, on every submesh of a refinement history."""
from . import common
from .common import World, addr, check_close, gen_mesh_cfg, pick
from ..core import make_rng


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, periodic=True, bent=True)
    ops = []
    for _ in range(rng.randrange(3, 12 if tier == "quick" else 20)):
        k = rng.choices(["split", "record", "refine_sub", "deep", "locate", "outside"], [3, 2, 2, 2, 7, 1])[0]
        ops.append({"op": k, "client": rng.randrange(2), "i": rng.randrange(1000), "n": rng.randrange(1, 12),
                    "lab": rng.choice([None, "A", "A", "B"]), "form": rng.choice(["array", "tuples", "vertices",
                    "single", "flat", "numbers"]), "pseed": rng.getrandbits(20), "start": rng.choice(["mesh", "cell", "cell"])})
    ops.append({"op": "locate", "client": 0, "i": 1, "n": 6, "lab": None, "form": "array", "pseed": 5, "start": "mesh"})
    return {"cfg": {"world": w}, "ops": ops}


def points(w, n, pseed, under=None):
    """Random points: interior, on sides, on corners of actual cells."""
    rng = make_rng("points", pseed)
    f = w.ref.f
    roots = [a for a in sorted(f.flags) if under is None or a[:len(under)] == under]
    pts = []
    for _ in range(n):
        a = rng.choice(roots)
        c = w.ref.corners(a)
        t = rng.random()
        if w.dim == 1:
            l, r = c[0][0], c[1][0]
            u = rng.choice([rng.random(), rng.random(), 0.0, 1.0, 0.5])
            pts.append((l + u * (r - l),) if u not in (0.0, 1.0) else ((l,) if u == 0 else (r,)))
        else:
            s, u = (rng.random(), rng.random())
            if t < 0.2:
                s = rng.choice([0.0, 1.0])
            if t < 0.1:
                u = rng.choice([0.0, 1.0])
            if 0.2 < t < 0.35:
                u = 0.5
            if 0.35 < t < 0.6:
                # close to a side, on either side of it
                s = min(max(rng.choice([0.0, 0.5, 1.0]) + rng.choice([-1, 1]) * 10.0 ** rng.uniform(-7, -2), 0.0), 1.0)
            pts.append(bilin(c, s, u))
    return pts


def bilin(c, s, t):
    return tuple((1 - s) * (1 - t) * c[0][d] + s * (1 - t) * c[1][d] + s * t * c[2][d] + (1 - s) * t * c[3][d]
                 for d in range(2))


def inside(w, a, p, tol=1e-8):
    if w.dim == 1:
        l, r = w.ref.interval(a)
        return l - tol <= p[0] <= r + tol
    return w.ref.contains(a, p, tol)


def form(pts, how, dim):
    import numpy as np
    from mesh import Vertex
    if how == "tuples":
        return [tuple(p) for p in pts]
    if how == "vertices":
        return [Vertex(p if dim == 2 else p[0]) for p in pts]
    if how == "single":
        return pts[0] if dim == 2 else pts[0][0]
    if how == "numbers" and dim == 1:
        return [float(p[0]) for p in pts]
    if how == "flat" and dim == 1:
        return np.array([p[0] for p in pts])
    return np.array([list(p) for p in pts], dtype=float)


def run(scn, sim):
    import numpy as np
    cfg = scn["cfg"]["world"]
    w = World(cfg)
    f = w.ref.f
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o = op["op"]
        if o in ("split", "deep"):
            a = pick(sorted(f.leaves()), op["i"])
            for j in range(1 if o == "split" else op["n"] % 4 + 1):
                if len(a) > 6 or len(f.flags) > 300:
                    break
                f.split(a)
                w.cell(a).split()
                a = a + ((op["i"] + j) % f.nc,)
        elif o == "record":
            lab = op["lab"] or "A"
            f.record(lab)
            w.forest().record(lab)
        elif o == "refine_sub":
            lab = op["lab"] or "A"
            if len(f.leaves()) < 60:
                f.refine(lab, None)
                w.forest().refine(subforest_flag=lab)
        elif o == "outside":
            outside(sim, w, op)
        elif o == "locate":
            locate(sim, w, op)
        sim.log(o, sorted(f.flags))
        sim.state([o, op["form"], op["start"], sorted(f.leaves(op["lab"] if op["lab"] and f.rooted(op["lab"]) else None))])


def locate(sim, w, op):
    import numpy as np
    f = w.ref.f
    lab = op["lab"] if op["lab"] is not None and f.rooted(op["lab"]) else None
    leaves = set(f.leaves(lab))
    under = None
    start = None
    if op["start"] == "cell":
        under = pick(sorted(f.flags), op["i"])
        start = w.cell(under)
    pts = points(w, 1 if op["form"] == "single" else op["n"], op["pseed"], under)
    arg = form(pts, op["form"], w.dim)
    if op["pseed"] % 3 == 0:
        # the caller's own numbers for the points
        own = [int(v) for v in np.random.Generator(np.random.PCG64(op["pseed"])).permutation(1000)[:len(pts)]]
        sim.probe("own_numbers")
        bins = (start or w.mesh).bin_points(arg, np.array(own), subforest_flag=lab)
        with sim.observing("bin_points"):
            bad = [int(i) for _, idx in bins for i in np.ravel(idx) if int(i) not in own]
            sim.check(not bad, "own_point_numbers", lambda: "%s not among %s" % (bad, own))
            bins = [(cell, np.array([own.index(int(i)) for i in np.ravel(idx)], dtype=int)) for cell, idx in bins]
    else:
        bins = (start or w.mesh).bin_points(arg, subforest_flag=lab)
    with sim.observing("bin_points"):
        seen = []
        cells = []
        for cell, idx in bins:
            a = addr(cell)
            cells.append(a)
            sim.check(a in leaves, "bin_is_submesh_leaf", lambda: "%s is not a leaf of %s" % (a, lab))
            for i in np.ravel(idx):
                seen.append(int(i))
                sim.check(inside(w, a, pts[int(i)]), "point_in_bin", lambda: "point %s binned in %s" % (pts[int(i)], a))
        sim.check(sorted(seen) == list(range(len(pts))), "every_point_once", lambda: "%s of %d points" % (
            sorted(seen), len(pts)))
        sim.check(len(set(cells)) == len(cells), "one_bin_per_cell")
    sim.log("bins", sorted(cells))
    # local coordinates of the binned points
    with sim.observing("reference_map"):
        for cell, idx in bins:
            idx = [int(i) for i in np.ravel(idx)]
            if not idx:
                continue
            x = np.array([list(pts[i]) for i in idx], dtype=float)
            xi = np.asarray(cell.reference_map(x, mapsto="reference"), dtype=float)
            sim.check(xi.shape == x.shape, "local_shape", lambda: "%s for %s" % (xi.shape, x.shape))
            sim.check(bool(np.all(xi > -1e-6) and np.all(xi < 1 + 1e-6)), "local_in_reference_cell",
                      lambda: "cell %s: %s -> %s" % (addr(cell), x[:3], xi[:3]))
            back = np.asarray(cell.reference_map(xi, mapsto="physical"), dtype=float)
            check_close(sim, back, x, "local_round_trip", "cell %s" % (addr(cell),), 1e-6)
            want = np.array([to_physical(w, addr(cell), z) for z in xi])
            check_close(sim, want, x, "local_coordinates", "cell %s" % (addr(cell),), 1e-6)
    if w.dim == 2:
        for p in pts[:4]:
            c = w.mesh.locate_point(tuple(p), flag=lab)
            with sim.observing("locate_point"):
                sim.check(c is not None and addr(c) in leaves and inside(w, addr(c), p), "locate_point",
                          lambda: "point %s located in %s" % (p, c and addr(c)))


def to_physical(w, a, z):
    c = w.ref.corners(a)
    if w.dim == 1:
        return [c[0][0] + (c[1][0] - c[0][0]) * z[0]]
    return list(bilin(c, z[0], z[1]))


def outside(sim, w, op):
    """A point outside the domain is refused or not found, never binned."""
    b = w.cfg["box"]
    d = [3.0, 1e-3, 1e-5, 0.1][op["i"] % 4]
    if w.dim == 1:
        p = (b[1] + d,)
    else:
        far = max(tuple(q) for r in w.ref.f.roots for q in w.ref.corners(r))
        p = (far[0] + d, far[1])
    good = points(w, 2, op["pseed"])
    try:
        bins = w.mesh.bin_points([tuple(q) for q in good + [p]])
    except Exception as e:
        from ..core import Violation
        if isinstance(e, Violation):
            raise
        sim.fault("request_outside_domain")
        return
    import numpy as np
    for cell, idx in bins:
        sim.check(2 not in [int(i) for i in np.ravel(idx)], "outside_point_binned")
