"""Worlds (library object + reference model) and helpers shared by properties."""
import math

from .. import models
from ..core import HarnessError, Violation, make_rng


def pick(seq, k):
    return seq[k % len(seq)] if seq else None


# ----------------------------------------------------------------- mesh worlds
def gen_mesh_cfg(rng, dims=(1, 2), periodic=True, shapes=True, small=False, bent=False):
    d = rng.choice(list(dims))
    if d == 1:
        x0 = rng.choice([0, 0, -1, 2])
        L = rng.choice([1, 1, 2, 3])
        n = rng.choice([1, 2, 3, 4])
        per = bool(periodic and rng.random() < 0.3)
        cfg = {"dim": 1, "box": [x0, x0 + L], "res": [n], "periodic": per, "gseed": rng.getrandbits(16)}
        if rng.random() < 0.3:
            # given by its points, in any order: multiples of 1/8 of the length
            cfg["nodes"] = sorted([0, 8] + rng.sample(range(1, 8), n - 1))
        return cfg
    kind = "grid"
    if shapes:
        kind = rng.choice(["grid", "grid", "grid", "lshape", "ring", "warped", "square", "three", "tri"]
                          + (["bent", "bent", "fan"] if bent else []))
    nx, ny = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 3)][:(5 if small else 7)])
    x0, y0 = rng.choice([(0, 0), (0, 0), (-1, 2)])
    w, h = rng.choice([(1, 1), (2, 1), (1, 3)])
    per = None
    if kind == "grid" and periodic and rng.random() < 0.3:
        opts = [[0], [1], [0, 1]] if (nx, ny) != (1, 1) else []
        if opts:
            per = rng.choice(opts)
            if not small and rng.random() < 0.2:
                # many narrow cells along a periodic side
                nx, ny = rng.choice([(12, 1), (1, 12), (6, 2)])
    return {"dim": 2, "kind": kind, "box": [x0, x0 + w, y0, y0 + h], "res": [nx, ny],
            "periodic": per, "gseed": rng.getrandbits(16)}


def nodes_1d(cfg):
    """The points of a mesh given by its points, or None."""
    b = cfg["box"]
    return [b[0] + (b[1] - b[0]) * k / 8 for k in cfg["nodes"]] if cfg.get("nodes") else None


def mesh_1d(cfg, nodes):
    """An interval mesh, by one of the ways to state it."""
    from mesh import DCEL, Mesh1D
    b, n, per, how = list(cfg["box"]), cfg["res"][0], cfg["periodic"], cfg.get("gseed", 0) % 5
    if nodes is not None:
        import numpy as np
        make_rng("order", cfg["gseed"]).shuffle(nodes)
        return Mesh1D(x=np.array(nodes) if how % 2 else nodes, periodic=per)
    if b == [0, 1] and how in (1, 2):
        return Mesh1D(resolution=(n,), periodic=per) if per or n > 1 or how == 1 else Mesh1D()
    if n == 1 and how == 3:
        return Mesh1D(box=b, periodic=per)
    if how == 4:
        d = DCEL(box=b, resolution=(n,), periodic={0} if per else None, dim=1 if cfg["gseed"] % 2 else None)
        return Mesh1D(dcel=d)
    return Mesh1D(box=b, resolution=(n,), periodic=per)


def mesh_2d(box, res, per, how):
    """A mesh of rectangles, by one of the ways to state it."""
    from mesh import DCEL, QuadMesh
    box = list(box)
    if box == [0, 1, 0, 1] and how % 5 in (1, 2):
        return QuadMesh(resolution=res, periodic=per) if res != (1, 1) or how % 5 == 1 else QuadMesh()
    if res == (1, 1) and how % 5 == 3:
        return QuadMesh(box=box, periodic=per)
    if how % 5 == 4:
        return QuadMesh(dcel=DCEL(box=box, resolution=res, periodic=per, dim=2 if how % 2 else None))
    return QuadMesh(box=box, resolution=res, periodic=per)


class World(object):
    """mesh (library), ref (model), map address -> library cell."""

    def __init__(self, cfg):
        self.cfg = cfg
        if cfg["dim"] == 1:
            self._make1d(cfg)
        else:
            self._make2d(cfg)

    def _make1d(self, cfg):
        b = list(cfg["box"])
        self.mesh = mesh_1d(cfg, nodes_1d(cfg))
        self.ref = models.RefMesh1D(b[0], b[1], cfg["res"][0], cfg["periodic"], nodes_1d(cfg))
        self.dim = 1
        self.area = b[1] - b[0]
        # root order is checked, not assumed
        for i in range(cfg["res"][0]):
            c = self.mesh.cells.get_child(i)
            got = [v.coordinates()[0] for v in c.get_vertices()]
            exp = self.ref.interval((i,))
            if max(abs(g - e) for g, e in zip(got, exp)) > 1e-9:
                raise Violation("root_cells", "interval %d is %s, expected %s" % (i, got, exp))

    def _make2d(self, cfg):
        from mesh import QuadMesh
        self.dim = 2
        nx, ny = cfg["res"]
        box = cfg["box"]
        kind = cfg["kind"]
        wraps = []
        if kind == "grid":
            per = set(cfg["periodic"]) if cfg["periodic"] else None
            self.mesh = mesh_2d(box, (nx, ny), per, cfg.get("gseed", 1))
            quads = list(models.grid_corners(box, (nx, ny)).values())
        else:
            pts, conn = shape_grid(kind, box, cfg["gseed"])
            import numpy as np
            self.mesh = QuadMesh(x=np.array(pts, dtype=float), connectivity=[list(q) for q in conn])
            quads = [[pts[i] for i in q] for q in conn]
        corners = self.root_corners(quads)
        if kind == "grid" and cfg["periodic"]:
            wraps = periodic_wraps(corners, box, cfg["periodic"])
        self.ref = models.RefMesh2D(corners, wraps)
        self.area = sum(self.ref.measure((i,)) for i in range(len(corners)))

    def root_corners(self, quads):
        """Corners of the root cells in library order; each must be one of the quads, once."""
        n = self.mesh.cells.n_children()
        if n != len(quads):
            raise Violation("root_cells", "%d root cells, expected %d" % (n, len(quads)))
        want = {}
        for q in quads:
            want[frozenset(models.rnd(p) for p in q)] = q
        corners = []
        for i in range(n):
            c = self.mesh.cells.get_child(i)
            vs = [tuple(float(t) for t in v.coordinates()) for v in c.get_vertices()]
            q = want.pop(frozenset(models.rnd(p) for p in vs), None)
            if q is None:
                raise Violation("root_cells", "unexpected or duplicate root cell %s" % (vs,))
            k = [models.rnd(p) for p in q].index(models.rnd(vs[0]))
            rot = [q[(k + j) % 4] for j in range(4)]
            if [models.rnd(p) for p in rot] != [models.rnd(p) for p in vs]:
                raise Violation("root_cells", "cell %d has vertices %s, not a rotation of %s" % (i, vs, q))
            corners.append([tuple(float(t) for t in p) for p in rot])
        return corners

    def cell(self, a):
        """Library cell at an address, walked with the public API."""
        c = self.mesh.cells.get_child(a[0])
        for i in a[1:]:
            c = c.get_child(i)
        return c

    def forest(self):
        return self.mesh.cells


def addr(node):
    return tuple(int(i) for i in node.get_node_address())


CURVED = ("warped", "three", "tri", "bent", "fan")


def curved(cfg):
    """Are there cells that are not rectangles?"""
    return cfg["dim"] == 2 and cfg.get("kind") in CURVED


def shape_grid(kind, box, gseed):
    """Points and quadrilaterals covering (part of) the box; each may list its corners from any of them on."""
    pts, conn = unturned(kind, box, make_rng("shape", gseed))
    r = make_rng("turn", gseed)
    if r.random() < 0.6:
        for i, q in enumerate(conn):
            k = r.randrange(4)
            conn[i] = q[k:] + q[:k]
    return pts, conn


def unturned(kind, box, rng):
    x0, x1, y0, y1 = box

    def at(u, v):
        return (x0 + (x1 - x0) * u, y0 + (y1 - y0) * v)
    if kind == "three":
        # three cells about an interior vertex
        e1, e2 = rng.choice([0.375, 0.5, 0.625]), rng.choice([0.375, 0.5, 0.625])
        c = (rng.choice([0.375, 0.5, 0.5]), rng.choice([0.5, 0.5, 0.625]))
        pts = [at(0, 0), at(e1, 0), at(1, 0), at(1, e2), at(1, 1), at(0, 1), at(*c)]
        return pts, [[0, 1, 6, 5], [1, 2, 3, 6], [3, 4, 5, 6]]
    if kind == "tri":
        # two triangles, each cut into three cells
        pts = [at(0, 0), at(1, 0), at(1, 1), at(0, 1)]
        conn, mids = [], {}

        def mid(i, j):
            k = (min(i, j), max(i, j))
            if k not in mids:
                mids[k] = len(pts)
                pts.append(tuple(0.5 * (u + v) for u, v in zip(pts[i], pts[j])))
            return mids[k]
        for t in ((0, 1, 2), (0, 2, 3)):
            c = len(pts)
            pts.append(tuple(sum(u * pts[i][d] for u, i in zip((0.375, 0.3125, 0.3125), t)) for d in range(2)))
            for m in range(3):
                conn.append([t[m], mid(t[m], t[(m + 1) % 3]), c, mid(t[m], t[(m - 1) % 3])])
        return pts, conn
    if kind == "bent":
        # any convex cells: the domain need not fill the box
        n, m = rng.choice([(1, 1), (2, 1), (1, 2)])
        flat, g = rng.choice([(0.08, 16), (0.08, 16), (0.02, 32), (0.005, 64)])
        conn = [[i + j * (n + 1), i + 1 + j * (n + 1), i + 1 + (j + 1) * (n + 1), i + (j + 1) * (n + 1)]
                for j in range(m) for i in range(n)]
        while True:
            uv = [((i + 6 * rng.randrange(-g, g + 1) / (16 * g)) / n, (j + 6 * rng.randrange(-g, g + 1) / (16 * g)) / m)
                  for j in range(m + 1) for i in range(n + 1)]
            ok = True
            for q in conn:
                for k in range(4):
                    o, a, b = uv[q[k]], uv[q[(k + 1) % 4]], uv[q[k - 1]]
                    ok &= (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]) > flat / (n * m)
            if ok:
                return [at(*p) for p in uv], conn
    if kind == "fan":
        # three to six cells about a vertex of the boundary
        k = rng.choice([3, 4, 4, 5, 5, 6])
        turn = rng.choice([180, 180, 270, 330] if k > 3 else [180, 270])
        start = rng.randrange(8) * 45

        def ray(deg, r):
            t = math.radians(start + deg)
            return at(*(round(64 * (0.5 + 0.5 * r * f(t))) / 64 for f in (math.cos, math.sin)))
        pts = [at(0.5, 0.5)] + [ray(turn * j / (2 * k), 0.75 if j % 2 == 0 else 1) for j in range(2 * k + 1)]
        return pts, [[0, 2 * j + 1, 2 * j + 2, 2 * j + 3] for j in range(k)]
    if kind == "square":
        n, m = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
        skip = set()
    elif kind == "warped":
        n = m = 2
        skip = set()
    elif kind == "lshape":
        n = m = 2
        skip = {(1, 1)}
    else:  # ring
        n = m = 3
        skip = {(1, 1)}
    ids, pts, conn = {}, [], []
    hx, hy = (x1 - x0) / n, (y1 - y0) / m

    def node(i, j):
        if (i, j) not in ids:
            x, y = x0 + hx * i, y0 + hy * j
            if kind == "warped" and 0 < i < n and 0 < j < m:
                x += hx * rng.choice([-0.25, -0.125, 0.125, 0.25])
                y += hy * rng.choice([-0.25, -0.125, 0.125, 0.25])
            ids[(i, j)] = len(pts)
            pts.append((x, y))
        return ids[(i, j)]
    order = [(i, j) for j in range(m) for i in range(n) if (i, j) not in skip]
    for (i, j) in order:
        conn.append([node(i, j), node(i + 1, j), node(i + 1, j + 1), node(i, j + 1)])
    return pts, conn


def periodic_wraps(corners, box, per):
    x0, x1, y0, y1 = box
    out = []

    def sides(axis, val):
        r = {}
        for i, cs in enumerate(corners):
            for s in range(4):
                p, q = cs[s], cs[(s + 1) % 4]
                if abs(p[axis] - val) < 1e-9 and abs(q[axis] - val) < 1e-9:
                    o = 1 - axis
                    r[tuple(sorted((round(p[o], 9), round(q[o], 9))))] = (i, s)
        return r
    for axis, lo, hi in ((0, x0, x1), (1, y0, y1)):
        if axis in per:
            a, b = sides(axis, lo), sides(axis, hi)
            for k in a:
                out.append((a[k][0], a[k][1], b[k][0], b[k][1]))
    return out


# ------------------------------------------------------------------ predicates
def gen_predicate(rng, cfg):
    """A region of the box, as a JSON description."""
    if cfg["dim"] == 1:
        b = cfg["box"]
        L = b[1] - b[0]
        t = rng.choice(["lt", "gt", "eq_lo", "eq_hi", "band", "all", "none", "eq_mid"])
        return {"t": t, "v": b[0] + L * rng.choice([0.25, 0.5, 0.75, 0.375, 0.3]), "w": L * 0.26}
    b = cfg["box"]
    t = rng.choice(["xlt", "xgt", "ylt", "ygt", "disc", "left", "right", "bottom", "top", "all",
                    "none", "corner", "line", "diag"])
    return {"t": t, "x": b[0] + (b[1] - b[0]) * rng.choice([0.25, 0.5, 0.75, 0.375, 0.3]),
            "y": b[2] + (b[3] - b[2]) * rng.choice([0.25, 0.5, 0.75, 0.375, 0.6]),
            "r": 0.4 * min(b[1] - b[0], b[3] - b[2])}


def predicate(p, cfg, tol=1e-9):
    t = p["t"]
    b = cfg["box"]
    if cfg["dim"] == 1:
        v = p["v"]
        return {"lt": lambda x: x <= v + tol, "gt": lambda x: x >= v - tol,
                "eq_lo": lambda x: abs(x - b[0]) < tol, "eq_hi": lambda x: abs(x - b[1]) < tol,
                "band": lambda x: abs(x - v) <= p["w"] + tol, "all": lambda x: x == x,
                "none": lambda x: x > b[1] + 10, "eq_mid": lambda x: abs(x - v) < tol}[t]
    X, Y, r = p["x"], p["y"], p["r"]
    return {"xlt": lambda x, y: x <= X + tol, "xgt": lambda x, y: x >= X - tol,
            "ylt": lambda x, y: y <= Y + tol, "ygt": lambda x, y: y >= Y - tol,
            "disc": lambda x, y: (x - X) ** 2 + (y - Y) ** 2 <= r * r + tol,
            "left": lambda x, y: abs(x - b[0]) < tol, "right": lambda x, y: abs(x - b[1]) < tol,
            "bottom": lambda x, y: abs(y - b[2]) < tol, "top": lambda x, y: abs(y - b[3]) < tol,
            "all": lambda x, y: x == x, "none": lambda x, y: x > b[1] + 10,
            "corner": lambda x, y: (abs(x - b[0]) < tol) & (abs(y - b[2]) < tol),
            "line": lambda x, y: abs(x - X) < tol,
            "diag": lambda x, y: (x - b[0]) * (b[3] - b[2]) <= (y - b[2]) * (b[1] - b[0]) + tol}[t]


class Callback(object):
    """A user callback under simulator control: counts, fails, re-enters."""

    def __init__(self, sim, f, fail_at=None, nested=None, exc=None):
        from ..core import InjectedFault
        self.sim, self.f, self.fail_at, self.nested = sim, f, fail_at, nested
        self.exc = exc or InjectedFault
        self.calls = 0
        self.fired = False
        self._in = False

    def __call__(self, *a):
        k = self.calls
        self.calls += 1
        if self.fail_at is not None and k == self.fail_at:
            self.fired = True
            self.sim.fault("callback_exception")
            raise self.exc("simulated failure of a user function at call %d" % k)
        if self.nested is not None and not self._in:
            self._in = True
            try:
                self.nested(k)
            finally:
                self._in = False
        return self.f(*a)


def check_close(sim, got, want, kind, detail="", tol=1e-8):
    import numpy as np
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        sim.fail(kind + ":shape", "%s got shape %s, expected %s" % (detail, g.shape, w.shape))
    if g.size == 0:
        sim.check(True, kind)
        return
    sc = max(1.0, float(np.max(np.abs(w))))
    err = float(np.max(np.abs(g - w))) if np.all(np.isfinite(g)) else math.inf
    sim.check(err <= tol * sc, kind, lambda: "%s error %.3g (tolerance %.1g): got %s expected %s" % (
        detail, err, tol * sc, np.ravel(g)[:8], np.ravel(w)[:8]))
