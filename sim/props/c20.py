"""Answers follow the domain: where it lies and the unit of length change nothing.

The same session runs twice, request by request: on a domain about the origin, and on the
same domain moved far away and measured in other (per axis) units.  Everything the second
one is told, carried back, is what the first one is told.
"""
import numpy as np

from . import c13, c18
from .common import World, gen_mesh_cfg, gen_predicate, nodes_1d, pick, predicate, shape_grid
from .c18 import constraints, same

ELEMS = ["Q1", "Q2", "Q3", "DQ0", "DQ1"]
LABELS = ["A", "B"]
KINDS = ["split", "deep", "refine", "record", "refine_sub", "coarsen_sub", "balance", "region", "locate", "boundary", "neighbors",
         "geometry", "meet", "dofs", "hanging", "function", "evaluate", "assemble", "system", "field"]
WEIGHTS = [2, 2, 1.5, 1.5, 1, 0.7, 1, 2, 2, 1.5, 1.5, 2.5, 2, 2, 1.5, 2, 1.5, 2.5, 2, 0.7]


def gen(rng, tier, index):
    cfg = gen_mesh_cfg(rng, small=True, bent=True)
    d = cfg["dim"]
    k = [rng.choice([0, 0, -10, -20, -30, 10, 20, 30])] * d
    if d == 2 and rng.random() < 0.3:
        k[1] += rng.choice([-12, -5, 5, 12])
    t = [rng.choice([0, 0, 1, -1]) * 2 ** rng.choice([4, 10, 14, 17, 20]) for _ in range(d)]
    ops = []
    kinds = [o for o in ("split", "deep", "record", "refine_sub", "coarsen_sub", "dofs", "region", "function", "split") if rng.random() < 0.5]
    kinds += rng.choices(KINDS, WEIGHTS, k=rng.randrange(4, 12 if tier == "quick" else 24))
    for kind in kinds:
        op = {"op": kind, "i": rng.randrange(1000), "j": rng.randrange(1000), "s": rng.randrange(1 << 16), "e": rng.choice(ELEMS),
              "sub": rng.choice([None, None] + LABELS), "lab": rng.choice(LABELS)}
        if kind in ("refine", "region"):
            op["p"] = gen_predicate(rng, cfg)
            op["ent"] = rng.choice(["vertex", "half_edge", "cell"])
        ops.append(op)
    return {"cfg": {"world": cfg, "k": k, "t": t}, "ops": ops}


def run(scn, sim):
    c = scn["cfg"]
    d = c["world"]["dim"]
    home = Session(sim, c["world"], [0] * d, [0] * d)
    away = Session(sim, c["world"], c["k"], c["t"])
    home.isotropic = away.isotropic = len(set(c["k"])) == 1
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        want = home.request(op)
        got = away.request(op)
        if want is not None:
            sim.probe("answered_" + op["op"])
        same(sim, got, want, op, 0, tol=2e-6)
        sim.log(op["op"], c18.describe(want))
        sim.state([op["op"], c["k"], c["t"], c["world"].get("kind", "1d"), len(home.leaves)])


class Placed(World):
    """A world whose library mesh lies elsewhere; the reference model stays at home."""

    def __init__(self, cfg, scale, shift):
        self.scale, self.shift = np.array(scale, dtype=float), np.array(shift, dtype=float)
        World.__init__(self, cfg)

    def there(self, x):
        return np.asarray(x, dtype=float) * self.scale + self.shift

    def back(self, x):
        return (np.asarray(x, dtype=float) - self.shift) / self.scale

    def _make1d(self, cfg):
        from mesh import Mesh1D
        from .. import models
        b, at = list(cfg["box"]), nodes_1d(cfg)
        if at is not None:
            self.mesh = Mesh1D(x=[float(v) for v in self.there(at)], periodic=cfg["periodic"])
        else:
            self.mesh = Mesh1D(box=[float(v) for v in self.there(b)], resolution=(cfg["res"][0],),
                               periodic=cfg["periodic"])
        self.ref = models.RefMesh1D(b[0], b[1], cfg["res"][0], cfg["periodic"], at)
        self.dim = 1

    def _make2d(self, cfg):
        from mesh import QuadMesh
        self.dim = 2
        box, kind = cfg["box"], cfg["kind"]
        if kind == "grid":
            lo, hi = self.there([box[0], box[2]]), self.there([box[1], box[3]])
            self.mesh = QuadMesh(box=[float(lo[0]), float(hi[0]), float(lo[1]), float(hi[1])], resolution=tuple(cfg["res"]),
                                 periodic=set(cfg["periodic"]) if cfg["periodic"] else None)
        else:
            pts, conn = shape_grid(kind, box, cfg["gseed"])
            self.mesh = QuadMesh(x=self.there(pts), connectivity=[list(q) for q in conn])


class Session(c18.Session):
    def __init__(self, sim, cfg, k, t):
        self.sim, self.cfg, self.dim = sim, cfg, cfg["dim"]
        b = cfg["box"]
        ext = [b[2 * d + 1] - b[2 * d] for d in range(self.dim)]
        self.S = np.array([2.0 ** v for v in k])
        self.T = np.array([v * s * e for v, s, e in zip(t, self.S, ext)])
        self.w = Placed(cfg, self.S, self.T)
        self.mesh = self.w.mesh
        self.h, self.n = {}, 0
        self.fns, self.used = [], []

    # ------------------------------------------------------------ carrying back and forth
    def there(self, x):
        return self.w.there(x)

    def back(self, x):
        return self.w.back(x)

    def key(self, v):
        """A vertex's place at home, exact: all corners are multiples of 1/(3*2^20)."""
        p = self.back(np.array(v.coordinates(), dtype=float).reshape(-1))
        return tuple(int(round(float(u) * 3 * 2 ** 20)) for u in p)

    def pull(self, f):
        """The home function f(x) as a function of the points over there."""
        return lambda x: f(self.back(np.asarray(x, dtype=float).reshape(-1, self.dim)))

    def points(self, seed, n=5):
        """Points at home, off all edges."""
        g = np.random.Generator(np.random.PCG64(seed))
        ls = sorted(self.w.ref.f.roots) if not hasattr(self, "_roots") else self._roots
        out = []
        for _ in range(n):
            c = np.array([v.coordinates() for v in self.w.cell(ls[int(g.integers(len(ls)))]).get_vertices()], dtype=float)
            c = self.back(c.reshape(-1, self.dim))
            t = (g.integers(0, 64, self.dim) + 0.37) / 64.0
            if self.dim == 1:
                out.append(c[0] + t * (c[1] - c[0]))
            else:
                a, b = t
                out.append((1 - a) * (1 - b) * c[0] + a * (1 - b) * c[1] + a * b * c[2] + (1 - a) * b * c[3])
        return np.array(out)

    @property
    def _roots(self):
        return [(i,) for i in range(self.mesh.cells.n_children())]

    def pred(self, p):
        f = predicate(p, self.cfg)
        if self.dim == 1:
            return lambda x: f((x - self.T[0]) / self.S[0])
        return lambda x, y: f((x - self.T[0]) / self.S[0], (y - self.T[1]) / self.S[1])

    def request(self, op):
        return getattr(self, "do_" + op["op"])(op, False)

    # ------------------------------------------------------------ mesh
    def do_deep(self, op, verbose):
        ls = [c for c in self.leaves if c.get_depth() < 4]
        c = pick(ls, op["i"])
        for j in range(3):
            if c is None or len(self.leaves) >= 30 or c.get_depth() > 5:
                break
            c.split()
            c = c.get_child((op["j"] + j) % (2 if self.dim == 1 else 4))
        return self.shape(None)

    def do_refine(self, op, verbose):
        self.n += 1
        lab = "r%d" % self.n
        self.mesh.mark_region(lab, self.pred(op["p"]), entity_type="cell", strict_containment=bool(op["i"] % 2))
        if len(self.leaves) < 12 and max(c.get_depth() for c in self.leaves) < 4:
            self.mesh.cells.refine(refinement_flag=lab)
        return self.shape(None)

    def do_region(self, op, verbose):
        ent = op["ent"] if self.dim == 2 or op["ent"] != "half_edge" else "vertex"
        sub = self.sub(op["sub"])
        lab = "R%d" % (op["j"] % 2)
        kw = dict(entity_type=ent, subforest_flag=sub)
        if ent != "cell" and not self.cfg.get("periodic"):
            kw["on_boundary"] = bool(op["j"] % 3 == 0)
        self.mesh.mark_region(lab, self.pred(op["p"]), **kw)
        out = []
        for x in self.mesh.get_region(flag=lab, entity_type=ent, subforest_flag=sub):
            if ent == "cell":
                out.append(self.addr(x))
            elif ent == "vertex":
                out.append(self.key(x))
            else:
                out.append((self.key(x.base()), self.key(x.head())))
        return sorted(out)

    def do_locate(self, op, verbose):
        sub = self.sub(op["sub"])
        out = []
        p = self.there(self.points(op["s"]))
        if self.dim == 2:
            out = [self.addr(self.mesh.locate_point(tuple(q), flag=sub)) for q in p]
        bins = self.mesh.bin_points(p if self.dim == 2 else p.reshape(-1, 1), subforest_flag=sub)
        out.append(sorted((self.addr(c), tuple(int(t) for t in idx)) for c, idx in bins))
        return out

    def do_boundary(self, op, verbose):
        sub = self.sub(op["sub"])
        if self.cfg.get("periodic"):
            return None
        box = np.array(self.mesh.bounding_box(), dtype=float).reshape(self.dim, 2)
        out = [self.back(box[:, 0]), self.back(box[:, 1])]
        if self.dim == 1:
            return out + [self.key(v) for v in self.mesh.get_boundary_vertices()]
        segs = []
        for s in self.mesh.get_boundary_segments(subforest_flag=sub):
            ks = [(self.key(h.base()), self.key(h.head())) for h in s]
            k = ks.index(min(ks))
            segs.append(ks[k:] + ks[:k])
        return out + [sorted(segs)]

    def anycell(self, i):
        return pick(sorted((c for c in self.mesh.cells.traverse()), key=self.addr), i)

    def do_geometry(self, op, verbose):
        """Measures, maps and containment of a cell on any level, and of its sides."""
        g = np.random.Generator(np.random.PCG64(op["s"]))
        c = self.anycell(op["i"])
        r = g.uniform(0.05, 0.95, (3, self.dim))
        out = [self.addr(c), [self.key(v) for v in c.get_vertices()]]
        if self.dim == 1:
            x = np.asarray(c.reference_map(r)).reshape(-1, 1)
            y, mg = c.reference_map(x, mapsto="reference", jac_p2r=True)
            return out + [c.length() / self.S[0], self.back(x), np.asarray(y, dtype=float).reshape(-1, 1),
                          np.ravel(mg["jac_p2r"]) * self.S[0],
                          [bool(v) for v in c.contains_points(self.there(self.points(op["s"])))]]
        out.append(bool(c.is_rectangle()))
        x, mg = c.reference_map(r, jac_r2p=True)
        y, mh = c.reference_map(x, mapsto="reference", jac_p2r=True)
        out += [c.area() / np.prod(self.S), self.back(x), np.array(mg["jac_r2p"]) / self.S[:, None], np.asarray(y, dtype=float),
                np.array(mh["jac_p2r"]) * self.S[None, :]]
        inside = c.contains_points(self.there(self.points(op["s"])))
        near = []
        for i in range(4):
            # just inside and just outside of every corner and side
            p = self.back(np.array([c.get_vertex(i).coordinates(), c.get_vertex(i + 1 if i < 3 else 0).coordinates()], dtype=float))
            m = self.back(np.array([v.coordinates() for v in c.get_vertices()], dtype=float)).mean(axis=0)
            q = 0.5 * (p[0] + p[1])
            near += [q + 0.02 * (m - q), q - 0.02 * (m - q), p[0] + 0.02 * (m - p[0]), p[0] - 0.02 * (m - p[0])]
        out += [[bool(v) for v in inside], [bool(v) for v in c.contains_points(self.there(near))]]
        h = c.get_half_edge(op["j"] % 4)
        s = np.array([0.0, 0.25, 1.0])
        xe = np.asarray(h.reference_map(s), dtype=float).reshape(-1, 2)
        out += [self.back(xe), np.ravel(h.reference_map(xe, mapsto="reference")).astype(float),
                [bool(v) for v in h.contains_points(np.vstack([xe, self.there(near)]))]]
        if self.isotropic:
            out += [h.length() / self.S[0], np.asarray(h.unit_normal(), dtype=float)]
        if c.has_children():
            ch = c.get_child(op["j"] % 4)
            pos, wd = c.subcell_position(ch)
            out += [np.asarray(pos, dtype=float), float(wd)]
            hc = h.get_child(op["s"] % 2)
            pos, wd = h.subcell_position(hc)
            out += [float(pos), float(wd)]
        return out

    def do_meet(self, op, verbose):
        """Which cells and edges a line segment meets (segments in general position)."""
        if self.dim == 1:
            return None
        a, b = self.there(self.points(op["s"], 2))
        line = [tuple(a), tuple(b)]
        c = self.anycell(op["i"])
        out = [[bool(d.intersects_line_segment(line)) for d in self.leaves]]
        out.append([bool(h.intersects_line_segment(line)) for h in c.get_half_edges()])
        # along a side, beyond it, parallel to it
        h = c.get_half_edge(op["j"] % 4)
        p = self.back(np.array([h.base().coordinates(), h.head().coordinates()], dtype=float))
        v = p[1] - p[0]
        m = self.back(np.array([u.coordinates() for u in c.get_vertices()], dtype=float)).mean(axis=0) - 0.5 * (p[0] + p[1])
        if self.straight(p):
            for t0, t1, off in ((0.25, 0.5, 0), (1.25, 2.0, 0), (0.25, 0.5, 0.1), (0.5, -3.0, 0)):
                q = [tuple(self.there(p[0] + t * v + off * m)) for t in (t0, t1)]
                out.append(bool(h.intersects_line_segment(q)))
        return out

    def straight(self, p):
        """Along an axis: then points of the side can be given exactly."""
        return bool(np.min(np.abs(p[1] - p[0])) < 1e-7 * np.max(np.abs(p[1] - p[0])))

    # ------------------------------------------------------------ dofs and functions
    def do_dofs(self, op, verbose):
        H, lab = self.space(op)
        out = [[int(d) for d in H.get_cell_dofs(c)] for c in self.mesh.cells.get_leaves(subforest_flag=lab)]
        out += [int(H.n_dofs(subforest_flag=lab))]
        if not self.cfg.get("periodic"):
            out.append(self.back(np.asarray(H.get_dof_vertices(subforest_flag=lab), dtype=float).reshape(-1, self.dim)))
        if self.dim == 2 and not op["e"].startswith("D"):
            out.append([int(d) for d in H.get_region_dofs(entity_type="half_edge", on_boundary=True, subforest_flag=lab)])
        return out

    def do_function(self, op, verbose):
        from fem import Basis
        from function import Explicit, Nodal
        if op["j"] % 3 == 0:
            f = Explicit([self.pull(c18.poly(op["s"], self.dim, q)) for q in range(1 + op["i"] % 2)], dim=self.dim)
        else:
            H, lab = self.space(op)
            B = Basis(H, "v", lab)
            if op["j"] % 3 == 1 and not self.cfg.get("periodic"):
                f = Nodal(f=self.pull(c18.poly(op["s"], self.dim)), basis=B, dim=self.dim)
            else:
                data = np.random.Generator(np.random.PCG64(op["s"])).uniform(-1, 1, (H.n_dofs(subforest_flag=lab), 1 + op["i"] % 2))
                f = Nodal(data=data, basis=B, dim=self.dim)
        self.fns.append(f)
        return np.asarray(f.eval(x=self.there(self.points(op["s"]))), dtype=float)

    def do_evaluate(self, op, verbose):
        f = pick(self.fns, op["i"])
        if f is None:
            return None
        x = self.there(self.points(op["s"]))
        out = [np.asarray(f.eval(x=x), dtype=float)]
        if type(f).__name__ == "Nodal" and f.basis().dofhandler().element.element_type() != "DQ0":
            for d in range(self.dim):
                out.append(np.asarray(f.eval(x=x, derivative=(1, d)), dtype=float) * self.S[d])
        return out

    # ------------------------------------------------------------ assembly and systems
    def forms(self, op, H, lab):
        """Mass, stiffness and load in home units."""
        from assembler import Form
        from function import Explicit
        b = self.bases(H, lab)
        J = 1.0 / np.prod(self.S)
        q = Explicit(self.pull(lambda x: J * c18.poly(op["s"], self.dim)(x)), dim=self.dim)
        forms = [Form(2.0 * J, trial=b[0], test=b[0]), Form(q, test=b[0])]
        if not H.element.element_type() == "DQ0":
            forms += [Form(1.5 * J * s * s, trial=d, test=d) for d, s in zip(b[1:], self.S)]
        return b, forms, q

    def do_assemble(self, op, verbose):
        from assembler import Assembler, Form
        H, lab = self.space(op)
        b, forms, q = self.forms(op, H, lab)
        probs = [forms, [Form(q)]]
        side = None
        if self.dim == 2 and not self.cfg.get("periodic") and self.isotropic:
            side = "s%d" % self.n
            f = c13.marker(self.cfg, "left")
            if f is not None:
                self.mark(side, f, lab)
                probs.append([Form(1.0 / self.S[0], test=b[0], dmu="ds", flag=side)])
            else:
                side = None
        A = Assembler(probs, self.mesh, subforest_flag=lab)
        A.assemble()
        out = [A.get_matrix(0).toarray(), np.asarray(A.get_vector(0), dtype=float), float(np.ravel(A.get_scalar(1))[0]),
               [int(d) for d in A.get_dofs("interior", 0)]]
        if side:
            out.append(np.asarray(A.get_vector(2), dtype=float))
        return out

    def mark(self, m, f, lab):
        S, T = self.S, self.T
        g = (lambda x: f((x - T[0]) / S[0])) if self.dim == 1 else (lambda x, y: f((x - T[0]) / S[0], (y - T[1]) / S[1]))
        self.mesh.mark_region(m, g, entity_type="vertex" if self.dim == 1 else "half_edge", on_boundary=True, subforest_flag=lab)

    def do_system(self, op, verbose):
        from assembler import Assembler
        from function import Explicit
        from solver import LinearSystem
        H, lab = self.space(op, torn=False)
        marks = []
        for m in ("left", "bottom"):
            f = c13.marker(self.cfg, m)
            if f is not None:
                self.mark(m, f, lab)
                marks.append(m)
        b, forms, q = self.forms(op, H, lab)
        A = Assembler([forms], self.mesh, subforest_flag=lab)
        f = c18.poly(op["s"] + 1, self.dim)
        g = Explicit(self.pull(f), dim=self.dim)
        if op["j"] % 2:
            for m in marks:
                A.add_dirichlet(m, g)
            A.add_hanging_nodes()
            A.assemble()
            return np.asarray(A.solve(), dtype=float) if len(A.get_dofs("interior")) else None
        A.assemble()
        x = LinearSystem(b[0], A=A.get_matrix(), b=A.get_vector())
        for m in marks:
            x.add_dirichlet_constraint(m, g)
        x.solve_system(factor=bool(op["i"] % 2))
        u = x.get_solution()
        self.fns.append(u)
        return [np.asarray(u.data(), dtype=float), np.asarray(u.eval(x=self.there(self.points(op["s"]))), dtype=float)]

    def do_field(self, op, verbose):
        from gmrf import Covariance
        if not self.isotropic or self.cfg.get("periodic"):
            return None
        H, lab = self.space(op)
        if H.n_dofs(subforest_flag=lab) > 150:
            return None
        name = ["exponential", "gaussian"][op["j"] % 2]
        K = Covariance(H, discretization="interpolation", subforest_flag=lab, name=name, parameters={"l": 0.5 * self.S[0]})
        C = K.get_matrix()
        # the discretised operator carries a mass matrix on either side
        return np.asarray(C.toarray() if hasattr(C, "toarray") else C, dtype=float) / np.prod(self.S) ** 2
