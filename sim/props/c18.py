"""Answers depend on a session's own requests: not on addresses, clocks, verbosity, observers or other sessions.

Every session runs alone first, in a quiet environment; then all sessions run again in one
process, interleaved by the scheduler, under another hash order and clock, with read-only
requests (also verbose ones and plots) in between.  What each session is told must not change.
"""
import contextlib
import io

import numpy as np

from . import c13
from .common import World, gen_mesh_cfg, gen_predicate, pick, predicate
from .. import core, seams

ELEMS = ["Q1", "Q2", "Q3", "DQ0", "DQ1"]
KINDS = ["split", "refine", "record", "refine_sub", "coarsen_sub", "balance", "region", "dofs", "hanging", "function",
         "evaluate", "locate", "boundary", "neighbors", "assemble", "again", "system", "decompose", "field", "extend",
         "kernel", "tree"]
WEIGHTS = [3, 2, 1.5, 1.5, 0.7, 1, 1.5, 2, 1.5, 2, 2, 1.5, 1, 1.5, 2.5, 1, 2, 1, 1.5, 0.7, 1, 1.5]
LABELS = ["A", "B"]


try:    # loaded once, before the runs are forked
    import contourpy  # noqa: F401
    import matplotlib.backends.backend_agg  # noqa: F401
    import matplotlib.figure  # noqa: F401
    import PIL.features  # noqa: F401
    import plot  # noqa: F401
except Exception:
    pass    # a run that needs them will say so


def gen(rng, tier, index):
    sessions = []
    for _ in range(rng.choice([2, 2, 3])):
        ops = []
        kinds = [k for k in ("split", "record", "function", "split", "assemble", "refine_sub", "coarsen_sub")
                 if rng.random() < 0.6]
        kinds += rng.choices(KINDS, WEIGHTS, k=rng.randrange(4, 12 if tier == "quick" else 24))
        for kind in kinds:
            ops.append({"op": kind, "i": rng.randrange(1000), "j": rng.randrange(1000),
                        "s": rng.randrange(1 << 16), "e": rng.choice(ELEMS), "sub": rng.choice([None, None] + LABELS),
                        "lab": rng.choice(LABELS)})
        cfg = gen_mesh_cfg(rng, small=True, bent=True)
        for op in ops:
            if op["op"] in ("refine", "region"):
                op["p"] = gen_predicate(rng, cfg)
                op["ent"] = rng.choice(["vertex", "half_edge", "cell"])
        sessions.append({"world": cfg, "ops": ops})
    n = sum(len(s["ops"]) for s in sessions)
    # the schedule: which session goes next, and what observers do before it
    ops = [{"op": "next", "client": rng.randrange(len(sessions)),
            "watch": [[rng.choice(sorted(WATCH)), rng.randrange(1000)] for _ in range(rng.choice([0, 1, 1, 2]))]}
           for _ in range(2 * n)]
    return {"cfg": {"sessions": sessions, "alt": rng.choice(["seeded", "descending", "colliding", "seeded"]),
                    "alt_seed": rng.randrange(1 << 20), "alt_clock": rng.choice(["steady", "frozen", "jumps", "skew"])},
            "ops": ops}


def run(scn, sim):
    cfg = scn["cfg"]
    alone = []
    for i, s in enumerate(cfg["sessions"]):
        def solo(i=i, s=s):
            seams.HASH.configure(1, "ascending")
            seams.CLOCK.configure(0, "steady")
            sim.step = 0
            S = Session(sim, s)
            out = []
            for op in s["ops"]:
                sim.op = dict(op, session=i)
                out.append(S.request(op))
            return out
        # alone in a process of its own
        ok, out = core.isolated(solo)
        if not ok:
            out = solo()
        for op, o in zip(s["ops"], out):
            if o is not None:
                sim.probe("answered_" + op["op"])
        alone.append(out)
        sim.log("alone", i, [describe(o) for o in out])
    seams.HASH.configure(cfg["alt_seed"], cfg["alt"])
    seams.CLOCK.configure(cfg["alt_seed"], cfg["alt_clock"])
    live = []
    for i, s in enumerate(cfg["sessions"]):
        live.append([Session(sim, s), 0])
    for k, step in enumerate(scn["ops"]):
        sim.step = k + 1
        i = step["client"] % len(live)
        S, at = live[i]
        for what, n in step["watch"]:
            T = pick(live, n)[0]
            sim.op = {"op": "watch_" + what}
            with contextlib.redirect_stdout(io.StringIO()):
                WATCH[what](T, n)
            sim.probe("watch_" + what)
        ops = cfg["sessions"][i]["ops"]
        if at >= len(ops):
            continue
        op = ops[at]
        sim.op = dict(op, session=i)
        with contextlib.redirect_stdout(io.StringIO()):
            got = S.request(op, verbose=n_odd(step))
        live[i][1] += 1
        want = alone[i][at]
        same(sim, got, want, op, i)
        sim.state([op["op"], at, [s["world"].get("kind", "1d") for s in cfg["sessions"]], len(S.leaves)])


def n_odd(step):
    return len(step["watch"]) % 2 == 1


def describe(o):
    if isinstance(o, (list, tuple)):
        return [describe(x) for x in o][:6]
    if isinstance(o, np.ndarray):
        return np.round(np.asarray(o, dtype=float), 6).ravel()[:8]
    return str(o)


def same(sim, got, want, op, i, path="answer", tol=1e-8):
    kind = "differs:" + op["op"]
    if isinstance(want, (list, tuple)):
        sim.check(isinstance(got, (list, tuple)) and len(got) == len(want), kind,
                  lambda: "session %d, %s: %s, alone %s" % (i, path, short(got), short(want)))
        for k, (g, w) in enumerate(zip(got, want)):
            same(sim, g, w, op, i, "%s[%d]" % (path, k), tol)
    elif isinstance(want, (float, np.ndarray)):
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        ok = g.shape == w.shape and (w.size == 0 or np.allclose(g, w, rtol=tol, atol=0.1 * tol * (1 + np.max(np.abs(w))), equal_nan=True))
        sim.check(ok, kind, lambda: "session %d, %s: %s, alone %s" % (i, path, short(got), short(want)))
    else:
        sim.check(got == want, kind, lambda: "session %d, %s: %s, alone %s" % (i, path, short(got), short(want)))


def short(x):
    return str(x)[:300]


def poly(s, dim, k=0):
    c = np.round(np.random.Generator(np.random.PCG64(s + 31 * k)).uniform(-2, 2, 4), 2)
    return lambda x, a=1.0: a * (c[0] + c[1] * x[:, 0] + c[2] * x[:, -1] ** 2 + c[3] * x[:, 0] * x[:, -1])


class Session(object):
    """One client's script; every request returns what the library told it."""

    def __init__(self, sim, s):
        self.sim = sim
        self.cfg = s["world"]
        self.w = World(self.cfg)
        self.mesh = self.w.mesh
        self.dim = self.w.dim
        self.h = {}
        self.fns, self.asms, self.fields, self.kers, self.decs, self.used = [], [], [], [], [], []
        self.n = 0

    # -------------------------------------------------------------- helpers
    @property
    def leaves(self):
        return self.mesh.cells.get_leaves()

    def sub(self, lab):
        """A submesh label that can be worked on."""
        if lab is None:
            return None
        try:
            ls = self.mesh.cells.get_leaves(subforest_flag=lab)
        except Exception:
            return None
        roots = list(self.mesh.cells.get_children())
        if not ls or not all(r.is_marked(lab) for r in roots):
            return None
        return lab

    def addr(self, c):
        return None if c is None else tuple(int(i) for i in c.get_node_address())

    def balance(self, sub=None):
        if self.dim == 2:
            if sub is not None:
                self.mesh.balance(sub)
            self.mesh.balance()

    def snapshot(self, sub):
        """The client's own label for the mesh it works on now."""
        self.balance(sub)
        self.n += 1
        lab = "m%d" % self.n
        if sub is None:
            self.mesh.cells.record(lab)
        else:
            self.mesh.cells.coarsen(subforest_flag=sub, coarsening_flag="nowhere", new_label=lab, clean_up=False)
        return lab

    def handler(self, e):
        from fem import DofHandler, QuadFE
        if e not in self.h:
            self.h[e] = DofHandler(self.mesh, QuadFE(self.dim, e))
        return self.h[e]

    def space(self, op, torn=True):
        e = op["e"] if torn or not op["e"].startswith("D") else "Q1"
        lab = self.snapshot(self.sub(op["sub"]))
        H = self.handler(e)
        H.distribute_dofs(subforest_flag=lab)
        return H, lab

    def points(self, seed, n=6):
        g = np.random.Generator(np.random.PCG64(seed))
        ls = sorted(self.w.ref.f.roots)
        out = []
        for _ in range(n):
            c = np.array(self.w.ref.corners(ls[int(g.integers(len(ls)))]))
            t = g.integers(0, 33, self.dim) / 32.0
            t = np.clip(t, 0.03, 0.97)
            if self.dim == 1:
                out.append(c[0] + t * (c[1] - c[0]))
            else:
                a, b = t
                out.append((1 - a) * (1 - b) * c[0] + a * (1 - b) * c[1] + a * b * c[2] + (1 - a) * b * c[3])
        return np.array(out)

    def request(self, op, verbose=False):
        return getattr(self, "do_" + op["op"])(op, verbose)

    # -------------------------------------------------------------- mesh
    def do_split(self, op, verbose):
        ls = self.leaves
        if len(ls) < 24:
            c = pick([c for c in ls if c.get_depth() < 4], op["i"])
            if c is not None:
                c.split()
        return self.shape(None)

    def shape(self, sub):
        return [self.addr(c) for c in self.mesh.cells.get_leaves(subforest_flag=sub)]

    def do_refine(self, op, verbose):
        self.n += 1
        lab = "r%d" % self.n
        self.mesh.mark_region(lab, predicate(op["p"], self.cfg), entity_type="cell", strict_containment=bool(op["i"] % 2))
        if len(self.leaves) < 12 and max(c.get_depth() for c in self.leaves) < 4:
            self.mesh.cells.refine(refinement_flag=lab)
        return self.shape(None)

    def do_record(self, op, verbose):
        self.mesh.cells.record(op["lab"])
        return self.shape(op["lab"])

    def do_refine_sub(self, op, verbose):
        sub = self.sub(op["lab"])
        if sub is None:
            return None
        ls = self.mesh.cells.get_leaves(subforest_flag=sub)
        c = pick([c for c in ls if c.get_depth() < 4], op["i"])
        if len(self.leaves) < 24 and c is not None:
            self.n += 1
            c.mark("t%d" % self.n)
            self.mesh.cells.refine(subforest_flag=sub, refinement_flag="t%d" % self.n)
        return [self.shape(sub), self.shape(None)]

    def do_coarsen_sub(self, op, verbose):
        sub = self.sub(op["lab"])
        if sub is None:
            return None
        self.mesh.cells.coarsen(subforest_flag=sub)
        return [self.shape(sub), self.shape(None)]

    def do_tree(self, op, verbose):
        """The tree of one root cell, asked through the tree's own methods."""
        root = pick(self.leaves, op["i"]).get_root()
        lab = "b%d" % (op["j"] % 2)
        leaf = pick(root.get_leaves(), op["j"])
        leaf.mark(lab)
        out = [self.addr(leaf), root.is_rooted_subtree(lab)]
        if op["j"] % 3:
            root.make_rooted_subtree(lab)
            out.append([self.addr(c) for c in root.get_leaves(subtree_flag=lab)])
        mode = ("breadth-first", "depth-first")[op["i"] % 2]
        out.append([self.addr(c) for c in root.traverse(mode=mode)])
        out.append([self.addr(c) for c in root.get_leaves(flag=lab)])
        return out + [root.tree_depth()]

    def do_balance(self, op, verbose):
        sub = self.sub(op["sub"])
        self.balance(sub)
        return [self.shape(sub), self.shape(None)]

    def do_region(self, op, verbose):
        ent = op["ent"] if self.dim == 2 or op["ent"] != "half_edge" else "vertex"
        sub = self.sub(op["sub"])
        lab = "R%d" % (op["j"] % 2)
        kw = dict(entity_type=ent, subforest_flag=sub)
        if ent != "cell" and not self.cfg.get("periodic"):
            kw["on_boundary"] = bool(op["j"] % 3 == 0)
        self.mesh.mark_region(lab, predicate(op["p"], self.cfg), **kw)
        out = []
        for x in self.mesh.get_region(flag=lab, entity_type=ent, subforest_flag=sub):
            if ent == "cell":
                out.append(self.addr(x))
            elif ent == "vertex":
                out.append(tuple(round(float(v), 9) for v in x.coordinates()))
            else:
                out.append(tuple(round(float(v), 9) for q in (x.base(), x.head()) for v in q.coordinates()))
        return sorted(out)

    def do_locate(self, op, verbose):
        sub = self.sub(op["sub"])
        out = []
        for p in self.points(op["s"]):
            if self.dim == 2:
                out.append(self.addr(self.mesh.locate_point(tuple(p), flag=sub)))
        bins = self.mesh.bin_points(self.points(op["s"] + 1), subforest_flag=sub)
        out.append(sorted((self.addr(c), tuple(int(t) for t in idx)) for c, idx in bins))
        return out

    def do_boundary(self, op, verbose):
        sub = self.sub(op["sub"])
        if self.cfg.get("periodic"):
            return None
        if self.dim == 1:
            return [float(v.coordinates()[0]) for v in self.mesh.get_boundary_vertices()]
        segs = self.mesh.get_boundary_segments(subforest_flag=sub)
        key = lambda h: tuple(round(float(v), 9) for q in (h.base(), h.head()) for v in q.coordinates())
        out = []
        for s in segs:
            ks = [key(h) for h in s]
            k = ks.index(min(ks))
            out.append(ks[k:] + ks[:k])
        return sorted(out)

    def do_neighbors(self, op, verbose):
        sub = self.sub(op["sub"])
        c = pick(self.mesh.cells.get_leaves(subforest_flag=sub), op["i"])
        out = [self.addr(c)]
        if self.dim == 1:
            return out + [self.addr(c.get_neighbor(k, subforest_flag=sub)) for k in (0, 1)]
        for h in c.get_half_edges():
            nb = c.get_neighbors(h, flag=sub)
            out.append(sorted(self.addr(x) for x in (nb if isinstance(nb, list) else [nb]) if x is not None))
        for v in c.get_vertices():
            nb = c.get_neighbors(v, flag=sub)
            out.append(sorted(self.addr(x) for x in (nb if isinstance(nb, list) else [nb]) if x is not None))
        return out

    # -------------------------------------------------------------- dofs and functions
    def do_dofs(self, op, verbose):
        H, lab = self.space(op)
        out = [[int(d) for d in H.get_cell_dofs(c)] for c in self.mesh.cells.get_leaves(subforest_flag=lab)]
        out += [int(H.n_dofs(subforest_flag=lab)), np.asarray(H.get_dof_vertices(subforest_flag=lab), dtype=float)]
        if self.dim == 2 and not op["e"].startswith("D"):
            out.append([int(d) for d in H.get_region_dofs(entity_type="half_edge", on_boundary=True, subforest_flag=lab)])
        return out

    def do_hanging(self, op, verbose):
        if self.dim == 1:
            return None
        H, lab = self.space(op, torn=False)
        hn = H.get_hanging_nodes(subforest_flag=lab)
        return constraints(hn)

    def do_function(self, op, verbose):
        from fem import Basis
        from function import Constant, Explicit, Nodal
        k = op["j"] % 4
        if k == 0:
            f = Explicit([poly(op["s"], self.dim, q) for q in range(1 + op["i"] % 2)], dim=self.dim)
        elif k == 1:
            f = Constant(float(op["s"] % 7) - 3)
        else:
            H, lab = self.space(op)
            if k == 2:
                f = Nodal(f=poly(op["s"], self.dim), basis=Basis(H, "v", lab), dim=self.dim)
            else:
                n = H.n_dofs(subforest_flag=lab)
                data = np.random.Generator(np.random.PCG64(op["s"])).uniform(-1, 1, (n, 1 + op["i"] % 2))
                f = Nodal(data=data, basis=Basis(H, "v", lab), dim=self.dim)
        self.fns.append(f)
        return np.asarray(f.eval(x=self.points(op["s"])), dtype=float)

    def do_evaluate(self, op, verbose):
        f = pick(self.fns, op["i"])
        if f is None:
            return None
        x = self.points(op["s"])
        if hasattr(f, "differentiate") and type(f).__name__ == "Nodal" and op["j"] % 3 == 0 and op["e"] != "DQ0":
            return [np.asarray(f.eval(x=x), dtype=float), np.asarray(f.eval(x=x, derivative=(1, 0)), dtype=float)]
        return np.asarray(f.eval(x=x), dtype=float)

    def do_extend(self, op, verbose):
        # sample sizes of kernels are the caller's to update: functions in use by an assembler stay as they are
        f = pick([f for f in self.fns if type(f).__name__ in ("Nodal", "Explicit") and f not in self.used], op["i"])
        if f is None or f.n_samples() > 4:
            return None
        if type(f).__name__ == "Explicit":
            f.add_rule(poly(op["s"], self.dim))
        else:
            f.add_samples(data=np.full((f.basis().n_dofs(), 1), 0.5))
        return [int(f.n_samples()), np.asarray(f.eval(x=self.points(op["s"])), dtype=float)]

    def do_kernel(self, op, verbose):
        from assembler import Kernel
        parts = [f for f in self.fns if f.n_samples() == 1][-2:]
        if not parts:
            return None
        F = (lambda a, b: a + 2 * b) if len(parts) == 2 else (lambda a: 3 * a)
        k = Kernel(parts, F=F)
        self.used += parts
        self.kers.append(k)
        return np.asarray(k.eval(self.points(op["s"])), dtype=float)

    # -------------------------------------------------------------- assembly and systems
    def bases(self, H, lab):
        from fem import Basis
        return [Basis(H, d, lab) for d in (["v", "vx"] if self.dim == 1 else ["v", "vx", "vy"])]

    def coefficient(self, op):
        from function import Explicit
        c = pick([k for k in self.fns if k.n_samples() == 1 and type(k).__name__ != "Nodal"], op["j"])
        self.used.append(c)
        return c if c is not None and op["j"] % 2 else Explicit(poly(op["s"], self.dim), dim=self.dim)

    def do_assemble(self, op, verbose):
        from assembler import Assembler, Form
        H, lab = self.space(op)
        b = self.bases(H, lab)
        q = self.coefficient(op)
        forms = [[Form(2.0, trial=b[0], test=b[0]), Form(q, test=b[0])], [Form(q)]]
        if op["e"] != "DQ0":
            forms[0] += [Form(1.5, trial=d, test=d) for d in b[1:]]
        A = Assembler(forms, self.mesh, subforest_flag=lab)
        self.asms.append([A, lab, H])
        A.assemble(verbose=verbose)
        return self.arrays(A)

    def arrays(self, A):
        return [A.get_matrix(0).toarray(), np.asarray(A.get_vector(0), dtype=float),
                float(np.ravel(A.get_scalar(1))[0]), [int(d) for d in A.get_dofs("interior", 0)]]

    def do_again(self, op, verbose):
        e = pick(self.asms, op["i"])
        if e is None:
            return None
        e[0].assemble(keep_cellwise_data=bool(op["j"] % 2), verbose=verbose)
        return self.arrays(e[0])

    def do_system(self, op, verbose):
        from assembler import Assembler, Form
        from solver import LinearSystem
        H, lab = self.space(op, torn=False)
        for m in ("left", "bottom"):
            f = c13.marker(self.cfg, m)
            if f is not None:
                self.mesh.mark_region(m, f, entity_type="vertex" if self.dim == 1 else "half_edge", on_boundary=True,
                                      subforest_flag=lab)
        b = self.bases(H, lab)
        A = Assembler([[Form(1.0, trial=d, test=d) for d in b] + [Form(self.coefficient(op), test=b[0])]],
                      self.mesh, subforest_flag=lab)
        marks = [m for m in ("left", "bottom") if c13.marker(self.cfg, m) is not None]
        if op["j"] % 2:
            for m in marks:
                A.add_dirichlet(m, 1)
            A.add_hanging_nodes()
            A.assemble(verbose=verbose)
            return np.asarray(A.solve(), dtype=float) if len(A.get_dofs("interior")) else None
        A.assemble(verbose=verbose)
        x = LinearSystem(b[0], A=A.get_matrix(), b=A.get_vector())
        for m in marks:
            x.add_dirichlet_constraint(m, 1)
        x.solve_system(factor=bool(op["i"] % 2), verbose=verbose)
        u = x.get_solution()
        self.fns.append(u)
        return [np.asarray(u.data(), dtype=float), np.asarray(u.eval(x=self.points(op["s"])), dtype=float)]

    # -------------------------------------------------------------- matrices and fields
    def do_decompose(self, op, verbose):
        from spd import CholeskyDecomposition, EigenDecomposition
        g = np.random.Generator(np.random.PCG64(op["s"]))
        n = 2 + op["i"] % 5
        R = g.uniform(-1, 1, (n, n))
        K = R @ R.T + 0.3 * np.eye(n)
        D = (CholeskyDecomposition if op["j"] % 2 else EigenDecomposition)(K)
        self.decs.append(D)
        b = g.uniform(-1, 1, (n, 2))
        out = [np.asarray(D.dot(b)), np.asarray(D.solve(b))]
        R = pick(self.decs, op["j"])
        m = R.get_size()
        return out + [np.asarray(R.solve(np.ones((m, 1)))), np.asarray(R.sqrt_dot(np.ones((m, 1)))).ravel() ** 2 * 0]

    def do_field(self, op, verbose):
        from gmrf import Covariance, GaussianField
        g = np.random.Generator(np.random.PCG64(op["s"]))
        if op["j"] % 3 == 0:
            H, lab = self.space(op)
            K = Covariance(H, discretization="interpolation", subforest_flag=lab, name="exponential", parameters={"l": 0.5})
            n = K.get_size()
        else:
            n = 2 + op["i"] % 5
            R = g.uniform(-1, 1, (n, n))
            K = R @ R.T + 0.3 * np.eye(n)
        X = GaussianField(n, mean=g.uniform(-1, 1, (n, 1)), covariance=K)
        self.fields.append(X)
        Y = pick(self.fields, op["i"])
        m = Y.get_size()
        z = g.uniform(-1, 1, (m, 2))
        law = np.asarray(Y.get_covariance().dot(np.eye(m)), dtype=float)
        return [law, np.asarray(Y.get_mean(), dtype=float), float(np.linalg.norm(np.asarray(X.sample(z=g.uniform(-1, 1, (n, 1)))))) * 0,
                np.asarray(Y.sample(z=z)).shape]


def constraints(hn):
    out = []
    for d in sorted(hn):
        s, v = hn[d]
        out.append((int(d), sorted((int(t), round(float(u), 9)) for t, u in zip(s, v))))
    return out


# ------------------------------------------------------------------ observers: requests that only read
def axes():
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.figure import Figure
    return Figure().add_subplot(111)


def plotter():
    from plot import Plot
    return Plot(quickview=False)


def watch_plot_mesh(T, n):
    plotter().mesh(T.mesh, axis=axes(), subforest_flag=T.sub(pick([None] + LABELS, n)),
                   regions=[("R0", "vertex"), ("R1", "cell")])


def watch_plot_edges(T, n):
    if T.dim == 2:
        plotter().half_edges(axes(), T.mesh)
        plotter().edges(axes(), T.mesh)


def watch_plot_dofs(T, n):
    H = pick([T.h[e] for e in sorted(T.h)], n)
    if H is not None and T.n:
        lab = pick(T.asms, n)
        if lab is not None:
            plotter().dofs(axes(), lab[2], doflabels=True, subforest_flag=lab[1])


def watch_plot_contour(T, n):
    f = pick([f for f in T.fns if type(f).__name__ == "Nodal"], n)
    if f is not None and T.dim == 2 and T.cfg["kind"] not in ("lshape", "ring", "bent", "fan"):
        plotter().contour(f, axis=axes(), colorbar=False)


def watch_plot_line(T, n):
    f = pick([f for f in T.fns if type(f).__name__ == "Nodal"], n)
    if f is not None and T.dim == 1:
        plotter().line(f, axis=axes())


def watch_traverse(T, n):
    list(T.mesh.cells.traverse())
    list(T.mesh.cells.traverse(mode="breadth-first"))
    T.mesh.cells.get_leaves(subforest_flag=T.sub("A"))
    T.mesh.bounding_box()
    T.mesh.cells.depth()


def watch_abandon(T, n):
    """Looks at the first cells only."""
    next(T.mesh.cells.traverse(mode=("depth-first", "breadth-first")[n % 2]))
    c = pick(T.leaves, n)
    next(c.get_root().traverse())
    if T.dim == 2:
        for h in c.get_half_edges():
            next(h.traverse())


def watch_refused(T, n):
    """Asks for what the library cannot give."""
    from function import Explicit

    def fails(x):
        raise RuntimeError("callback")
    for request in (lambda: next(T.mesh.cells.traverse(mode="sideways")),
                    lambda: T.mesh.cells.get_child(10 ** 6),
                    lambda: Explicit(fails, dim=T.dim).eval(T.points(n)),
                    lambda: T.fns[n % len(T.fns)].eval(x=T.points(n) * np.nan)):
        try:
            request()
        except Exception:
            pass


def watch_neighbors(T, n):
    c = pick(T.leaves, n)
    if T.dim == 1:
        c.get_neighbor(n % 2)
        return
    for h in c.get_half_edges():
        c.get_neighbors(h)
    for v in c.get_vertices():
        c.get_neighbors(v)


def watch_boundary(T, n):
    if T.dim == 2 and not T.cfg.get("periodic"):
        T.mesh.get_boundary_segments()
        T.mesh.get_boundary_vertices()


def watch_regions(T, n):
    for ent in ("vertex", "cell"):
        list(T.mesh.get_region(flag="R0", entity_type=ent))


def watch_locate(T, n):
    if T.dim == 2:
        T.mesh.locate_point(tuple(T.points(n)[0]))
    T.mesh.bin_points(T.points(n))


def watch_evaluate(T, n):
    f = pick(T.fns, n)
    if f is not None:
        f.eval(x=T.points(n))
        f.n_samples()


def watch_kernel(T, n):
    k = pick(T.kers, n)
    if k is not None:
        k.eval(T.points(n))


def watch_dofs(T, n):
    e = pick(T.asms, n)
    if e is not None:
        A, lab, H = e
        H.get_region_dofs(subforest_flag=lab)
        H.n_dofs(subforest_flag=lab)
        H.get_dof_vertices(subforest_flag=lab)
        A.get_matrix(0)
        A.get_vector(0)


def watch_field(T, n):
    X = pick(T.fields, n)
    if X is not None:
        X.sample(n_samples=2)
        X.get_mean()
        if n % 2:
            X.KL_sample(n_samples=1)
    D = pick(T.decs, n)
    if D is not None:
        D.reconstruct()


def watch_interpolate(T, n):
    f = pick([f for f in T.fns if type(f).__name__ == "Nodal"], n)
    if f is not None and T.dim == 1:
        f.interpolant(f.basis().dofhandler(), subforest_flag=f.basis().subforest_flag())


def watch_stranger(T, n):
    """Another program in the same process."""
    from diagnostics import Verbose
    from fem import DofHandler, QuadFE
    from mesh import Mesh1D, QuadMesh
    v = Verbose()
    v.tic()
    m = Mesh1D(resolution=(2,)) if n % 2 else QuadMesh(resolution=(2, 1))
    m.cells.record("A")
    m.cells.get_child(0).split()
    m.cells.get_child(0).mark("R0")
    DofHandler(m, QuadFE(m.dim(), "Q2")).distribute_dofs()
    v.toc()
    np.random.rand(3)


WATCH = {k[6:]: f for k, f in list(globals().items()) if k.startswith("watch_")}


def shrink_cfg(scn):
    c = scn["cfg"]
    for i in range(len(c["sessions"])):
        if len(c["sessions"]) > 1:
            yield dict(scn, cfg=dict(c, sessions=c["sessions"][:i] + c["sessions"][i + 1:]))
    for i, s in enumerate(c["sessions"]):
        n = len(s["ops"])
        for k in (n // 2, n - 1):
            if 0 < k < n:
                yield dict(scn, cfg=dict(c, sessions=c["sessions"][:i] + [dict(s, ops=s["ops"][:k])] + c["sessions"][i + 1:]))
        for k in range(n):
            yield dict(scn, cfg=dict(c, sessions=c["sessions"][:i] + [dict(s, ops=s["ops"][:k] + s["ops"][k + 1:])]
                                     + c["sessions"][i + 1:]))
    if c["alt"] != "ascending":
        yield dict(scn, cfg=dict(c, alt="ascending"))
    if c["alt_clock"] != "steady":
        yield dict(scn, cfg=dict(c, alt_clock="steady"))
