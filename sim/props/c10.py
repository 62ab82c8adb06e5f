"""Sampled functions and kernels: rules, parameters and samples under interleaved requests and failures."""
import numpy as np

from .common import Callback, World, check_close, gen_mesh_cfg, pick
from ..core import InjectedFault

# rules of one or two points; keyword parameters a, b
BASE = {
    1: [lambda x, a=1.0, b=0.0: a * x[:, 0] + b, lambda x, a=1.0, b=0.0: a + b * x[:, -1] ** 2,
        lambda x, a=1.0, b=0.0: np.sin(a * x[:, 0]) + b * x[:, -1]],
    2: [lambda x, y, a=1.0, b=0.0: a * x[:, 0] + b * y[:, -1], lambda x, y, a=1.0, b=0.0: a + x[:, -1] * y[:, 0] ** 2 + b,
        lambda x, y, a=1.0, b=0.0: np.cos(a * x[:, 0] - y[:, 0]) + b],
}


def gen(rng, tier, index):
    ops = []
    n = rng.randrange(6, 24 if tier == "quick" else 40)
    par = lambda: {k: rng.choice([0.5, -1.0, 2.0, 3.0]) for k in rng.sample(["a", "b"], rng.randrange(0, 3))}
    for _ in range(n):
        k = rng.choices(["explicit", "constant", "nodal", "add_rule", "set_rule", "set_rules", "set_par", "set_const",
                         "eval", "kernel", "keval", "refused"], [2.5, 1, 1.2, 2, 1.5, 1, 2, 1, 5, 2.5, 4, 1])[0]
        op = {"op": k, "client": rng.randrange(3), "i": rng.randrange(1000), "j": rng.randrange(1000),
              "s": rng.randrange(1 << 16), "k": rng.randrange(3)}
        if k == "explicit":
            op.update(nv=rng.choice([1, 1, 2]), rules=[rng.randrange(3) for _ in range(rng.choice([1, 1, 2, 3]))],
                      pars=[par() for _ in range(rng.choice([0, 1, 1, 2, 3]))], shared=rng.random() < 0.5)
            if op["pars"] and len(op["pars"]) > 1 and len(op["rules"]) > 1:
                op["pars"] = [par() for _ in op["rules"]]
        if k in ("add_rule", "set_rule", "set_par"):
            op.update(par=par(), all=rng.random() < 0.4)
        if k == "set_rules":
            op.update(rules=[rng.randrange(3) for _ in range(rng.choice([1, 2, 3]))], pars=[par()])
        if k in ("constant", "set_const"):
            op["vals"] = [rng.choice([0.0, 1.0, -2.5, 3.0]) for _ in range(rng.choice([1, 1, 2, 3]))]
        if k == "nodal":
            op["ns"] = rng.choice([1, 1, 2, 3])
        if k in ("eval", "keval"):
            op.update(form=rng.choice(["array", "tuples", "vertices", "one", "point", "numbers", "arrays", "flat"]),
                      n=rng.choice([1, 2, 5]),
                      fault=rng.random() < 0.2)
        if k == "kernel":
            op.update(m=rng.choice([1, 1, 2, 3]), F=rng.choice(["none", "prod", "lin", "cell", "nest", "slope"]))
        if k == "keval":
            op.update(cell=rng.random() < 0.6)
        ops.append(op)
    return {"cfg": {"world": gen_mesh_cfg(rng, small=True, periodic=False, shapes=False)}, "ops": ops}


class F(object):
    def __init__(self, kind, lib, nv):
        self.kind, self.lib, self.nv = kind, lib, nv
        self.rules, self.pars, self.vals = [], [], []

    def ns(self):
        return {"explicit": len(self.rules), "constant": len(self.vals), "nodal": len(self.vals)}[self.kind]

    def value(self, pts):
        """pts: list of nv arrays (n, dim)."""
        n = pts[0].shape[0]
        if self.kind == "explicit":
            return np.column_stack([BASE[self.nv][r](*pts, **p) for r, p in zip(self.rules, self.pars)])
        if self.kind == "constant":
            return np.tile(np.array(self.vals), (n, 1))
        # nodal functions here are linear: c + d x0
        return np.column_stack([c + d * pts[0][:, 0] for c, d in self.vals])


class K(object):
    pass


def wrapped(state, nv, r):
    """Every rule goes through a callback that the simulator can make fail."""
    f = BASE[nv][r]

    def rule(*x, **p):
        state["calls"] += 1
        if state["fail"] is not None and state["calls"] > state["fail"]:
            state["sim"].fault("callback_exception")
            raise InjectedFault("simulated failure of a user rule")
        return f(*x, **p)
    return rule


def run(scn, sim):
    from function import Constant, Explicit, Nodal
    from fem import Basis, DofHandler, QuadFE
    from assembler import Kernel
    w = World(scn["cfg"]["world"])
    dim = w.dim
    dh = DofHandler(w.mesh, QuadFE(dim, "Q1"))
    dh.distribute_dofs()
    basis = Basis(dh, "v")
    st = {"calls": 0, "fail": None, "sim": sim}
    lib = {nv: [wrapped(st, nv, r) for r in range(3)] for nv in (1, 2)}
    shared = {1: [lib[1][0], lib[1][1]], 2: [lib[2][0], lib[2][1]]}    # lists several clients pass
    fs, ks = [], []
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o = op["op"]
        f = pick([g for g in fs], op["i"])
        e = pick([g for g in fs if g.kind == "explicit"], op["i"])
        if o == "explicit":
            nv = op["nv"]
            rules, pars = list(op["rules"]), [dict(p) for p in op["pars"]] or [{}]
            if op["shared"] and len(pars) <= 1:
                rules = [0, 1]
                arg = shared[nv]
            else:
                arg = [lib[nv][r] for r in rules]
                if len(arg) == 1 and op["j"] % 2:
                    arg = arg[0]
            sp = [dict(p) for p in pars]
            kw = {"mesh": w.mesh, "element": QuadFE(dim, "Q1")} if op["j"] % 7 == 0 else {}
            x = Explicit(arg, parameters=(sp if len(sp) > 1 or op["j"] % 3 else sp[0]), dim=dim, n_variables=nv, **kw)
            sp.append({"a": 99.0})      # the lists stay the caller's
            if isinstance(arg, list) and arg is not shared[nv]:
                arg.append(None)
            g = F("explicit", x, nv)
            m = max(len(rules), len(pars))
            g.rules = rules * m if len(rules) == 1 else rules
            g.pars = [dict(pars[0]) for _ in range(m)] if len(pars) == 1 else pars
            fs.append(g)
        elif o == "constant":
            v = op["vals"]
            nv = 1 + (op["i"] % 5 == 0)
            g = F("constant", Constant(np.array(v) if len(v) > 1 or op["j"] % 2 else v[0], n_variables=nv), nv)
            g.vals = list(v)
            fs.append(g)
        elif o == "nodal":
            r = np.random.Generator(np.random.PCG64(op["s"]))
            cd = [tuple(np.round(r.uniform(-2, 2, 2), 3)) for _ in range(op["ns"])]
            g = F("nodal", Nodal(f=[lambda x, c=c, d=d: c + d * x[:, 0] for c, d in cd], basis=basis), 1)
            g.vals = cd
            fs.append(g)
        elif o == "add_rule" and e is not None:
            e.lib.add_rule(lib[e.nv][op["k"]], dict(op["par"]))
            e.rules.append(op["k"])
            e.pars.append(dict(op["par"]))
        elif o == "set_rule" and e is not None:
            pos = op["j"] % e.ns()
            e.lib.set_rules(lib[e.nv][op["k"]], dict(op["par"]), pos=pos)
            e.rules[pos], e.pars[pos] = op["k"], dict(op["par"])
        elif o == "set_rules" and e is not None:
            e.lib.set_rules([lib[e.nv][r] for r in op["rules"]], dict(op["pars"][0]))
            e.rules, e.pars = list(op["rules"]), [dict(op["pars"][0]) for _ in op["rules"]]
        elif o == "set_par" and e is not None:
            if op["all"]:
                e.lib.set_parameters(dict(op["par"]))
                e.pars = [dict(op["par"]) for _ in e.rules]
            else:
                pos = op["j"] % e.ns()
                e.lib.set_parameters(dict(op["par"]), pos=pos)
                e.pars[pos] = dict(op["par"])
        elif o == "set_const":
            c = pick([g for g in fs if g.kind == "constant"], op["i"])
            if c is not None:
                v = op["vals"]
                c.lib.set_data(np.array(v) if len(v) > 1 or op["j"] % 2 else v[0])
                c.vals = list(v)
        elif o == "refused":
            refused(sim, fs, lib, op, Explicit, Constant, Nodal, basis)
        elif o == "eval" and f is not None:
            evaluate(sim, w, st, op, f.nv, lambda pts, x: f.lib.eval(x), lambda pts: f.value(pts), f.ns(), "function",
                     f.kind != "constant")
        elif o == "kernel":
            one = [g for g in fs if g.nv == 1]
            if one:
                q = make_kernel(sim, w, Kernel, one, op)
                if q is not None:
                    ks.append(q)
        elif o == "keval":
            q = pick(ks, op["i"])
            if q is not None:
                kernel_eval(sim, w, st, op, q)
        # sample counts and shared lists never drift
        for g in fs:
            sim.check(g.lib.n_samples() == g.ns(), "n_samples", lambda: "%s expected %s (%s)" % (
                g.lib.n_samples(), g.ns(), g.kind))
            if g.kind == "explicit" and (k + len(fs)) % 3 == 0:
                sim.check([dict(p) for p in g.lib.parameters()] == g.pars, "parameters", lambda: "%s expected %s" % (
                    g.lib.parameters(), g.pars))
                sim.check(list(g.lib.rules()) == [lib[g.nv][r] for r in g.rules], "rules", str(g.rules))
        for nv in (1, 2):
            sim.check(shared[nv] == [lib[nv][0], lib[nv][1]], "caller_list_changed",
                      "the list of rules passed by a client was modified")
        sim.log(o, len(fs), [(g.kind, g.ns()) for g in fs])
        sim.state([o, op.get("form"), op.get("F"), [(g.kind, g.nv, g.rules, [sorted(p.items()) for p in g.pars]) for g in fs]])


def refused(sim, fs, lib, op, Explicit, Constant, Nodal, basis):
    """Requests that state no function: refused, and no function changes (looked at by later evaluations)."""
    e = pick([g for g in fs if g.kind == "explicit"], op["i"])
    c = pick([g for g in fs if g.kind == "constant"], op["i"])
    r = lib[1]
    bad = [("a rule that is no function", lambda: Explicit(3.0, dim=1)),
           ("two rules, three parameters", lambda: Explicit([r[0], r[1]], parameters=[{}, {}, {}], dim=1)),
           ("no dimension", lambda: Explicit(r[0])), ("a constant that is no number", lambda: Constant("one")),
           ("three variables", lambda: Explicit(r[0], dim=1, n_variables=3)),
           ("a list of constants", lambda: Constant([1.0, 2.0])),
           ("a constant matrix", lambda: Constant(np.ones((2, 2)))),
           ("parameters that are no dictionary", lambda: Explicit(r[0], parameters=[1, 2], dim=1))]
    if e is not None:
        bad += [("add a rule that is no function", lambda: e.lib.add_rule(1.0)),
                ("add parameters that are no dictionary", lambda: e.lib.add_rule(lib[e.nv][0], [1])),
                ("set a rule beyond the last", lambda: e.lib.set_rules(lib[e.nv][0], {"a": 5.0}, pos=e.ns())),
                ("set parameters beyond the last", lambda: e.lib.set_parameters({"a": 5.0}, pos=e.ns())),
                ("set parameters that are no dictionary", lambda: e.lib.set_parameters([("a", 5.0)])),
                ("set rules and parameters of different number",
                 lambda: e.lib.set_rules([lib[e.nv][0]] * 2, [{}, {}, {}])),
                ("set a list at a position", lambda: e.lib.set_rules([lib[e.nv][0]], pos=0)),
                ("set rules one of which is no function", lambda: e.lib.set_rules([lib[e.nv][0], 1.0], {"a": 7.0})),
                ("set parameters one of which is none", lambda: e.lib.set_rules(lib[e.nv][1], [{"a": 1.0}, 2]))] * 2
    if c is not None:
        bad += [("set a constant list", lambda: c.lib.set_data([9.0])), ("no constant", lambda: c.lib.set_data(None)),
                ("set a matrix", lambda: c.lib.set_data(np.ones((2, 2))))]
    what, f = bad[op["j"] % len(bad)]
    try:
        f()
    except Exception:
        sim.fault("refused_request")
    else:
        sim.fail("not_refused", what)


def make_points(w, op, nv):
    r = np.random.Generator(np.random.PCG64(op["s"]))
    n = 1 if op["form"] in ("one", "point") else op["n"]
    b = w.cfg["box"]
    out = []
    for _ in range(nv):
        cols = [r.uniform(b[0], b[1], n)] + ([r.uniform(b[2], b[3], n)] if w.dim == 2 else [])
        out.append(np.column_stack(cols))
    return out


def as_input(pts, form, sure=True):
    """sure: the function knows its dimension (two numbers could be two points)"""
    from mesh import Vertex
    def one(p):
        if form == "tuples":
            return [tuple(q) for q in p]
        if form == "vertices":
            return [Vertex(tuple(q)) for q in p]
        if form == "one":
            return Vertex(tuple(p[0]))
        if form == "point":
            return tuple(p[0])
        if form == "numbers":
            return [float(q[0]) for q in p] if p.shape[1] == 1 else p
        if form == "flat":
            return p.ravel() if p.shape[1] == 1 or (p.shape[0] == 1 and sure) else p
        if form == "arrays":
            return [q for q in p]
        return p
    x = tuple(one(p) for p in pts)
    return x[0] if len(x) == 1 else x


def evaluate(sim, w, st, op, nv, call, ref, ns, what, sure=True):
    pts = make_points(w, op, nv)
    x = as_input(pts, op["form"], sure)
    if op["fault"]:
        st["calls"], st["fail"] = 0, op["j"] % 3
        try:
            call(pts, x)
        except InjectedFault:
            sim.probe("evaluation_interrupted")
        finally:
            st["fail"] = None
    got = np.asarray(call(pts, x), dtype=float)
    want = ref(pts)
    check_close(sim, got, want, what + "_value", "%s points as %s" % (pts[0].shape[0], op["form"]), tol=1e-9)


def make_kernel(sim, w, Kernel, one, op):
    m = op["m"] if op["F"] != "none" else 1
    if op["F"] == "slope":
        one = [g for g in one if g.kind == "nodal"]
        if not one:
            return None
    parts = [pick(one, op["i"] + 3 * t) for t in range(m)]
    ns = set(g.ns() for g in parts) - {1}
    if len(ns) > 1:
        sim.fault("incompatible_samples")
        try:
            Kernel([g.lib for g in parts], F=lambda *f: f[0])
        except AssertionError:
            return None
        sim.fail("sample_mismatch_accepted", str([g.ns() for g in parts]))
    q = K()
    q.parts, q.F = parts, op["F"]
    q.other = None
    if op["F"] == "none":
        q.lib = Kernel(parts[0].lib)
    elif op["F"] == "slope":
        # derivatives of functions on the mesh: one for all, or one for each
        der = ["fx", "v", "gx", (1, 0)]
        q.der = [der[op["j"] % 2]] * m if op["j"] % 3 == 0 else [der[(op["j"] + t) % 4] for t in range(m)]
        from fem import parse_derivative_info
        q.lib = Kernel([g.lib for g in parts], F=lambda *f: sum((i + 1) * v for i, v in enumerate(f)),
                       derivatives=q.der[0] if op["j"] % 3 == 0 else [parse_derivative_info(d) for d in q.der])
    elif op["F"] == "prod":
        q.lib = Kernel([g.lib for g in parts], F=lambda *f: np.prod(np.array(f), axis=0))
    elif op["F"] == "lin":
        q.lib = Kernel([g.lib for g in parts], F=lambda *f: sum((i + 1) * v for i, v in enumerate(f)))
    elif op["F"] == "cell":
        # a function of the cell it is evaluated on
        q.lib = Kernel([g.lib for g in parts], F=(
            {1: lambda f, cell: f * (0 if cell is None else 1 + cell.get_node_position()),
             2: lambda f, g, cell: (f + g) * (0 if cell is None else 1 + cell.get_node_position()),
             3: lambda f, g, h, cell: (f + g + h) * (0 if cell is None else 1 + cell.get_node_position())}[m]))
    else:
        inner = Kernel(parts[0].lib)
        q.box, q.inner = {}, inner
        q.lib = Kernel([g.lib for g in parts], F=lambda *f: f[0] + inner.eval(q.box["x"]))
    q.size = max([g.ns() for g in parts])
    sim.check(q.lib.n_samples() == q.size, "kernel_samples", lambda: "%s expected %s" % (q.lib.n_samples(), q.size))
    return q


def kernel_eval(sim, w, st, op, q):
    ns = set(g.ns() for g in q.parts) - {1}
    if len(ns) > 1:
        return       # the client has made the kernel's functions incompatible since
    new = max(g.ns() for g in q.parts)
    if new != q.size:
        q.lib.set_sample_size()
        if q.F == "nest":
            q.inner.set_sample_size()
        q.size = new
        sim.probe("kernel_resized")
    cell = w.cell((op["i"] % w.cfg["res"][0],)) if op["cell"] and q.F == "cell" else None

    def ref(pts):
        if q.F == "slope":
            sim.probe("kernel_of_derivatives")
            vals = [g.value(pts) if d == "v" else np.tile(np.array([b for a, b in g.vals]), (pts[0].shape[0], 1))
                    for g, d in zip(q.parts, q.der)]
            return sum((i + 1) * np.tile(v, (1, q.size // v.shape[1])) for i, v in enumerate(vals))
        vals = [np.tile(v, (1, q.size)) if v.shape[1] == 1 and q.size > 1 else v
                for v in (g.value(pts) for g in q.parts)]
        if q.F == "none":
            return vals[0]
        if q.F == "prod":
            return np.prod(np.array(vals), axis=0)
        if q.F == "lin":
            return sum((i + 1) * v for i, v in enumerate(vals))
        if q.F == "cell":
            return sum(vals) * (0 if cell is None else 1 + cell.get_node_position())
        v = q.parts[0].value(pts)
        return vals[0] + v

    def call(pts, x):
        if q.F == "nest":
            q.box["x"] = x
        return q.lib.eval(x, cell=cell) if cell is not None else q.lib.eval(x)
    nodal = any(g.kind == "nodal" for g in q.parts)
    if nodal and cell is not None:
        # points must lie in the cell
        r = np.random.Generator(np.random.PCG64(op["s"]))
        n = 1 if op["form"] in ("one", "point") else op["n"]
        cs = np.array([v.coordinates() for v in cell.get_vertices()], dtype=float)
        lo, hi = cs.min(0), cs.max(0)
        pts = [np.column_stack([r.uniform(l, h, n) for l, h in zip(lo, hi)])]
        x = as_input(pts, op["form"], not any(g.kind == "constant" for g in q.parts))
        check_close(sim, np.asarray(call(pts, x), dtype=float), ref(pts), "kernel_value", q.F, tol=1e-9)
        return
    evaluate(sim, w, st, op, 1, call, ref, q.size, "kernel", not any(g.kind == "constant" for g in q.parts))
