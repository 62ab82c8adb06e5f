"""Marking regions with user predicates (which may fail or re-enter) and reading regions back."""
from . import common
from .common import World, Callback, addr, gen_mesh_cfg, gen_predicate, pick, predicate
from ..core import InjectedFault
from ..models import rnd

FLAGS = ["P", "Q", 7]
SUBS = [None, "A", "B"]


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, periodic=rng.random() < 0.7, bent=True)
    faulty = rng.random() < 0.5
    ops = []
    n = rng.randrange(4, 16 if tier == "quick" else 26)
    for _ in range(n):
        k = rng.choices(["split", "record", "refine_sub", "mark", "read", "unmark"], [4, 2, 2, 8, 4, 1])[0]
        op = {"op": k, "client": rng.randrange(3), "i": rng.randrange(1000)}
        if k in ("mark", "read", "unmark"):
            ents = ["vertex", "cell"] + (["half_edge"] if w["dim"] == 2 else [])
            op.update(flag=rng.choice(FLAGS), ent=rng.choice(ents), strict=rng.random() < 0.6,
                      bnd=rng.random() < 0.35, sub=rng.choice(SUBS), pred=gen_predicate(rng, w),
                      rc=rng.random() < 0.4)
            if k == "mark" and faulty and rng.random() < 0.5:
                op["fault"] = rng.choice([0, 1, 2, 3, 5, 8, 13, 21])
                op["retry"] = rng.random() < 0.6
            if k == "mark" and rng.random() < 0.2:
                op["nested"] = {"at": rng.randrange(6), "pred": gen_predicate(rng, w), "flag": rng.choice(FLAGS),
                                "ent": rng.choice(ents), "sub": rng.choice(SUBS)}
        else:
            op["lab"] = rng.choice(["A", "B"])
        ops.append(op)
    return {"cfg": {"world": w}, "ops": ops}


class Marks(object):
    def __init__(self):
        self.v, self.e, self.c = {}, {}, {}

    def of(self, ent):
        return {"vertex": self.v, "half_edge": self.e, "cell": self.c}[ent]


def entities(w, ent, bnd, sub):
    """Reference: keys of entities of the (sub)mesh with the owning cell and points."""
    ref, f = w.ref, w.ref.f
    out = []
    leaves = f.leaves(sub)
    if w.dim == 1:
        if bnd and w.cfg["periodic"]:
            return []
        order = ref.ordered_leaves(sub)
        for a in (leaves if not bnd else [order[0], order[-1]]):
            l, r = ref.interval(a)
            if ent == "vertex":
                for p in ((l,), (r,)):
                    if bnd and abs(p[0] - w.cfg["box"][0]) > 1e-9 and abs(p[0] - w.cfg["box"][1]) > 1e-9:
                        continue
                    out.append((rnd(p), a, [p]))
            else:
                out.append((a, a, [(l,), (r,)]))
        return out
    sides = ref.boundary_sides(sub) if bnd else [(a, s) for a in leaves for s in range(4)]
    for (a, s) in sides:
        p, q = ref.side(a, s)
        if ent == "vertex":
            out.append((rnd(p), a, [p]))
            out.append((rnd(q), a, [q]))
        elif ent == "half_edge":
            out.append(((rnd(p), rnd(q)), a, [p, q]))
        else:
            out.append((a, a, ref.corners(a)))
    return out


def targets(w, op_ent, bnd, sub, strict, f):
    r = set()
    for key, a, pts in entities(w, op_ent, bnd, sub):
        vals = [bool(f(*p)) for p in pts]
        if (all(vals) if strict else any(vals)):
            r.add(key)
    return r


def key_of(w, ent, x):
    if ent == "vertex":
        return rnd(x.coordinates())
    if ent == "half_edge":
        return rnd(x.base().coordinates()), rnd(x.head().coordinates())
    return addr(x)


def sub_of(w, sub):
    """Submeshes nobody has created yet are not used as submesh arguments."""
    return sub if sub is None or w.ref.f.rooted(sub) else None


def run(scn, sim):
    cfg = scn["cfg"]["world"]
    w = World(cfg)
    marks = Marks()
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        o = op["op"]
        f = w.ref.f
        if o == "split":
            a = pick(sorted(f.leaves()), op["i"])
            if len(f.flags) < 200:
                f.split(a)
                w.cell(a).split()
        elif o == "record":
            f.record(op["lab"])
            w.forest().record(op["lab"])
        elif o == "refine_sub":
            if len(f.leaves()) < 60:
                f.refine(op["lab"], None)
                w.forest().refine(subforest_flag=op["lab"])
        elif o == "mark":
            mark(sim, w, marks, op, cfg)
        elif o == "unmark":
            for x in list(w.mesh.get_region(flag=op["flag"], entity_type=op["ent"])):
                x.unmark(op["flag"])
            for key, a, pts in entities(w, op["ent"], False, None):
                marks.of(op["ent"]).get(key, set()).discard(op["flag"])
        if o == "read":
            read(sim, w, marks, op)
        sim.log(o, sorted(f.flags), sorted((str(a), sorted(map(str, b))) for m in (marks.v, marks.e, marks.c)
                                           for a, b in m.items()))
        sim.state([sorted(f.flags), sorted((str(a), sorted(map(str, b))) for m in (marks.v, marks.e, marks.c)
                                           for a, b in m.items() if b)])
        allread(sim, w, marks)


def apply(marks, ent, keys, flag):
    for k in keys:
        marks.of(ent).setdefault(k, set()).add(flag)


def mark(sim, w, marks, op, cfg):
    sub = sub_of(w, op["sub"])
    f = predicate(op["pred"], cfg)
    ent, flag = op["ent"], op["flag"]
    tg = targets(w, ent, op["bnd"], sub, op["strict"], f)
    nest = op.get("nested")
    done = []

    def nested(k):
        if k != nest["at"] or done:
            return
        done.append(1)
        sim.fault("reentrant_marking")
        s2 = sub_of(w, nest["sub"])
        g = predicate(nest["pred"], cfg)
        w.mesh.mark_region(nest["flag"], g, entity_type=nest["ent"], subforest_flag=s2)
        apply(marks, nest["ent"], targets(w, nest["ent"], False, s2, True, g), nest["flag"])
    cb = Callback(sim, f, fail_at=op.get("fault"), nested=nested if nest else None)
    kw = dict(entity_type=ent, strict_containment=op["strict"], on_boundary=op["bnd"], subforest_flag=sub)
    try:
        w.mesh.mark_region(flag, cb, **kw)
        sim.check(not cb.fired, "swallowed_failure", "the predicate failed but the request succeeded")
    except InjectedFault:
        # partial effect: only entities of the region, and only with this label
        sim.probe("marking_interrupted")
        if op.get("retry"):
            w.mesh.mark_region(flag, f, **kw)
        else:
            got = set(key_of(w, ent, x) for x in w.mesh.get_region(flag=flag, entity_type=ent, subforest_flag=sub))
            old = set(k for k, fl in marks.of(ent).items() if flag in fl)
            sim.check(got - old <= tg, "stray_partial_marks", lambda: str(sorted(map(str, got - old - tg))[:5]))
            tg = got & tg
    apply(marks, ent, tg, flag)
    if tg:
        sim.probe("region_nonempty")


def read(sim, w, marks, op):
    sub = sub_of(w, op["sub"])
    ent = op["ent"]
    flag = op["flag"]
    with sim.observing("get_region"):
        got = list(w.mesh.get_region(flag=flag, entity_type=ent, on_boundary=op["bnd"], subforest_flag=sub,
                                     return_cells=op["rc"]))
        m = marks.of(ent)
        ents = [(key, a) for key, a, pts in entities(w, ent, op["bnd"], sub)]
        got0 = list(w.mesh.get_region(entity_type=ent, on_boundary=op["bnd"], subforest_flag=sub))
        g0 = [key_of(w, ent, x) for x in got0]
        sim.check(len(g0) == len(set(g0)) and set(g0) == set(k for k, _ in ents), "whole_region",
                  lambda: "%s bnd=%s sub=%s: %s" % (ent, op["bnd"], sub, sorted(map(str, set(g0)))[:6]))
        ents = [(key, a) for key, a in ents if flag in m.get(key, ())]
        if op["rc"]:
            want = set(ents)
            g = [(key_of(w, ent, x), addr(c)) for x, c in got]
        else:
            want = set(k for k, a in ents)
            g = [key_of(w, ent, x) for x in got]
        sim.check(len(g) == len(set(g)), "region_duplicates")
        sim.check(set(g) == want, "region_members", lambda: "flag %s %s bnd=%s sub=%s: missing %s, extra %s" % (
            flag, ent, op["bnd"], sub, sorted(map(str, want - set(g)))[:4], sorted(map(str, set(g) - want))[:4]))


def allread(sim, w, marks):
    """Every label on every entity of the finest mesh and of the submeshes."""
    with sim.observing("region_labels"):
        for c in w.forest().traverse():
            a = addr(c)
            for fl in FLAGS:
                sim.check(c.is_marked(fl) == (fl in marks.c.get(a, ())), "cell_labels", lambda: "%s %s" % (a, fl))
            for v in c.get_vertices():
                k = rnd(v.coordinates())
                for fl in FLAGS:
                    sim.check(v.is_marked(fl) == (fl in marks.v.get(k, ())), "vertex_labels",
                              lambda: "%s %s is %s" % (k, fl, v.is_marked(fl)))
            if w.dim == 2:
                for h in c.get_half_edges():
                    k = rnd(h.base().coordinates()), rnd(h.head().coordinates())
                    for fl in FLAGS:
                        sim.check(h.is_marked(fl) == (fl in marks.e.get(k, ())), "half_edge_labels",
                                  lambda: "%s %s" % (k, fl))
