"""Hierarchy and label histories (C01, C02): clients interleaved on one forest."""
from . import common, grove
from .common import World, addr, gen_mesh_cfg, pick
from .. import models

LABELS = ["A", "B", "C", 1, 2]


class ForestWorld(object):
    """A bare forest of regular trees."""
    dim = 0

    def __init__(self, cfg):
        from mesh import Forest, Tree
        n, nc = cfg["trees"], cfg["nc"]
        if cfg.get("by_tree"):
            self._f = Forest([Tree(nc) for _ in range(n)])
        else:
            self._f = Forest()
            for _ in range(n):
                self._f.add_tree(Tree(nc))

        class R(object):
            pass
        self.ref = R()
        self.ref.f = models.RefForest(n, nc)

    def forest(self):
        return self._f

    def cell(self, a):
        c = self._f.get_child(a[0])
        for i in a[1:]:
            c = c.get_child(i)
        return c


def make(cfg):
    if cfg["world"]["dim"] == 0:
        return ForestWorld(cfg["world"])
    return World(cfg["world"])


def gen_world(rng):
    if rng.random() < 0.4:
        return {"dim": 0, "trees": rng.choice([1, 2, 3]), "nc": rng.choice([1, 2, 3, 4]),
                "by_tree": rng.random() < 0.5}
    return gen_mesh_cfg(rng)


def gen(rng, tier, index, focus):
    if rng.random() < 0.2:
        return {"cfg": {"world": grove.gen_world(rng), "focus": focus}, "ops": grove.gen_ops(rng, tier, focus)}
    w = gen_world(rng)
    nclients = rng.choice([1, 2, 3])
    n = rng.randrange(6, 26 if tier == "quick" else 45)
    phys = rng.random() < 0.5
    if focus == "C01":
        weights = {"split": 6, "refine": 4, "refine_flag": 6, "coarsen_phys": 4 if phys else 0,
                   "mark": 3, "coarsen_sub": 2, "record": 1, "del_children": 2 if phys and w["dim"] == 0 else 0,
                   "abandon": 1, "refine_new": 2, "unmark": 1, "refused": 1}
    else:
        weights = {"split": 4, "refine": 1, "refine_flag": 4, "coarsen_phys": 1 if phys else 0, "mark": 8,
                   "unmark": 5, "coarsen_sub": 5, "record": 2, "refine_sub": 5, "refine_new": 4,
                   "coarsen_new": 4, "root": 3, "abandon": 1, "refine_sub_new": 3, "refused": 1}
    kinds = [k for k in sorted(weights) if weights[k] > 0]
    ws = [weights[k] for k in kinds]
    # the scheduler interleaves the clients' programs
    ops = []
    for _ in range(n):
        c = rng.randrange(nclients)
        k = rng.choices(kinds, ws)[0]
        op = {"op": k, "client": c, "i": rng.randrange(1000)}
        own = [LABELS[c], LABELS[(c + 3) % len(LABELS)]]
        op["lab"] = rng.choice(own)
        op["lab2"] = rng.choice(LABELS)
        if k in ("refine_flag", "coarsen_sub", "coarsen_new", "refine_sub", "coarsen_phys", "refine_sub_new",
                 "refine_new"):
            op["picks"] = [rng.randrange(1000) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            op["keep"] = rng.random() < 0.25
            op["flagged"] = rng.random() < 0.7
        if k in ("mark", "unmark"):
            op["rec"] = rng.choice([0, 0, 1, 2])
        ops.append(op)
    return {"cfg": {"world": w, "focus": focus}, "ops": ops}


MAXN = 400


def run(scn, sim):
    if scn["cfg"]["world"]["dim"] == -1:
        return grove.run(scn, sim)
    w = make(scn["cfg"])
    forest, ref = w.forest(), w.ref.f
    focus = scn["cfg"].get("focus", "C01")
    compare(sim, w, focus, full=True)
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        step(sim, w, op)
        sim.log(op["op"], sorted(ref.flags))
        compare(sim, w, focus, full=(k == len(scn["ops"]) - 1 or k % 3 == 0))
        sim.state([op["op"], sorted(ref.flags)] if focus == "C01" else
                  [sorted((a, sorted(map(str, f))) for a, f in ref.flags.items())])
    if w.dim:
        geometry(sim, w)


def step(sim, w, op):
    forest, ref = w.forest(), w.ref.f
    k = op["op"]
    nodes = sorted(ref.flags)
    lab, lab2 = op["lab"], op["lab2"]
    big = len(nodes) > MAXN

    def rflag(sub, leaves):
        """mark a few nodes with the client's transient flag"""
        if not op.get("flagged", True):
            return None
        t = "t%d" % op["client"]
        pool = leaves
        for p in op["picks"]:
            a = pick(pool, p)
            if a is None:
                continue
            ref.mark(a, t)
            w.cell(a).mark(t)
        return t

    clean = not op.get("keep", False)
    if k == "split":
        cand = [a for a in nodes if a not in ref.kids]
        a = pick(cand, op["i"])
        if a is None or big:
            return
        ref.split(a)
        w.cell(a).split()
    elif k == "refine":
        if big or len(ref.leaves()) * ref.nc > MAXN:
            return
        ref.refine()
        forest.refine()
    elif k in ("refine_flag", "refine_sub", "refine_new", "refine_sub_new"):
        sub = lab if k in ("refine_sub", "refine_sub_new") else None
        new = lab2 if k in ("refine_new", "refine_sub_new") else None
        if sub is not None and new == sub:
            new = None
        pool = ref.leaves(sub) or nodes
        t = rflag(sub, pool)
        if big or (t is None and len(ref.leaves(sub)) * ref.nc > MAXN):
            return
        ref.refine(sub, t, new, clean)
        forest.refine(subforest_flag=sub, refinement_flag=t, new_label=new, clean_up=clean)
    elif k == "coarsen_phys":
        t = rflag(None, [a for a in nodes if a in ref.kids])
        ref.coarsen(None, t, None, clean)
        forest.coarsen(coarsening_flag=t, clean_up=clean)
        sim.probe("physical_coarsening")
    elif k in ("coarsen_sub", "coarsen_new"):
        sub = lab
        new = lab2 if k == "coarsen_new" and lab2 != lab else None
        pool = [a for a in nodes if ref.marked(a, sub) and ref.has_children(a, sub)] or nodes
        t = rflag(sub, pool)
        deep = [a for a in pool if t is not None and t in ref.flags[a] and
                any(ref.has_children(c, sub) for c in ref.children(a))]
        if deep and new is None:
            sim.probe("coarsened_more_than_one_level_of_a_submesh")
        ref.coarsen(sub, t, new, clean)
        forest.coarsen(subforest_flag=sub, coarsening_flag=t, new_label=new, clean_up=clean)
    elif k == "mark":
        a = pick(nodes, op["i"])
        r = op["rec"]
        ref.mark(a, lab, r > 0, r == 2)
        w.cell(a).mark(lab, recursive=r > 0, reverse=r == 2)
    elif k == "unmark":
        a = pick(nodes, op["i"])
        r = op["rec"]
        ref.unmark(a, lab, r > 0, r == 2)
        w.cell(a).unmark(lab, recursive=r > 0, reverse=r == 2)
    elif k == "record":
        ref.record(lab)
        forest.record(lab)
    elif k == "root":
        ref.root_subtrees(lab)
        forest.root_subtrees(lab)
    elif k == "del_children":
        a = pick([x for x in nodes if x in ref.kids], op["i"])
        if a is None:
            return
        ref.delete(a)
        w.cell(a).delete_children()
    elif k == "refused":
        refused(sim, w, pick(nodes, op["i"]), op["lab"] in (1, 2, "B"))
    elif k == "abandon":
        # a client walks off in the middle of a traversal
        it = forest.traverse(mode="depth-first" if op["i"] % 2 else "breadth-first")
        for _ in range(op["i"] % 7):
            if next(it, None) is None:
                break
        it.close()
        sim.fault("client_abandons_traversal")


def refused(sim, w, a, first):
    """A request that cannot be met changes nothing (everything is compared right after)."""
    forest = w.forest()
    if w.dim == 2 and first:
        a = next((x for x in sorted(w.ref.f.kids) if x[:1] == a[:1]), None)
        if a is None:
            return
        f = w.cell(a).split
    else:
        f = [lambda: forest.refine(new_label=[a]), lambda: forest.refine(refinement_flag=[a]),
             lambda: forest.coarsen(coarsening_flag=[a]), lambda: forest.record([a]),
             lambda: list(forest.traverse(mode="any")), lambda: w.cell(a).mark({}, recursive=True),
             lambda: w.cell(a).delete_children(99), lambda: forest.get_leaves(mode="any")][sum(a) % 8]
    try:
        f()
    except Exception:
        sim.fault("refused_request")
    else:
        sim.fail("not_refused", str(a))


def compare(sim, w, focus, full):
    forest, ref = w.forest(), w.ref.f
    with sim.observing("forest"):
        for mode in ("depth-first", "breadth-first"):
            want = list(ref.depth_first() if mode == "depth-first" else ref.breadth_first())
            nodes = list(forest.traverse(mode=mode))
            got = [addr(n) for n in nodes]
            sim.check(got == want, "traversal:" + mode, lambda: "visited %s, expected %s" % (got[:12], want[:12]))
        for n in nodes:
            a = addr(n)
            kids = list(n.get_children())
            sim.check([addr(c) for c in kids] == ref.children(a), "children",
                      lambda: "node %s has children %s" % (a, [addr(c) for c in kids]))
            p = n.get_parent()
            sim.check((addr(p) if p is not None else None) == ref.parent(a), "parent",
                      lambda: "node %s has parent %s" % (a, p and addr(p)))
            sim.check(n.get_depth() == len(a) - 1, "depth_of_node", lambda: "%s depth %s" % (a, n.get_depth()))
            t = "ROOT" if len(a) == 1 else ("BRANCH" if kids else "LEAF")
            sim.check(n.get_node_type() == t, "node_type", lambda: "%s is %s" % (a, n.get_node_type()))
            sim.check(all(c.get_parent() is n for c in kids), "parent_identity", lambda: str(a))
            sim.check(n.get_root() is forest.get_child(a[0]), "root_identity", lambda: str(a))
            sim.check(n.get_node_position() == a[-1], "position", lambda: str(a))
            got = set(l for l in LABELS + ["t0", "t1", "t2"] if n.is_marked(l))
            sim.check(got == ref.flags[a], "labels", lambda: "node %s carries %s, expected %s" % (
                a, sorted(map(str, got)), sorted(map(str, ref.flags[a]))))
        sim.check(forest.n_children() == len(ref.roots), "n_trees")
        sim.check(forest.depth() == ref.depth(), "forest_depth",
                  lambda: "%s expected %s" % (forest.depth(), ref.depth()))
        got = [addr(n) for n in forest.get_leaves()]
        sim.check(got == ref.leaves(), "leaves", lambda: "%s expected %s" % (got[:10], ref.leaves()[:10]))
        if not full:
            return
        for n in nodes:
            a = addr(n)
            f = forest.find_node(list(a))
            sim.check(f is n, "find_node", lambda: "address %s leads to %s" % (a, f))
            if a not in ref.kids:
                f = forest.find_node(list(a) + [0])
                sim.check(f is None, "find_node", lambda: "address %s + [0] leads to %s" % (a, f))
        labs = LABELS[:3] if focus == "C01" else LABELS
        for lab in labs:
            for mode in ("depth-first", "breadth-first"):
                want = [a for a in (ref.depth_first() if mode == "depth-first" else ref.breadth_first())
                        if lab in ref.flags[a]]
                got = [addr(n) for n in forest.traverse(flag=lab, mode=mode)]
                sim.check(got == want, "flagged_traversal", lambda: "%s: %s expected %s" % (lab, got[:9], want[:9]))
                got = [addr(n) for n in forest.get_leaves(subforest_flag=lab, mode=mode)]
                want = ref.leaves(lab, mode)
                sim.check(got == want, "subforest_leaves", lambda: "%s: %s expected %s" % (lab, got[:9], want[:9]))
            got = bool(forest.subtrees_rooted(lab))
            sim.check(got == ref.rooted(lab), "subtrees_rooted", lambda: "%s: %s" % (lab, got))
            for l2 in labs:
                want = [a for a in ref.leaves(lab) if l2 in ref.flags[a]]
                got = [addr(n) for n in forest.get_leaves(flag=l2, subforest_flag=lab)]
                sim.check(got == want, "flagged_leaves", lambda: "%s in %s: %s" % (l2, lab, got[:9]))
                got = bool(forest.is_contained_in(lab, l2))
                sim.check(got == ref.contained_in(lab, l2), "is_contained_in",
                          lambda: "%s in %s: %s" % (lab, l2, got))
            sim.check(forest.has_children(lab) == any(lab in ref.flags[r] for r in ref.roots), "has_trees")
            sim.check([addr(t) for t in forest.get_children(lab)] == [r for r in ref.roots if lab in ref.flags[r]],
                      "flagged_trees")
            sim.check([addr(t) for t in forest.get_children(lab, reverse=True)] ==
                      [r for r in reversed(ref.roots) if lab in ref.flags[r]], "flagged_trees_reversed")
            if ref.rooted(lab):
                for r in ref.roots:
                    want = max([len(a) - 1 for a in ref.depth_first(r) if lab in ref.flags[a]])
                    got = forest.get_child(r[0]).tree_depth(flag=lab)
                    sim.check(got == want, "flagged_depth", lambda: "%s expected %s" % (got, want))
        for n in nodes:
            a = addr(n)
            for lab in labs[:3]:
                b = n.get_parent(lab)
                want = next((a[:k] for k in range(len(a) - 1, 0, -1) if lab in ref.flags[a[:k]]), None)
                sim.check((addr(b) if b is not None else None) == want, "flagged_ancestor",
                          lambda: "%s %s" % (a, lab))
                b = n.nearest_ancestor(lab)
                want = next((a[:k] for k in range(len(a), 0, -1) if lab in ref.flags[a[:k]]), None)
                sim.check((addr(b) if b is not None else None) == want, "nearest_ancestor",
                          lambda: "%s %s" % (a, lab))
                sim.check(n.has_children(flag=lab) == ref.has_children(a, lab), "has_flagged_children")
                sim.check([addr(c) for c in n.get_children(flag=lab)] ==
                          [c for c in ref.children(a) if lab in ref.flags[c]], "flagged_children")
            for m in nodes[::5]:
                b = addr(m)
                sim.check(n.contains(m) == (b[:len(a)] == a), "contains", lambda: "%s %s" % (a, b))


def geometry(sim, w):
    """Cells of every complete generation tile the domain."""
    forest, ref = w.forest(), w.ref
    with sim.observing("geometry"):
        tot = 0.0
        for n in forest.traverse():
            a = addr(n)
            if w.dim == 1:
                got = [tuple(float(t) for t in v.coordinates()) for v in n.get_vertices()]
            else:
                got = [tuple(float(t) for t in v.coordinates()) for v in n.get_vertices()]
            want = ref.corners(a)
            ok = len(got) == len(want) and all(
                max(abs(x - y) for x, y in zip(g, e)) < 1e-9 for g, e in zip(got, want))
            sim.check(ok, "cell_geometry", lambda: "cell %s at %s, expected %s" % (a, got, want))
            if not n.has_children():
                tot += ref.measure(a)
                if w.dim == 2:
                    sim.check(abs(n.area() - ref.measure(a)) < 1e-9, "cell_area")
        sim.check(abs(tot - w.area) < 1e-9 * max(1, w.area), "tiling", lambda: "%s of %s" % (tot, w.area))
