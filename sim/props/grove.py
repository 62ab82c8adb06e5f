"""Groves (C01, C02): free-standing, planted, uprooted, irregular and pruned trees, intervals and cells.

The reference is a graph of nodes, each remembering the library object it stands for: what a request does not
touch must stay the same object.
"""
from .common import pick

LABELS = ["A", "B", 3, True]
KINDS = ("tree", "tree", "mixed", "interval", "quad")


class N(object):
    def __init__(self, lib, nc, regular, parent=None, pos=None):
        self.lib, self.nc, self.regular, self.parent, self.pos = lib, nc, regular, parent, pos
        self.kids = [None] * nc
        self.flags = set()
        self.shape = None

    def children(self, flag=None):
        return [k for k in self.kids if k is not None and (flag is None or flag in k.flags)]

    def root(self):
        return self if self.parent is None else self.parent.root()

    def depth(self):
        return 0 if self.parent is None else 1 + self.parent.depth()

    def walk(self, mode="depth-first"):
        q = [self]
        while q:
            n = q.pop() if mode == "depth-first" else q.pop(0)
            yield n
            q.extend(reversed(n.children()) if mode == "depth-first" else n.children())

    def up(self):
        n = self.parent
        while n is not None:
            yield n
            n = n.parent

    def leaves(self, sub, mode):
        return [n for n in self.walk(mode) if (sub is None or sub in n.flags) and not n.children(sub)]


class Grove(object):
    def __init__(self):
        self.trees = []      # planted
        self.nursery = []    # free standing

    def address(self, n):
        if n.parent is not None:
            return self.address(n.parent) + [n.pos]
        return [self.trees.index(n)] if n in self.trees else []

    def roots(self):
        return self.trees + self.nursery

    def nodes(self, planted=False):
        return [n for r in (self.trees if planted else self.roots()) for n in r.walk()]

    def walk(self, mode):
        q = list(reversed(self.trees)) if mode == "depth-first" else list(self.trees)
        while q:
            n = q.pop() if mode == "depth-first" else q.pop(0)
            yield n
            q.extend(reversed(n.children()) if mode == "depth-first" else n.children())

    def leaves(self, sub, mode="breadth-first"):
        return [n for n in self.walk(mode) if (sub is None or sub in n.flags) and not n.children(sub)]

    def root_subtrees(self, flag):
        for r in self.trees:
            r.flags.add(flag)
            for n in r.walk():
                if flag in n.flags:
                    for a in n.up():
                        a.flags.add(flag)
                        for c in a.children():
                            c.flags.add(flag)

    def rooted(self, flag):
        return all(flag in r.flags for r in self.trees) and all(
            flag in a.flags and all(flag in c.flags for c in a.children())
            for r in self.trees for n in r.walk() if flag in n.flags for a in n.up())


def gen_world(rng):
    kind = rng.choice(KINDS)
    return {"dim": -1, "kind": kind, "start": rng.choice([1, 2, 3])}


def gen_ops(rng, tier, focus):
    n = rng.randrange(6, 26 if tier == "quick" else 45)
    weights = {"split": 8, "plant": 2, "uproot": 1, "sow": 1, "add_child": 3, "prune": 1, "prune_one": 3,
               "remove": 1, "mark": 4, "unmark": 2, "root_tree": 1, "root_forest": 1, "record": 1,
               "refine": 3, "coarsen": 2, "refused": 3}
    if focus == "C02":
        weights.update(mark=9, unmark=6, root_tree=3, root_forest=3, refine=5, coarsen=5, record=2)
    kinds = sorted(weights)
    ops = []
    for _ in range(n):
        k = rng.choices(kinds, [weights[x] for x in kinds])[0]
        ops.append({"op": k, "i": rng.randrange(1000), "j": rng.randrange(1000), "lab": rng.randrange(4),
                    "lab2": rng.randrange(4), "rec": rng.choice([0, 0, 1, 2]), "none": rng.random() < 0.2,
                    "sub": rng.random() < 0.5, "new": rng.random() < 0.4, "flagged": rng.random() < 0.7,
                    "clean": rng.random() < 0.7})
    return ops


def sow(g, cfg, op):
    """A new free-standing root."""
    from mesh import Tree, Interval, Vertex, QuadCell, HalfEdge
    kind = cfg["kind"]
    i, j = op["i"], op["j"]
    if kind == "mixed":
        kind = "irregular" if i % 2 else "tree"
    if kind == "tree":
        nc = 1 + j % 4
        labs = [LABELS[op["lab"]], LABELS[op["lab2"]]]
        how = (i // 2) % 3
        fl = None if how == 0 else (set(labs) if how == 1 else labs[0])
        n = N(Tree(nc, flag=fl), nc, True)
        n.flags = set() if how == 0 else (set(labs) if how == 1 else {labs[0]})
    elif kind == "irregular":
        n = N(Tree(regular=False), 0, False)
    elif kind == "interval":
        nc = 1 + j % 4
        x0, w = float(i % 5) - 2, [1.0, 0.5, 3.0][j % 3]
        n = N(Interval(Vertex(x0), Vertex(x0 + w), n_children=nc), nc, True)
        n.shape = [(x0,), (x0 + w,)]
    else:
        x0, y0, w, h = float(i % 3) - 1, float(j % 3), [1.0, 2.0][i % 2], [1.0, 0.5, 3.0][j % 3]
        q = [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0 + 0.25 * (i % 4 == 0), y0 + h)]
        v = [Vertex(p) for p in q]
        n = N(QuadCell([HalfEdge(v[k], v[(k + 1) % 4]) for k in range(4)]), 4, True)
        n.shape = q
    g.nursery.append(n)
    return n


def adopt(n, nc, regular):
    """The children the library made."""
    n.kids = []
    if regular is False:
        n.nc = nc
    for k in range(nc):
        c = N(n.lib._children[k], nc if regular else 0, regular, n, k)
        n.kids.append(c)
        if n.shape is not None and len(n.shape) == 2:
            (a,), (b,) = n.shape
            c.shape = [(a + (b - a) * k / nc,), (a + (b - a) * (k + 1) / nc,)]
        elif n.shape is not None:
            P = n.shape
            mid = [tuple(0.5 * (u + v) for u, v in zip(P[s], P[(s + 1) % 4])) for s in range(4)]
            cs = [None] * 4
            cs[k], cs[(k + 1) % 4], cs[(k + 3) % 4] = P[k], mid[k], mid[(k - 1) % 4]
            cs[(k + 2) % 4] = tuple(sum(P[m][d] for m in range(4)) / 4.0 for d in range(2))
            c.shape = cs


def run(scn, sim):
    from mesh import Forest
    cfg = scn["cfg"]["world"]
    g = Grove()
    first = [sow(g, cfg, {"i": k * 2, "j": k + 1, "lab": 0, "lab2": 1}) for k in range(cfg["start"])]
    forest = Forest([n.lib for n in first])
    g.trees, g.nursery = first, []
    compare(sim, g, forest, True)
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        step(sim, g, forest, cfg, op)
        sim.log(op["op"], [[g.address(n), sorted(map(str, n.flags))] for n in g.nodes()])
        compare(sim, g, forest, k % 3 == 0 or k == len(scn["ops"]) - 1)
        sim.state([op["op"], [g.address(n) for n in g.nodes()]])


def mark(n, lab, rec):
    for m in [n] + ([] if rec == 0 else list(n.up()) if rec == 2 else list(n.walk())):
        m.flags.add(lab)


def unmark(n, lab, rec):
    for m in [n] + ([] if rec == 0 else list(n.up()) if rec == 2 else list(n.walk())):
        if lab is None:
            m.flags.clear()
        else:
            m.flags.discard(lab)


def splittable(g):
    return [n for n in g.nodes() if not n.children() and (n.regular or n.nc == 0) and n.nc <= 4
            and (n.regular is False or n.nc > 0)]


def step(sim, g, forest, cfg, op):
    k = op["op"]
    nodes = g.nodes()
    big = len(nodes) > 150
    lab, lab2 = LABELS[op["lab"]], LABELS[op["lab2"]]
    if k == "sow":
        if len(g.nursery) < 3:
            sow(g, cfg, op)
    elif k == "plant":
        n = pick(g.nursery, op["i"])
        if n is None:
            return
        if n.children():
            sim.probe("planted_a_grown_tree")
        forest.add_tree(n.lib)
        g.nursery.remove(n)
        g.trees.append(n)
    elif k == "uproot":
        if len(g.trees) < 2:
            return
        p = op["i"] % len(g.trees)
        forest.remove_tree(p)
        n = g.trees.pop(p)
        g.nursery.append(n)
        sim.probe("uprooted")
    elif k == "split":
        n = pick(splittable(g), op["i"])
        if n is None or big:
            return
        if n.regular:
            n.lib.split()
            adopt(n, n.nc, True)
        else:
            m = 1 + op["j"] % 3
            n.lib.split(n_children=m)
            adopt(n, m, False)
    elif k == "add_child":
        n = pick([x for x in nodes if not x.regular and x.nc < 5], op["i"])
        if n is None or big:
            return
        n.lib.add_child()
        n.nc += 1
        n.kids.append(N(n.lib._children[-1], 0, False, n, n.nc - 1))
    elif k == "prune":
        n = pick([x for x in nodes if x.children()], op["i"])
        if n is None:
            return
        n.lib.delete_children()
        n.kids = [None] * n.nc
    elif k in ("prune_one", "remove"):
        n = pick([x for x in nodes if x.parent is not None], op["i"])
        if n is None or cfg["kind"] == "interval":
            return
        if k == "remove":
            n.lib.remove()
        else:
            n.parent.lib.delete_children(n.pos)
        n.parent.kids[n.pos] = None
    elif k == "mark":
        n = pick(nodes, op["i"])
        r = op["rec"]
        n.lib.mark(None if op["none"] else lab, recursive=r > 0, reverse=r == 2)
        mark(n, True if op["none"] else lab, r)
    elif k == "unmark":
        n = pick(nodes, op["i"])
        r = op["rec"]
        n.lib.unmark(None if op["none"] else lab, recursive=r > 0, reverse=r == 2)
        unmark(n, None if op["none"] else lab, r)
    elif k == "root_tree":
        n = pick(nodes, op["i"])
        n.lib.make_rooted_subtree(lab)
        for m in list(n.root().walk()):
            if lab in m.flags:
                for a in m.up():
                    a.flags.add(lab)
    elif k == "root_forest":
        forest.root_subtrees(lab)
        g.root_subtrees(lab)
    elif k == "record":
        forest.record(lab)
        for n in g.nodes(planted=True):
            n.flags.add(lab)
    elif k == "refine":
        if big or any(not n.regular for n in g.nodes(planted=True)):
            return
        sub = lab if op["sub"] else None
        new = lab2 if op["new"] and lab2 != sub else None
        t = None
        if op["flagged"]:
            t = "t"
            n = pick(op["j"] % 4 and g.leaves(sub) or g.nodes(planted=True), op["i"])
            n.lib.mark(t)
            n.flags.add(t)
        elif len(g.leaves(sub)) > 20:
            return
        forest.refine(subforest_flag=sub, refinement_flag=t, new_label=new, clean_up=op["clean"])
        if sub is not None:
            g.root_subtrees(sub)
        for n in g.leaves(sub):
            if new is not None:
                n.flags.add(new)
            if t is not None and t not in n.flags:
                continue
            if not n.children():
                adopt(n, n.nc, True)
            for c in n.children():
                if new is not None or sub is not None:
                    c.flags.add(sub if new is None else new)
            if t is not None and op["clean"]:
                n.flags.discard(t)
        if new is not None:
            g.root_subtrees(new)
    elif k == "coarsen":
        sub = lab if op["sub"] else None
        new = lab2 if op["new"] and lab2 != sub else None
        t = None
        if op["flagged"]:
            t = "t"
            n = pick(g.nodes(planted=True), op["i"])
            n.lib.mark(t)
            n.flags.add(t)
        forest.coarsen(subforest_flag=sub, coarsening_flag=t, new_label=new, clean_up=op["clean"])
        if sub is not None:
            g.root_subtrees(sub)
        for r in g.trees:
            coarsen(r, sub, t, new, op["clean"])
    elif k == "refused":
        refused(sim, g, forest, op)


def coarsen(n, sub, t, new, clean):
    if sub is not None and sub not in n.flags:
        return
    go = t in n.flags if t is not None else bool(n.children(sub)) and not any(
        c.children(sub) for c in n.children())
    if new is not None:
        n.flags.add(new)
    if go:
        if new is None and sub is not None:
            for c in n.children():
                for m in c.walk():
                    m.flags.discard(sub)
        elif new is None:
            n.kids = [None] * n.nc
        if t is not None and clean:
            n.flags.discard(t)
    elif n.children(sub):
        for c in n.children():
            coarsen(c, sub, t, new, clean)


def refused(sim, g, forest, op):
    """Requests that cannot be met: each must be refused, and change nothing (compared right after)."""
    n = pick(g.nodes(), op["i"])
    bad = []
    bad.append(("delete_children beyond the last", lambda: n.lib.delete_children(n.nc + op["j"] % 2)))
    bad.append(("get_child beyond the last", lambda: n.lib.get_child(n.nc)))
    bad.append(("has_children beyond the last", lambda: n.lib.has_children(n.nc)))
    bad.append(("unknown traversal mode", lambda: list(forest.traverse(mode="sideways"))))
    bad.append(("unknown traversal mode of a tree", lambda: list(n.lib.traverse(mode="sideways"))))
    bad.append(("plant what is no tree", lambda: forest.add_tree("tree")))
    bad.append(("uproot beyond the last", lambda: forest.remove_tree(len(g.trees))))
    bad.append(("uproot a name", lambda: forest.remove_tree("0")))
    bad.append(("get_child of forest beyond the last", lambda: forest.get_child(len(g.trees))))
    bad.append(("an unhashable label", lambda: n.lib.mark([1], recursive=True)))
    bad.append(("an unhashable new label", lambda: forest.refine(new_label=[1])))
    bad.append(("an unhashable refinement flag", lambda: forest.refine(refinement_flag=[1])))
    bad.append(("an unhashable coarsening flag", lambda: forest.coarsen(coarsening_flag=[1])))
    bad.append(("an unhashable label to record", lambda: forest.record([1])))
    if n.parent is None:
        bad.append(("remove a root", lambda: n.lib.remove()))
    else:
        bad.append(("plant a branch", lambda: n.lib.plant_in_forest(forest, 0)))
    if n.regular:
        bad.append(("add_child of a regular tree", lambda: n.lib.add_child()))
    elif n.nc:
        bad.append(("split an irregular tree with children", lambda: n.lib.split(n_children=2)))
    if n.children() and n.shape is not None and len(n.shape) == 4:
        bad.append(("split a cell again", lambda: n.lib.split()))
    what, f = bad[op["j"] % len(bad)]
    try:
        f()
    except Exception:
        sim.fault("refused_request")
    else:
        sim.fail("not_refused", what)


def compare(sim, g, forest, full):
    def ids(ns):
        return [g.address(n) + ["free"] * (n.root() not in g.trees) for n in ns]

    with sim.observing("grove"):
        known = {id(n.lib): n for n in g.nodes()}

        def same(got, want, kind, detail=""):
            got = list(got)
            ok = len(got) == len(want) and all(x is n.lib for x, n in zip(got, want))
            sim.check(ok, kind, lambda: "%s: got %s, expected %s" % (
                detail, [g.address(known[id(x)]) if id(x) in known else "a stranger" for x in got][:9], ids(want)[:9]))

        same(forest.get_children(), g.trees, "trees")
        same(forest.get_children(reverse=True), g.trees[::-1], "trees_reversed")
        sim.check(forest.n_children() == len(g.trees), "n_trees")
        sim.check(forest.depth() == max(n.depth() for n in g.nodes(planted=True)), "forest_depth")
        sim.check(bool(forest.is_regular()) == all(r.regular for r in g.trees), "forest_regular")
        for mode in ("depth-first", "breadth-first"):
            same(forest.traverse(mode=mode), list(g.walk(mode)), "forest_traversal", mode)
            same(forest.get_leaves(mode=mode), g.leaves(None, mode), "forest_leaves", mode)
        labs = LABELS + ["t"]
        for n in g.nodes():
            a = g.address(n)
            x = n.lib
            d = "node %s" % ids([n])
            sim.check(list(x.get_node_address()) == a, "address", lambda: "%s says %s" % (d, x.get_node_address()))
            sim.check(x.get_depth() == n.depth(), "depth_of_node", d)
            sim.check(x.get_node_position() == (n.pos if n.parent is not None else (a[0] if a else None)),
                      "position", lambda: "%s says %s" % (d, x.get_node_position()))
            t = "ROOT" if n.parent is None else ("BRANCH" if n.children() else "LEAF")
            sim.check(x.get_node_type() == t, "node_type", lambda: "%s is %s" % (d, x.get_node_type()))
            sim.check(x.n_children() == n.nc, "n_children", lambda: "%s has %s" % (d, x.n_children()))
            sim.check((x.get_parent() is None) if n.parent is None else x.get_parent() is n.parent.lib, "parent", d)
            sim.check(x.has_parent() == (n.parent is not None), "has_parent", d)
            sim.check(x.get_root() is n.root().lib, "root", d)
            sim.check(bool(x.is_regular()) == n.regular, "regular", d)
            if n.parent is None:
                sim.check(x.in_forest() == (n in g.trees), "in_forest", d)
                sim.check(x.get_forest() is (forest if n in g.trees else None), "forest_of_tree", d)
            for i, c in enumerate(n.kids):
                sim.check(x.get_child(i) is (None if c is None else c.lib), "child", lambda: "%s child %d" % (d, i))
                sim.check(bool(x.has_children(i)) == (c is not None), "has_child", d)
            same(x.get_children(), n.children(), "children", d)
            same(x.get_children(reverse=True), n.children()[::-1], "children_reversed", d)
            got = set(l for l in labs if x.is_marked(l))
            sim.check(got == n.flags, "labels", lambda: "%s carries %s, expected %s" % (
                d, sorted(map(str, got)), sorted(map(str, n.flags))))
            sim.check(bool(x.is_marked()) == bool(n.flags), "is_marked", d)
            if n.shape is not None:
                got = [tuple(float(c) for c in v.coordinates()) for v in x.get_vertices()]
                sim.check(len(got) == len(n.shape) and all(abs(u - v) < 1e-9 for p, q in zip(got, n.shape)
                                                           for u, v in zip(p, q)), "shape",
                          lambda: "%s at %s, expected %s" % (d, got, n.shape))
                kids = n.children()
                if len(n.shape) == 2:
                    for p, q in zip(kids, kids[1:]):
                        if q.pos == p.pos + 1:
                            sim.check(p.lib.head() is q.lib.base(), "interval_children_share_vertex", d)
                            sim.check(p.lib.next() is q.lib, "interval_next", d)
                            sim.check(q.lib.previous() is p.lib, "interval_previous", d)
                    if kids and kids[0].pos == 0:
                        sim.check(kids[0].lib.base() is x.base(), "first_child_starts_at_parent", d)
                    if kids and kids[-1].pos == n.nc - 1:
                        sim.check(kids[-1].lib.head() is x.head(), "last_child_ends_at_parent", d)
        if not full:
            return
        for n in g.nodes():
            a = g.address(n)
            x = n.lib
            d = "node %s" % ids([n])
            planted = n.root() in g.trees
            if planted:
                sim.check(forest.find_node(list(a)) is x, "forest_find_node", d)
            sim.check(x.find_node(list(a)) is x, "find_node", d)
            sim.check(n.root().lib.find_node(list(a)) is x, "find_node", d)
            i = next((i for i, c in enumerate(n.kids) if c is None), n.nc)
            sim.check(x.find_node(list(a) + [i, 0]) is None, "find_nobody", lambda: "%s + %s" % (d, [i, 0]))
            if planted:
                sim.check(forest.find_node(list(a) + [i, 0]) is None, "forest_find_nobody", d)
            sim.check(x.tree_depth() == max(m.depth() for m in n.walk()), "tree_depth", d)
            for mode in ("depth-first", "breadth-first"):
                same(x.traverse(mode=mode), list(n.walk(mode)), "traversal", d + mode)
                same(x.get_leaves(mode=mode), n.leaves(None, mode), "tree_leaves", d + mode)
            for lab in labs:
                for mode in ("depth-first", "breadth-first"):
                    same(x.traverse(flag=lab, mode=mode), [m for m in n.walk(mode) if lab in m.flags],
                         "flagged_traversal", d + mode)
                    same(x.get_leaves(subtree_flag=lab, mode=mode), n.leaves(lab, mode), "subtree_leaves", d + mode)
                same(x.get_leaves(flag=lab), [m for m in n.leaves(None, "breadth-first") if lab in m.flags],
                     "flagged_leaves", d)
                same(x.get_leaves(flag=lab, subtree_flag="A"),
                     [m for m in n.leaves("A", "breadth-first") if lab in m.flags], "flagged_subtree_leaves", d)
                same(x.get_children(flag=lab), n.children(lab), "flagged_children", d)
                same(x.get_children(flag=lab, reverse=True), n.children(lab)[::-1], "flagged_children_reversed", d)
                sim.check(bool(x.has_children(flag=lab)) == bool(n.children(lab)), "has_flagged_children", d)
                for i, c in enumerate(n.kids):
                    sim.check(bool(x.has_children(i, lab)) == (c is not None and lab in c.flags),
                              "has_flagged_child", d)
                b = next((m for m in n.up() if lab in m.flags), None)
                sim.check(x.get_parent(lab) is (None if b is None else b.lib), "flagged_ancestor", d)
                sim.check(bool(x.has_parent(lab)) == (n.parent is not None and lab in n.parent.flags),
                          "has_flagged_parent", d)
                b = n if lab in n.flags else b
                sim.check(x.nearest_ancestor(lab) is (None if b is None else b.lib), "nearest_ancestor", d)
                q, best = [n], n.depth()
                while q:
                    m = q.pop()
                    best = max(best, m.depth())
                    q.extend(m.children(lab))
                sim.check(x.tree_depth(flag=lab) == best, "flagged_depth", lambda: "%s %s: %s, expected %s" % (
                    d, lab, x.tree_depth(flag=lab), best))
                if n.parent is None:
                    want = all(lab in b.flags for m in n.walk() if lab in m.flags for b in m.up())
                    sim.check(bool(x.is_rooted_subtree(lab)) == want, "is_rooted_subtree", lambda: "%s %s" % (d, lab))
            for m in g.nodes()[::4]:
                sim.check(bool(x.contains(m.lib)) == (n is m or n in list(m.up())), "contains",
                          lambda: "%s %s" % (d, ids([m])))
        for lab in labs:
            for mode in ("depth-first", "breadth-first"):
                same(forest.traverse(flag=lab, mode=mode), [n for n in g.walk(mode) if lab in n.flags],
                     "forest_flagged_traversal", mode)
                same(forest.get_leaves(subforest_flag=lab, mode=mode), g.leaves(lab, mode), "subforest_leaves", mode)
            sim.check(bool(forest.subtrees_rooted(lab)) == g.rooted(lab), "subtrees_rooted", str(lab))
            same(forest.get_children(flag=lab), [r for r in g.trees if lab in r.flags], "flagged_trees")
            sim.check(bool(forest.has_children(flag=lab)) == any(lab in r.flags for r in g.trees), "has_flagged_trees")
            for l2 in labs:
                want = lab == l2 or all(l2 in n.flags or any(l2 in b.flags for b in n.up()) for n in g.leaves(lab))
                sim.check(bool(forest.is_contained_in(lab, l2)) == want, "is_contained_in",
                          lambda: "%s in %s" % (lab, l2))
