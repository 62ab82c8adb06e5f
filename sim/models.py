"""Executable reference models (simple, slow, independent of the library)."""
import itertools


class RefForest(object):
    """A forest of regular trees as a dictionary address -> set of flags."""

    def __init__(self, n_roots, n_children):
        self.nc = n_children
        self.flags = {}
        self.kids = set()
        self.roots = []
        for i in range(n_roots):
            self.roots.append((i,))
            self.flags[(i,)] = set()

    # -- structure
    def children(self, a):
        if a in self.kids:
            return [a + (i,) for i in range(self.nc)]
        return []

    def parent(self, a):
        return a[:-1] if len(a) > 1 else None

    def split(self, a):
        assert a not in self.kids
        self.kids.add(a)
        for i in range(self.nc):
            self.flags[a + (i,)] = set()

    def delete(self, a):
        for c in self.children(a):
            self.delete(c)
            del self.flags[c]
        self.kids.discard(a)

    def nodes(self):
        return list(self.flags)

    def depth(self):
        return max([len(a) - 1 for a in self.flags] or [0])

    def marked(self, a, flag):
        return flag is None or flag in self.flags[a]

    def depth_first(self, root=None):
        stack = [root] if root is not None else list(reversed(self.roots))
        while stack:
            a = stack.pop()
            yield a
            stack.extend(reversed(self.children(a)))

    def breadth_first(self, root=None):
        level = [root] if root is not None else list(self.roots)
        while level:
            nxt = []
            for a in level:
                yield a
                nxt.extend(self.children(a))
            level = nxt

    def has_children(self, a, flag=None):
        return any(self.marked(c, flag) for c in self.children(a))

    def leaves(self, sub=None, mode="breadth-first", root=None):
        it = self.breadth_first(root) if mode == "breadth-first" else self.depth_first(root)
        return [a for a in it if self.marked(a, sub) and not self.has_children(a, sub)]

    # -- labels
    def mark(self, a, flag, recursive=False, reverse=False):
        self.flags[a].add(flag)
        if recursive:
            if reverse:
                while len(a) > 1:
                    a = a[:-1]
                    self.flags[a].add(flag)
            else:
                for b in self.depth_first(a):
                    self.flags[b].add(flag)

    def unmark(self, a, flag, recursive=False, reverse=False):
        self.flags[a].discard(flag)
        if recursive:
            if reverse:
                while len(a) > 1:
                    a = a[:-1]
                    self.flags[a].discard(flag)
            else:
                for b in self.depth_first(a):
                    self.flags[b].discard(flag)

    def record(self, flag):
        for a in self.flags.values():
            a.add(flag)

    def root_subtrees(self, flag):
        for r in self.roots:
            self.flags[r].add(flag)
        for a in list(self.flags):
            if flag in self.flags[a]:
                b = a
                while len(b) > 1:
                    b = b[:-1]
                    self.flags[b].add(flag)
                    for c in self.children(b):
                        self.flags[c].add(flag)

    def rooted(self, flag):
        if flag is None:
            return True
        if any(flag not in self.flags[r] for r in self.roots):
            return False
        for a, f in self.flags.items():
            if flag in f and len(a) > 1:
                p = a[:-1]
                if flag not in self.flags[p]:
                    return False
                if any(flag not in self.flags[c] for c in self.children(p)):
                    return False
        return True

    # -- adaptation
    def refine(self, sub=None, ref=None, new=None, clean_up=True):
        if sub is not None:
            self.root_subtrees(sub)
        for a in self.leaves(sub):
            if new is not None:
                self.flags[a].add(new)
            if ref is not None and ref not in self.flags[a]:
                continue
            if a not in self.kids:
                self.split(a)
            for c in self.children(a):
                if new is not None:
                    self.flags[c].add(new)
                elif sub is not None:
                    self.flags[c].add(sub)
            if ref is not None and clean_up:
                self.flags[a].discard(ref)
        if new is not None:
            self.root_subtrees(new)

    def coarsen(self, sub=None, coa=None, new=None, clean_up=True):
        if sub is not None:
            self.root_subtrees(sub)
        for r in self.roots:
            self._coarsen(r, sub, coa, new, clean_up)

    def _coarsen(self, a, sub, coa, new, clean_up):
        if not self.marked(a, sub):
            return
        if coa is not None:
            go = coa in self.flags[a]
        else:
            go = self.has_children(a, sub) and not any(
                self.has_children(c, sub) for c in self.children(a))
        if new is not None:
            self.flags[a].add(new)
        if go:
            if new is None and sub is not None:
                for b in self.depth_first(a):
                    if b != a:
                        self.flags[b].discard(sub)
            elif new is None:
                self.delete(a)
            if coa is not None and clean_up:
                self.flags[a].discard(coa)
        elif self.has_children(a, sub):
            for c in self.children(a):
                self._coarsen(c, sub, coa, new, clean_up)

    def contained_in(self, test, ref):
        """Every leaf of `test` lies in a node labelled `ref`."""
        if test is None:
            return True
        if ref is None or ref == test:
            return True
        for a in self.leaves(test):
            if not any(ref in self.flags[a[:k]] for k in range(1, len(a) + 1)):
                return False
        return True


class RefMesh1D(object):
    dim = 1

    def __init__(self, x0, x1, n, periodic=False, nodes=None):
        self.f = RefForest(n, 2)
        self.x = {}
        nodes = sorted(nodes) if nodes else [x0 + (x1 - x0) * i / n for i in range(n + 1)]
        for i in range(n):
            self.x[(i,)] = (nodes[i], nodes[i + 1])
        self.periodic = periodic
        self.n = n

    def interval(self, a):
        if a not in self.x:
            l, r = self.interval(a[:-1])
            m = 0.5 * (l + r)
            self.x[a] = (l, m) if a[-1] == 0 else (m, r)
        return self.x[a]

    def measure(self, a):
        l, r = self.interval(a)
        return r - l

    def corners(self, a):
        l, r = self.interval(a)
        return [(l,), (r,)]

    def neighbor_leaf(self, a, side, sub):
        """Leaf of the submesh on the given side (0 left, 1 right) of leaf a."""
        order = self.ordered_leaves(sub)
        i = order.index(a)
        j = i - 1 if side == 0 else i + 1
        if j < 0 or j >= len(order):
            if not self.periodic:
                return None
            j %= len(order)
        return order[j]

    def neighbor_level(self, a, side, sub):
        """The interval of the submesh as deep as a, next to it on the given side."""
        j = a[-1] + (1 if side else -1)
        if len(a) == 1:
            if 0 <= j < self.n:
                return (j,)
            return (j % self.n,) if self.periodic else None
        if 0 <= j < 2:
            return a[:-1] + (j,)
        nb = self.neighbor_level(a[:-1], side, sub)
        if nb is None or not self.f.has_children(nb, sub):
            return None
        return nb + (j % 2,)

    def ordered_leaves(self, sub):
        return sorted(self.f.leaves(sub), key=lambda a: self.interval(a)[0])


def rnd(p, nd=9):
    return tuple(round(float(c), nd) + 0.0 for c in p)


class RefMesh2D(object):
    """Quadrilateral mesh: corners of every address, sides, adjacency."""
    dim = 2

    def __init__(self, root_corners, wraps=()):
        """root_corners: list of 4 corner tuples (counter-clockwise).
        wraps: list of (root_i, side_i, root_j, side_j) identifications."""
        self.f = RefForest(len(root_corners), 4)
        self.c = {}
        self._rootnb = {}
        sides = {}
        for i, cs in enumerate(root_corners):
            cs = [tuple(float(v) for v in p) for p in cs]
            self.c[(i,)] = cs
            for s in range(4):
                sides[(rnd(cs[s]), rnd(cs[(s + 1) % 4]))] = (i, s)
        for (p, q), (i, s) in sides.items():
            if (q, p) in sides:
                self._rootnb[(i, s)] = sides[(q, p)]
        self.wrapped = set()
        for (i, s, j, t) in wraps:
            self._rootnb[(i, s)] = (j, t)
            self._rootnb[(j, t)] = (i, s)
            self.wrapped.add((i, s))
            self.wrapped.add((j, t))

    def corners(self, a):
        if a not in self.c:
            P = self.corners(a[:-1])
            i = a[-1]
            mid = [tuple(0.5 * (u + v) for u, v in zip(P[s], P[(s + 1) % 4])) for s in range(4)]
            ctr = tuple(sum(P[k][d] for k in range(4)) / 4.0 for d in range(2))
            cs = [None] * 4
            cs[i] = P[i]
            cs[(i + 1) % 4] = mid[i]
            cs[(i + 2) % 4] = ctr
            cs[(i + 3) % 4] = mid[(i - 1) % 4]
            self.c[a] = cs
        return self.c[a]

    def measure(self, a):
        c = self.corners(a)
        s = 0.0
        for k in range(4):
            x0, y0 = c[k]
            x1, y1 = c[(k + 1) % 4]
            s += x0 * y1 - x1 * y0
        return 0.5 * s

    def is_box(self, a):
        """Sides along the axes?"""
        c = self.corners(a)
        return all(any(abs(c[k][d] - c[(k + 1) % 4][d]) < 1e-12 for d in range(2)) for k in range(4))

    def side(self, a, s):
        c = self.corners(a)
        return c[s], c[(s + 1) % 4]

    @staticmethod
    def up(a, s):
        """Parent side (parent, side, half) this side is part of, or None."""
        if len(a) == 1:
            return None
        i = a[-1]
        if s == i:
            return a[:-1], s, 0
        if s == (i - 1) % 4:
            return a[:-1], s, 1
        return None

    def across(self, a, s):
        """Same-size (virtual) neighbour address and its side, or None on the
        boundary.  The address need not exist in the forest."""
        if len(a) == 1:
            nb = self._rootnb.get((a[0], s))
            if nb is None:
                return None
            return (nb[0],), nb[1]
        i = a[-1]
        P = a[:-1]
        if s == i or s == (i - 1) % 4:
            half = 0 if s == i else 1
            nb = self.across(P, s)
            if nb is None:
                return None
            b, t = nb
            # side t of b: half 0 is child t's side t, half 1 is child t+1's side t
            if half == 0:
                return b + ((t + 1) % 4,), t
            return b + (t,), t
        if s == (i + 1) % 4:
            # interior side from mid(i) to centre: shared with child i+1
            return P + ((i + 1) % 4,), (i + 3) % 4
        return P + ((i - 1) % 4,), i % 4

    def exists(self, a, sub):
        return a in self.f.flags and self.f.marked(a, sub)

    def neighbor(self, a, s, sub):
        """(kind, addresses): the leaves of the submesh across side s of leaf a."""
        nb = self.across(a, s)
        if nb is None:
            return "boundary", []
        b, t = nb
        if self.exists(b, sub):
            if not self.f.has_children(b, sub):
                return "same", [b]
            # finer: all leaves under b touching side t
            out = []

            def rec(x):
                if not self.f.has_children(x, sub):
                    out.append(x)
                    return
                rec(x + (t,))
                rec(x + ((t + 1) % 4,))
            rec(b)
            return "finer", out
        k = len(b)
        while k > 1 and not self.exists(b[:k], sub):
            k -= 1
        return "coarser", [b[:k]]

    def balanced(self, sub):
        for a in self.f.leaves(sub):
            for s in range(4):
                kind, nbs = self.neighbor(a, s, sub)
                if kind == "finer" and any(len(b) - len(a) > 1 for b in nbs):
                    return False
        return True

    def balance(self, sub):
        """Smallest 2:1 edge-balanced refinement (a closure, order-free)."""
        while True:
            todo = set()
            for a in self.f.leaves(sub):
                for s in range(4):
                    kind, nbs = self.neighbor(a, s, sub)
                    if kind == "finer" and any(len(b) - len(a) > 1 for b in nbs):
                        todo.add(a)
            if not todo:
                return
            for a in todo:
                if a not in self.f.kids:
                    self.f.split(a)
                if sub is not None:
                    for c in self.f.children(a):
                        self.f.flags[c].add(sub)

    def boundary_sides(self, sub, cells=None):
        """Set of (a, s) leaf sides on the outer boundary."""
        return set((a, s) for a in self.f.leaves(sub) for s in range(4)
                   if self.across(a, s) is None)

    def contains(self, a, p, tol=1e-12):
        c = self.corners(a)
        for k in range(4):
            x0, y0 = c[k]
            x1, y1 = c[(k + 1) % 4]
            if (x1 - x0) * (p[1] - y0) - (y1 - y0) * (p[0] - x0) < -tol:
                return False
        return True


def grid_corners(box, res):
    x0, x1, y0, y1 = box
    nx, ny = res
    out = {}
    for j in range(ny):
        for i in range(nx):
            a = x0 + (x1 - x0) * i / nx
            b = x0 + (x1 - x0) * (i + 1) / nx
            c = y0 + (y1 - y0) * j / ny
            d = y0 + (y1 - y0) * (j + 1) / ny
            out[(i, j)] = [(a, c), (b, c), (b, d), (a, d)]
    return out
