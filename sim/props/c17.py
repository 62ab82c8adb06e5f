"""Mesh files: an import yields the file's mesh or fails, whatever the disk does."""
import gc
import os
import shutil
import tempfile

import numpy as np

from . import c03, c04
from .common import World, gen_mesh_cfg, pick, shape_grid
from .. import models, seams
from ..core import HarnessError, Violation, make_rng
from ..models import rnd


def gen(rng, tier, index):
    ops = []
    for _ in range(rng.randrange(3, 8 if tier == "quick" else 14)):
        k = rng.choices(["import", "torn", "use"], [3, 4, 2.5])[0]
        op = {"op": k, "client": rng.randrange(3), "i": rng.randrange(1000), "s": rng.randrange(1 << 16)}
        if k in ("import", "torn"):
            op["file"] = rng.randrange(3)
            op["reader"] = {"short": rng.choice([None, None, 1, 7, 100]), "eintr": rng.random() < 0.3,
                            "buffer": rng.choice([1, 16, 64, 512, 8192]), "seed": rng.randrange(1 << 16)}
        if k == "torn":
            op.update(fault=rng.choice(["eio", "eio", "cut", "cut", "cut_line", "lost_lines", "lost_block", "twice", "zero",
                                        "missing", "foreign"]), at=rng.random(), len=rng.choice([1, 3, 17, 64, 512]),
                      again=rng.random() < 0.7)
        if k == "use":
            op["ops"] = [{"op": rng.choice(["split", "split", "record", "mark", "balance", "deep"]), "client": 0,
                          "i": rng.randrange(1000), "lab": rng.choice(["A", "B", None]), "lab2": "B", "n": rng.randrange(1, 4)}
                         for _ in range(rng.randrange(1, 4))]
        ops.append(op)
    return {"cfg": {"files": [gen_file(rng) for _ in range(3)]}, "ops": ops}


def gen_file(rng):
    w = gen_mesh_cfg(rng, dims=(2,), periodic=False)
    return {"world": w, "seed": rng.randrange(1 << 16), "tri": rng.random() < 0.25,
            "names": rng.choice([0, 0, 1, 3]), "spaces": rng.random() < 0.2, "points": rng.random() < 0.4,
            "lines": rng.random() < 0.7, "tags": rng.choice([0, 2, 2, 2, 3, "mixed"]), "ids": rng.choice(["dense", "dense", "sparse"]),
            "unused": rng.random() < 0.2, "eol": rng.choice(["\n", "\n", "\n", "\r\n"]), "final": rng.random() < 0.8,
            "comment": rng.choice([None, None, "head", "mid", "tail"]), "form": rng.choice(["repr", "g", "e"]),
            "order": rng.choice([1, 1, 1, 2, 3])}


class MeshFile(object):
    """The content of a file and the mesh it describes."""

    def __init__(self, d):
        r = make_rng("meshfile", d["seed"])
        w = d["world"]
        kind = w["kind"]
        if kind == "grid":
            pts, conn = [], []
            at = {}
            for q in models.grid_corners(w["box"], tuple(w["res"])).values():
                c = []
                for p in q:
                    k = rnd(p)
                    if k not in at:
                        at[k] = len(pts)
                        pts.append(tuple(float(t) for t in p))
                    c.append(at[k])
                conn.append(c)
        else:
            pts, conn = shape_grid(kind, w["box"], w["gseed"])
        fmt = {"repr": repr, "g": lambda t: "%.16g" % t, "e": lambda t: "%.16e" % t}[d["form"]]
        if d["unused"] and d["tri"]:
            pts = list(pts) + [(w["box"][0] - 1.0, w["box"][2] - 2.0)]
        # the nodes in another order
        perm = list(range(len(pts)))
        r.shuffle(perm)
        inv = {o: k for k, o in enumerate(perm)}
        self.pts = [tuple(float(t) for t in pts[o]) for o in perm]
        cells = []
        for q in conn:
            q = [inv[i] for i in q]
            k = r.randrange(4)
            q = q[k:] + q[:k]
            if d["tri"]:
                cells += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
            else:
                cells.append(q)
        r.shuffle(cells)
        self.cells = cells
        self.tri = d["tri"]
        self.more = self.higher(d.get("order", 1), r)
        ids = list(range(1, len(self.pts) + 1))
        if d["ids"] == "sparse":
            ids = sorted(r.sample(range(1, 5 * len(ids)), len(ids)))
        sides = {}
        for c in cells:
            for i in range(len(c)):
                sides[(c[i], c[(i + 1) % len(c)])] = 1
        bnd = [s for s in sides if (s[1], s[0]) not in sides]
        L = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
        if d["comment"] == "head":
            L += ["$Comments"] + ["line %d" % i for i in range(r.randrange(1, 4))] + ["$EndComments"]
        self.names = []
        if d["names"]:
            for i in range(d["names"]):
                self.names.append((1 + i % 2, i + 1, "region %d" % i if d["spaces"] else "r%d" % i))
            L += ["$PhysicalNames", str(len(self.names))] + ['%d %d "%s"' % n for n in self.names] + ["$EndPhysicalNames"]
        L += ["$Nodes", str(len(ids))]
        L += ["%d %s %s 0" % (i, fmt(p[0]), fmt(p[1])) for i, p in zip(ids, self.pts)] + ["$EndNodes"]
        if d["comment"] == "mid":
            L += ["$Comments"] + ["line %d" % i for i in range(r.randrange(1, 4))] + ["$EndComments"]
        E = []
        self.lines, self.phys = [], {"points": [], "edges": [], "faces": []}

        def tags(what):
            n = r.choice([0, 2, 3]) if d["tags"] == "mixed" else d["tags"]
            t = [r.randrange(1, 5), r.randrange(1, 9), r.randrange(1, 3)][:n]
            self.phys[what].append(t)
            return "".join([" %d" % x for x in [n] + t])
        if d["points"]:
            for i in r.sample(range(len(ids)), min(2, len(ids))):
                E.append("15%s %d" % (tags("points"), ids[i]))
        if d["lines"]:
            for s in bnd:
                E.append("%d%s %s" % (self.more["line"], tags("edges"), " ".join(
                    str(ids[i]) for i in list(s) + self.more["side"](s))))
                self.lines.append(s)
        for c in cells:
            E.append("%d%s %s" % (self.more["cell"], tags("faces"), " ".join(str(ids[i]) for i in c + self.more["inside"](c))))
        L += ["$Elements", str(len(E))] + ["%d %s" % (i + 1, e) for i, e in enumerate(E)] + ["$EndElements"]
        if d["comment"] == "tail":
            L += ["$NodeData", "1", '"pressure"', "0", "$EndNodeData"]
        self.rows = L
        text = d["eol"].join(L) + (d["eol"] if d["final"] else "")
        self.data = text.encode()
        self.eol = d["eol"].encode()

    def higher(self, order, r):
        """Elements with nodes beside their corners (which come first): their types, and those nodes, given the corners."""
        order = 2 if order == 3 and not self.tri else order
        at, made = {}, {}
        for i, p in enumerate(self.pts):
            at[rnd(p)] = i

        def node(p):
            k = rnd(p)
            if k not in at:
                at[k] = len(self.pts)
                self.pts.append(p)
            return at[k]

        def side(s):
            p, q = self.pts[s[0]], self.pts[s[1]]
            ts = [] if order == 1 else [0.5] if order == 2 else [1 / 3.0, 2 / 3.0]
            return [node(tuple((1 - t) * a + t * b for a, b in zip(p, q))) for t in ts]

        def inside(c):
            if order == 1:
                return []
            out = [i for k in range(len(c)) for i in side((c[k], c[(k + 1) % len(c)]))]
            if order == 3 or not self.tri:
                out.append(node(tuple(sum(self.pts[i][t] for i in c) / len(c) for t in range(2))))
            return out
        for c in self.cells:
            made[tuple(c)] = inside(c)
        return {"line": {1: 1, 2: 8, 3: 26}[order], "cell": {1: 2, 2: 9, 3: 21}[order] if self.tri else {1: 3, 2: 10}[order],
                "side": side, "inside": lambda c: made[tuple(c)]}

    def torn(self, op):
        """Content after a fault at rest, and the reader's plan."""
        n, f = len(self.data), op["fault"]
        k = int(op["at"] * n)
        plan = {}
        data = self.data
        if f == "eio":
            plan["eio_at"] = k
        elif f == "missing":
            plan["enoent"] = True
        elif f == "cut":
            data = data[:k]
        elif f == "foreign":
            # an element of a kind the library does not know: a tetrahedron, a pyramid, other quadrilaterals
            L = list(self.rows)
            i = L.index("$Elements")
            n = int(L[i + 1])
            kind, m = [(4, 4), (7, 5), (16, 8), (20, 9), (36, 16), (5, 8)][op["len"] % 6]
            ids = [l.split()[0] for l in L[L.index("$Nodes") + 2:L.index("$EndNodes")]]
            L[i + 1] = str(n + 1)
            L.insert(i + 2 + n, "%d %d 2 1 1 %s" % (n + 1, kind, " ".join(ids[j % len(ids)] for j in range(m))))
            data = self.eol.join(l.encode() for l in L) + self.eol
        elif f == "cut_line":
            data = data[:data.rfind(self.eol, 0, k) + len(self.eol)] if self.eol in data[:k] else b""
        else:
            a = data.find(b"$Nodes")
            b = data.find(b"$EndElements")
            if f in ("lost_lines", "twice"):
                p = data.find(self.eol, a + int(op["at"] * (b - a)))
                p += len(self.eol)
                q = p
                for _ in range(1 + op["len"] % 3):
                    e = data.find(self.eol, q)
                    q = e + len(self.eol) if e >= 0 else n
                data = data[:p] + data[q:] if f == "lost_lines" else data[:q] + data[p:q] + data[q:]
            elif f == "lost_block":
                # a lost sector of whole lines and a bit
                p = a + int(op["at"] * (b - a))
                e = data.find(self.eol, p + op["len"])
                q = min(e + len(self.eol) + op["len"] % 5 if e >= 0 else n, n)
                data = data[:p] + data[q:]
            else:
                p = a + int(op["at"] * (b - a))
                q = min(p + op["len"], n)
                data = data[:p] + b"\0" * (q - p) + data[q:]
        return data, plan


class FileWorld(World):
    """An imported quadrilateral mesh with its reference."""

    def __init__(self, mesh, m):
        self.dim, self.mesh, self.cfg = 2, mesh, {"dim": 2, "kind": "file", "periodic": None}
        corners = self.root_corners([[m.pts[i] for i in c] for c in m.cells])
        for i, c in enumerate(m.cells):
            got = [rnd(p) for p in corners[i]]
            if got != [rnd(m.pts[j]) for j in c]:
                raise Violation("root_cells", "cell %d is %s, in the file %s" % (i, got, [m.pts[j] for j in c]))
        self.ref = models.RefMesh2D(corners, [])
        self.area = sum(self.ref.measure((i,)) for i in range(len(corners)))


def run(scn, sim):
    files = [MeshFile(d) for d in scn["cfg"]["files"]]
    worlds = []
    base = tempfile.mkdtemp(prefix="simdisk")
    try:
        for k, op in enumerate(scn["ops"]):
            sim.step, sim.op = k + 1, op
            o = op["op"]
            if o in ("import", "torn"):
                m = files[op["file"]]
                data, plan = m.data, {}
                if o == "torn":
                    data, plan = m.torn(op)
                path = os.path.join(base, "mesh%d.msh" % op["file"])
                mesh = load(sim, m, path, data, dict(op["reader"], **plan), op, o == "import" or (data == m.data and not plan))
                if o == "torn" and op["again"]:
                    # the file is written again and read once more
                    mesh = load(sim, m, path, m.data, dict(op["reader"]), op, True)
                    sim.probe("imported_after_failure")
                if mesh is not None and not m.tri:
                    with sim.observing("imported_mesh"):
                        w = FileWorld(mesh, m)
                    if len(worlds) > 3:
                        worlds.pop(0)
                    worlds.append(w)
            elif worlds:
                w = pick(worlds, op["i"])
                for u in op["ops"]:
                    if len(w.ref.f.flags) < 150:
                        c03.step(sim, w, u)
                sim.probe("imported_mesh_used")
            for w in worlds:
                with sim.observing("live_meshes"):
                    got = sorted(c04.addr(c) for c in w.mesh.cells.get_leaves())
                    sim.check(got == sorted(w.ref.f.leaves()), "other_mesh_changed")
            sim.log(o, op.get("fault"), [sorted(w.ref.f.leaves()) for w in worlds])
            sim.state([o, op.get("fault"), scn["cfg"]["files"][op["file"]] if "file" in op else None,
                       [len(w.ref.f.flags) for w in worlds]])
        for w in worlds:
            c04.check2d(sim, w, set())
    finally:
        shutil.rmtree(base, ignore_errors=True)


def load(sim, m, path, data, plan, op, intact):
    """One import; returns the mesh, or None when it failed as it may."""
    from mesh import Mesh2D, QuadMesh
    if plan.get("enoent"):
        if os.path.exists(path):
            os.remove(path)
    else:
        with open_real(path, "wb") as h:
            h.write(data)
    seams.DISK.put(path, data, plan)
    h0, eio0 = seams.DISK.open_handles, seams.DISK.eio_fired
    failed = None
    mesh = None
    try:
        mesh = Mesh2D(file_path=path) if m.tri else QuadMesh(file_path=path)
    except (Violation, HarnessError):
        raise
    except Exception as e:
        failed = "%s: %s" % (type(e).__name__, str(e)[:200])
        hang = None
        while e is not None:
            hang = e if isinstance(e, Violation) else hang
            e = e.__context__
        if hang is not None:
            raise hang
    gc.collect()
    sim.check(seams.DISK.open_handles == h0, "file_left_open")
    if failed is not None:
        sim.check(not intact, "import_failed", "a complete file was refused: %s" % failed)
        sim.probe("import_refused")
        return None
    sim.check(not plan.get("enoent"), "missing_file_imported")
    if not intact:
        sim.probe("import_survived")
    same(sim, m, mesh, "%s" % (op.get("fault") if not intact else "complete file"))
    return mesh


def open_real(path, mode):
    return seams.REAL_OPEN(path, mode)


def same(sim, m, mesh, det):
    """The mesh is the one the file describes."""
    with sim.observing("imported_mesh"):
        n = mesh.cells.n_children()
        sim.check(n == len(m.cells), "cells", "%d cells, in the file %d (%s)" % (n, len(m.cells), det))
        edges = {}
        verts = {}
        for i, c in enumerate(m.cells):
            cell = mesh.cells.get_child(i)
            hs = cell.get_half_edges()
            got = [rnd(h.base().coordinates()) for h in hs]
            want = [rnd(m.pts[j]) for j in c]
            sim.check(len(hs) == len(want), "cell_sides", "%d (%s)" % (len(hs), det))
            k = want.index(got[0]) if got[0] in want else 0
            sim.check(got == want[k:] + want[:k], "cell_geometry", lambda: "cell %d is %s, in the file %s (%s)" % (i, got, want, det))
            for h in hs:
                edges[(rnd(h.base().coordinates()), rnd(h.head().coordinates()))] = (h, cell)
                for v in (h.base(), h.head()):
                    sim.check(verts.setdefault(rnd(v.coordinates()), v) is v, "one_vertex_per_point", det)
        for (p, q), (h, cell) in edges.items():
            t = h.twin()
            if (q, p) in edges:
                sim.check(t is edges[(q, p)][0], "twin", "%s (%s)" % ((p, q), det))
            else:
                sim.check(t is None, "boundary_twin", "%s (%s)" % ((p, q), det))
            sim.check(h.cell() is cell, "half_edge_cell", det)
        sim.check(mesh.is_quadmesh() == (not m.tri), "is_quadmesh")
        # what the file says about regions
        d = mesh.dcel
        if m.names:
            sim.check(list(zip(d.subregions["dim"], d.subregions["tags"], d.subregions["names"])) == m.names, "region_names",
                      lambda: "%s, in the file %s (%s)" % (d.subregions, m.names, det))
        for what in ("faces", "edges", "points"):
            ph = m.phys[what]
            tg = getattr(d, what)["tags"]
            if not ph:
                continue
            for j, name in enumerate(("phys", "geom", "partition")):
                if all(len(t) > j for t in ph):
                    sim.check(list(tg.get(name, [])) == [t[j] for t in ph], "tags", lambda: "%s of %s: %s, in the file %s (%s)" % (
                        name, what, tg.get(name), [t[j] for t in ph], det))
        got = [frozenset(rnd(d.points["coordinates"][i]) for i in e) for e in d.edges["connectivity"]]
        sim.check(got == [frozenset(rnd(m.pts[i]) for i in s) for s in m.lines], "edges", det)


def shrink_cfg(scn):
    for i in range(3):
        fs = list(scn["cfg"]["files"])
        simple = dict(fs[i], comment=None, names=0, points=False, lines=False, tags=2, ids="dense", unused=False, eol="\n", final=True,
                      world=dict(fs[i]["world"], kind="grid", res=[1, 1]))
        if simple != fs[i]:
            fs[i] = simple
            yield dict(scn, cfg={"files": fs})
