"""2:1 balancing of a mesh or submesh, under every visiting order (hash seam)."""
from . import common, hier
from .common import World, addr, gen_mesh_cfg, pick

LABS = ["A", "B", "C", 1, 2]


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, dims=(2,), bent=True)
    n = rng.randrange(3, 14 if tier == "quick" else 22)
    ops = []
    focus = rng.random() < 0.7     # keep splitting the same corner: deep jumps
    for _ in range(n):
        k = rng.choices(["deep", "split", "record", "mark", "refine_sub", "balance", "derive"],
                        [6, 3, 2, 2, 3, 4, 2])[0]
        ops.append({"op": k, "client": rng.randrange(2), "i": rng.randrange(1000) if not focus else
                    rng.choice([0, 7, rng.randrange(1000)]),
                    "lab": rng.choice([None, "A", "A", "B", 1]), "n": rng.randrange(1, 5),
                    "lab2": rng.choice(["B", "C", 2])})
    ops.append({"op": "balance", "client": 0, "i": 0, "lab": rng.choice([None, "A", "B"]), "n": 1, "lab2": "C"})
    return {"cfg": {"world": w}, "ops": ops}


def run(scn, sim):
    w = World(scn["cfg"]["world"])
    ref, f = w.ref, w.ref.f
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        step(sim, w, op)
        sim.log(op["op"], op["lab"], sorted(f.flags))
        sim.state([sorted(f.leaves()), op["op"], op["lab"]])
        hier.compare(sim, w, "C01", full=False)
        for lab in (None, "A", "B"):
            if lab is None or f.rooted(lab):
                with sim.observing("is_balanced"):
                    got = bool(w.mesh.is_balanced(lab))
                want = ref.balanced(lab)
                sim.check(got == want, "is_balanced", lambda: "submesh %s reported %s, is %s" % (lab, got, want))
    hier.compare(sim, w, "C01", full=True)
    hier.geometry(sim, w)


def step(sim, w, op):
    ref, f = w.ref, w.ref.f
    lab = op["lab"]
    k = op["op"]
    if len(f.flags) > 600 and k != "balance":
        return
    if k == "deep":
        # walk down from one leaf several times: creates violations of 2:1
        a = pick(sorted(f.leaves()), op["i"])
        for j in range(op["n"]):
            if len(a) > 6:
                break
            f.split(a)
            w.cell(a).split()
            a = a + ((op["i"] + j * (op["i"] % 3)) % 4,)
    elif k == "split":
        a = pick(sorted(f.leaves()), op["i"])
        f.split(a)
        w.cell(a).split()
    elif k == "record":
        lab = lab or "A"
        f.record(lab)
        w.forest().record(lab)
    elif k == "mark":
        lab = lab or "B"
        a = pick(sorted(f.flags), op["i"])
        f.mark(a, lab)
        w.cell(a).mark(lab)
        f.root_subtrees(lab)
        w.forest().root_subtrees(lab)
    elif k == "refine_sub":
        lab = lab or "A"
        f.root_subtrees(lab)
        w.forest().root_subtrees(lab)
        a = pick(f.leaves(lab), op["i"])
        t = "t%d" % op["client"]
        f.mark(a, t)
        w.cell(a).mark(t)
        f.refine(lab, t)
        w.forest().refine(subforest_flag=lab, refinement_flag=t)
    elif k == "derive":
        f.root_subtrees("A")
        w.forest().root_subtrees("A")
        f.coarsen("A", None, op["lab2"])
        w.forest().coarsen(subforest_flag="A", new_label=op["lab2"])
    elif k == "balance":
        if lab is not None:
            f.root_subtrees(lab)
            w.forest().root_subtrees(lab)
        before = set(f.flags)
        was = ref.balanced(lab)
        ref.balance(lab)
        if not was:
            sim.probe("balance_had_work")
        if len(set(f.flags) - before) > 8:
            sim.probe("balance_cascade")
        # the library's visiting order is the simulated hash order
        w.mesh.balance(lab) if lab is not None else w.mesh.balance()
        sim.fault("permuted_visit_order")


def shrink_cfg(scn):
    for r in ([1, 1], [2, 1], [2, 2]):
        s = dict(scn, cfg=dict(scn["cfg"], world=dict(scn["cfg"]["world"], res=r, periodic=None)))
        yield s
