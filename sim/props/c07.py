"""Conforming, complete, stable dof numbering under refinement and redistribution histories."""
from . import dofs
from .common import World, gen_mesh_cfg

KINDS = ["split", "record", "refine_sub", "coarsen_sub", "balance", "distribute", "clear", "read"]


def gen(rng, tier, index):
    w = gen_mesh_cfg(rng, bent=True)
    ops = dofs.gen_ops(rng, tier, w, KINDS, [4, 2, 3, 1, 1, 6, 0.6, 2], 14)
    ops.append({"op": "distribute", "client": rng.randrange(3), "i": rng.randrange(1000), "lab": "A",
                "sub": rng.choice(dofs.SUBS), "n": 1, "j": 0})
    return {"cfg": {"world": w, "elems": [rng.choice(dofs.ELEMS) for _ in range(3)]}, "ops": ops}


def run(scn, sim):
    w = World(scn["cfg"]["world"])
    hs = [dofs.Handler(w, e) for e in scn["cfg"]["elems"]]
    for k, op in enumerate(scn["ops"]):
        sim.step, sim.op = k + 1, op
        H = hs[op["client"]]
        if op["op"] == "distribute":
            sub = dofs.distribute(sim, w, H, op["sub"], ready=op["i"] % 3 != 0)
            dofs.numbering(sim, w, H, sub)
            dofs.region(sim, w, H, sub)
            dofs.entity_dofs(sim, w, H, sub, op)
            sim.log("distribute", H.elem, sub, len(H.known))
        elif op["op"] == "clear":
            H.h.clear_dofs()
            H.known, H.subs, H.placed = {}, set(), {}
            sim.log("clear")
        elif op["op"] == "read":
            sub = dofs.usable(w, op["sub"])
            if all(a in H.known for a in w.ref.f.leaves(sub)):
                dofs.numbering(sim, w, H, sub) if all(a in H.known for a in dofs.cells_of(w, sub)) else None
                dofs.region(sim, w, H, sub)
            sim.log("read", sub)
        else:
            dofs.mesh_step(sim, w, op)
            # stale knowledge: submeshes changed after numbering
            for G in hs:
                G.subs = set(s for s in G.subs if all(a in G.known for a in w.ref.f.leaves(s)))
            sim.log(op["op"], len(w.ref.f.flags))
        sim.state([sorted(w.ref.f.flags.items(), key=str), op["op"], H.elem])


def shrink_cfg(scn):
    wc = scn["cfg"]["world"]
    if wc["dim"] == 2:
        for r in ([1, 1], [2, 1], [2, 2]):
            yield dict(scn, cfg=dict(scn["cfg"], world=dict(wc, kind="grid", res=r, periodic=None)))
    for e in ("Q1", "Q2"):
        yield dict(scn, cfg=dict(scn["cfg"], elems=[e] * 3))
