#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one place (python3 tools/mkdocs.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sim import registry   # noqa: E402

PROPS = []


def p(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    m = []
    for x in mech:
        name, where = x.split(" @ ")
        m.append({"name": name, "where": where})
    st = []
    for x in state:
        name, meaning, where = x.split(" | ")
        st.append({"name": name, "meaning": meaning, "where": where})
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": tests,
                  "anchors": {"files": files, "mechanism": m, "state": st, "observe_at": list(observe), "hook_needed": hook}})


p("C01", "Refinement hierarchy stays a well-formed forest under any request history",
  "After any interleaving of clients' refining, splitting, coarsening, recording-based refinement and child-deletion "
  "requests, every forest and mesh is exactly the forest those requests describe: parents and children, addresses, depths, "
  "leaves and traversals in either order and by any marker agree with each other and nothing is lost, duplicated or left "
  "dangling. In 2D and 1D alike, the leaves tile the domain: children cover their parent exactly. A refused or failing "
  "request leaves the hierarchy as it was.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of hierarchy requests by any number of clients, on trees, forests, interval meshes and quadrilateral "
  "meshes of every shape, with requests refused at any point and any hash order of the identity-hashed sets",
  "The tests apply one or two fixed refinements to fixed meshes and look at a few nodes; a bookkeeping slip needs a "
  "particular order of refine/coarsen/mark/delete on particular nodes to show.",
  ["src/mesh.py"],
  ["Tree/Forest parent-child links and addresses @ src/mesh.py Tree.split, Tree.delete_children, Tree.get_node_address, Forest.get_child",
   "traversal and leaf listing @ src/mesh.py Tree.traverse, Tree.get_leaves, Forest.get_leaves, Forest.traverse",
   "coarsening and recording @ src/mesh.py Tree.coarsen, Forest.coarsen, Forest.record, Forest.refine",
   "cell splitting @ src/mesh.py Interval.split, QuadCell.split, HalfEdge.split"],
  ["children/parent | the tree structure | src/mesh.py Tree", "flags | client markers on nodes | src/mesh.py Tree"],
  ["Forest/Mesh traversal, leaves, addresses, cell vertices"])

p("C02", "Submesh markers select exactly the requested subforest; clients are isolated",
  "A submesh marker held by one client always selects exactly the cells that client's own marking, refining, coarsening "
  "and deriving requests imply, and its leaves, depth, traversal and rootedness are those of that subforest. Requests on "
  "one marker never change what another marker selects, nor the underlying mesh beyond the refinement they ask for. "
  "Deriving a new marker from an existing one leaves the original as it was.",
  ["histories", "schedules", "configurations"],
  "every interleaving of clients that each own markers on the same forest or mesh (1D and 2D), including refine and "
  "coarsen by marker and derived markers",
  "The tests use one or two markers on a small fixed forest; interference between markers needs interleaved histories.",
  ["src/mesh.py"],
  ["marking and unmarking @ src/mesh.py Tree.mark, Tree.unmark, Tree.is_marked",
   "submesh refinement @ src/mesh.py Forest.refine, Forest.coarsen, Forest.record",
   "submesh queries @ src/mesh.py Tree.has_children, Tree.get_leaves, Forest.is_contained_in, Tree.make_rooted_subtree"],
  ["flags | client markers on nodes | src/mesh.py Tree"],
  ["get_leaves/traverse/depth by marker"])

p("C03", "Balancing terminates with the least balanced mesh containing the input",
  "Balancing a quadrilateral mesh or submesh always terminates and yields a mesh in which neighbours differ by at most one "
  "level. It only adds cells, and exactly those every balanced refinement must have, whatever the order in which cells are "
  "visited. Balancing again changes nothing and other submeshes keep their cells.",
  ["histories", "schedules", "configurations"],
  "every refinement and marking history on rectangular, periodic, L-shaped, ring, warped and unstructured meshes and every visiting order "
  "of the cells",
  "Tests balance a handful of fixed meshes and check only the final 2:1 condition; the visiting order depends on identity hashes.",
  ["src/mesh.py"],
  ["2:1 balancing @ src/mesh.py QuadMesh.balance, QuadMesh.is_balanced, QuadMesh.remove_supports",
   "neighbour queries across levels @ src/mesh.py Cell.get_neighbors, HalfEdge.twin"],
  ["support marks | cells added for balance | src/mesh.py QuadMesh"],
  ["leaf sets before and after balance"])

p("C04", "Neighbour, twin and boundary queries agree with geometry after any history",
  "At any time the neighbours, shared edges, twins, shared vertices and boundary segments that a mesh or submesh reports are "
  "exactly those implied by the positions of its cells, including across levels, periodic seams and holes. Adjacency is "
  "symmetric and shared vertices are shared objects. Traversing a boundary visits each of its edges once.",
  ["histories", "configurations"],
  "every refinement/marking/balancing history on 1D and 2D meshes (boxes, periodic, L-shaped, ring, warped, unstructured meshes with vertices of odd valence, cells listing their corners from any one)",
  "Tests query fixed cells of fixed meshes; stale or one-sided links appear only after particular refinement orders.",
  ["src/mesh.py"],
  ["half-edge twins and splitting @ src/mesh.py HalfEdge.twin, HalfEdge.split, HalfEdge.assign_twin",
   "neighbours @ src/mesh.py Interval.get_neighbor, Cell.get_neighbors",
   "boundary @ src/mesh.py Mesh2D.get_boundary_segments, Mesh2D.get_boundary_edges, Mesh1D.get_boundary_vertices, DCEL.make_periodic"],
  ["twin/next/previous | half-edge links | src/mesh.py HalfEdge"],
  ["get_neighbors, twin, get_boundary_segments, boundary vertices"])

p("C05", "Region marking labels exactly the matching entities, despite failing predicates",
  "Marking a region by a predicate labels exactly the vertices, edges and cells of the chosen mesh or submesh that satisfy "
  "it, honouring strict and boundary-only requests, and reading a region returns exactly the labelled entities. Labels stay "
  "correct as cells are refined. A predicate that raises or calls back into the library leaves other regions untouched and "
  "a repeated request completes.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of refinement and region requests by several clients, with predicates failing at any call or re-entering",
  "Tests mark a few fixed regions once on fixed meshes with predicates that never fail.",
  ["src/mesh.py"],
  ["marking and reading @ src/mesh.py Mesh1D.mark_region, Mesh2D.mark_region, Mesh1D.get_region, Mesh2D.get_region",
   "labels passed to children and twins @ src/mesh.py Interval.split, HalfEdge.split, QuadCell.split, Vertex.mark"],
  ["flags | labels of cells, edges and vertices | src/mesh.py"],
  ["get_region, is_marked of all entities"], None)

p("C06", "Point location finds the smallest active cell containing the point",
  "For any point, mesh or submesh and refinement history, the located cell is the smallest cell of the (sub)mesh that contains "
  "the point, and nothing is found exactly when no cell contains it. Points on shared edges and corners are found in one of "
  "their cells, and every form of point input gives the same answers.",
  ["histories", "inputs"],
  "every refinement and marking history, all points inside, on edges/corners and outside, from the mesh or from any cell, in "
  "every accepted input form",
  "Tests locate a few points in fixed meshes, mostly unrefined and unmarked.",
  ["src/mesh.py"],
  ["descent through the hierarchy @ src/mesh.py Mesh2D.locate_point, Mesh1D.bin_points, QuadMesh.bin_points, QuadCell.bin_points",
   "containment @ src/mesh.py Interval.contains_points, Cell.contains_points, convert_to_array"],
  [], ["locate_point, contains_points"])

p("C07", "Degree-of-freedom numbering is conforming, complete and stable over time",
  "Whatever the refinement and submesh history and the order of distribution requests, two cells of a (sub)mesh share a "
  "degree of freedom exactly when they share the finite-element node it sits at, and discontinuous elements share none. "
  "Every cell has all its degrees of freedom, numbers are unique and contiguous in first use, existing numbers never change, "
  "and the stored node positions are right. Distribution on an unbalanced mesh is refused without side effects.",
  ["histories", "schedules", "configurations"],
  "every interleaving of refinement, submesh marking and balancing with (re)distribution by several clients over all elements",
  "Tests distribute dofs once on fixed meshes and compare a few numbers.",
  ["src/fem.py"],
  ["dof distribution and sharing @ src/fem.py DofHandler.distribute_dofs, DofHandler.fill_dofs, DofHandler.share_dofs_with_neighbors, "
   "DofHandler.share_dofs_with_children",
   "dof queries @ src/fem.py DofHandler.get_cell_dofs, DofHandler.get_region_dofs, DofHandler.set_dof_vertices, DofHandler.get_dof_vertices"],
  ["dofs per cell | global numbers of every forest node | src/fem.py DofHandler"],
  ["get_cell_dofs, get_region_dofs, get_dof_vertices, n_dofs"])

p("C08", "Hanging-node constraints always describe the current mesh and give conformity",
  "Whenever they are asked for, the hanging-node constraints are exactly those of the current (sub)mesh: each node on the "
  "interior of a coarser edge is tied to that edge's nodes with interpolation weights, and no other node is constrained. "
  "A function satisfying them is continuous across every edge. Earlier requests, other submeshes and later refinement never "
  "leak into the answer.",
  ["histories", "schedules"],
  "every interleaving of refinement, balancing, renumbering and constraint requests for any submesh and element",
  "Tests ask once on a mesh with a single hanging node.",
  ["src/fem.py", "src/assembler.py", "src/solver.py"],
  ["hanging-node search and weights @ src/fem.py DofHandler.set_hanging_nodes, DofHandler.get_hanging_nodes, DofHandler.has_hanging_nodes",
   "constraint coefficients @ src/fem.py QuadFE.constraint_coefficients"],
  ["hanging nodes | constraints per marker | src/fem.py DofHandler"],
  ["get_hanging_nodes"])

p("C09", "A nodal function has one value everywhere, through any mesh or data history",
  "A finite-element function evaluates, at every point and for every derivative, sample and number of variables, to the "
  "combination of its stored values with the element's shape functions on the (sub)mesh it was defined on, also after the "
  "mesh has been refined further or its degrees of freedom redistributed. Evaluating through the mesh, a cell, or supplied "
  "shape values agrees. Changing or extending its data affects only that function, and a failing rule leaves it as it was.",
  ["histories", "inputs", "fault_sequences"],
  "every interleaving of refinement, redistribution and clients' define/modify/evaluate/interpolate/differentiate requests",
  "Tests evaluate a few functions on the mesh they were just defined on.",
  ["src/function.py", "src/fem.py"],
  ["nodal evaluation @ src/function.py Nodal.eval, Nodal.set_data, Nodal.add_samples, Nodal.differentiate",
   "interpolation @ src/function.py Map.interpolant",
   "shape functions and reference map @ src/fem.py QuadFE.shape, Basis.eval"],
  ["data | value per dof and sample | src/function.py Nodal"],
  ["eval, differentiate, interpolant"])

p("C10", "Sampled functions and kernels evaluate what was last set, and nothing else",
  "A sampled function or a kernel combining several of them always evaluates to the rules, parameters and samples its owner "
  "last set, column by column, for every input form, and kernels combine their functions sample by sample at the current "
  "cell. Modifying one function never changes another or the caller's own lists. A rule that raises during an evaluation "
  "leaves no trace, and incompatible sample counts are refused.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of clients building functions from shared rules, changing rules/parameters/samples, combining and "
  "evaluating them, with rules failing at any call",
  "Tests evaluate freshly built functions once; sharing and staleness need histories.",
  ["src/function.py", "src/assembler.py"],
  ["rules and parameters @ src/function.py Explicit.set_rules, Explicit.add_rule, Explicit.set_parameters, Constant.set_data",
   "evaluation @ src/function.py Explicit.eval, Constant.eval, Map.parse_x, Map.parse_fx",
   "kernels @ src/assembler.py Kernel.eval, Kernel.set_sample_size"],
  ["rules/parameters | sample definitions | src/function.py Explicit"],
  ["eval, n_samples"])

p("C13", "Constrained linear solves depend only on the system currently stated",
  "The solution of a finite-element linear system with boundary and hanging-node constraints is the one of the matrix, load "
  "and constraints last stated, whatever was solved, factored or constrained before and however often it is asked again. "
  "Constrained degrees of freedom take exactly their prescribed or interpolated values. A back-end or user failure leaves "
  "the system such that a retry gives the same solution, and systems on the same mesh never influence each other.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of clients stating matrices, loads and constraints and solving (with/without factoring), with failures "
  "of the linear-algebra back end or boundary functions at any call",
  "Tests solve each system once, with one constraint set.",
  ["src/solver.py", "src/fem.py"],
  ["constraints @ src/solver.py LinearSystem.add_dirichlet_constraint, LinearSystem.constrain_matrix, LinearSystem.constrain_rhs",
   "solve and resolve @ src/solver.py LinearSystem.factor_matrix, LinearSystem.solve_system, LinearSystem.resolve_constraints"],
  ["constraints, factor flags | what has been applied already | src/solver.py LinearSystem"],
  ["get_solution"])

EXTRA = os.path.join(V, "tools", "props_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

PROPS.sort(key=lambda q: q["id"])
NA = globals().get("NOT_APPLICABLE", [])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in PROPS:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")

TECH = "deterministic simulation with fault injection: seeded interleaved histories vs. executable reference model"
checks = []
for q in PROPS:
    i = q["id"]
    if i not in registry.PROPS:
        continue
    r = registry.PROPS[i]
    checks.append({
        "property": i, "quick_cmd": "python3 -m sim.check %s" % i,
        "thorough_cmd": "python3 -m sim.check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "exploration",
        "level_note": "Seeded search over %d (quick) / %d (thorough) simulated runs; a clean batch is evidence, not proof. "
                      "Trusts the reference model and the seams listed in DESIGN.md; real code: %s."
                      % (r["runs"]["quick"], r["runs"]["thorough"], ", ".join(r["real"]))})
claimed = {c["property"] for c in checks}
na = list(NA)
for q in PROPS:
    assert q["id"] in claimed or q["id"] in {n["property"] for n in na}, q["id"]
man = {"version": 1, "setup_cmd": "python3 -m sim.check --self-test",
       "hooks": {"guard": "QUADMESH_SIM (unused: no hook was needed in /repo)", "enable": "nothing to enable: all seams are "
                 "module attributes and arguments the simulator replaces from outside", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "One simulator (sim/), one registry of checks; see DESIGN.md. known_findings.jsonl lists findings and fixes."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties", len(checks), "checks")
