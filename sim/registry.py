"""Properties with a check: run counts, evidence texts."""
REALC = ["mesh", "fem", "assembler", "function", "solver", "spd", "gmrf"]
BASE_ASSUME = ["the reference models in sim/models.py and sim/props are right",
               "identity-hash order, clock, normal variates, simulated files, user callbacks and LA "
               "back-end failures are the only nondeterminism; each is behind a seam",
               "BLAS is single-threaded in the simulated process"]
STUB = ["memory addresses as hash values (seeded serial hash)", "wall clock (virtual clock)"]

PROPS = {}


def add(pid, quick, thorough, rule, measure, real, stub=(), assume=(), level="exploration", det=24):
    PROPS[pid] = {"runs": {"quick": quick, "thorough": thorough}, "rule": rule, "measure": measure,
                  "real": list(real), "stub": STUB + list(stub), "assumptions": BASE_ASSUME + list(assume),
                  "level": level, "det": det}


add("C01", 2400, 30000,
    "One case is a seeded interleaving of several clients' refine, split, coarsen, mark and delete "
    "requests on one forest or mesh, under a seeded hash order, compared node by node with a reference "
    "forest after every request.",
    "distinct (topology, request kind) pairs reached", ["mesh.Tree", "mesh.Forest", "mesh.Interval",
    "mesh.QuadCell", "mesh.Mesh1D", "mesh.QuadMesh"])
add("C02", 2400, 30000,
    "One case is a seeded interleaving of several clients, each owning labels on the same forest or "
    "mesh, that mark, unmark, refine into, coarsen and derive submeshes; every label on every node is "
    "compared with the reference after every request.",
    "distinct (topology, label assignment) pairs reached", ["mesh.Tree", "mesh.Forest", "mesh.Mesh1D",
    "mesh.QuadMesh"])
add("C03", 1600, 20000,
    "One case is a seeded interleaving of refinement, labelling and balancing requests on a 2D mesh "
    "(box, periodic, L-shaped, ring, warped); the order in which the balancer visits cells is a seeded "
    "permutation; the result is compared with the closure computed by the reference mesh.",
    "distinct (leaf set, request) pairs reached", ["mesh.QuadMesh", "mesh.QuadCell", "mesh.HalfEdge", "mesh.Forest"])
add("C04", 1600, 20000,
    "One case is a seeded history of refinement, labelling, balancing and edge-marking requests; every "
    "neighbour, twin, shared vertex and boundary segment is compared with combinatorial adjacency.",
    "distinct (leaf set, request) pairs reached", ["mesh.QuadMesh", "mesh.Mesh1D", "mesh.Interval", "mesh.QuadCell",
    "mesh.HalfEdge", "mesh.Vertex", "mesh.DCEL"])
add("C05", 1600, 20000,
    "One case is a seeded interleaving of clients refining a mesh and marking/reading regions through "
    "predicates that may raise at a chosen call or re-enter the library; all labels of all entities are "
    "compared with a reference after every request.",
    "distinct (topology, entity label assignment) states reached", ["mesh.Mesh1D", "mesh.Mesh2D", "mesh.HalfEdge",
    "mesh.Vertex", "mesh.Forest"], stub=["user predicates (scripted failures and re-entrancy)"])
add("C06", 1600, 20000,
    "One case is a seeded refinement and labelling history with point-location requests (interior, edge, "
    "corner and outside points, all input forms, from the mesh or from any cell) checked against geometry.",
    "distinct (submesh leaf set, request form) pairs reached", ["mesh.Mesh1D", "mesh.QuadMesh", "mesh.Interval",
    "mesh.QuadCell"])
add("C07", 1600, 20000,
    "One case is a seeded interleaving of mesh refinement, submesh labelling and balancing with dof "
    "distribution requests of three clients (each with its own element and handler), repeated on changing "
    "meshes and submeshes, some refused because the mesh is unbalanced; every dof of every cell is compared "
    "with the node's geometric position and with its earlier number.",
    "distinct (forest, request, element) triples reached", ["fem.DofHandler", "fem.QuadFE", "mesh.Mesh1D",
    "mesh.QuadMesh", "mesh.RQuadCell", "mesh.RInterval"])
add("C08", 1200, 16000,
    "One case is a seeded interleaving of mesh refinement, submesh labelling, balancing and renumbering with "
    "requests of two clients for the hanging-node constraints of the mesh and of submeshes (asked early, "
    "repeatedly and after the mesh changed), compared with constraints derived from geometry and with the "
    "continuity of a random constrained function.",
    "distinct (forest, request, element) triples reached", ["fem.DofHandler", "fem.QuadFE", "mesh.QuadMesh",
    "mesh.RQuadCell", "mesh.RHalfEdge"])
add("C13", 1200, 16000,
    "One case is a seeded interleaving of three clients, each with a linear system on the same dof handler "
    "(mesh or submesh): new matrices, right-hand sides, boundary constraints, factored and unfactored solves, "
    "repeated solves, back-end failures and failing boundary functions with retry; every solution is compared "
    "with dense elimination.",
    "distinct (request, submesh, constrained dofs, size) states reached", ["solver.LinearSystem", "fem.DofHandler",
    "fem.Basis", "function.Explicit", "function.Nodal", "mesh"], stub=["back-end failures (injected at the call)"])
add("C09", 1000, 14000,
    "One case is a seeded interleaving of mesh refinement, redistribution and submesh snapshots with clients "
    "that define, evaluate, modify, extend, interpolate and differentiate nodal functions (one and two "
    "variables, several samples, failing rules); values are compared with an independent Lagrange evaluation.",
    "distinct (forest, request, set of live functions) states reached", ["function.Nodal", "function.Explicit",
    "function.Map", "fem.Basis", "fem.DofHandler", "fem.QuadFE", "mesh"], stub=["user rules (scripted failures)"])
add("C10", 1600, 20000,
    "One case is a seeded interleaving of clients that build sampled functions from shared lists of rules, change "
    "rules, parameters and samples, combine functions into kernels (also cell-dependent and nested ones) and "
    "evaluate them in every input form, with rules that fail; values are compared with direct evaluation.",
    "distinct (request, set of functions with rules and parameters) states reached", ["function.Explicit",
    "function.Constant", "function.Nodal", "assembler.Kernel"], stub=["user rules (scripted failures)"])
add("C11", 800, 12000,
    "One case is a seeded history in which three clients build and assemble lists of problems (constant, linear, "
    "bilinear and integral forms over cells, edges and vertices, sampled and shared kernels, bases on coarser "
    "submeshes) on a mesh and its submeshes while another client refines the mesh; every scalar, vector and matrix "
    "is compared with a direct sum over cells.",
    "distinct (request, mesh size, submesh, rule, problem list) states reached", ["assembler.Assembler",
    "assembler.AssembledForm", "assembler.Form", "assembler.IIForm", "assembler.IPForm", "assembler.Kernel",
    "assembler.GaussRule", "fem.Basis", "fem.DofHandler", "fem.QuadFE", "function", "mesh"])
add("C12", 800, 12000,
    "One case is a seeded interleaving of three clients whose assemblers share bases and coefficient functions: "
    "assembly (also repeated, keeping cellwise data, over a region, or interrupted by a failing coefficient and "
    "retried), boundary values, hanging nodes, changed coefficients, solves and mesh refinement by others; what every "
    "assembler holds is compared with an independent sum and elimination after every request.",
    "distinct (request, problem list, constrained dofs) states reached", ["assembler.Assembler",
    "assembler.AssembledForm", "assembler.Form", "assembler.Kernel", "fem.Basis", "fem.DofHandler", "function", "mesh"],
    stub=["coefficient functions (scripted failures)"])
add("C15", 3000, 60000,
    "One case is a seeded interleaving of clients that decompose matrices (definite, semidefinite, indefinite, sparse and "
    "dense, with and without a mass matrix), restate and decompose again in place, multiply and solve with the "
    "decompositions and their square roots, while back ends fail at chosen calls and requests are repeated; everything is "
    "compared with dense arithmetic.",
    "distinct (request, list of live decompositions) states reached", ["spd.CholeskyDecomposition", "spd.EigenDecomposition",
    "spd.SPDMatrix"], stub=["back-end failures (injected at the call)"])
add("C16", 1600, 30000,
    "One case is a seeded interleaving of clients that define Gaussian fields (by covariance, precision or canonical "
    "parameters, from matrices, decompositions or covariance kernels on refined meshes and submeshes), restate their "
    "parameters, sample, expand, truncate, condition and reduce them, while back ends fail at chosen calls, the random "
    "stream is chosen by the simulator and another client refines the mesh; laws are compared with dense arithmetic.",
    "distinct (request, list of live fields) states reached", ["gmrf.GaussianField", "gmrf.Covariance", "spd",
    "assembler.Assembler", "assembler.IPForm", "fem.DofHandler", "fem.Basis", "mesh"],
    stub=["random stream (chosen by the simulator)", "back-end failures (injected at the call)"])
add("C17", 2000, 40000,
    "One case is a seeded history in which clients import generated mesh files (quadrilaterals or triangles, any node order "
    "and numbering, with names, tags, comments, line ends) from a simulated disk with short reads, interrupted reads, read "
    "errors at any offset, missing, truncated, partly lost, duplicated or zeroed content, read them again after repair, and "
    "refine earlier imports; an import either fails or is compared cell by cell with the mesh in the file.",
    "distinct (request, file, fault, live meshes) states reached", ["mesh.DCEL", "mesh.Mesh2D", "mesh.QuadMesh"],
    stub=["disk (simulated file with planned faults)"])
add("C14", 800, 12000,
    "One case is a seeded interleaving of three clients' adaptive solution processes on one mesh: refinement of the mesh and of "
    "submeshes, error indicators from cellwise data, renumbering, boundary marking, assembly, boundary and hanging-node "
    "constraints, solves by either route (with failing coefficients and back ends, retried), implicit time steps and fixed-point "
    "iterations using solutions of earlier meshes, transfer between meshes and functionals of solutions; exact solutions are "
    "polynomials of the element space, so every answer is known in closed form.",
    "distinct (request, mesh size, meshes and modes of live solutions) states reached", ["assembler.Assembler", "solver.LinearSystem",
    "assembler.Form", "assembler.Kernel", "assembler.GaussRule", "fem.Basis", "fem.DofHandler", "fem.QuadFE", "function.Nodal",
    "function.Explicit", "mesh"], stub=["coefficient functions (scripted failures)", "back-end failures (injected at the call)"])
add("C18", 600, 10000,
    "One case is a seeded set of sessions (meshes, submeshes, regions, numberings, functions, kernels, assembly, systems, "
    "decompositions, fields), each executed alone and then again in one process, interleaved by the scheduler with the others "
    "under another hash order and clock, with read-only and verbose requests and plots in between; every answer is compared "
    "with the answer the session got alone.",
    "distinct (request, position, kinds of meshes) states reached", ["mesh", "fem", "function", "assembler", "solver", "spd",
    "gmrf", "plot", "diagnostics"])
add("C19", 2000, 40000,
    "One case is a seeded interleaving of clients that refine, label and balance one mesh while others ask for the geometry of "
    "its cells and edges on any level: corners, measures, boxes, normals, maps with first and second derivatives in both "
    "directions, positions of sub-cells and sub-edges, containment of points near and on edges, and meeting line segments, "
    "compared with the geometry computed from the roots' corners.",
    "distinct (request, mesh kind, size, leaves) states reached", ["mesh.Vertex", "mesh.HalfEdge", "mesh.Interval", "mesh.Cell",
    "mesh.QuadCell", "mesh.Mesh1D", "mesh.QuadMesh"])
add("C20", 1600, 30000,
    "One case is one session (refinement, submeshes, balancing, regions, point location, boundary, neighbours, geometry, line "
    "segments, numberings, constraints, functions and derivatives, assembly, constrained solves, covariances) executed in step "
    "on a domain about the origin and on the same domain scaled (per axis) by powers of two and shifted far from the origin; "
    "every answer, carried back, is compared.",
    "distinct (request, placement, mesh kind, size) states reached", ["mesh", "fem", "function", "assembler", "solver", "gmrf.Covariance"])
