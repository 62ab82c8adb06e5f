p("C11", "Assembled arrays are the sums of cellwise integrals, whatever came before",
  "For every list of problems (constant, linear, bilinear and integral forms over cells, edges or marked vertices, sampled or "
  "deterministic kernels, derivatives of test and trial functions, bases on the same or a coarser submesh, restricted to "
  "marked regions), what an assembler returns equals the direct sum, over the current leaf cells of its submesh, of quadrature "
  "values of the integrand, indexed by degree of freedom in increasing order. The answer does not depend on the order or "
  "grouping of forms, on forms assembled earlier, on other assemblers sharing bases and functions, or on later refinement of "
  "the mesh by others; the caller's list of problems is unchanged.",
  ["histories", "schedules", "configurations"],
  "every interleaving of clients building and assembling problem lists on a mesh and its submeshes with refinement by others",
  "Tests assemble a few fixed forms once on freshly built meshes.",
  ["src/assembler.py", "src/fem.py", "src/function.py"],
  ["assembly loop and form evaluation @ src/assembler.py Assembler.assemble, Form.eval, IIForm.eval, IPForm.eval, Kernel.eval",
   "shape functions on cells @ src/assembler.py Assembler.shape_eval, GaussRule.mapped_rule, fem.py QuadFE.shape",
   "aggregation @ src/assembler.py AssembledForm.update_cellwise, AssembledForm.distribute, AssembledForm.consolidate"],
  ["aggregate data | triplets and dof lists per problem | src/assembler.py AssembledForm"],
  ["get_matrix, get_vector, get_scalar, aggregate_data"])

p("C12", "An assembler restates its constrained system from scratch at every assembly",
  "Whatever was assembled, interrupted, constrained or solved before, assembling produces the system of the current "
  "coefficients with the boundary values and hanging-node constraints set so far eliminated: constrained rows and columns are "
  "distributed to their supports or moved to the boundary term, the rest is untouched. Assembling again (after a failing "
  "coefficient, a changed parameter, or nothing at all) never accumulates. Cellwise data is the local contributions exactly "
  "when asked for. Between assemblies nothing an assembler holds changes, and the solution on the (sub)mesh solves the "
  "constrained system, taking prescribed values at boundary and interpolated ones at hanging nodes.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaving of assembly, failure of a coefficient at any evaluation, boundary and hanging-node constraints, "
  "coefficient changes, solves and mesh refinement by several clients",
  "Tests assemble each system once and check a few solutions.",
  ["src/assembler.py", "src/fem.py"],
  ["constraints @ src/assembler.py Assembler.add_dirichlet, Assembler.add_hanging_nodes, Assembler.hanging_node_matrix",
   "elimination @ src/assembler.py AssembledForm.distribute, AssembledForm.consolidate",
   "solution @ src/assembler.py Assembler.solve, Assembler.assembled_bnd, Assembler.get_dofs"],
  ["cellwise and aggregate data | what has been assembled so far | src/assembler.py AssembledForm",
   "dirichlet_bc, hanging_nodes | constraints per problem | src/assembler.py Assembler"],
  ["get_matrix, get_vector, assembled_bnd, get_dofs, cellwise_data, solve"])

p("C15", "A matrix decomposition stands for one matrix in everything it computes",
  "For every symmetric matrix (dense or sparse, with or without a mass matrix), reconstruction, products, solves and the "
  "products and solves with the square root agree with one matrix: the given one or, where it is not definite, a definite "
  "matrix that differs from it only where needed (eigenvalues below the bound are raised to it), with the original still "
  "recoverable. Definite matrices are never called degenerate. Restating and decomposing again in place, several "
  "decompositions alive, and back-end failures followed by another try change no answer; failures surface and the caller's "
  "matrices and vectors stay untouched.",
  ["histories", "fault_sequences", "configurations"],
  "every interleaving of decompositions, re-decompositions, products and solves with failing back ends",
  "Tests decompose a few fixed matrices once.",
  ["src/spd.py"],
  ["Cholesky and modified Cholesky @ src/spd.py CholeskyDecomposition.decompose, CholeskyDecomposition.modchol_ldlt",
   "eigendecomposition @ src/spd.py EigenDecomposition.decompose, EigenDecomposition.set_eigenvalue_lower_bound",
   "operations @ src/spd.py CholeskyDecomposition.solve, CholeskyDecomposition.sqrt_solve, EigenDecomposition.sqrt_dot"],
  ["factors and matrix | what was decomposed last | src/spd.py"],
  ["reconstruct, dot, solve, sqrt_dot, sqrt_solve, get_rank, get_range"])

p("C16", "Samples, expansions and conditioned fields follow the law the field states",
  "A Gaussian field's samples in covariance, precision and canonical form are mean + W z with W W' its covariance, for any "
  "variates given or drawn, each drawn variate used at most once. Expansions over a range of modes and truncated fields "
  "carry exactly those modes. Conditioning on linear data gives samples and fields that satisfy the data exactly and follow "
  "the conditional law, also when repeated or on a reduced support; reducing the support keeps the law. A covariance operator "
  "on a mesh or submesh is its kernel's, by interpolation or Galerkin projection. No request changes the field, other fields "
  "or the caller's arrays; failures surface and leave the field usable.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every history of restating, sampling, truncating, conditioning and reducing fields, with a chosen random stream, failing "
  "back ends and refinement of the mesh by others",
  "Tests sample from a handful of fixed fields; the law of what comes out is not compared.",
  ["src/gmrf.py", "src/spd.py"],
  ["sampling @ src/gmrf.py GaussianField.sample, GaussianField.KL_sample, GaussianField.truncate",
   "conditioning @ src/gmrf.py GaussianField.condition, GaussianField.update_support",
   "covariance operators @ src/gmrf.py Covariance.assemble, Covariance.set_kernel, distance"],
  ["mean, canonical mean, covariance, precision, support | law of the field | src/gmrf.py GaussianField"],
  ["sample, KL_sample, truncate, condition, update_support, Covariance"])

p("C17", "A mesh file is imported as written or refused, whatever the disk does",
  "Importing a complete gmsh file (quadrilaterals or triangles, any node order and numbering, names, tags, comments, line "
  "ends, with or without a final newline) gives exactly the file's cells with their corners, shared vertices, twins, listed "
  "edges, names and tags, however slowly or piecewise the file is read. A file that cannot be read, is missing, truncated, or "
  "has lost, repeated or zeroed parts is never imported as another mesh and never makes the import run forever: it is refused, "
  "the file is closed, meshes imported earlier are unaffected, and the repaired file can be imported.",
  ["fault_sequences", "histories", "configurations"],
  "every read error offset, truncation point, lost, repeated or zeroed part, and interleaving with other imports and use of "
  "imported meshes",
  "No test in the suite imports a file successfully.",
  ["src/mesh.py"],
  ["reading files @ src/mesh.py DCEL.grid_from_gmsh, DCEL.determine_half_edges",
   "building the mesh @ src/mesh.py Mesh2D.__init__, QuadMesh.__init__"],
  ["points, edges, faces, subregions | what the file lists | src/mesh.py DCEL"],
  ["Mesh2D(file_path), QuadMesh(file_path), dcel"])

p("C14", "Adaptive solution processes reproduce every solution the elements can represent",
  "On every locally refined mesh or submesh, however it came about, solving a diffusion-advection-reaction problem whose exact "
  "solution the element reproduces gives that solution: at every degree of freedom (hanging ones included) and at every point, "
  "for Dirichlet, flux and Robin sides, periodic directions, variable coefficients, several loads at once, a nonlinear "
  "iteration and a time step from a coarser mesh's solution, by the assembler's or the linear system's route. Carrying the "
  "solution to a finer mesh keeps it; integrals over domain, sides and cells are those of the exact solution.",
  ["histories", "schedules", "fault_sequences", "configurations"],
  "every interleaving of clients refining, numbering, assembling, constraining, solving, transferring and measuring on one mesh "
  "and its submeshes, with interrupted assemblies and solves",
  "Tests solve fixed problems on a few meshes, mostly with a single refinement.",
  ["src/assembler.py", "src/solver.py", "src/fem.py", "src/function.py"],
  ["assembly and solution @ src/assembler.py Assembler.assemble, Assembler.solve, Assembler.add_hanging_nodes",
   "linear systems @ src/solver.py LinearSystem.solve_system, LinearSystem.add_dirichlet_constraint, LinearSystem.get_solution",
   "hanging nodes and regions @ src/fem.py DofHandler.set_hanging_nodes, DofHandler.get_region_dofs",
   "transfer @ src/function.py Map.interpolant, Nodal.eval"],
  ["dofs, constraints, hanging nodes | what the discrete space is | src/fem.py DofHandler"],
  ["solve, get_solution, eval, interpolant, get_scalar, cellwise_data"])

p("C18", "What a session is told depends on its own requests only",
  "A program's answers (cells, regions, neighbours, located points, degree-of-freedom numbers, constraints, function values, "
  "assembled systems, solutions, decompositions and fields) are the same whether it runs alone or interleaved with other "
  "programs in the process, whatever the hash order of objects, the clock, verbosity, or how often someone looks: read-only "
  "requests (traversals, neighbour and point queries, evaluations, samples, statistics, plots of meshes, edges, dofs, contours "
  "and lines) between its steps change no later answer.",
  ["schedules", "histories", "configurations"],
  "every interleaving of sessions, hash orders, clock behaviours and read-only requests between any two steps",
  "Tests run one session each, in one hash order, and never look at the same objects twice.",
  ["src/mesh.py", "src/fem.py", "src/function.py", "src/assembler.py", "src/solver.py", "src/plot.py", "src/diagnostics.py"],
  ["meshes @ src/mesh.py Tree.traverse, Mesh2D.get_region, Cell.get_neighbors, Mesh2D.locate_point",
   "numbering @ src/fem.py DofHandler.distribute_dofs, DofHandler.get_region_dofs",
   "evaluation and assembly @ src/function.py Nodal.eval, src/assembler.py Assembler.assemble",
   "observers @ src/plot.py Plot.mesh, Plot.dofs, Plot.contour, src/diagnostics.py Verbose.tic"],
  ["caches, marks, flags | anything kept between requests | src/mesh.py, src/fem.py, src/assembler.py"],
  ["all answers"])

p("C19", "Cells and edges stay where they are and answer geometric questions accordingly",
  "However the mesh was refined, labelled and balanced, corners of existing cells never move, children tile their parents and "
  "leaves of every submesh add up to the domain; measures, lengths, boxes and outward normals follow from the corners. Maps "
  "between reference and physical cells and edges are inverse to each other with matching first and second derivatives. The "
  "position and width of every sub-cell, sub-interval and sub-edge locate it in its ancestor (and outsiders are refused), and "
  "containment of points and meeting of line segments are what geometry says, in every input form and direction.",
  ["histories", "inputs", "configurations"],
  "every interleaving of refinement, labelling and balancing on straight, periodic and distorted meshes, all cells and edges on "
  "all levels, points and segments at any distance and angle",
  "Tests ask a handful of axis-parallel or symmetric cells and edges.",
  ["src/mesh.py"],
  ["maps @ src/mesh.py QuadCell.reference_map, Interval.reference_map, HalfEdge.reference_map",
   "positions @ src/mesh.py QuadCell.subcell_position, Interval.subcell_position, HalfEdge.subcell_position",
   "containment @ src/mesh.py HalfEdge.contains_points, Cell.contains_points, HalfEdge.intersects_line_segment",
   "subdivision @ src/mesh.py QuadCell.split, HalfEdge.split, Interval.split"],
  ["vertices | coordinates of cells and edges | src/mesh.py"],
  ["area, length, unit_normal, reference_map, subcell_position, contains_points, intersects_line_segment, bounding_box"])

p("C20", "Answers follow the domain wherever it lies and whatever the unit of length",
  "A domain moved far from the origin or measured in other units (from nanometres to megametres, or stretched along one axis) "
  "gets the same answers, carried along, after the same history: cells, periodic sides, neighbours, regions, boundary, located "
  "points, containment and intersections, maps, degree-of-freedom numbers, hanging-node constraints, function values, "
  "derivatives, assembled matrices and vectors, constrained solutions and covariances, up to the roundoff of the coordinates.",
  ["histories", "configurations", "inputs"],
  "every history of requests on every kind of mesh, in combination with scales of 2^-30 to 2^30 (different per axis) and shifts "
  "of up to 2^20 times the extent",
  "Tests live on the unit square and interval, where absolute tolerances happen to fit.",
  ["src/mesh.py", "src/fem.py", "src/function.py", "src/assembler.py", "src/solver.py"],
  ["tolerances @ src/mesh.py Cell.contains_points, HalfEdge.contains_points, HalfEdge.intersects_line_segment, QuadCell.is_rectangle",
   "periodic sides @ src/mesh.py DCEL.make_periodic",
   "maps @ src/mesh.py QuadCell.reference_map, HalfEdge.reference_map",
   "functions and systems @ src/function.py Nodal.eval, src/fem.py QuadFE.shape, src/assembler.py Assembler.assemble, "
   "src/solver.py LinearSystem.solve_system"],
  ["coordinates | corners of cells | src/mesh.py Vertex"],
  ["every query of the library, on a domain and on its image"])
