#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as code so that it stays valid JSON).
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))
I=["inputs"];C=["configurations"]
p("C01","Solved boundary values are those of the exact harmonic potential",
 "For a closed surface whose patches share no mesh nodes along sharp edges and boundary data taken from a harmonic potential (any mix of prescribed potential and prescribed flux, in 2D or 3D, direct or accelerated solution), a complete run returns the unknown boundary potential and flux of that same potential up to discretisation error, and that error decreases at least linearly in the mesh size under refinement; potentials that the elements represent exactly on flat faces are recovered to quadrature accuracy. Pure-flux problems are determined up to a constant, which is fixed by the potential at one node.",
 ["inputs","configurations"],"all closed meshes, harmonic potentials, boundary-condition splits, element orders, mappings, solution methods and refinement levels the program accepts",
 "No stable test runs a complete solve: the 20 tests call expansions and singular integrals on one hard-coded input each.",
 ["source/driver.cc","source/bem_problem.cc","source/boundary_conditions.cc","source/bem_fma.cc","source/computational_domain.cc","source/main.cc"],
 [("run loop: read, refine, solve, errors, output","source/driver.cc Driver::run"),("solve","source/bem_problem.cc BEMProblem::solve_system"),("pure-Neumann shift","source/boundary_conditions.cc BoundaryConditions::solve_problem")],
 [("phi, dphi_dn","nodal boundary potential and flux","include/boundary_conditions.h")],["phi and dphi_dn after a run","printed error norms"])
p("C02","Boundary operators and solid angles equal their defining integrals",
 "Every entry of the assembled single- and double-layer matrices equals the integral of the Laplace Green function (or of its normal derivative) times the basis function over the surface, to the accuracy of the configured quadrature, including cells that contain the collocation point or one of its coincident copies. The double layer applied to a constant gives minus the interior solid-angle fraction at each node, which on polyhedra and polygons is the geometric value.",
 ["inputs","configurations"],"all node/cell pairs (regular, adjacent, singular, across coincident nodes), all meshes, dimensions, element orders, mappings and quadrature settings",
 "No test assembles an operator; the strongly singular test checks a different code path on one cell.",
 ["source/bem_problem.cc","include/laplace_kernel.h"],
 [("direct assembly with singular-cell detection","source/bem_problem.cc BEMProblem::assemble_system"),("Green kernels","include/laplace_kernel.h LaplaceKernel::kernels"),("solid angle","source/bem_problem.cc BEMProblem::compute_alpha"),("singular quadrature","source/bem_problem.cc BEMProblem::get_singular_quadrature")],
 [("neumann_matrix, dirichlet_matrix, alpha","double/single layer and solid angle","include/bem_problem.h")],["matrices after assembly","alpha after solve"])
p("C03","Accelerated operator products equal the direct ones to the expansion order",
 "For every mesh, octree setting, density pair and thread or rank count, the accelerated products of the double- and single-layer operators with nodal vectors equal the exact discretised sums up to a truncation error that is bounded relative to the data and decreases as the truncation order grows. The products are linear in the densities and do not depend on how the tree is built beyond that error.",
 ["inputs","configurations"],"all meshes, tree depths, points per block, truncation orders, quadrature orders and density vectors",
 "No test builds an octree or applies the accelerated operator.",
 ["source/bem_fma.cc","source/octree_block.cc","source/multipole_expansion.cc","source/local_expansion.cc"],
 [("near field","source/bem_fma.cc BEMFMA::direct_integrals"),("upward pass","source/bem_fma.cc BEMFMA::generate_multipole_expansions"),("downward pass","source/bem_fma.cc BEMFMA::multipole_matr_vect_products")],
 [("prec_neumann_matrix, prec_dirichlet_matrix, block expansions","near-field matrices and far-field state","include/bem_fma.h")],["results of one accelerated product"])
p("C04","The octree accounts for every node/quadrature-point pair exactly once",
 "In the tree built for any mesh and settings, each node and each quadrature point lies in exactly one leaf, whose box contains it, children partition their parent, and leaves respect the points-per-block limit unless the depth limit is reached. For every node and every quadrature point, exactly one of near-field integration, a same-level expansion conversion in one ancestor, or one direct expansion evaluation accounts for the pair, and expansions are only used between separated boxes.",
 ["inputs","configurations"],"all meshes, node distributions, tree depths and points-per-block limits",
 "No test builds an octree; interaction lists are invisible in final errors for near-field-dominated meshes.",
 ["source/bem_fma.cc","source/octree_block.cc","include/octree_block.h"],
 [("tree and interaction lists","source/bem_fma.cc BEMFMA::generate_octree_blocking"),("block lists","source/octree_block.cc OctreeBlock")],
 [("blocks, childlessList, parentList, dof_to_block, quad_point_to_block, int/non-int lists","tree state","include/bem_fma.h")],["tree after construction"])
p("C05","Multipole and local expansions reproduce the field of their sources",
 "A multipole expansion built from any point sources and dipoles evaluates, outside their bounding sphere, to the exact field within the geometric truncation bound of its order, also after re-centring; the local expansion converted from it, and its re-centred copies, do so inside their convergence sphere. Accumulation is linear: order of contributions and scaling by strengths only change rounding.",
 I,"all orders the tables support, source sets, strengths, directions, centres and evaluation points including axis-aligned and degenerate positions",
 "Stable tests compare one fixed point configuration per operation against a stored output.",
 ["source/multipole_expansion.cc","source/local_expansion.cc","source/local_expansion_coeff.cc","include/multipole_expansion.h","include/local_expansion.h"],
 [("source accumulation","source/multipole_expansion.cc MultipoleExpansion::Add/AddNormDer"),("multipole shift","source/multipole_expansion.cc MultipoleExpansion::Add(child)"),("conversion and local shift","source/local_expansion.cc LocalExpansion::Add")],
 [("coefficients","spherical-harmonic coefficients","include/multipole_expansion.h")],["Evaluate()"])
p("C06","Expansion objects behave as independent values",
 "Copying or assigning any expansion or coefficient table, including default-constructed, empty, self-assigned and differently-sized ones, yields an object with the same observable value that shares no storage with its source: later changes or destruction of either never affect the other or the shared translation tables. No such operation reads uninitialised memory, frees twice or leaks.",
 ["programs","histories"],"all sequences of construction, copy, assignment, container growth, accumulation, evaluation and destruction",
 "The two copy tests copy one object once and compare a printed value.",
 ["source/multipole_expansion.cc","source/local_expansion.cc","source/local_expansion_coeff.cc","source/octree_block.cc"],
 [("copy/assign of expansions","source/multipole_expansion.cc, source/local_expansion.cc"),("coefficient table copy","source/local_expansion_coeff.cc"),("block copies","source/octree_block.cc OctreeBlock::CopyContent")],
 [],["values read back from copies","AddressSanitizer/LeakSanitizer reports"])
p("C07","Tabulated Legendre functions and derivatives match their definitions",
 "For every supported degree and order and every argument in [-1,1], the spherical-normalised associated Legendre function returned equals its mathematical definition to relative round-off accuracy, and the returned derivative equals the derivative of that function. Values obey parity, the recurrence relations and the addition theorem.",
 I,"all degrees 0..20, orders 0..n and arguments including the end points and zeros",
 "Stable tests touch a handful of arguments and only low degrees through expansions.",
 ["source/ass_leg_function.cc","include/ass_leg_function.h"],
 [("function table","source/ass_leg_function.cc"),("dispatch","include/ass_leg_function.h")],[],["GetAssLegFunSph, GetAssLegFunSphDeriv"])
p("C08","Singular and hypersingular element integrals equal their limit values",
 "For any (flat or curved) cell, element order and interior or boundary collocation point, the element integrals of the strongly singular and hypersingular gradient kernels equal the finite-part limits of the regular integrals outside a vanishing neighbourhood, and the free-term vector equals the corresponding boundary contribution. They transform as vectors under rotation, are invariant under translation, and scale with the cell by the kernel's homogeneity.",
 I,"all non-degenerate cells, reference points, element orders and mappings",
 "Stable tests evaluate one cell and one point per kernel.",
 ["source/singular_kernel_integral.cc","include/singular_kernel_integral.h"],
 [("polar-coordinate subtraction","source/singular_kernel_integral.cc SingularKernelIntegral<3>")],[],["evaluate_VkNj_integrals, evaluate_WkNj_integrals, evaluate_free_term_b"])
p("C09","Results do not depend on the number of MPI processes",
 "For every problem and configuration, a run on any number of processes (each holding at least one node) produces, node by node (matched by position and surface patch), the same potentials, fluxes, solid angles, normals, gradients, constraints and refined meshes as the serial run, up to solver tolerance (up to discretisation error for fluxes at corners where three or more prescribed-potential patches meet). Pure-flux solutions agree up to one additive constant.",
 ["configurations","schedules"],"all process counts up to the number of cells, meshes, methods, boundary-condition splits and local refinement cycles",
 "All stable tests run on one process.",
 ["source/bem_problem.cc","source/bem_fma.cc","source/boundary_conditions.cc","source/computational_domain.cc","include/constrained_matrix.h"],
 [("ownership sets and subdomain numbering","source/bem_problem.cc BEMProblem::reinit"),("partitioning","source/computational_domain.cc update_triangulation"),("ghost exchange in the constrained operator","include/constrained_matrix.h")],
 [("this_cpu_set, vector_this_cpu_set, ghosted_set","ownership","include/bem_problem.h")],["gathered nodal results"])
p("C10","Threaded stages are race-free and give schedule-independent results",
 "Whatever the thread count, task granularity and interleaving, the multithreaded stages of the accelerated solver (near-field integration, expansion generation, upward and downward passes, preconditioner construction) perform no conflicting unsynchronised accesses and produce the same products and preconditioner as the single-threaded run up to summation rounding.",
 ["schedules"],"all interleavings of worker and copier tasks, thread counts and grain sizes",
 "Stable tests never enter the threaded stages.",
 ["source/bem_fma.cc"],
 [("WorkStream worker/copier split","source/bem_fma.cc direct_integrals, multipole_integrals, ascend/descend, FMA_preconditioner"),("parallel_for over index ranges","source/bem_fma.cc")],
 [("shared expansions, near-field matrices","written by copiers or disjoint indices","include/bem_fma.h")],["ThreadSanitizer reports","results under seeded schedules"],
 "none in /repo: a replacement of the task scheduler headers, visible to ThreadSanitizer, is put first on the include path")
p("C11","Coincident and hanging nodes are tied by the physically correct relations",
 "Nodes on surface edges are grouped exactly when they coincide in space, symmetrically and transitively, and one representative of each group is solved for: coincident nodes share one potential; where two prescribed-potential faces meet at an angle with gradient continuity on, their fluxes are those of the unique gradient matching both tangential gradients, and where they meet smoothly the fluxes are equal; where a prescribed-potential face meets a flux face, the flux-side node takes the prescribed potential. Hanging nodes take the interpolated value of their parents, and all returned vectors satisfy these relations.",
 ["inputs","configurations"],"all meshes with duplicated edges, patch counts per edge node, boundary-condition assignments and local refinement patterns",
 "No test builds constraints.",
 ["source/bem_problem.cc","include/constrained_matrix.h"],
 [("coincidence detection","source/bem_problem.cc compute_double_nodes_set"),("constraints","source/bem_problem.cc compute_constraints"),("constrained operator","include/constrained_matrix.h")],
 [("double_nodes_set, constraints","groups and relations","include/bem_problem.h")],["constraint lines","returned nodal vectors"])
p("C12","Grids are read and refined without changing the surface they describe",
 "Reading any supported grid file gives the file's cells, vertices, material and manifold labels and outward orientation; uniform refinement multiplies cells by the expected factor, keeps labels and patch membership, places new vertices on the described geometry (flat patches stay flat, spherical ones lie on the sphere), and leaves enclosed area and edge topology consistent. Aspect-ratio driven refinement ends with every cell within the requested ratio without altering the surface.",
 ["inputs","configurations"],"all supported formats and grids, refinement counts, aspect-ratio limits and geometry options",
 "The one test that reads a mesh is a CAD case that is not in the stable set.",
 ["source/computational_domain.cc","grids"],
 [("reading","source/computational_domain.cc read_domain"),("refinement","source/computational_domain.cc refine_and_resize")],
 [("tria","surface triangulation","include/computational_domain.h")],["triangulation after each stage"])
p("C13","Boundary data are imposed on exactly the nodes of their patches",
 "A node carries a prescribed potential exactly when some cell containing it has a prescribed-potential label, and is a flux node otherwise; its imposed value is the given potential at the node, or the given velocity dotted with the node's normal. A solve never alters imposed values, and unlabelled patches get zero flux.",
 ["inputs","configurations"],"all assignments of labels to boundary kinds, meshes with and without duplicated edges, potentials, velocities and process counts",
 "No test exercises boundary conditions.",
 ["source/bem_problem.cc","source/boundary_conditions.cc"],
 [("classification","source/bem_problem.cc compute_dirichlet_and_neumann_dofs_vectors"),("imposition","source/boundary_conditions.cc prepare_bem_vectors")],
 [("dirichlet_nodes, neumann_nodes, tmp_rhs","masks and data","include/bem_problem.h")],["masks and data before the solve; vectors after it"])
p("C14","Recovered normals and gradients equal those of the discrete solution",
 "The nodal normals are the mass projection of the cell normals (exact on flat patches), the surface gradients are the projection of the tangential gradient of the nodal potential and are reproduced exactly for linear potentials on flat patches, and the full gradient combines tangential and normal parts so that its normal component reproduces the flux. The gradients of the hypersingular equation, evaluated for a solution with given potentials, are exact for linear fields on polyhedra. On curved surfaces all of them converge to the exact fields under refinement.",
 ["inputs","configurations"],"all meshes, element orders, mappings, nodal potentials and fluxes",
 "No test computes normals or gradients.",
 ["source/bem_problem.cc"],
 [("normals","source/bem_problem.cc compute_normals"),("surface gradients","source/bem_problem.cc compute_surface_gradients"),("gradients","source/bem_problem.cc compute_gradients"),("hypersingular gradients","source/bem_problem.cc compute_gradients_hypersingular, compute_hypersingular_free_coeffs")],
 [("vector_normals_solution, vector_surface_gradients_solution, vector_gradients_solution","projections","include/bem_problem.h")],["vectors after the calls"])
p("C15","Reported errors and output files describe the computed solution",
 "The printed cell and degree-of-freedom counts and error norms are the norms they name, of the difference between the computed and the given fields; the written scalar and vector files contain, at every node, the solution's potential, flux, solid angle, gradients and normals, and the error files their differences. Files are complete and well formed for every configuration that finishes.",
 ["inputs","configurations"],"all problems, element orders, dimensions, process counts and output names",
 "No test runs the output stage.",
 ["source/boundary_conditions.cc"],
 [("errors","source/boundary_conditions.cc compute_errors"),("output","source/boundary_conditions.cc output_results")],
 [],["stdout","VTU files"])
p("C16","Parameter files control the run and bad settings are refused",
 "Every declared parameter given in the parameter file reaches the component it configures and is echoed to the used-parameters file, from which an identical run can be reproduced; absent parameters take the documented defaults. Invalid values, unknown entries, missing or malformed grids and unsupported combinations end the run with an error message and non-zero status, without crash, hang or reported results.",
 ["inputs","configurations"],"all parameter files, including partial, permuted, malformed and out-of-range ones",
 "No test runs the executables or parses a solver parameter file.",
 ["source/main.cc","source/driver.cc","source/bem_problem.cc","source/bem_fma.cc","source/boundary_conditions.cc","source/computational_domain.cc"],
 [("declaration and parsing","declare_parameters/parse_parameters in every class"),("top level error handling","source/main.cc")],[],["exit status, stderr, used-parameters file, effective settings"])
p("C17","No memory error or undefined operation in any supported run",
 "No supported configuration makes the program read or write outside an object, use freed or uninitialised storage, divide by zero in integers, overflow a shift or convert a non-representable value, and the library's own internal consistency assertions hold throughout.",
 ["inputs","configurations","histories"],"all supported meshes, settings and call sequences",
 "Stable tests are built without sanitizers and skip most of the code.",
 ["source/bem_fma.cc","source/bem_problem.cc","source/boundary_conditions.cc","source/computational_domain.cc","source/multipole_expansion.cc","source/local_expansion.cc","source/octree_block.cc","source/singular_kernel_integral.cc"],
 [("buffer sizing","source/bem_fma.cc generate_octree_blocking; source/computational_domain.cc make_edges_conformal"),("index maps","source/bem_problem.cc")],[],["AddressSanitizer, UBSan, debug-assertion reports"])
p("C18","The solve returns the solution of the assembled constrained system",
 "The solution returned satisfies the constrained boundary-integral system built from the operators, masks and constraints to the requested tolerance, the system operator is linear and is the stated combination of single layer, double layer and solid angle, and neither the preconditioner, the preconditioner bandwidth nor the initial state changes the solution beyond tolerance. When the requested tolerance is not reached within the step limit the failure is reported.",
 ["inputs","configurations"],"all meshes, boundary-condition splits, solution methods, preconditioners, tolerances and step limits",
 "No test solves a system.",
 ["source/bem_problem.cc","include/constrained_matrix.h","source/bem_fma.cc"],
 [("operator and right-hand side","source/bem_problem.cc vmult, compute_rhs"),("constrained operator","include/constrained_matrix.h ConstrainedOperator"),("preconditioners","source/bem_problem.cc assemble_preconditioner; source/bem_fma.cc FMA_preconditioner")],
 [],["residual of the returned solution"])
p("C19","Results depend only on the current problem, not on what ran before",
 "Re-initialising and solving again, after any sequence of refinements, changes of settings, solves and other problem instances in the same process, gives the same results as a fresh process given the final mesh and settings. Repeating a solve without changes is idempotent.",
 ["histories"],"all sequences of read, refine, adapt, reconfigure, re-initialise, solve and post-process on one or several instances",
 "Every stable test is one shot.",
 ["source/bem_problem.cc","source/bem_fma.cc","source/computational_domain.cc","source/driver.cc"],
 [("re-initialisation","source/bem_problem.cc reinit; source/bem_fma.cc init_fma"),("function-local caches","source/bem_problem.cc get_singular_quadrature, compute_alpha, compute_rhs")],
 [],["results after a history vs. fresh"])
p("C20","Solutions obey superposition, similarity and rigid-motion symmetry",
 "Scaling or adding boundary data scales or adds the solution; translating, rotating or reflecting mesh and data together leaves nodal potentials and fluxes unchanged, uniform scaling divides fluxes by the factor in 3D, and permuting the mesh's vertices, cells or cell-local numbering leaves the nodal solution unchanged, all up to solver, quadrature and expansion tolerance (fluxes at corners of three or more prescribed-potential patches up to discretisation error).",
 I,"all meshes, data and transformations for both solution methods",
 "No test compares two solves.",
 ["source/bem_problem.cc","source/bem_fma.cc","source/boundary_conditions.cc","source/computational_domain.cc"],
 [("assembly and solve","source/bem_problem.cc"),("octree placement","source/bem_fma.cc generate_octree_blocking")],[],["nodal results of paired runs"])
p("C21","Work partition and numberings are complete, disjoint and consistent",
 "For any process count (with nodes for every process) every cell and node has exactly one owner, every process's owned set is the set of nodes it solves for, and the maps between original and partitioned numbering are mutually inverse bijections that preserve node positions. The components of the vector unknown attached to a node lie at that node and belong to its owner.",
 ["configurations","inputs"],"all meshes, element orders, process counts and refinement histories",
 "All stable tests are serial.",
 ["source/bem_problem.cc","source/computational_domain.cc"],
 [("partition","source/computational_domain.cc update_triangulation"),("renumbering","source/bem_problem.cc compute_reordering_vectors, reinit")],
 [("original_to_sub_wise and its inverses, this_cpu_set, vector_this_cpu_set","numbering and ownership","include/bem_problem.h")],["maps and sets after re-initialisation"])
p("C22","Local refinement targets the largest errors and keeps sharp edges matched",
 "An adaptive step refines the cells with the largest estimated error in the configured fraction and coarsens only the smallest, keeps at most one hanging node on every side shared by cells, and after it coincident edges of different patches carry matching nodes, so every edge node has its partner. Labels, area of flat patches and solution accuracy do not degrade.",
 ["inputs","histories"],"all meshes, error fields, thresholds and numbers of adaptive cycles",
 "No test refines adaptively on the stable list.",
 ["source/bem_problem.cc","source/computational_domain.cc","source/driver.cc"],
 [("marking","source/bem_problem.cc adaptive_refinement"),("edge matching","source/computational_domain.cc make_edges_conformal, compute_double_vertex_cache")],
 [("tria, double_vertex_vector","mesh and edge pairing","include/computational_domain.h")],["mesh after each adaptive step"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
    assert len(x['anchors']['mechanism'])
print(len(P))
