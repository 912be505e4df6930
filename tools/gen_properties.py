#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Linear solvers return the solution of the system they are given",
 "For every symmetric positive definite system, whatever its size, ordering, sparsity and connectivity, the direct solvers (dense Gauss, envelope Cholesky) return a finite vector in the caller's own dof order that solves the system to rounding accuracy, and the iterative solver, where its iteration converges, returns one within its stated tolerance; dense elimination does so for every well conditioned nonsingular system, symmetric or not. No solver ever reports success with a non-finite answer or an answer to a different system, and a system whose elimination meets a zero pivot, or for Cholesky one that is not positive definite, is reported as an error.",
 ["inputs"], "all square systems of 1 or more unknowns: dense, banded, arrow, block diagonal, disconnected, diagonal, badly scaled, permuted; all right-hand sides including zero",
 "The tests solve one 4x4 matrix with one right-hand side; solvability, reordering and pivoting behaviour depends on the sparsity pattern and numbers of each system.",
 ["src/matrix/solve/direct.rs", "src/matrix/solve/iterative.rs", "src/matrix/solve/mod.rs", "src/matrix/inverse.rs", "src/matrix/graph.rs", "src/matrix/sparse.rs"],
 [("partial pivoting", "Inverse::solve_gausselim"), ("envelope reordering and its inversion", "System::reduce_envelope, CholeskyEnvelopeSolver::solve"), ("successive over-relaxation", "iterative.rs gauss_seidel")],
 ["Solver::new(System::from_kr(..)).solve()", "System::add_k_coefficient / add_rhs_val", "Inverse::solve_gausselim"])

prop("C02", "Factorizations, determinants and inverses reproduce the matrix",
 "The triangular factors computed for a matrix (LU, Cholesky LL', LDL' including indefinite matrices, on dense and envelope storage) have the promised shape (unit diagonal, triangular, inside the matrix's envelope) and multiply back to that matrix; substitution with them solves the system. Determinants agree with exact arithmetic in sign and value, whatever the scale of the entries, matrices that are singular or not square are reported, and the inverse of any invertible matrix times the matrix is the identity.",
 ["inputs"], "all square matrices of order 1..n for which the factorization exists: random, integer with exactly known determinant, structured, indefinite, permuted, badly scaled",
 "The unit tests factor a handful of fixed 3x3 and 4x4 matrices; wrong index bounds or signs show only for particular patterns, sizes and pivot orders.",
 ["src/matrix/inverse.rs", "src/matrix/buffer.rs", "src/matrix/solve/direct.rs", "src/matrix/sparse.rs"],
 [("LU decomposition", "Inverse::lu_decompose"), ("pivoted determinant", "Inverse::det_lu_pivot"), ("triangular inverse", "LowerTriangular::tri_inv / UpperTriangular::tri_inv"), ("envelope factorizations", "direct.rs cholesky_envelope, cholesky_envelope_no_root, solve_ll, solve_ldl")],
 ["Inverse trait methods", "matrix::solve::direct functions"])

prop("C03", "Every matrix storage scheme behaves like the plain dense matrix it stands for",
 "Any sequence of reads, writes, row and column operations, transposes, arithmetic and conversions on any storage scheme (dense row- or column-major, triangular, diagonal, fixed size, compressed row, dictionary, lower envelope, two-sided envelope) gives exactly what a plain two-dimensional array gives, within the positions that scheme can represent. Iteration over rows, columns, diagonals, all elements and non-zeros visits exactly the right elements in the documented order, conversion between schemes preserves every element, and the printed form shows every row's elements in order.",
 ["histories", "inputs"], "all operation histories on matrices of every shape (1x1 to tens, non-square where supported) in every scheme",
 "Tests apply one or two operations to fixed 3x3 matrices; aliasing of transposed storage, envelope growth and sparse bookkeeping go wrong only after particular histories.",
 ["src/matrix/mod.rs", "src/matrix/buffer.rs", "src/matrix/sparse.rs", "src/matrix/norm.rs"],
 [("row/column major index mapping", "buffer.rs LinearMatrix"), ("envelope and compressed row bookkeeping", "sparse.rs"), ("generic element-wise operations", "mod.rs MatrixLike")],
 ["MatrixLike methods and conversions between schemes"],
 state=[("shadow model", "Vec<Vec<f64>> updated in lock step", "harness")])

prop("C04", "The safe API never performs an out-of-bounds access or other undefined behaviour",
 "No sequence of calls to the public, safe API reads or writes outside the storage of a matrix, graph, image or point, whatever shapes, indices and sizes are passed. An access outside a matrix gives no element (checked access) or a panic (indexing), never a value from elsewhere, and never changes any stored element.",
 ["inputs", "histories"], "all shapes and indices (in range, one past the end, huge, overflowing), all storage schemes, all operation histories",
 "The code uses unchecked indexing behind its own bound checks; tests use only in-range indices, and a missing check goes unnoticed without a sanitizer.",
 ["src/matrix/buffer.rs", "src/matrix/sparse.rs", "src/matrix/mod.rs", "src/visual/mod.rs", "src/spatial/mod.rs"],
 [("explicit bound checks before get_unchecked", "buffer.rs and sparse.rs get / get_mut / Index")],
 ["AddressSanitizer, the standard library's unsafe-precondition checks and Miri over the same histories as C03, plus hostile indices and shapes"])

prop("C05", "Reordering the unknowns is a bijection and does not change the problem",
 "The envelope-reducing ordering of any graph (connected or not, with isolated vertices, of any size from one vertex up) is a permutation of its vertices, its inverse undoes it, and applying it to a system's matrices and right-hand side yields the same system with renamed unknowns. Building the graph from any edge list or from any symmetric matrix gives the same adjacency, and the ordering's level structure is a breadth-first one that starts at a pseudo-peripheral vertex (in a tree, an end of a longest path): reordering is never the cause of a failure or a wrong answer.",
 ["inputs"], "all undirected graphs: paths, grids, stars, trees, cliques, random sparse, disconnected, edgeless, single vertex, with repeated edges; all permutations; all symmetric matrices",
 "The tests reorder one ten-vertex graph; disconnected patterns and isolated unknowns are never exercised.",
 ["src/matrix/graph.rs", "src/matrix/solve/mod.rs", "src/matrix/sparse.rs"],
 [("reverse Cuthill-McKee", "Graph::reverse_cuthill_mckee"), ("permutation application", "Permutation::permute*, Dictionary::permute, LinearMatrix")],
 ["Graph and Permutation public methods", "System::reduce_envelope"])

prop("C06", "The eigensolver returns the lowest eigenpairs, each once, in order",
 "For every symmetric positive definite stiffness matrix and symmetric positive definite mass matrix whose non-zeros lie within the stiffness matrix's pattern, whether its eigenvalues are far apart, close together or repeated any number of times, asking for the n lowest eigenpairs returns exactly n pairs in ascending order, each satisfying the generalized eigenproblem to the solver's tolerance and with no eigenpair skipped or returned twice. The vectors are in the caller's dof order and mutually orthogonal with unit norm with respect to the mass matrix, and the count of eigenvalues below a shift equals the true count.",
 ["inputs"], "all such pencils of order 2..n, all n up to the order, all orderings and sparsity patterns including disconnected ones, all shifts that are not (nearly) eigenvalues",
 "One 4x4 pencil with an identity mass matrix is tested; deflation, acceleration, Sturm counts and reordering depend on the spectrum.",
 ["src/matrix/solve/eigen.rs", "src/matrix/solve/direct.rs", "src/matrix/solve/mod.rs"],
 [("determinant search with secant steps", "DeterminantSearcher::find_eigens"), ("Sturm sequence count", "DeterminantSearcher::eigenvalues_under"), ("inverse iteration and Gram-Schmidt", "eigen.rs")],
 ["DeterminantSearcher over EigenSystem::new(System::from_km(..))"])

prop("C07", "Results do not depend on how the model is described or oriented",
 "Moving or rotating the whole model rotates its static and modal results accordingly; renumbering nodes, listing elements in another order or an element's nodes in another order or sense, and adding loads and constraints in another order leave them unchanged; and scaling stiffness, thickness, load or length scales them by the physical law. A model built in steps, with results computed in between, gives the results of one built at once, and asking twice gives the same. A rigid motion imposed on an unloaded model causes no stress.",
 ["inputs"], "all valid triangulated models, load sets and constraint sets; all rigid motions, permutations and scale factors",
 "No test compares two descriptions of the same model; hash-ordered load tables and orientation of elements make results vary between equal models.",
 ["src/element/mod.rs", "src/element/element.rs", "src/element/constraint.rs", "src/element/strain.rs"],
 [("isoparametric mapping", "Element::get_isopar_mats"), ("assembly by node index", "ElementAssemblage::calc_k / calc_m / calc_load")],
 ["ElementAssemblage::calc_displacements / calc_modes, Deformation accessors"])

prop("C08", "Static displacements are the finite element solution of the stated model",
 "For every properly constrained plane stress, plane strain or axisymmetric model of three-node triangles, the displacements returned by either direct solver put every free degree of freedom in equilibrium between the applied loads and the elastic forces of linear triangular elements, and satisfy every constraint (fixed x, fixed y, fixed both, fixed along a direction). A model whose exact solution is linear in the coordinates is solved exactly (patch test), and results are linear in the loads. This holds for a model of any size or units, and again for one that is changed after a solution.",
 ["inputs"], "all valid triangulated models, materials, conditions, thicknesses, loads and constraint sets, including skew constraints, shared corners and unused-free models of a single element",
 "The four assembly tests only draw pictures; they check no displacement value at all.",
 ["src/element/mod.rs", "src/element/element.rs", "src/element/strain.rs", "src/element/constraint.rs", "src/element/integrate.rs"],
 [("stiffness integration", "Element::calc_k"), ("constraint elimination and recovery", "DofTransform::bar_matrix / bar_vec / unbar_vec"), ("assembly", "ElementAssemblage::calc_k")],
 ["Deformation::displaced_nodes / displacement_norms after calc_displacements"])

prop("C09", "Every applied load reaches the structure exactly once",
 "The total force and moment carried by the supports equals that of the applied loads, a distributed load contributing its force per length times the length of its edge, split between its end nodes. Loads that meet at a node add up, a load on an edge shared by two elements counts once, and the result is the same on every run and for every order in which loads were added.",
 ["inputs", "histories"], "all combinations of concentrated and distributed loads on boundary and interior edges, given in either direction, sharing nodes with each other; repeated runs",
 "One test applies one distributed load and checks nothing; loads meeting at a node are stored in hash tables whose order changes per run.",
 ["src/element/mod.rs", "src/element/element.rs", "src/element/integrate.rs"],
 [("load assembly", "ElementAssemblage::calc_load"), ("edge integration", "Element::int_f_l, integrate::gauss_segment_mat")],
 ["reactions recovered from the displacements with an independent stiffness matrix", "Element::int_f_l"])

prop("C10", "Recovered stresses follow the material law and von Mises matches the invariants",
 "The stress reported at a node is the average over the elements meeting there of the material law applied to that element's strains, nodes outside every element having none; a uniform strain state gives the exact uniform stress. The von Mises value of any stress state equals the one computed from its full stress tensor, is never negative, does not depend on the axes, and the Cauchy tensor form is symmetric with the same components.",
 ["inputs"], "all models and displacement fields, all stress vectors of the supported kinds, all rotations, plane stress, plane strain and axisymmetric",
 "No test looks at a stress value.",
 ["src/element/stress.rs", "src/element/element.rs", "src/element/strain.rs", "src/element/mod.rs", "src/matrix/mod.rs"],
 [("stress recovery", "Element::stresses"), ("averaging", "Average::update, Deformation::stresses"), ("criterion", "StressState::von_mises / to_cauchy")],
 ["Deformation::stresses / von_mises", "StressState::from_vector"])

prop("C11", "Modal analysis returns the natural frequencies of the stated model",
 "For every properly constrained model, the modes returned are the n lowest (repeated frequencies each time they occur) of the generalized eigenproblem formed by the model's elastic stiffness and its consistent mass (whose total is density times thickness times area), in ascending order, each frequency being the square root of the eigenvalue. Every mode shape satisfies the constraints. This holds for a model of any size or units, and again for one that is changed after an analysis.",
 ["inputs"], "all valid triangulated plane models with distinct lowest frequencies, all constraint kinds, all n up to a few, several materials and thicknesses",
 "The only modal test is commented out because it does not terminate; no frequency is ever checked.",
 ["src/element/mod.rs", "src/element/element.rs", "src/matrix/solve/eigen.rs"],
 [("consistent mass", "Element::calc_m"), ("mode recovery", "ElementAssemblage::calc_modes")],
 ["ElementAssemblage::calc_modes, Deformation::frequency / displaced_nodes"])

prop("C12", "Constraints accumulate, strike exactly their directions and survive text",
 "Adding constraints to a node in any order fixes the union of the plain directions asked for, and exactly the directions of the final constraint are removed from the problem: eliminating and restoring degrees of freedom is an exact round trip that keeps the energy and work of every allowed displacement and puts zero in every struck direction. Writing a constraint as text and reading it back gives the same constraint, and other text is rejected.",
 ["histories", "inputs"], "all sequences of constraint additions, all constraint vectors over several nodes, all angles, all vectors and symmetric matrices, all strings",
 "No unit test covers constraints apart from two fixed supports in drawing tests.",
 ["src/element/constraint.rs", "src/element/mod.rs"],
 [("constraint merge", "ElementAssemblage::add_constraint"), ("transform", "DofTransform"), ("text form", "Constraint FromStr / Display")],
 ["ElementAssemblage::constraints", "DofTransform public methods", "Constraint::from_str / to_string"])

prop("C13", "A saved mesh file reads back as the same model",
 "Saving any model and reading the file back gives a model with the same nodes, elements, material, condition, constraints, concentrated and distributed forces, and hence the same displacements, at any scale of coordinates, forces and thickness; the named materials stand for their constants (AL6061: 68.9 GPa, 0.33, 2700 kg/m3; TEST: 1, 0, 1). Text that is not a well formed mesh file is rejected with an error, never accepted as a different model and never a crash.",
 ["inputs"], "all models; all byte-level and line-level mutations of valid files",
 "There is no round-trip test and the file module has no tests for malformed input.",
 ["src/file/bmsh.rs", "src/file/mod.rs", "src/element/mod.rs", "src/element/strain.rs"],
 [("writer", "file::save_elas, bmsh::elas_to_bmsh"), ("parser", "bmsh::bmsh_to_elas")],
 ["file::save_elas / read_to_elas on scratch files"])

prop("C14", "A boundary file is read exactly as its author wrote it",
 "Every well formed boundary description (one item per line or polygon block, fields separated by single spaces) is read into exactly the vertices, walls, constraints, distributed forces, material and condition it states, whatever the notation of its numbers, the order of its items and the direction in which a wall is named; several forces on one wall add up and several constraints on one wall or corner all hold. A description that refers to unknown vertices or to pairs of vertices that share no wall, names an unknown material or constraint, has a polygon of fewer than three vertices or walls that cross, or is not well formed is rejected with an error, never accepted as something else and never a crash.",
 ["inputs"], "all boundary descriptions generated from the grammar and all mutations of them",
 "A single fixed file is parsed by the tests and nothing is asserted about the values.",
 ["src/file/bbnd.rs", "src/file/mod.rs", "src/mesher/bounds.rs"],
 [("nom grammar", "bbnd.rs")],
 ["file::read_to_bound on scratch files, compared through the bounds' public accessors and the mesh made from them"])

prop("C15", "Meshing yields a conforming mesh of exactly the described region",
 "For every valid polygonal region with holes whose angles are above 60 degrees, in any unit of length, and every suitable element size (for Chew's method one that divides every wall into pieces of h to sqrt(3) h whose ends keep h apart), both meshing methods terminate with counter-clockwise triangles that do not overlap, meet edge to edge, and together cover exactly the region; every boundary vertex, and every vertex given inside the region, is a node, no circumcircle contains the opposite node of a neighbouring triangle, no triangle has a circumradius above the requested size, and Ruppert's method leaves no triangle whose circumradius exceeds 1.415 times its shortest edge. Constraints and distributed forces given on boundary vertices and walls are present on exactly the mesh nodes and edges lying on them (several on one wall or corner all act), so total load is preserved, and material and condition are carried over; all this holds as well for a boundary that was triangulated before or meshed with a larger size first; splitting and dividing walls by hand keeps a boundary's shape, loads and constraints, and a wall's middle is visible from a point exactly where no other wall stands between; a boundary without material or condition is an error.",
 ["inputs"], "all simple polygons with non-crossing holes and sizes that divide their boundaries; all assignments of constraints and loads",
 "The mesher tests draw pictures of a few fixed shapes and assert nothing about the mesh.",
 ["src/mesher/plane.rs", "src/mesher/bounds.rs", "src/mesher/mod.rs"],
 [("gift-wrapped constrained triangulation", "PlaneTriangulation"), ("Chew refinement", "PlaneTriangulation::chew_mesh"), ("boundary subdivision", "PlaneBoundary::divide_all_segments / split_segment")],
 ["the ElementAssemblage assembled from the triangulation"])

prop("C16", "Geometric predicates and vector algebra agree with exact arithmetic",
 "For points whose coordinates make every intermediate value exactly representable, the orientation, in-triangle, in-circle, in-sphere and barycentric predicates agree with exact integer arithmetic for every position and vertex order, including degenerate ones, and with coordinates of any length wherever the exact answer is clear of rounding; circumcentres are equidistant from the vertices. Vector operations on points (sum, difference, scaling, products, norm, distance, midpoint, component access, conversion from and to numbers, pairs and triples, printed form) obey their definitions in one, two and three dimensions, and adding, subtracting or measuring the distance between points of different dimension, or reading a component that does not exist, panics, while their midpoint and product use the components both have.",
 ["inputs"], "all point configurations in 1, 2 and 3 dimensions, small and long coordinates, near and far from the origin, including collinear, cocircular, cospherical and duplicate points",
 "Tests evaluate a few hand-picked triples in one orientation.",
 ["src/spatial/mod.rs", "src/spatial/predicates.rs"],
 [("predicates", "spatial/predicates.rs"), ("Point operators", "spatial/mod.rs")],
 ["spatial module re-exported by a guarded hook"], hook="cfg(bugi_verif) re-export of the private spatial module")

prop("C17", "Pictures show the data that was given, inside the picture",
 "Drawing any set of points, edges and triangles of ordinary magnitude at any picture size of at least one pixel writes an image of that size in which every triangle with values is filled with colours interpolated from its vertices' values, every edge is a connected line between its end points, every node is marked, and all else is background; what was set last is what is shown when a picture is drawn again; the model's aspect ratio is preserved, and models in three dimensions are shown in parallel projection from a fixed direction. Drawing never fails for any finite geometry, including a single point, coincident points or constant values, and the largest and smallest values get the end colours of the map.",
 ["inputs"], "all finite point sets, meshes, values, colour maps and image sizes",
 "Tests write images of fixed shapes and never read them back.",
 ["src/visual/mod.rs", "src/visual/fill.rs", "src/visual/bresenham.rs", "src/visual/color.rs"],
 [("projection to the picture", "Visualizer::draw"), ("line rasterization", "visual/bresenham.rs"), ("triangle fill", "visual/fill.rs"), ("colour maps", "visual/color.rs")],
 ["the PNG written by Visualizer::draw, decoded again"])

prop("C18", "The command line carries a model from geometry to results faithfully",
 "Running mesh, linear and modal on valid input files exits successfully and writes the mesh and picture files the options name, and what they contain is what the library computes for the same input with the same options: chosen solver, element size, number of modes and node values. A missing file, an unknown option value or a malformed file gives an error message and a non-zero exit, and no command changes its input.",
 ["inputs", "configurations"], "all combinations of commands and options on generated geometries",
 "There are no tests of the program.",
 ["src/main.rs", "src/cli.yml", "src/file/mod.rs"],
 [("argument handling", "main.rs")],
 ["exit status, standard output and files of the bugi program built with a stand-in for its missing geometry crate"])

prop("C19", "Numerical integration is exact for the polynomials its order promises",
 "Integrating over the reference triangle is exact for every polynomial of total degree two, and integrating along any segment with the rule of order n (one to four) is exact for every polynomial of degree 2n-1, independent of the segment's position and direction up to its length, and linear in the integrand. Matrix-valued integrands are integrated entry by entry.",
 ["inputs"], "all polynomials of the stated degrees with matrix coefficients, all non-degenerate segments, all orders",
 "One line integral of one polynomial with one order is tested.",
 ["src/element/integrate.rs"],
 [("Gauss points and weights", "element/integrate.rs")],
 ["integrate::gauss_tri and integrate::gauss_segment_mat"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
