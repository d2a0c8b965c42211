"""Single source of properties.jsonl and the per-check part of MANIFEST.json (see tools/gen.py)."""
VN = 'abstract interpretation of the source (value numbering to closed forms) against an independent specification'
LI = 'abstract interpretation with inductive loop invariants (value numbering at loop heads)'
P = []


def prop(id, title, statement, over, text, tests, files, mech, tech=VN, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=tests, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  tech=tech, note=note, na=na))


PRB, FE, SLV, BAS = 'jax_fem/problem.py', 'jax_fem/fe.py', 'jax_fem/solver.py', 'jax_fem/basis.py'
GEN, MMA, UTL = 'jax_fem/generate_mesh.py', 'jax_fem/mma.py', 'jax_fem/utils.py'

prop('P01', 'The assembled residual is the sum of every cell and face contribution, once',
     'For any mesh, element type, number of solution variables, vector sizes, material kernels and fields, the global residual '
     'of each variable is the sum over all cells and over all selected boundary faces of that cell\'s or face\'s own weak-form '
     'contribution, each counted exactly once and added to the rows of that cell\'s own nodes and components. '
     'The result does not depend on how assembly is split into batches. The node offsets and the splitting function that kernels use to take the variables of a cell apart separate them in order.',
     ['inputs', 'configurations'],
     'all meshes, connectivities (nodes shared arbitrarily), variable counts 1..3, vector sizes, kernels, and boundary groupings; all batch splits',
     'the tests run a handful of fixed meshes and kernels with one or two variables and compare final solutions; they never vary cell counts around the batch boundary nor mix several variables with several boundaries',
     [PRB, FE], [('split and assemble', 'Problem.split_and_compute_cell, Problem.compute_face'), ('scatter', 'Problem.compute_residual_vars_helper')])
prop('P02', 'The assembled tangent is the exact derivative of the assembled residual',
     'For any problem, the global matrix assembled at a state equals, entry by entry, the derivative of the assembled residual at the same state '
     'with respect to all degrees of freedom of all variables, including cross-variable blocks and boundary-face contributions. '
     'The residual returned together with the matrix is the residual at that state.',
     ['inputs', 'configurations'],
     'all meshes, kernels (arbitrary differentiable functions), states and variable combinations',
     'tests only see that Newton converges; a wrong coupling block or a missing face term still converges (more slowly) or is not exercised',
     [PRB], [('forward-mode element tangents', 'Problem.pre_jit_fns'), ('triplet indices', 'Problem.__post_init__ (I, J)'), ('triplet values', 'Problem.compute_newton_vars (V)')])
prop('P03', 'Dirichlet conditions are imposed exactly and touch nothing else',
     'For any residual, state and set of Dirichlet conditions, the eliminated residual at a constrained degree of freedom is the current value minus the prescribed value, '
     'and the eliminated matrix has an identity row there; every other residual entry and matrix row is left exactly as assembled. '
     'This holds for every variable and component, including entries constrained more than once (the later condition is the one in force), in both matrix formats.',
     ['inputs', 'configurations'],
     'all residuals, states, numbers of variables, numbers of conditions per variable, overlapping conditions, load scale',
     'tests use one or two conditions on fixed faces; they do not examine other rows of the eliminated system, overlapping conditions, or variables without conditions',
     [SLV], [('residual elimination', 'apply_bc_vec / apply_bc'), ('prescribed values', 'assign_bc'), ('row elimination', 'get_A, PETSc tangent cache, assembleCSR')])
prop('P05', 'The Newton solve returns only when the discrete equations are satisfied',
     'Every iteration solves the eliminated tangent at the current iterate against minus the eliminated residual at the same iterate and adds the result; '
     'the solve ends only when the norm of the eliminated residual of the returned solution is at or below the requested absolute tolerance, or its ratio to the initial norm is at or below the requested relative tolerance. '
     'A non-finite residual or solution is an error and is never returned.',
     ['inputs', 'histories', 'configurations'],
     'all problems, initial guesses, tolerances, iteration counts (any number of iterations by induction), with or without multipoint constraints',
     'tests sample a few converging problems with default tolerances; a stale residual or tangent, or a tolerance that is ignored, still produces converged results on them',
     [SLV], [('iteration', 'solver'), ('update', 'newton_step')], tech=LI)
prop('P11', 'Element gradients, weights and points are those of the isoparametric map',
     'For every cell and quadrature point of any mesh of a supported element type, the physical shape-function gradients are the reference gradients times the inverse Jacobian of that cell\'s own map, '
     'the integration weight is that Jacobian\'s determinant times the quadrature weight, and the physical quadrature point is the mapped reference point.',
     ['inputs', 'configurations'],
     'all meshes (arbitrary node positions, curved cells), dimensions, element families, variable stacks',
     'tests run on regular box meshes, where the Jacobian is diagonal and constant so that transposed or mixed-up entries are invisible',
     [FE, PRB], [('volume geometry', 'FiniteElement.get_shape_grads, get_physical_quad_points'), ('stacking', 'Problem.__post_init__')])
prop('P12', 'Boundary-face integrals use the measure and gradients of the face\'s own cell',
     'For every selected boundary face of any mesh, the surface shape values, physical gradients, face quadrature points and the surface integration weight (Nanson formula) are those of the face\'s own cell and own local face number.',
     ['inputs', 'configurations'],
     'all meshes, face selections (any cell / local face numbers in any order), variable stacks',
     'tests select one planar face of a regular box, where every selected face has the same local number and an axis-aligned normal',
     [FE, PRB], [('face geometry', 'FiniteElement.get_face_shape_grads, get_physical_surface_quad_points')])
prop('P14', 'Location functions select exactly the nodes and faces that satisfy them',
     'For any location functions, a Dirichlet condition constrains exactly the mesh nodes satisfying its own location function, on its own component and with its own value function evaluated at each node; '
     'a boundary group contains exactly the (cell, local face) pairs all of whose vertices satisfy the location function, each once. The number of selected faces reported separately is the size of that group.',
     ['inputs', 'configurations'],
     'all meshes, location functions (with or without the node-index argument), numbers of conditions and groups',
     'tests use a few plane selectors; overlapping, empty or index-based selections and mixed numbers of conditions are not sampled',
     [FE], [('node selection', 'FiniteElement.Dirichlet_boundary_conditions'), ('face selection', 'FiniteElement.get_boundary_conditions_inds'), ('count', 'count_selected_faces in fe.py')])
prop('P15', 'User-supplied constitutive maps enter the documented weak form',
     'For any combination of user-supplied maps that includes a cell map, the assembled residual is the integral of the flux map contracted with the test gradient, plus the mass map times the test function, plus, over each selected boundary group, its own surface map times the test function, plus any universal kernels; '
     'each map receives the solution gradient, value, position and internal variables of the very point it is evaluated at. Absent maps contribute nothing.',
     ['inputs', 'configurations'],
     'all tensor, mass, surface and universal maps as arbitrary functions; all combinations of presence/absence; any number of boundary groups',
     'tests use linear elasticity and Poisson maps, one boundary group, and symmetric fluxes, which hide transposed contractions or swapped arguments',
     [PRB], [('kernels', 'Problem.get_laplace_kernel, get_mass_kernel, get_surface_kernel'), ('combination', 'Problem.pre_jit_fns')])
prop('P16', 'Parameter fields are read fresh at every evaluation',
     'Every residual or tangent evaluation uses the internal (volume and surface) parameter fields stored on the problem at the moment of the call, the k-th field reaching the k-th kernel argument at the same cell or face and quadrature point. '
     'Replacing the fields between evaluations, by any history of replacements, never leaves an old value in effect.',
     ['histories', 'inputs'],
     'all parameter fields, field counts and shapes; all sequences of evaluate / replace / evaluate',
     'tests set parameters once; a compiled kernel that kept its first value passes',
     [PRB], [('kernel arguments', 'Problem.compute_newton_vars / compute_residual with internal_vars'), ('compiled kernels', 'Problem.pre_jit_fns')])
prop('P17', 'Moved mesh coordinates replace the original geometry everywhere',
     'When a finite element space or a problem is given new node coordinates, the residual, the tangent and all geometric quantities computed from then on (volume and every boundary group) are those of the new coordinates, and none of the original geometry remains in effect.',
     ['inputs', 'histories'],
     'all replacement coordinates and meshes, several variables and boundary groups',
     'no stable test moves a mesh; shape-optimisation demos are not run by the test suite',
     [FE, PRB], [('geometry update', 'Problem.initialize_geometric_quantities / set_params with points')])
prop('P29', 'Nodal fields are interpolated with the point\'s own shape functions',
     'Converting nodal values to cell quadrature points, to boundary-face quadrature points, or to gradients at quadrature points yields, for any mesh and nodal field, the sum of the cell\'s own nodal values times the shape functions (or physical shape-function gradients) of that same point.',
     ['inputs', 'configurations'],
     'all meshes, nodal fields, vector sizes, boundary groups',
     'tests never compare these conversions with an analytic interpolation on distorted meshes',
     [FE], [('conversion', 'FiniteElement.convert_from_dof_to_quad, convert_from_dof_to_face_quad, sol_to_grad')])
prop('P04', 'A solve uses only the data in force when it is called',
     'When a problem is solved again after its Dirichlet nodes, components, values or location lists, its constraint matrix, or its parameters have been replaced, in place or by new objects, the second solve satisfies the equations of the new data exactly as a first solve would. '
     'Solving another problem in between changes nothing.',
     ['histories', 'configurations'],
     'all sequences solve / replace data / solve on one problem object, and interleavings of two problem objects; all replaced values',
     'tests build a problem and solve it once or twice with the same boundary conditions; a cached matrix pattern, projection or row list that outlives the data is never exercised',
     [SLV], [('eliminated tangent and its caches', 'get_A, get_A_with_elimination, PETSc tangent cache'), ('boundary data', 'apply_bc_vec, assign_bc'), ('driver', 'solver')], tech=LI)
prop('P06', 'Linear-solver options take effect and a returned vector solves the given system',
     'For every linear backend and option combination, the vector returned by the linear solve is that backend\'s answer for exactly the given matrix and right-hand side, using the requested backend, Krylov type, preconditioner and preconditioner switch or the documented defaults. '
     'The iterative JAX and AMGX backends start from the given vector (zero if none is given), the JAX preconditioner divides by the diagonal of the matrix, and AMGX is configured from the file named in the options if there is one. Iterative backends check the residual of the vector they return before returning it; a custom solver receives the matrix, right-hand side, starting vector and options; an unavailable backend is an error. The options dictionary is left unchanged.',
     ['inputs', 'configurations'],
     'all matrices, right-hand sides, starting vectors, backends and option values',
     'tests use two backends with default options on well-conditioned systems, where the wrong preconditioner or an unchecked answer gives the same numbers',
     [SLV], [('dispatch', 'linear_solver'), ('backends', 'jax_solve, umfpack_solve, petsc_solve, AMGX_solve')])
prop('P07', 'Solver options mean what they say in both layouts',
     'Under every documented layout of the options dictionary (nested under a method name, or the flat legacy layout) the tolerances, starting point, line-search switch and linear-solver options in effect are the requested ones, with documented defaults otherwise, and the method run is the one named. '
     'A dictionary naming several methods or giving a method a non-dictionary value is rejected, and the caller\'s dictionary is never modified.',
     ['configurations', 'inputs'],
     'all option values, both layouts, every backend name, all three nonlinear methods',
     'tests pass one or two dictionaries; an ignored tolerance, a default that overrides a given value, or a mutated dictionary is not noticed',
     [SLV], [('normalisation', 'solver, _solve_newton, _solve_dynamic_relax, option registries')], tech=LI)
prop('P08', 'The differentiable solve returns the exact adjoint gradient',
     'The forward value of the differentiable wrapper is the solver\'s solution for the given parameters, and the backward pass returns minus the contraction of the derivative of the row-eliminated residual in the parameters with the solution of one linear system whose matrix is the transpose of the row-eliminated tangent at that solution and those parameters and whose right-hand side is the cotangent. '
     'This holds for array and nested parameters, parameters that also enter the boundary values, constraint matrices, and whatever other forward solves happened between the forward and the backward pass.',
     ['inputs', 'histories', 'configurations'],
     'all problems, parameters, cotangents; solves interleaved between forward and backward passes',
     'tests compare one gradient with finite differences for one parameter field; symmetric tangents hide a missing transpose and no test interleaves solves',
     [SLV], [('wrapper', 'ad_wrapper'), ('adjoint', 'implicit_vjp')])
prop('P09', 'Evaluating a gradient leaves the problem as it was',
     'After a gradient has been evaluated through the differentiable wrapper, nothing reachable from the problem or its finite-element spaces refers to a differentiation variable, the parameters in force are the ones the gradient was taken at, and later residual evaluations use those plain values.',
     ['histories', 'configurations'],
     'all parameters, parameter structures, constraint settings; any later evaluation',
     'tests do not use the problem again after a gradient; a leaked tracer raises only in such a later call',
     [SLV, PRB], [('differentiated constraint function', 'implicit_vjp (constraint_fn and its vjp)'), ('parameters', 'set_params via ad_wrapper')])
prop('P10', 'Multipoint constraints are imposed by projection throughout',
     'When a problem carries a constraint matrix P, every Newton iteration solves P^T A P against minus P^T r with r and A evaluated at P times the reduced unknowns, the returned solution is P times the reduced unknowns, the line search measures the reduced residual, and gradients use the transposed reduced tangent with P applied to the result.',
     ['inputs', 'configurations'],
     'all constraint matrices, problems, states, iteration counts',
     'tests use one periodic box problem; a step or convergence test in the unreduced space still converges there',
     [SLV], [('reduction', 'get_A, solver, apply_bc_vec with P_mat'), ('line search', 'line_search'), ('gradient', 'implicit_vjp')], tech=LI)
prop('P20', 'Dynamic relaxation returns only when the unconstrained residual is small',
     'For a problem with one solution variable, the relaxation loop ends only when the largest absolute unconstrained residual of the returned dofs is at or below the requested tolerance; the quantity tested in every iteration is that residual at the current dofs. '
     'The iteration starts from one linear solve of the row-eliminated system at zero, with the requested linear options, or from the given starting point with the prescribed values assigned; and no iteration moves a constrained dof.',
     ['inputs', 'histories', 'configurations'],
     'all problems with one variable, tolerances, starting points, iteration counts (by induction), stiffness refresh intervals',
     'the stable tests do not run dynamic relaxation; a stale residual or a drifting boundary dof would also pass a plausibility check',
     [SLV], [('iteration', 'dynamic_relax_solve'), ('stiffness', 'assembleCSR'), ('dispatch', '_solve_dynamic_relax')], tech=LI)
prop('P21', 'Line search steps along the increment and never picks a trial it did not measure',
     'The line search returns the iterate plus alpha times the increment, where alpha is obtained from one by repeated halving, at most three times, as long as the norm of the residual at the halved step does not exceed that at the step before. '
     'The residual measured is the row-eliminated one (reduced when a constraint matrix is present) at the trial point itself.',
     ['inputs', 'configurations'],
     'all residuals, iterates, increments, problems with and without constraint matrix',
     'no stable test enables the line search',
     [SLV], [('line search', 'line_search')])
prop('P19', 'Arc-length corrections follow the load path on the prescribed sphere',
     'Each correction of an arc-length step solves the row-eliminated tangent at the current point against minus the residual at the current point and load factor (prescribed values scaled by the factor for displacement control; residual plus one-minus-factor times the unconstrained load vector for force control) and against the load pattern, and adds the root of the arc-length sphere equation that continues the previous direction. '
     'The step ends only when the residual last corrected has norm at most 1e-6, rejects non-finite roots, and returns the corrected displacement, factor and their increments over the step.',
     ['inputs', 'histories', 'configurations'],
     'all problems, previous points and directions, step lengths, load scalings, iteration counts (by induction)',
     'no stable test runs arc-length continuation; a wrong root or load scaling still traces some curve',
     [SLV], [('corrector steps', 'arc_length_solver_disp_driven, arc_length_solver_force_driven'), ('boundary rows', 'apply_bc_vec, assign_bc, copy_bc')], tech=LI)
prop('P30', 'Arc-length continuation runs to full load and says whether it got there',
     'Continuation starts from zero displacement and load, hands each step the previous point, factor and directions with the requested (or documented default) step length and load scaling, records and reports every step through the callback, and stops at factor one or above or after the allowed number of steps. '
     'If the target was reached, the returned solution is a standard Newton solve at full load started from the last point with the requested Newton and linear options; otherwise the last point is returned and the information says it is not polished. A missing or unknown control, or force control without a load vector, is an error.',
     ['inputs', 'histories', 'configurations'],
     'all load-factor histories (by induction) and step limits, option combinations, both control modes',
     'no stable test runs arc-length continuation; a lost option, an off-by-one switch or an unpolished result would not show',
     [SLV], [('outer loops', '_solve_arc_length_disp, _solve_arc_length_force'), ('finish', '_finish_arc_length, _arc_length_newton_polish'), ('dispatch', '_solve_arc_length, solver')], tech=LI)
prop('P13', 'Shape-function tables follow the mesh node numbering for every element type',
     'For each of the nine element types and any quadrature rule, the tabulated cell values and reference gradients of node k are those of the polynomial of the element\'s space that is one at node k of the meshio numbering and zero at the other nodes. '
     'The face tables hold the same polynomials at the facet\'s quadrature points, with that facet\'s vertices in mesh numbering, outward unit normal and weights scaled by its reference measure; the rule and order used are the requested ones, or the default rule and order (HEX27 10; TET4 and TRI3 0; all others 2). Unknown element types and malformed rules are errors.',
     ['inputs', 'configurations'],
     'all quadrature points (symbolic), nine element types, faces, nodes; requested orders and rules',
     'tests use HEX8, TET10 and one or two others on boxes, where a permuted mid-edge node or a mis-scaled slanted face changes little',
     [BAS], [('cell tables', 'get_elements, get_shape_vals_and_grads, _tabulate_nodal_basis'), ('face tables', 'get_face_shape_vals_and_grads, reorder_inds'), ('rule', '_normalize_quadrature_rule')])
prop('P25', 'Structured meshes tile the domain with correctly numbered cells',
     'For any numbers of cells and side lengths, the rectangle and box generators return one node per grid position with its coordinates from zero to the side length, and one cell per grid box whose connectivity lists the box corners counter-clockwise, bottom before top. '
     'The meshio cell name is the right one for every element type and an unknown type is an error.',
     ['inputs', 'configurations'],
     'all numbers of cells along each direction (symbolic) and side lengths; nine element types',
     'tests use cubes with equal numbers of cells, where swapped directions cannot be seen',
     [GEN], [('generators', 'rectangle_mesh, box_mesh'), ('cell names', 'get_meshio_cell_type')])
prop('P24', 'Filters average over neighbouring cells with cone weights',
     'The filter weight between two flexible cells is max(radius minus the distance of their centroids, 0), the radius being 1.5 times the mean cell volume to the power one over the dimension, for the up to twenty nearest flexible cells and zero otherwise; the row sums belong to the same matrix. '
     'The density filter returns the weighted sum of the densities divided by the row sum, and the sensitivity filter the weighted sum of density times sensitivity divided by max(0.001, density) times the row sum, for the objective and every constraint.',
     ['inputs', 'configurations'],
     'all meshes, flexible cell sets of any size (also fewer than twenty), densities, sensitivities',
     'no stable test optimises; a wrong normalisation only blurs the design differently',
     [MMA], [('weights', 'compute_filter_kd_tree'), ('filters', 'applyDensityFilter, applySensitivityFilter')])
prop('P23', 'Topology optimisation solves the MMA subproblem of the current design',
     'In every iteration the objective and constraints are evaluated once at the current (filtered, if density filtering is on) design with the iteration number, and the subproblem handed to the solver has the MMA data of that design: asymptotes from the last three designs (start 0.5, factors 1.2 and 0.7, kept between 0.01 and 10 times the bound width), bounds from the asymptotes (0.1), move limit and 0..1 bounds, and p0, q0, P, Q and b from the (filtered, if sensitivity filtering is on) sensitivities. '
     'The next design is the subproblem\'s optimum, asymptotes carry over, and the design after exactly the requested number of iterations is returned in the shape it came in.',
     ['inputs', 'histories', 'configurations'],
     'all numbers of variables and constraints, designs, bounds, sensitivities, histories; both filter switches',
     'no stable test optimises; a swapped history entry or asymptote rule only slows convergence',
     [MMA], [('subproblem', 'MMA.mmasub'), ('loop', 'optimize')])
prop('P22', 'The MMA subproblem solver is a primal-dual interior-point Newton method',
     'The solver starts from the midpoint of the bounds with multipliers max(1, 1/distance) and unit slacks, divides the barrier parameter by ten from one until it is at most the requested accuracy, and for each value takes Newton steps until the largest residual of the perturbed optimality conditions is at most 0.9 times the parameter or 200 steps were taken. '
     'Each step solves the exactly linearised conditions of the MMA subproblem at the current point (eliminated either to the constraints or to the variables, whichever is fewer), is cut so that every positive quantity and distance to a bound keeps at least about one percent of its value, and halved up to 50 times until the residual norm decreases. '
     'The nine values returned are the last iterate.',
     ['inputs', 'histories', 'configurations'],
     'all subproblem data, numbers of variables and constraints (both branches), iteration counts (by induction)',
     'no stable test optimises; a wrong entry in the linearised system only makes the solver slower or less accurate',
     [MMA], [('solver', 'subsolv')], tech=LI)
prop('P26', 'Saved files and helper wrappers keep the data and results they are given',
     'Saving a solution writes exactly one file under the given name, after creating its directory, with the mesh\'s points, its cells under the right cell type, the solution and the named point and cell data (up to single precision); data with the wrong number of cells or nodes is rejected before anything is written. '
     'The timing wrappers call the function once with its own arguments and return its result; the version conversion rewrites every line with only the version tag changed; reading a configuration returns the parsed contents and an Abaqus conversion writes the mesh it read.',
     ['inputs', 'configurations'],
     'all meshes, solutions, data arrays, file names, functions and arguments',
     'tests save files without reading them back, and never with data of the wrong size',
     [UTL], [('output', 'save_sol'), ('wrappers', 'timeit, walltime'), ('files', 'modify_vtu_file, json_parse, read_abaqus_and_write_vtk')])
DF = 'def-use analysis of the syntax trees (type tokens and configuration switches)'
prop('P18', 'Every variable gets its own data and its own block of unknowns',
     'A problem built from single values is the one-variable problem with exactly those values; one built from lists gives each variable its own mesh, vector size, element type, quadrature rule, quadrature order and Dirichlet data, where a rule or order given once (or no Dirichlet data) applies to every variable. '
     'Unknowns are numbered variable by variable, node by node, component by component: offsets, dof counts and the flatten and unflatten maps all use that numbering. '
     'custom_init is called once with the additional information in order, when the spaces, boundary groups and geometry of all variables exist and all internal variables are empty.',
     ['inputs', 'configurations'],
     'all meshes and vector sizes, one to three variables, data given once or per variable, zero to two boundary groups',
     'tests use one or two variables with default quadrature; an order taken from another variable or a shifted block only degrades accuracy or appears with three variables',
     [PRB, FE], [('normalisation and numbering', 'Problem.__post_init__'), ('space data', 'FiniteElement.__post_init__')])
prop('P27', 'Computations run in double precision',
     'Importing the solver or the optimiser switches double precision on unconditionally, before any array is created at import, and nothing in the package switches it off. '
     'No value computed by the package is converted to, or created in, a lower-precision floating-point or complex type, except the data save_sol writes to files.',
     ['configurations', 'inputs'],
     'all modules of the package (the experimental scripts excluded), every function and every occurrence of a reduced-precision type',
     'tests compare with tolerances that single precision often meets, and import other modules that switch double precision on',
     [SLV, MMA, UTL, FE, PRB], [('switch', 'config.update in solver.py and mma.py'), ('conversions', 'astype / dtype= / array constructors in all modules')], tech=DF)
prop('P28', 'gmsh meshes are the requested ones and tetrahedra are measured by signed volume',
     'The gmsh box generator sweeps a point at the origin along the three axes by the requested side lengths with the requested numbers of cells (hexahedra or tetrahedra and element order by the element type), writes the mesh after setting the order to a file whose directory it created, reads that same file back and returns its points and the cells of the requested type; HEX20 and unknown types are errors. '
     'The cylinder generator describes to gmsh a disc of the requested radius (square core with half side the requested ratio of the radius, four blocks around, the requested number of points per curve) swept to the requested height in the requested layers, and returns the mesh gmsh made of it without points 0 and 14, cells renumbered accordingly. check_mesh_TET4 returns six times the signed volume of every cell.',
     ['inputs', 'configurations'],
     'all counts and side lengths (symbolic), supported element types, all meshes read back, all tetrahedra',
     'tests generate boxes with equal counts and lengths and no test looks at the cylinder or the signed volumes',
     [GEN], [('gmsh meshes', 'box_mesh_gmsh, cylinder_mesh_gmsh'), ('signed volume', 'check_mesh_TET4')])
prop('P31', 'Load vectors, operator matrices and boundary reports show the problem itself',
     'get_q_vec is the assembled residual of all variables at zero unknowns, before any boundary elimination; operator_to_matrix is the derivative of the operator at zero; a function of per-variable arrays wrapped for flat unknowns is evaluated on exactly those unknowns. '
     'assign_bc, assign_zeros_bc and assign_ones_bc replace exactly the constrained entries of the given unknowns by the prescribed value, zero or one (later conditions win), and copy_bc keeps exactly those entries and is zero elsewhere. '
     'print_BC_info prints one array of (cell, face) pairs per boundary group and one array of (node, component, value) rows per condition of every variable.',
     ['inputs', 'configurations'],
     'all problems, numbers of variables (1 to 3) and conditions (0 to 3), unknowns, operators',
     'no stable test calls these functions',
     [SLV, PRB], [('vectors and matrices', 'get_q_vec, operator_to_matrix, get_flatten_fn'), ('boundary vectors', 'assign_bc, assign_zeros_bc, assign_ones_bc, copy_bc'), ('report', 'Problem.print_BC_info')])

prop('P40', 'No call changes the data its caller passed in',
     'No public function or method changes the arrays, lists, dictionaries or meshes its caller passes, or passed to an earlier call: mesh coordinates and connectivity, boundary-condition and location lists, starting guesses, '
     'the previous states of a continuation, initial densities, parameters, lists of data to save, and solver or optimisation option dictionaries hold the same contents afterwards. '
     'Default arguments and module settings do not change either, so no call sees the data of another one. '
     'Only arguments meant to collect results (timing) and the package\'s own problem and optimiser objects are updated.',
     ['inputs', 'histories'],
     'all arguments of the calls the other properties analyse (NumPy arrays where the code accepts them), including the error-free paths of every solver backend and option form',
     'tests build fresh arguments for every call and never look at them afterwards; an overwritten start or option only shows when the same object is used twice',
     [SLV, FE, PRB, MMA, UTL, GEN], [('options', 'solver, linear_solver, ad_wrapper'), ('states', 'arc_length_solver_disp_driven, arc_length_solver_force_driven, dynamic_relax_solve'), ('optimisation', 'optimize, MMA.mmasub'), ('data', 'save_sol, Mesh, FiniteElement.__post_init__, update_Dirichlet_boundary_conditions')],
     tech='effects analysis (ownership and aliasing of arrays, lists and dictionaries) over the abstract interpretation of the source')

prop('P41', 'Problem descriptions that do not fit together are refused',
     'Building an element or a problem, or updating its conditions, fails with an error and never completes by guessing when the lists of locations, components and values of the Dirichlet conditions differ in length, '
     'when a location function (of a condition or of a boundary group) takes neither one nor two arguments, '
     'when the number of surface maps or of surface kernels differs from the number of boundary groups, when boundary groups are given without either, '
     'and when the reference dimension of the element differs from the dimension of the problem; descriptions that fit are accepted.',
     ['inputs', 'configurations'],
     'all combinations of list lengths and argument counts up to three entries, for the first and the second variable, at construction and update',
     'the tests only build well-formed problems',
     [FE, PRB], [('conditions', 'FiniteElement.Dirichlet_boundary_conditions, update_Dirichlet_boundary_conditions'), ('boundary groups', 'FiniteElement.get_boundary_conditions_inds, Problem.pre_jit_fns'), ('dimension', 'FiniteElement.get_shape_grads')],
     tech='path analysis of the construction code by abstract interpretation (every malformed description must reach a raise)')

# ---------------------------------------------------------------- properties this family cannot decide
prop('P32', 'Discrete solutions converge to the exact solution at the optimal rate',
     'For a well-posed problem with a smooth exact solution, refining the mesh makes the error of the computed solution decrease at the rate of the element type (order p+1 in L2, p in H1).',
     ['inputs', 'configurations'], 'all well-posed problems with smooth solutions, mesh families and element types',
     'tests run one mesh per problem; a rate is a statement about an infinite family of meshes',
     [PRB, FE, BAS], [('discretisation', 'Problem, FiniteElement, get_elements')],
     na='the error against the exact solution is a run-time quantity governed by approximation theory (coercivity, regularity), which no source-level argument in reach bounds; the ingredients the code contributes (exact nodal bases, geometry, assembly, elimination) are decided by P01-P03, P11-P13')
prop('P33', 'The nonlinear iterations terminate',
     'For every problem with a solution near the starting point, the Newton, dynamic-relaxation and arc-length corrector loops end after finitely many iterations.',
     ['inputs', 'histories'], 'all problems and starting points in the basin of attraction',
     'tests sample a few converging problems',
     [SLV], [('loops', 'solver, dynamic_relax_solve, arc_length_solver_disp_driven, arc_length_solver_force_driven')],
     na='termination depends on contraction of the user\'s nonlinear map at run-time states, and the loops have no iteration bound in the source; what holds when they do end is decided by P05, P19, P20')
prop('P34', 'External meshes are conforming and positively oriented',
     'The meshes gmsh produces for the box and cylinder generators are conforming, every cell has positive volume and the cells tile the requested domain.',
     ['inputs'], 'all side lengths, counts, mesh densities and element types',
     'tests look at one box',
     [GEN], [('gmsh calls', 'box_mesh_gmsh, cylinder_mesh_gmsh')],
     na='the cells are computed at run time by the external gmsh program, whose source is not part of the repository; the description sent to it and the treatment of what comes back are decided by P28')
prop('P35', 'All linear backends agree up to the stated tolerance',
     'For the same matrix and right-hand side the JAX, UMFPACK, PETSc and AMGX backends return vectors that agree up to rounding and the iterative tolerance.',
     ['inputs', 'configurations'], 'all well-conditioned systems',
     'tests use two backends on a few systems',
     [SLV], [('backends', 'jax_solve, umfpack_solve, petsc_solve, AMGX_solve')],
     na='agreement is a floating-point property of external libraries and of the conditioning of run-time matrices; that each backend is given exactly the system and its answer is checked and returned is decided by P06')
prop('P36', 'Topology optimisation converges to a stationary design',
     'The sequence of designs of the optimiser converges to a point satisfying the first-order optimality conditions of the original problem.',
     ['inputs', 'histories'], 'all objectives, constraints and starting designs',
     'no stable test optimises',
     [MMA], [('loop', 'optimize')],
     na='the method of moving asymptotes without a globalisation step has no convergence guarantee, and the iterates depend on run-time values; the data and solution procedure of every subproblem are decided by P22-P24')
prop('P37', 'Batched evaluation bounds peak memory and cost grows linearly with the mesh',
     'The working memory of assembly is bounded by the size of one batch plus the result, and assembly time grows linearly with the number of cells.',
     ['inputs'], 'all mesh sizes',
     'tests use small meshes',
     [PRB], [('batches', 'Problem.split_and_compute_cell')],
     na='peak memory and time are decided by the XLA compiler and run-time allocation; no source-level argument in reach bounds them (that batching does not change results is part of P01)')
prop('P38', 'Results are accurate in floating point',
     'Assembly, elimination, adjoint and filter results differ from their exact values by a small multiple of rounding error for reasonable data.',
     ['inputs'], 'all meshes and fields of reasonable magnitude',
     'tests compare with loose tolerances',
     [PRB, FE, SLV, MMA], [('arithmetic', 'all modules')],
     na='every check here reasons over the reals; a rounding analysis needs run-time magnitudes and the summation order chosen by XLA (that double precision is used throughout is decided by P27)')
prop('P39', 'The shipped applications reproduce their published results',
     'Each script under applications computes the physical result its documentation shows.',
     ['configurations'], 'all application scripts and their parameters',
     'the applications are not run by the tests; several need files or libraries that are not in the repository',
     ['applications/README.md'], [('scripts', 'applications/*/example.py')],
     na='the reference is a set of pictures and published figures, not a specification, and the outcome is a run-time quantity of long nonlinear computations')
