UNIT = 'tests evaluate fixed sample points and compare printed numbers with stored output'
prop('P01', 'Free energy derivatives are exact',
     'The sintering free energy equals its documented polynomial, and every first and second derivative offered for it is the exact derivative of that same energy. This holds for every concentration, every set of order parameter values, all energy coefficients and every supported number of grains, whichever subset of derivatives is requested.',
     ['inputs', 'configurations'], 'all real states, coefficients A and B, evaluation masks, and grain counts',
     'an identity over all reals; ' + UNIT,
     [SIN + 'free_energy.h'], [('energy and derivative evaluators', 'FreeEnergy and the nested evaluator returned by eval()')],
     'all real inputs and coefficients; grain counts 0..MAX enumerated (template parameter)')
prop('P02', 'Power sums agree with their definition in every variant',
     'The helper that sums powers of order parameters returns exactly the mathematical sum of the requested power for any number of entries and any values. All access variants (run-time size, compile-time size, array or iterator input) and the whole-sum against leave-one-out combinations agree with each other.',
     ['inputs', 'configurations'], 'all real values, all entry counts up to the compiled maximum, all powers in use',
     'an identity over all reals and sizes; ' + UNIT,
     [INC + 'numerics/power_helper.h'], [('power sums', 'PowerHelper')], 'all real inputs; entry counts enumerated')
prop('P03', 'Scalar mobility: flux, tangent and coefficient laws are consistent',
     'With scalar mobility the mass flux is the sum of bulk, vapour, surface and grain boundary mobility times the driving force, the reported parts add up to it, none of them is negative, and each follows its documented law. Inside the physical concentration range the tangent of the flux and each separately offered mobility derivative are the exact derivatives of that flux. Temperature-dependent coefficients follow the Arrhenius law in simulation units at the requested time, and constant ones are passed through unchanged.',
     ['inputs', 'configurations'], 'all real states, gradients, coefficients, directions, temperatures and times; grain counts up to the compiled maximum',
     'identities over all reals; ' + UNIT,
     [SIN + 'mobility.h'], [('flux, tangent, parts', 'MobilityScalar'), ('coefficients', 'ProviderAbstract, ProviderRealistic, Mobility::update')],
     'all real inputs; 2D and 3D; grain counts enumerated (flux to 10, tangent to 6)')
prop('P04', 'Tensorial mobility: projected flux and its tangent are consistent',
     'With tensorial mobility, surface and grain boundary transport act only tangentially to the respective interface (up to the documented stabilisation of the surface part), bulk and vapour transport act isotropically, and vanishing interface gradients never lead to division by zero. Away from the regularisation thresholds the tangent of the flux and the separately offered derivative matrices are the exact derivatives with respect to concentration, order parameters, concentration gradient and driving force, with grain boundary normals held fixed.',
     ['inputs', 'configurations'], 'all real states, gradients, coefficients and directions; 2D and 3D; grain counts to the stated bound',
     'identities over all reals including square roots; the existing tangent tests use a few states of one small mesh',
     [SIN + 'mobility.h', INC + 'base/tensor.h'], [('flux, tangent, matrices', 'MobilityTensorial'), ('normals and projections', 'unit_vector, projector_matrix, unit_vector_filter_2')],
     'all real inputs; 2D (n<=3) and 3D (n<=2)')
prop('P05', 'Sintering Jacobian is the exact derivative of the residual',
     'At every integration point, the linearised sintering operator applied to any direction is the exact directional derivative of the nonlinear residual that the same operator evaluates, for the concentration, chemical potential and all order parameter equations. This holds for every state, gradient, time step weight, material coefficient, number of grains, and for scalar mobility as well as for tensorial mobility with fixed boundary normals. The residual itself is the documented weak form: discrete rate from the stored weights, potentials, gradient energy, flux, and transport of each order parameter (and the concentration) with the rigid-body velocity of its own grain.',
     ['inputs', 'configurations'], 'all real quadrature point states, directions and coefficients; grain counts enumerated; with and without advection',
     'existing tangent tests compare against finite differences on one small mesh with one initial state',
     [SIN + 'operator_sintering_generic.h', SIN + 'operator_sintering_data.h'], [('residual', 'SinteringOperatorGenericResidualQuad'), ('Jacobian', 'SinteringOperatorGenericQuad')])
prop('P06', 'Time integration schemes have their nominal order on any step history',
     'For any positive sequence of recent step sizes the weights of every implicit multistep scheme differentiate all polynomials up to the order of the scheme exactly, sum to zero, and need exactly as many old values as the order says. Explicit schemes satisfy the order conditions of their nominal order with consistent stages, and selecting a scheme by name returns the scheme of that name.',
     ['inputs', 'configurations'], 'all positive step sizes and polynomial coefficients',
     'only constant step sizes and one scalar decay problem are run by tests',
     [INC + 'time_integration/time_schemes.h', INC + 'time_integration/time_marching.h'], [('weights', 'BDF1Scheme, BDF2Scheme, BDF3Scheme, ForwardEulerScheme, RungeKutta4Scheme, create_time_scheme'), ('explicit steps', 'TimeMarchingExplicit')])
prop('P07', 'Time step history is a faithful shift register across all operations',
     'After any sequence of accepting a step, retrying it with another size, copying, switching scheme, or saving and restarting, the stored step sizes are the most recent ones in order and the derivative weights always belong to exactly these steps. Solution history keeps each previous solution in order when a step is accepted, and extrapolation and the several views of the history address exactly the documented entries.',
     ['histories', 'inputs', 'configurations'], 'all step values from an arbitrary register state, every operation, every scheme order',
     'tests run one fixed sequence without restart; the guarantee is over all operation histories',
     [INC + 'time_integration/time_integrator_data.h', INC + 'time_integration/solution_history.h', INC + 'time_integration/time_integrators.h'],
     [('step sizes and weights', 'TimeIntegratorData'), ('old solutions', 'SolutionHistory'), ('discrete time derivative', 'TimeCellIntegrator')])
prop('P08', 'Rigid body kinematics of grains is mechanically consistent',
     'Contact forces between two grains are equal and opposite at every integration point, each torque is the moment of the force about the centroid of its grain in 2D as in 3D with the same sign convention, and the resulting rigid body velocity is the translation plus rotation about that centroid with the stored coefficients. A time step passes the Courant check only if no grain moves in it further than the diameter of a cell it is in. The vector algebra helpers (cross products, skew matrices, projections, unit vectors, rotations) obey their algebraic definitions for every input.',
     ['inputs', 'configurations'], 'all real vectors, 2D and 3D',
     'algebraic laws over all vectors; tests print one example',
     [INC + 'base/tensor.h', SIN + 'operator_advection.h', SIN + 'advection.h', SIN + 'cfl_checker.h', INC + 'grain_tracker/motion.h'], [('vector algebra', 'cross_product, skew, projector_matrix'), ('forces and torques', 'AdvectionOperator'), ('velocity', 'AdvectionMechanism')])
prop('P09', 'Tabulated functions interpolate their table',
     'A function given by a table passes through all its knots, is linear between neighbouring knots, and outside the table follows exactly the chosen continuation rule, whatever the order in which the knots are given. Constant functions return their constant everywhere.',
     ['inputs'], 'all abscissae and ordinates, all query points, table sizes to the stated bound',
     'no test covers it', [INC + 'numerics/functions.h'], [('interpolation', 'Function1DPiecewise')])
prop('P10', 'Ellipsoid geometry follows from its defining quadratic form',
     'For every non-degenerate ellipse or ellipsoid the derived centre, axes and radii reproduce the quadratic form it was built from, and the tests whether a point is inside, intersections with lines and scaling act consistently with it. The inertia moments of a homogeneous body of that shape give its shape back, and the iterative distance measures between points on both surfaces, is zero exactly if an overlap is found, and is exact for balls.',
     ['inputs'], 'all real coefficients of non-degenerate ellipsoids',
     'tests print some values for a handful of ellipsoids', [INC + 'grain_tracker/ellipsoid.h', INC + 'grain_tracker/elliptical_helpers.h'], [('geometry', 'Ellipsoid')])
prop('P11', 'Grain separation estimates are safe, symmetric distances',
     'The distance between two grains is the minimum over all pairs of their segments, is symmetric, and equals centre distance minus radii for spherical descriptions. The description of a grain found in a field encloses the grain. Derived grain measures (largest radius, total volume, number of segments, nearest neighbour distance and transferable buffers) always reflect all segments of the grain.',
     ['inputs', 'histories'], 'all segment positions, radii and measures; segment counts to the stated bound',
     'tests print a few grains', [INC + 'grain_tracker/grain.h', INC + 'grain_tracker/segment.h', INC + 'grain_tracker/representation.h'], [('grain', 'Grain'), ('segment', 'Segment'), ('representation', 'RepresentationSpherical and others')])
prop('P12', 'Saving and restoring a restart state loses nothing',
     'Writing any grain, segment, representation or time history to a restart archive and reading it back yields an object that behaves identically to the original, consuming exactly what was written. This holds for every content, including empty and multi-segment grains. Solution vectors stored for a restart give every unknown its value back, whatever the numbering and ownership of the unknowns at writing and reading.',
     ['inputs', 'histories'], 'all object contents, container sizes to the stated bound',
     'one stored example is round-tripped by tests', [INC + 'grain_tracker/grain.h', INC + 'grain_tracker/segment.h', INC + 'grain_tracker/representation.h', INC + 'grain_tracker/ellipsoid.h', INC + 'base/solution_serialization.h'], [('serialisation', 'serialize / save / load members')])
prop('P13', 'Order parameter remapping is a lossless permutation of fields',
     'Whatever set of grain moves between order parameters is requested, executing the computed sequence of moves (including temporary storage and cycle breaking) leaves each grain in its requested order parameter, moves every grain at most as often as needed, and never overwrites a grain that has not been moved away. Order parameters not involved stay untouched.',
     ['inputs', 'histories'], 'all remapping requests up to the stated number of grains and order parameters',
     'tests show two hand-made graphs', [INC + 'grain_tracker/remap_graph.h', INC + 'grain_tracker/remapping.h'], [('cycle breaking and ordering', 'RemapGraph')])
prop('P14', 'Grain identities follow grains between time steps',
     'When grains are matched from one time step to the next, every new grain that clearly continues an old one receives that one\'s identity, and no identity is given to two grains. Genuinely new grains get fresh identities, and the result does not depend on the order in which grains are listed.',
     ['inputs', 'histories'], 'all positions and radii; numbers of old and new grains to the stated bound',
     'tests move one fixed arrangement', [INC + 'grain_tracker/tracking.h'], [('matching', 'transfer_grain_ids')])
prop('P15', 'Neighbouring grains never share an order parameter after reassignment',
     'After grains are (re)assigned to order parameters, any two grains closer than the interaction distance carry different order parameters, every grain has exactly one valid order parameter, and no more order parameters are used than available.',
     ['inputs', 'histories'], 'all grain positions and radii, numbers of grains to the stated bound',
     'tests run single arrangements', [INC + 'grain_tracker/tracker.h'], [('assignment', 'Tracker::reassign_grains')])
prop('P16', 'Block vector algebra acts block by block and keeps its size bookkeeping',
     'Every operation of the dynamic block vector equals the same operation applied block by block with reductions summed over all blocks, for any number of blocks. Growing, shrinking, moving, copying and creating views of blocks keep all untouched blocks and the reported sizes correct.',
     ['inputs', 'histories'], 'all entries; block counts to the stated bound; every operation',
     'tests print one sequence', [INC + 'lac/dynamic_block_vector.h'], [('block algebra', 'DynamicBlockVector')])
prop('P17', 'Nonlinear solver only reports success at a converged solution',
     'Whenever the damped Newton solver returns without raising an error, the residual at the returned solution satisfies the absolute or relative tolerance, every accepted step reduced the residual norm sufficiently, and the reported iteration counts equal the work done. If it cannot satisfy them within its limits it raises the documented error.',
     ['inputs', 'histories', 'configurations'], 'all residual norm histories and all tolerances and settings; iteration counts to the stated bound',
     'tests run convergent problems only', [INC + 'lac/solvers_nonlinear.h', INC + 'lac/newton.h', INC + 'time_integration/time_marching.h'], [('damped Newton', 'DampedNewtonSolver, NewtonSolver'), ('stopping', 'NewtonSolverSolverControl')])
prop('P18', 'Initial mesh divisions cover the box at the requested resolution',
     'Given any box and interface resolution, the computed coarse divisions and refinement levels reproduce the requested number of cells per direction up to rounding, prime factorisations multiply back to the number, and adjusted divisions never fall below one cell.',
     ['inputs', 'configurations'], 'all box sizes and resolutions; integers to the stated bound',
     'tests use three boxes', [INC + 'grid/grid_tools.h'], [('divisions', 'decompose_to_prime_tuple, get_divisions and related')])
prop('P19', 'Box filter selects exactly the points inside its bounds',
     'A point, cell or vectorised evaluation is kept by the bounding box filter exactly when it lies inside the box, points on its boundary are recognised as such, and intersections of mesh edges with the box planes lie on both.',
     ['inputs'], 'all points and boxes', 'no test covers it', [INC + 'grid/bounding_box_filter.h'], [('filter', 'BoundingBoxFilter')])
prop('P20', 'Distributed grain pieces are merged exactly along their connections',
     'Pieces of grains found by different processes or across periodic boundaries are merged if and only if a chain of reported contacts connects them. The resulting numbering is unique, complete and independent of the order of the reports.',
     ['inputs', 'schedules'], 'all contact graphs up to the stated number of pieces', 'tests use two graphs',
     [INC + 'grain_tracker/distributed_stitching.h', INC + 'grain_tracker/periodicity_graph.h'], [('components', 'connected_components, PeriodicityGraph, perform_distributed_stitching')])
prop('P21', 'Particle tables are read completely and energy parameters satisfy their laws',
     'Every well-formed row of a particle table becomes exactly one particle with its coordinates and radius unchanged, and malformed ones are rejected with an error. Model energy coefficients derived from surface and grain boundary energy reproduce these energies.',
     ['inputs'], 'all numbers and parameters', 'one file is read by tests', [SIN + 'csv_reader.h', SIN + 'tools.h', 'applications/sintering/src/csv_reader.cc', 'applications/sintering/src/tools.cc'], [('reader', 'CSVRow, read_particles'), ('energies', 'compute_energy_params')])
prop('P22', 'Initial microstructures are admissible phase fields',
     'Every initial condition yields concentration and order parameters within the physical range at every point, one inside a grain and zero far outside, with a monotone diffuse interface of the requested width, each grain is represented by exactly one order parameter which touching grains do not share, overlapping and adjoining grains take over from each other along their common boundary, and the reported domain encloses all grains.',
     ['inputs', 'configurations'], 'all points, particle positions, radii and interface widths', 'tests print integrals of a few packings',
     [SIN + 'initial_values_spherical.h', SIN + 'initial_values_array.h', SIN + 'initial_values_circle.h', SIN + 'initial_values_hypercube.h', SIN + 'initial_values_cloud.h', SIN + 'initial_values_ch_ac.h', SIN + 'initial_values_microstructure.h'], [('profiles', 'InitialValuesSpherical, InitialValuesCHAC'), ('packings', 'InitialValuesCircle, InitialValuesHypercube, InitialValuesCloud'), ('polygons', 'InitialValuesMicrostructure')])
prop('P23', 'Per-cell grain activity tables never hide an active grain',
     'The operator data that restrict evaluation to locally active order parameters mark every order parameter that exceeds the activity threshold in a cell, keep component numbering consistent, and store at each integration point exactly the state values the equations later read.',
     ['inputs', 'configurations'], 'all states; cell and grain counts to the stated bound', 'tests run with tables either always full or on one mesh',
     [SIN + 'operator_sintering_data.h', SIN + 'operator_base.h'], [('tables', 'SinteringOperatorData')])
prop('P24', 'Grain growth and grand potential operators have exact Jacobians',
     'For the grain growth model and the grand potential model, the linearised operator at every integration point is the exact directional derivative of the residual evaluated by the same operator, and potentials, densities and their susceptibilities are mutually consistent derivatives.',
     ['inputs', 'configurations'], 'all states and coefficients; grain counts enumerated', 'no test covers the tangents for all states',
     [SIN + 'operator_grain_growth.h', SIN + 'operator_grand_potential_greenquist.h'], [('operators', 'GrainGrowthOperator, GreenquistGrandPotential')])
prop('P25', 'Elastic and inelastic material laws are consistent',
     'The stress of each structural material law is the exact derivative of its stored energy, its tangent is the exact derivative of the stress, both have the required symmetries, and rigid rotations produce no energy. Linear strain measures agree between the vector and the tensor notation in 2D and 3D. The residual of the elastic body is the weak form of these stresses and of the load, its operator is the derivative, with or without a matrix, and displacements held at supports stay held.',
     ['inputs', 'configurations'], 'all strains and material constants', 'one bar problem is run',
     [STR + 'stvenantkirchhoff.h', STR + 'tools.h', STR + 'operator_elastic_linear.h', SIN + 'inelastic.h'], [('stress and tangent', 'StVenantKirchhoff'), ('notation', 'structural tools'), ('body', 'LinearElasticOperator')])
prop('P26', 'Adaptive time stepping respects its limits',
     'Time steps grow only by the configured growth factor after steps that converged easily, are halved by every failed attempt, and never exceed the configured maximum or pass the end time, the first step included. A failed attempt leaves no trace in the solution, the time or the step history, and when a step must shrink to the minimum the run stops with an error instead of continuing.',
     ['histories', 'configurations'], 'all settings, times and steps; all outcomes of up to three attempts from an arbitrary state', 'tests run convergent cases only',
     [SIN + 'driver.h'], [('step control', 'Problem::run, process_failure')])
prop('P27', 'Grains spread over several processes are labelled identically everywhere',
     'Flood filling, ghost exchange and stitching of a distributed field label each connected grain exactly once and identically on all processes, for every partition of the mesh and every refinement. The sizes, centres, largest values and contacts of the grains derived from these labels are those of the whole grain on every process.',
     ['schedules', 'configurations', 'inputs'], 'all field values and partitions of the enumerated meshes', 'tests run four processes on fixed meshes and compare stored outputs',
     [INC + 'grain_tracker/tracker.h', INC + 'grain_tracker/distributed_stitching.h'], [('flooding', 'run_flooding, detect_local_particle_groups, build_local_connectivity, switch_to_global_indices'), ('properties', 'compute_particles_max_values, compute_particles_info, compute_particles_radii'), ('detection', 'Tracker::detect_grains, get_direct_neighbors')])
prop('P28', 'A restarted simulation continues as if never interrupted',
     'Stopping at any checkpoint and restarting from it reproduces the time, the size of the next step, the step and solution history, the grains, the counters and the events that are due, so that every following step starts from what the uninterrupted run would have had.',
     ['crash_points', 'histories'], 'all settings, states and steps; all outcomes of up to three attempts before and two behind the checkpoint', 'no test restarts a run',
     [SIN + 'driver.h'], [('checkpoint', 'Problem::run, Problem::serialize'), ('restart', 'Problem constructor with restart_path')])
prop('P29', 'Reported quantities are what they are named after',
     'Every quantity reported for a result - integrals over the domain with or without a restricting box, free energies, surface and grain boundary areas, the number and extent of pores, mesh quality and the average coordination number - and every derived field written to the output under a requested name - boundaries, energies and their derivatives, mobilities, fluxes, velocities, strains - equals its definition evaluated on the finite element fields, counts every cell, facet and grain exactly once, and does not depend on how the mesh is distributed over processes.',
     ['inputs', 'configurations', 'schedules'], 'all field values on the enumerated meshes, partitions and quantity lists', 'tests compare stored outputs of a few runs',
     [SIN + 'postprocessors.h', SIN + 'operator_sintering_base.h', SIN + 'operator_grain_growth.h', SIN + 'operator_grand_potential_greenquist.h', SIN + 'operator_base.h'], [('integrals', 'calc_domain_quantities, build_domain_quantities_evaluators'), ('pores', 'detect_pores, run_flooding'), ('areas', 'compute_surface_area, compute_grain_boundaries_area'), ('fields', 'do_add_data_vectors_kernel'), ('statistics', 'estimate_mesh_quality_min, compute_average_coordination_number')])
prop('P30', 'Constrained unknowns are handled consistently by every operator application',
     'Applying any matrix-free operator leaves its input unchanged, returns constrained unknowns unchanged and gives unconstrained ones the operator applied to the input with its constrained entries set to zero. After a mesh change is announced the operator follows the new sizes, and splitting or merging between block and interleaved layouts loses nothing.',
     ['inputs', 'configurations'], 'all vectors; block counts and constraint sets enumerated',
     'tests compare iteration counts of a few runs in which constraints are few', [SIN + 'operator_base.h', SIN + 'operator_sintering_generic.h', INC + 'lac/jacobian_operator.h'], [('application', 'OperatorBase::vmult, vmult_internal, clear'), ('layout', 'split_up, merge'), ('finite differences', 'JacobianFree')])
prop('P31', 'Assembled matrices represent the operator they are made from',
     'The system matrix assembled from an operator multiplies every vector, in block and in interleaved layout, as the operator itself does, with held unknowns handled alike; the matrix of a single component is that of the operator restricted to the component; the diagonal used for preconditioning is the inverse of the diagonal of the operator, with one where it vanishes. Assembling again after the operator or the number of components changed gives the matrix of the new operator, and nothing but noise is dropped.',
     ['inputs', 'configurations', 'histories'], 'all vectors and factors of the operator per cell; meshes of two or three cells that share unknowns, sets of held unknowns and component counts enumerated',
     'tests solve with matrices in a few runs and compare results to a few digits', [INC + 'matrix_free/tools.h', SIN + 'operator_base.h', STR + 'operator_elastic_linear.h'], [('assembly', 'MyMatrixFreeTools::compute_matrix'), ('set-up', 'OperatorBase::initialize_system_matrix, initialize_block_system_matrix, clear_system_matrix'), ('diagonal', 'OperatorBase::compute_inverse_diagonal')])
prop('P32', 'Refinement, tracking, output and checkpoints happen exactly when configured',
     'The mesh is refined after the configured number of accepted steps or when its quality falls below the threshold, grains are searched for at the configured frequency and whenever advection, boundary conditions, output or mesh changes need them, supports are renewed on a new mesh, output is written when its interval has passed and at the end, and checkpoints are numbered cyclically. Failed attempts trigger none of these, a solution in which grains get lost is rejected or stops the run, and the initial guess of a step is what its predictor is named after.',
     ['histories', 'configurations'], 'all step sizes, times and qualities; frequencies up to three and all outcomes of two attempts enumerated', 'tests run few steps of convergent cases and compare printed tables',
     [SIN + 'driver.h'], [('events', 'Problem::run'), ('checkpoints', 'Problem::run')])
