prop('C11', 'A configuration setting means the same thing wherever it is read',
     'All components that read one setting (section and name, ignoring case) read it under one spelling, as the same kind of value and with the same default, whichever of them runs first. A default that was applied is recorded as text that reads back as the same value (real numbers with all their digits, lists with the separator the reader splits at).',
     ['configurations', 'programs'], 'every configuration file, every combination of components and order of construction',
     'each unit test builds one component with one small configuration; two readers of one setting never meet',
     ['core/src/utils/config/ConfigMap.h', 'core/src/DyabloTimeLoop.h', 'core/src/Cosmo.h', 'core/src/RiemannSolvers.h'],
     [('ConfigMap::getValue registers the default on first read', 'core/src/utils/config/ConfigMap.h'),
      ('every getValue/hasValue call', 'core/src')],
     technique='whole-program constant propagation of setting names, types and defaults over the type-checked syntax trees, then agreement per setting; structural rules on the map itself',
     note='Decides agreement of names, type families and constant defaults over all readers that the build compiles; defaults computed at run time are counted, not compared. Trusts the clang front end and that settings reach components only through ConfigMap.')
prop('C06', 'State conversions lose nothing and every field keeps its meaning',
     'For every state of every physics (hydro, MHD, GLM-MHD) with positive density and pressure: primitive to conservative and back is the identity, both follow the equation of state (momentum = density times velocity, total energy = internal + kinetic + magnetic), exchanging two axes exchanges exactly the components of those axes and is its own inverse, storing a state in a field array and loading it back gives the same state with each member in the column of the field that bears its name, and the arithmetic operators on states act member by member.',
     ['inputs'], 'every state value, every axis, every physics, two and three dimensions',
     'tests compare a few literal states; the identity is needed for all of them and for each member',
     ['core/src/states/State_hydro.h', 'core/src/states/State_MHD.h', 'core/src/states/State_Nd.h', 'core/src/states/State_forward.h'],
     [('primToCons/consToPrim, swapComponents, getConservativeState/setConservativeState and the state operators', 'core/src/states')],
     technique='value numbering: conversions are inlined to exact rational normal forms and their compositions compared with the identity',
     note='Exact real arithmetic stands for floating point (round-off is not modelled). Trusts the clang front end and the normaliser.')
prop('C12', 'Every name users select resolves to exactly one component and value',
     'Every component that can be selected by name in a configuration is registered under exactly one name, no two components of one kind share a name, the default names the program falls back on exist, every named enumeration value round-trips between its text and its value, no two texts of an enumeration mean different values by accident, and an unknown name is reported, not silently replaced.',
     ['configurations', 'programs'], 'every registered component, every enumeration value, every configuration text',
     'tests select a handful of the registered names',
     ['core/src/utils/misc/RegisteringFactory.h', 'core/src/utils/config/named_enum.h', 'core/src/utils/config/ConfigMap.h'],
     [('the FACTORY_REGISTER declarations', 'core/src'), ('named_enum specialisations', 'core/src')],
     technique='whole-program registry extraction: constant propagation of registered names, set equality with the uses, structural rules on the factory',
     note='Covers all registrations the build compiles. Names assembled at run time are counted, not compared.')
prop('C13', 'Riemann solvers are consistent, symmetric and obey their jump conditions',
     'For every pair of states: with the same state on both sides the flux is the physical flux of that state; the two transverse directions are treated alike; mirroring the problem (exchanging the sides and reversing the normal components) gives the mirrored flux; when all waves move to one side the flux is that of the upwind state; across every wave of HLLC and HLLD the flux jumps by the wave speed times the jump of the conserved state.',
     ['inputs'], 'all left and right states with positive density and pressure, all wave configurations, all solvers and wrappers',
     'tests run one shock tube; a wrong term in one wave pattern or one direction stays invisible',
     ['core/src/RiemannSolvers.h', 'core/src/legacy/MusclBlockGodunovUpdateFunctor.h'],
     [('riemann_hllc, riemann_hlld, riemann_five_waves and the riemann_hydro wrappers', 'core/src/RiemannSolvers.h')],
     technique='value numbering to decision diagrams with rational-function leaves; comparison of the diagrams of transformed inputs',
     note='Exact real arithmetic; density and pressure floors set to zero; large intermediate values are abbreviated and such normal forms are compared at generic points with 120 digits. Upwinding and jump conditions of the five-wave solver are not decided.')
prop('C20', 'Quantities of one axis or side are never mixed with those of another',
     'In every computation that treats the axes x, y, z (or the sides left/right, min/max) in parallel, each quantity of an axis is combined only with quantities of the same axis: coordinates, cell sizes, block sizes, bounds, velocities, gradients, boundary settings and field components of x are assigned, compared, added to and passed as those of x, and likewise for the sides.',
     ['inputs', 'configurations'], 'every kernel and every non-cubic domain, block shape or anisotropic setting',
     'tests use cubic domains and blocks, where a mixed-up axis gives the same number',
     ['core/src'], [('all code with per-axis variables', 'core/src')],
     technique='axis/side label inference (a units-of-measure style type system) over the type-checked syntax trees',
     note='Labels are inferred from names, enumerators and constant indices; code without labels is not constrained; deliberate rotations through a direction argument are recognised.')
prop('C21', 'The hydro and MHD updates conserve mass, momentum, energy and magnetic flux',
     'On a periodic mesh without source terms, one step of every finite-volume update (Euler, RK2, Hancock, one-neighbour Hancock; hydro, MHD and GLM-MHD) leaves the volume-weighted sum over all cells of every conserved field unchanged on one-level meshes in two and three dimensions, whatever the states. The Euler, RK2 and one-neighbour schemes do so across a coarse/fine interface in every direction too. With reflecting walls the hydro updates still conserve mass and total energy.',
     ['inputs'], 'every state in every cell, every cell size and time step, meshes of one level and with coarse/fine interfaces along each axis',
     'tests check one profile against a reference with a tolerance and cubic cells; a flux that is not shared by both sides of a face in one direction, dimension or level configuration passes',
     ['core/src/hydro/HydroUpdate_utils.h', 'core/src/hydro/HydroUpdate_euler.cpp', 'core/src/hydro/HydroUpdate_RK2.cpp', 'core/src/hydro/HydroUpdate_hancock.cpp', 'core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp'],
     [('update() and the flux functions it calls', 'core/src/hydro')],
     technique='abstract interpretation by value numbering of the whole update over small abstract meshes with symbolic cell states; the normal form of the change of the total must be zero',
     note='Exact real arithmetic. The mesh interface is given its documented meaning; the Riemann flux is uninterpreted with the symmetries of C13. The GLM cleaning field psi is not a conserved quantity. The block-based legacy update is not covered, nor the coarse/fine behaviour of the Hancock scheme (documented as not conservative there).')
prop('C22', 'A uniform flow at any level configuration stays uniform',
     'If every cell holds the same state, one step of every finite-volume update (Euler, RK2, Hancock, one-neighbour Hancock; hydro, MHD, GLM-MHD) without source terms returns that state in every cell: on one level, next to larger and smaller neighbours in every direction, at refined corners, and at open (absorbing) boundaries, in two and three dimensions. (The GLM cleaning field psi, which is damped by design, is excepted.)',
     ['inputs'], 'every uniform state, every cell size and time step, every kind of neighbour in every direction',
     'tests start from non-uniform profiles with tolerances; a wrong weight or distance at one kind of neighbour is a small error in a few cells',
     ['core/src/hydro/HydroUpdate_utils.h', 'core/src/hydro/HydroUpdate_hancock.cpp', 'core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp', 'core/src/hydro/HydroUpdate_RK2.cpp'],
     [('update() of every finite-volume scheme', 'core/src/hydro')],
     technique='abstract interpretation by value numbering of the whole update over abstract meshes with one symbolic state',
     note='Exact real arithmetic, floors zero; the mesh interface is given its documented meaning.')
prop('C23', 'No direction is special: exchanging or reversing axes commutes with the update',
     'For every finite-volume update (Euler, RK2, Hancock, one-neighbour Hancock; hydro, MHD, GLM-MHD): transforming the initial condition by an exchange of two axes or the reversal of one axis (positions, vector components and cell sizes alike) and then making a step gives the transformed result of making the step first, cell by cell, on one-level meshes and next to coarse/fine interfaces.',
     ['inputs'], 'every state in every cell, anisotropic cell sizes, every axis',
     'tests run problems that vary along x, or isotropic ones compared with a tolerance',
     ['core/src/hydro/HydroUpdate_utils.h', 'core/src/hydro/HydroUpdate_hancock.cpp', 'core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp', 'core/src/hydro/HydroUpdate_euler.cpp', 'core/src/hydro/HydroUpdate_RK2.cpp'],
     [('update() of every finite-volume scheme', 'core/src/hydro')],
     technique='relational abstract interpretation: normal forms of the update on an abstract mesh and on its transformed image are compared',
     note='Exact real arithmetic. Known finding: the damping of the GLM cleaning field depends on the order of the axes.')
prop('C24', 'Gravity accelerates matter exactly as configured',
     'With gravity_type none nothing is accelerated. With a constant acceleration (settings gravity/gx, gy, gz) or a stored field (gx, gy, gz), one step of every finite-volume update adds to the momentum of a uniform flow exactly dt * rho * g, each component with its own acceleration, leaves density and magnetic field alone, and changes the total energy by the work dt * rho * u.g to first order in dt, in two and three dimensions.',
     ['inputs', 'configurations'], 'every uniform state, every acceleration vector, every update, gravity type and physics',
     'the unit tests use one acceleration along one axis, with tolerances',
     ['core/src/hydro/HydroUpdate_utils.h', 'core/src/hydro/HydroUpdate_hancock.cpp', 'core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp'],
     [('gravity terms of update()', 'core/src/hydro')],
     technique='abstract interpretation by value numbering of the constructor and the update with symbolic gravity settings; comparison with the source term',
     note='Exact real arithmetic, floors zero, uniform flow (the coupling of gravity with gradients is not decided).')
prop('C25', 'Each boundary condition acts on exactly the side it was set for',
     'With non-periodic boundaries, the state used for a cell outside the domain is that of its mirror image inside, with the momentum normal to each reflecting side it lies behind reversed (and nothing else changed), whatever combination of reflecting and absorbing types the six sides have; at corners each side acts on its own component. A user-defined boundary flux replaces the flux of exactly the cells along the side whose type is user-defined, and is told that direction and side.',
     ['inputs', 'configurations'], 'every combination of types on the sides, every ghost cell (faces, edges, corners, distance one and two), every physics and update',
     'tests set the same type on all sides or look at one side',
     ['core/src/boundary_conditions/BoundaryConditions.h', 'core/src/hydro/HydroUpdate_utils.h', 'core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp'],
     [('BoundaryConditions constructor and getBoundaryValue', 'core/src/boundary_conditions/BoundaryConditions.h'), ('calls of overrideBoundaryFlux', 'core/src/hydro')],
     technique='abstract interpretation by value numbering of constructor, ghost state and update for each assignment of boundary types',
     note='Exact real arithmetic; CellIndex::getBoundaryPosAndOffset is given its documented meaning.')
prop('C26', 'Viscosity and heat conduction obey the diffusion equations in every direction',
     'One explicit step of the viscous term changes the momentum of a cell by dt mu (laplacian u + grad div u / 3) for every quadratic velocity profile and the energy by the viscous work dt mu tau:grad u for every linear one; one step of heat conduction adds dt kappa laplacian T to the energy for every quadratic temperature profile at any density. Totals of the conserved fields do not change on periodic meshes, density never changes, uniform velocity and temperature stay uniform (across level changes and at open boundaries too), exchanging or reversing axes commutes with the step, and a user-supplied boundary heat flux is used for exactly the cells along its side.',
     ['inputs', 'configurations'], 'every state in every cell, every cell size, coefficient and time step, two and three dimensions',
     'no unit test covers the parabolic terms in more than one configuration; cubic unit domains hide wrong cell sizes',
     ['core/src/parabolic/ParabolicUpdate_explicit.cpp', 'core/src/parabolic/ParabolicTerm_viscosity.h', 'core/src/parabolic/ParabolicTerm_thermal_conduction.h'],
     [('ParabolicUpdate_explicit::update and both compute_flux functions', 'core/src/parabolic')],
     technique='abstract interpretation by value numbering over abstract meshes with symbolic states; comparison with the exact terms of the equations',
     note='Exact real arithmetic; interior cells of one-level meshes for the exact terms (accuracy across level changes is not decided).')
prop('C27', 'Particles deposit their whole mass and feel exactly the field around them',
     'Whatever the position of a particle in a cell and whatever the level of the cells around it (across faces, edges and corners), the density projections add exactly the mass of the particle to the mesh (the cloud-in-cell projection centred on the particle on one level) on top of the gas density; the movers feel a uniform acceleration exactly and the cloud-in-cell mover a linear one, advance velocity and position by dt times acceleration and velocity, wrap positions by the extent of the domain, and tracers move with the velocity of the gas in their cell.',
     ['inputs'], 'every position, mass and velocity of a particle, every arrangement of levels around its cell',
     'the unit test of particles does not call the projections or movers; a lost share of mass appears only next to a refined edge or corner',
     ['core/src/particles/ParticleUpdate_CIC_density.cpp', 'core/src/particles/ParticleUpdate_CIC_move.cpp', 'core/src/particles/ParticleUpdate_NGP_density.cpp', 'core/src/particles/ParticleUpdate_NGP_move.cpp', 'core/src/particles/ParticleUpdate_tracers_move.cpp'],
     [('update() of every ParticleUpdate', 'core/src/particles')],
     technique='abstract interpretation by value numbering of the particle kernels with symbolic position, for every octant and level arrangement',
     note='Three-dimensional periodic meshes, exact real arithmetic; the mesh interface is given its documented meaning.')
prop('C28', 'Cell indices lead to the right cell across blocks, levels and the periodic wrap',
     'For every block size, cell, octant, level and admissible offset: getNeighbor_ghost returns the cell that lies at the offset in global coordinates (in the block, the same-size octant, the larger octant containing it or the smaller cell touching the starting cell, through periodic sides as well), or a boundary index that leads back to the cell inside and the offset; indices of arrays with and without ghosts convert to the same cell; loops visit and arrays store every cell of every octant exactly once; centres, sizes and position look-ups agree.',
     ['inputs'], 'every block size, cell, octant position, level, offset and periodicity in two and three dimensions',
     'the unit tests look up neighbours on a few meshes with even, equal block sizes',
     ['core/src/foreach_cell/AMRBlockForeachCell_CellArray.h', 'core/src/foreach_cell/AMRBlockForeachCell.h', 'core/src/foreach_cell/AMRBlockForeachCell_group.h', 'core/src/amr/LightOctree_hashmap.h', 'core/src/amr/LightOctree_storage.h'],
     [('CellIndex::getNeighbor_ghost', 'core/src/foreach_cell/AMRBlockForeachCell_CellArray.h'), ('LightOctree_hashmap::findNeighbors', 'core/src/amr/LightOctree_hashmap.h'), ('foreach_cell, reduce_cell, foreach_patch', 'core/src/foreach_cell')],
     technique='abstract interpretation by integer value numbering (exact floor, remainder, shifts; signs of polynomials) of the index functions over symbolic block sizes, cells, octants and levels',
     note='Integer arithmetic without overflow; offsets up to half a block as documented; the hash map of octants is given its documented meaning on a 2:1 balanced tree.')
prop('C29', 'Self-gravity solves one symmetric Poisson problem and pulls down the potential',
     'The matrix of the gravity solver is symmetric for every cell size and every pair of adjacent levels, gives zero for a uniform potential (and exactly the laplacian of quadratic potentials on one level); the right-hand side is the density contrast against the global mean times volume with the configured factor (Newtonian or cosmological). Every step of the iteration is that of the preconditioned conjugate gradient method with all sums taken over all cells of all ranks, it stops exactly when the residual has fallen below CG_eps times the right-hand side, and it stores that potential. The acceleration is minus its gradient, exactly for linear potentials also next to other levels, both sides of the domain are treated alike, and a point mass attracts by its softened formula.',
     ['inputs', 'configurations', 'schedules'], 'every density, starting potential, cell size and tolerance; every number of ranks',
     'tests solve one small periodic problem; an asymmetric coupling at a level change or a sum over one rank only slows or spoils convergence elsewhere',
     ['core/src/gravity/GravitySolver_cg.cpp', 'core/src/gravity/GravitySolver_analytical.tpp', 'core/src/gravity/GravitySolver_point_mass.cpp'],
     [('GravitySolver_cg::update_gravity_field', 'core/src/gravity/GravitySolver_cg.cpp'), ('GravitySolver_analytical::update_gravity_field', 'core/src/gravity/GravitySolver_analytical.tpp')],
     technique='abstract interpretation by value numbering of the solver over abstract meshes; the matrix is read off the linear forms and each iteration compared with the method from symbolic starting fields',
     note='Exact real arithmetic; the iteration is compared from arbitrary symbolic fields, so for any number of steps, on meshes of up to 64 cells with one level change. Convergence itself is not decided.')
prop('C30', 'The time step respects every limit on every rank and the clock follows it',
     'Every dt calculator returns its Courant factor divided by the largest rate over all cells (or particles) of all ranks: the sum over the axes of (|u|+c)/h, and for MHD also (|u|+c_fast)/h along each axis; kappa/h^2 and mu/h^2 along each axis for explicit conduction and viscosity, each only if enabled; the speed over the smallest cell side for particles. The time loop takes the smallest of all configured calculators, shortens the last step to end exactly at tEnd, stops at tEnd or nstepmax, advances time by dt and iter by one, and output, checkpoint, AMR and load-balance triggers fire exactly when their interval has passed since the last multiple of it.',
     ['inputs', 'configurations', 'schedules'], 'every state in every cell, cell size, setting, clock value and number of ranks',
     'tests run with one calculator, cubic cells and one rank; a wrong rate only shows as an instability elsewhere',
     ['core/src/compute_dt', 'core/src/DyabloTimeLoop.h'],
     [('compute_dt() of every Compute_dt', 'core/src/compute_dt'), ('IterationHandler, Interval_trigger, step()', 'core/src/DyabloTimeLoop.h')],
     technique='abstract interpretation by value numbering of calculators, reductions, triggers and the time loop with symbolic states and clock',
     note='Exact real arithmetic. Not decided: the cosmological limit and the legacy calculators.')
prop('C31', 'Octants are refined or coarsened exactly where the criterion asks for it',
     'With every refinement criterion an octant is marked for refinement iff the indicator of at least one of its cells exceeds the upper threshold, for coarsening iff the indicators of all its cells are at most the lower one, and never beyond level_min and level_max. The indicators are: the largest relative jump of the density to the leaf cells across each face (also smaller or larger ones), the mass of the cell, the signed downflow velocity, and the largest normalised second difference of density and pressure over all axes, in two and three dimensions.',
     ['inputs', 'configurations'], 'every state in every cell, every threshold and level, every arrangement of levels around a cell',
     'no unit test looks at more than one criterion on one mesh; a criterion that never coarsens only makes runs slow',
     ['core/src/refine_condition'],
     [('mark_cells() of every RefineCondition', 'core/src/refine_condition'), ('set_markers', 'core/src/refine_condition/RefineCondition_helper.h')],
     technique='abstract interpretation by value numbering of mark_cells with symbolic states and thresholds; comparison with the documented indicator at generic points of the value graphs',
     note='Exact real arithmetic, floors zero; indicators below the noise cut of 0.001 and the legacy functor are not decided.')

prop('C32', 'Adapting the mesh moves every value to the cells at the same place',
     'After the mesh is adapted every cell holds, for every field, the value of the same cell (unchanged octant), of the parent cell (refined octant) or the mean of its child cells (coarsened octant); the old cell found for a new one is the one at the same place, for every block size, parity and octant position, so that conserved sums do not change.',
     ['inputs', 'configurations'], 'every state in every cell, every block size, every position of an octant, every change of level by one',
     'the unit tests compare a few meshes of one block size with a smooth function and tolerances',
     ['core/src/amr'],
     [('CellIndexRemapper::get_old_cell', 'core/src/amr/CellIndexRemapper.h'), ('MapUserData_mean::remap_aux', 'core/src/amr/MapUserData_mean.cpp')],
     technique='abstract interpretation by value numbering: symbolic integer arithmetic over the index mapping and symbolic states over pairs of abstract meshes',
     note='Octants whose siblings lie on other ranks are not decided.')

prop('C33', 'Named fields and particle attributes keep their values',
     'Whatever fields and particle attributes were created, moved and deleted before, an operation of UserData changes only the names it is about: every other field keeps its values under its name, new fields start at zero, accessors reach the field asked for, also through load balancing, mesh adaptation and redistribution of particles, and no operation aborts on a legitimate history.',
     ['histories', 'inputs'], 'every history of creations, moves and deletions (induction over all consistent states of up to three names in up to four columns), every value',
     'tests create fields in one order; after a deletion columns and names no longer agree and only such histories show it',
     ['core/src/UserData_fields.h', 'core/src/UserData_particles.h', 'core/src/UserData.h'],
     [('UserData_fields', 'core/src/UserData_fields.h'), ('UserData_particles', 'core/src/UserData_particles.h'), ('MapUserData_mean::remap', 'core/src/amr/MapUserData_mean.cpp')],
     technique='abstract interpretation by value numbering of the container operations from every consistent state; inductive invariant',
     note='At most three names and four columns.')

prop('C34', 'Ranks exchange the right values and wait for them',
     'After an exchange of ghosts every ghost octant (or every ghost cell that a stencil may read, when blocks are sent in part) holds the value of the object it stands for on its owner, ordered by rank and send list, for every array layout; objects sent to the own rank are copied; nothing else changes. After a reduction every object has gained each of its ghost copies exactly once. Every message has a partner with the same length, type and tag and is waited for before it is read. Collective operations use the type, operation, root, counts and offsets they are asked for.',
     ['inputs', 'schedules'], 'every value, every exchange pattern of up to three ranks and three objects each, every set of faces of a block, several block shapes (also non-cubic), every arrival order of messages',
     'tests run on one or two ranks with the pattern of one mesh and cubic blocks; orders, offsets and overlaps of faces differ for other patterns',
     ['core/src/mpi/ViewCommunicator.h', 'core/src/mpi/ViewCommunicator.cpp', 'core/src/mpi/GhostCommunicator_partial_blocks.cpp', 'core/src/mpi/GhostCommunicator_partial_blocks.h', 'core/src/utils/mpi/MpiComm_mpi.tpp'],
     [('ViewCommunicator', 'core/src/mpi/ViewCommunicator.h'), ('GhostCommunicator_partial_blocks', 'core/src/mpi/GhostCommunicator_partial_blocks.cpp'), ('MpiComm', 'core/src/utils/mpi/MpiComm_mpi.tpp')],
     technique='abstract interpretation by value numbering of every rank with symbolic array contents; messages are matched and their values compared with the pattern',
     note='Patterns are enumerated up to the stated size. MPI delivers messages in order; Kokkos patterns behave as documented.')


prop('C03', 'Iterations of parallel loops do not depend on one another',
     'The result of every parallel loop is the same for every order and interleaving of its iterations: no iteration reads or writes an element that another iteration of the loop writes unless all these accesses are atomic operations; a kernel over cells does not read at other cells a field that it changes, and the kernels of a loop over patches do not read from cells of other patches a field that they change; per-octant results combined from the cells of the octant and deposits of particles into cells are combined atomically.',
     ['inputs', 'schedules'], 'every interleaving of the iterations of every parallel loop, every value of the fields, the mesh situations of the followed kernels',
     'a race shows only with enough threads at the right moment; tests run a few threads on small meshes and compare with tolerances or not at all',
     ['core/src/foreach_cell/AMRBlockForeachCell.h', 'core/src/hydro/HydroUpdate_hancock.cpp', 'core/src/particles/ParticleUpdate_CIC_density.cpp', 'core/src/gravity/GravitySolver_cg.cpp', 'core/src/refine_condition/RefineCondition_helper.h', 'core/src/mpi/ViewCommunicator.h'],
     [('foreach_patch', 'core/src/foreach_cell/AMRBlockForeachCell.h'), ('atomic_add', 'core/src/particles/ParticleUpdate_CIC_density.cpp'), ('atomic_fetch_max', 'core/src/refine_condition/RefineCondition_helper.h'), ('unpack_reduce', 'core/src/mpi/ViewCommunicator.h')],
     technique='effect analysis: elements read, written and updated atomically by each iteration, from value numbering of the kernels and from a dataflow of the iteration variable through every functor',
     note='Kernels of the mesh adaptation and of file output are covered by the dataflow only. Functors that are classes (legacy code) are not covered.')


prop('C10', 'Adaptation honours the markers and keeps a complete, 2:1-balanced tree',
     'After adapt() the octants of all ranks together are the leaves of a complete tree without overlaps: every octant marked for refinement is replaced by its children, octants are merged into their parent only when all siblings are leaves of the same level that allow it, and neighbouring octants (across faces, edges and corners, through periodic sides, across ranks) differ by at most one level, refining further octants where needed but no others. Each rank holds its part in Z order, also a rank left with few or no octants; global numbering, intervals, ghosts and the epoch of the tree agree with the new octants, and the new markers are empty. The result does not depend on how octants are spread over ranks.',
     ['inputs', 'histories'], 'every direction, level difference and pair of markers of an octant and a neighbour (local or ghost); a family of trees in two and three dimensions (also non-cubic coarse grids, periodic or not) with markers, cut into up to four ranks, also inside groups of siblings',
     'tests adapt a few meshes on one or two ranks; the rules for markers that travel through several octants and ranks need particular patterns to fail',
     ['core/src/amr/AMRmesh_hashmap_new.cpp', 'core/src/amr/LightOctree_hashmap.h', 'core/src/amr/LightOctree_storage.h'],
     [('AMRmesh_hashmap_new::adapt', 'core/src/amr/AMRmesh_hashmap_new.cpp'), ('LightOctree_hashmap', 'core/src/amr/LightOctree_hashmap.h')],
     technique='abstract interpretation of adapt by value numbering: tabulated rule for one octant and neighbour, and whole-tree outcomes compared with a model of the tree',
     note='Trees, cuts and markers are enumerated as a family, not for every tree. Kokkos hash maps and patterns behave as documented; the search for ghosts is decided by C37.')


prop('C36', 'Octants are spread over ranks in Z order, completely and evenly',
     'The initial mesh and every load balance give each octant to exactly one rank, in Z order: the ranks own consecutive intervals of the Morton curve without gaps or overlaps, the numbers of octants per rank are as even as keeping groups of siblings together allows, no octant changes its position or level, and the exchange pattern that is returned for the user data names for every octant the rank that now owns it. The Morton keys behind this order are those of the Z curve for every position that fits. Global numbering, intervals and epoch agree with the new octants.',
     ['inputs', 'histories'], 'every coarse grid of a family (also with sides that are no power of two, in two and three dimensions), up to five ranks, ranks left empty, every level of suboctants that is kept together; every bit of a Morton key',
     'tests balance two meshes over one or two ranks; uneven grids, empty ranks and cuts inside groups of siblings need other meshes and more ranks',
     ['core/src/amr/AMRmesh_hashmap_new.cpp', 'core/src/amr/AMRmesh_hashmap_new.h', 'core/src/morton_utils.h'],
     [('AMRmesh_hashmap_new::loadBalance', 'core/src/amr/AMRmesh_hashmap_new.cpp'), ('compute_morton_key', 'core/src/morton_utils.h')],
     technique='abstract interpretation by value numbering of the construction and the load balance on every rank, messages matched between ranks, outcomes compared with a model of the Z-ordered tree',
     note='Trees, cuts and numbers of ranks are enumerated as a family. Fewer octants than ranks is outside (the load balance aborts by design).')


prop('C37', 'Every octant that touches another rank is its ghost there',
     'After the mesh is built, adapted or balanced, each rank has as ghosts exactly the octants of other ranks that touch one of its own octants by a face, an edge or a corner (through periodic sides too), each once, with its position and level, grouped by owner in the order of the send lists; no octant is a ghost of its own rank.',
     ['inputs', 'histories'], 'every direction and level difference between an octant and the rank next to it; a family of trees in two and three dimensions, periodic per axis, cut into up to five ranks also inside groups of siblings and with empty ranks',
     'a missing ghost shows only where a cut between ranks meets a corner between levels; tests use few cuts',
     ['core/src/amr/AMRmesh_hashmap_new.cpp'],
     [('discover_ghosts', 'core/src/amr/AMRmesh_hashmap_new.cpp')],
     technique='abstract interpretation by value numbering of the ghost discovery on every rank, send lists compared with a geometric model',
     note='Trees and cuts are enumerated as a family. Kokkos sorting, scans and maps behave as documented.')


prop('C38', 'The octree answers questions about neighbours, positions and owners rightly',
     'For every octant, local or ghost, the tree gives its true corner, centre, size and level; findNeighbors gives exactly the octants behind the face, edge or corner that is asked for (the same, one coarser, or all finer ones), none outside a domain that is not periodic there; isBoundary says which; the octant at a position is the one that contains it; the owner of a position is the rank that owns the octant there, also with empty ranks; and the tree given out is always that of the present mesh.',
     ['inputs', 'histories'], 'every octant, direction, position class and rank of a family of 2:1-balanced trees (two and three dimensions, non-cubic coarse grids, periodic per axis) cut into up to four ranks',
     'tests query a few octants of small square meshes',
     ['core/src/amr/LightOctree_hashmap.h', 'core/src/amr/LightOctree_storage.h', 'core/src/amr/AMRmesh.cpp', 'core/src/amr/AMRmesh_hashmap_new.cpp'],
     [('findNeighbors', 'core/src/amr/LightOctree_hashmap.h'), ('LightOctree_storage', 'core/src/amr/LightOctree_storage.h'), ('getLightOctree', 'core/src/amr/AMRmesh.cpp')],
     technique='abstract interpretation by value numbering of every query on the abstract tree, answers compared with a geometric model',
     note='Trees are enumerated as a family. getiOctFromCoordinates (unused) is not decided.')
