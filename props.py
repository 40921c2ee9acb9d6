IO = 'MDLIB/InputOutput.c'
MAIN = 'MDLIB/Main_DOODZ.c'
COMMON = ['clang 18 lowers the sources to IR faithfully; the build uses the same sources (list taken from MDLIB/CMakeLists.txt) with the same defines',
          'values are compared as exact real-number expressions: floating-point rounding is not modelled']

prop('C01', 'A restart restores exactly what the checkpoint saved',
     'Every quantity saved in a checkpoint is read back on restart in the same position, element size and count, under the same model options, into the quantity it came from, and the unit conversions applied around writing and reading cancel, both in the restored run and in the run that goes on after writing. The set of quantities a checkpoint carries (time and time step, box, marker positions, phases, stresses, strains, grain size, temperature, the conditional histories, old grid fields, solution, boundary flags, phase proportions, time series) does not shrink.',
     ['configurations', 'histories'], 'for every combination of model options (free surface, elasticity, finite strain, anisotropy, tracking), grid size, number of phases and markers',
     TESTS + 'none writes or loads a checkpoint.', [IO, MAIN],
     [('writer', IO + ': MakeBreakpointParticles'), ('loader', IO + ': LoadBreakpointParticles')],
     'event-sequence comparison of writer and loader over SSA (place, size, count, path condition), symbolic net unit factors',
     'Both routines are reduced to their ordered list of file events (memory place, element size, count, path condition, loop range) and to the net symbolic factor every saved place is multiplied by before/after its event; lists must be equal element by element, factors must be mutually inverse and cover all elements, the saved set must include the frozen reference set.',
     'Decides the layout, condition and unit-conversion part for all inputs; does not decide that the saved set is sufficient for bitwise continuation, nor behaviour on truncated files.', assumptions=COMMON)

prop('C02', 'A crash while checkpointing leaves an older complete checkpoint',
     'If the process dies at any instant of writing output, at least one complete checkpoint of an earlier output step is still on disk under its own name: pruning only ever gives up a checkpoint that is older than the last complete one, and the writer only opens the file of the current step. Nothing else deletes, renames or truncates checkpoint files.',
     ['crash_points', 'histories'], 'for every crash instant inside the output phase of every step, with per-step checkpoints and pruning on',
     TESTS + 'no test crashes a run or prunes checkpoints.', [IO, MAIN],
     [('pruning', IO + ': DeletePreviousBreakpoint'), ('order of pruning and writing', MAIN + ': RunMDOODZ output block')],
     'call-site audit of every deleting/renaming call, symbolic age of the victim file, must-pass-through for stream close',
     'Every call in the library that can delete, rename or truncate a file is resolved to its target name; for checkpoint names the symbolic age (current step minus victim, in output intervals) must be >= 2 when pruning runs before the new checkpoint is complete (>= 1 otherwise); the writer must name the file after the current step and close it on all paths.',
     'Decides the ordering/age argument for all steps; the file system itself (rename atomicity, buffering in the kernel) is trusted. The single rolling file mode is the user\'s explicit choice and excluded.', assumptions=COMMON)

prop('C03', 'Every input parameter gets its documented value, default and unit',
     'For every .txt input file, each model, material and scaling setting takes the value given under its key, or its default when the key is absent, converted to internal units with the scaling of its own physical dimension and sign convention (angles to radians, ages, dt, gravity, strain rate sign, etc.); derived settings (number of cells, spacings, activated options, overrides forced by other options) follow from the values read. No key is silently ignored or stored in another setting.',
     ['inputs', 'configurations'], 'for every input file: any subset of keys, any values, any number of phases',
     TESTS + 'they use a handful of keys and never look at the parsed values.', [IO, 'README.md'],
     [('parser front end', IO + ': ReadInputFile'), ('material defaults', IO + ': ReadMatProps')],
     'symbolic value of every configuration place at return of ReadInputFile, compared with the reviewed key/default/unit table',
     'ReadInputFile is evaluated symbolically over SSA (helpers folded in, statement order irrelevant): for every field of model, materials, particles, scaling the final value is an expression over read(key, default) atoms, scaling factors and option indicators; each must equal the reviewed table data/input_table.json, and every key of the table must still be read.',
     'Decides which key, default, unit factor and override reach each setting for all inputs. The text scanner itself (ReadInt2 and friends) is checked only for its return structure; malformed files are out of scope.', assumptions=COMMON)

# ------------------------------------------------------------------------------------------------ effect-table properties
D = 'MDLIB/'
EFFECT = 'canonical effect summaries over gated SSA (final value of every written place, guard and order of every call, return value, fatal exits) compared with the reviewed effect table'
RULE = ('Each function of the property is reduced, from the IR of the current sources, to its effects: for every place outside the function the value it ends up with (a canonical expression over inputs, quantified over loop ranges, '
        'conditions as indicators), the condition under which each call and each fatal exit happens, the order of calls that touch common data, and the return value. Helpers are folded in; statement order, temporaries, loop form and spelling of conditions do not matter. '
        'Every row of the reviewed table data/eff_%s.json must be reproduced and no further effect may appear; a row whose current value cannot be resolved is reported as undecided, not as a violation.')
NOTE = ' Bound: equality is judged on exact real-number expressions (no rounding), on library code paths; external libraries (CHOLMOD, UMFPACK, HDF5, libc) are opaque calls.'


def eprop(id, title, statement, over, quant, why, files, mech, decides, technique=None, rule=None):
    prop(id, title, statement, over, quant, TESTS + why, files, mech, (technique + '; ' if technique else '') + EFFECT, (rule + ' ' if rule else '') + RULE % id.lower(), decides + NOTE, assumptions=COMMON)


eprop('C04', 'Unit scaling is coherent for every derived unit',
      'From the four chosen scales (viscosity, length, velocity, temperature) every derived scale (time, stress, strain rate, force, energy, mass, density, conductivity, heat capacity, power, mass flux ...) is formed with the exponents its physical dimension requires, so that any formula valid in SI stays valid in scaled units, for any choice of scales.',
      ['inputs'], 'for every choice of the four base scales', 'they use a single choice of scales and never compare two.', [D + 'InputOutput.c'], [('scale set-up', D + 'InputOutput.c: ScaleMe')],
      'Decides the exponent of every base scale in every derived scale.', 'dimension exponents of symbolic values', 'The exponents of eta, L, V, T in every derived scale are computed symbolically and compared with those of its dimension (kg m s K).')
prop('C05', 'Results do not depend on the number of threads or on the schedule',
     'Every parallel region computes the same result for any number of threads and any assignment of iterations to threads: two iterations never touch the same element unless the update is atomic, inside a critical section, part of a reduction or confined to a slice owned by the thread; no iteration uses a private value left over from another iteration or never set in this one; per-thread partial results are all merged, whatever their number.',
     ['schedules', 'configurations'], 'for every number of threads, every schedule and every interleaving of the parallel regions',
     TESTS + 'OpenMP is switched off in the test build.', ['MDLIB/' + x + '.c' for x in 'AdvectionRoutines AnisotropyRoutines ChemicalRoutines FreeSurface GridRoutines MiscFunctions ParticleReseeding ParticleRoutines RheologyDensity RheologyParticles Solvers SparseTools StokesAssemblyDecoupled StokesRoutines ThermalRoutines ThermalSolver'.split()],
     [('marker to grid sums', 'MDLIB/ParticleRoutines.c: P2Mastah'), ('reseeding', 'MDLIB/ParticleReseeding.c: CountPartCell'), ('assembly', 'MDLIB/StokesAssemblyDecoupled.c: BuildStokesOperatorDecoupled'), ('tangents', 'MDLIB/StokesRoutines.c: RheologicalOperators')],
     'dependence analysis of the outlined OpenMP bodies: iteration-indexed write/read footprints over SSA, private-value liveness across iterations, lock/atomic/reduction context',
     'The sources are lowered with OpenMP on; in every outlined parallel body each store is an obligation: its address must depend on the distributed iteration (injectively: affine with a matching stride, through a one-to-one index table, or a per-thread slice), or the store must be atomic, under a lock, in a reduction, or write the same value in every iteration; each load that can meet a store of another iteration is an obligation too; header phis that carry a private value from one iteration to the next, and private values read before they are set, are reported; library routines called from a region are analysed with their actual arguments. A block with one slice per thread must be read back by a loop over all threads into a value that starts from a neutral element and is kept (nothing lost between the slices and the merged result).',
     'Decides absence of loop-carried conflicts for all thread counts; not the order of floating-point additions in atomics, reductions and critical sections. Index tables (kn, ln, kp, lp, kvx, lvx, kvz, lvz, eqn_u, eqn_v, eqn_p, Ic) are taken as one-to-one: C27 decides how they are filled.', assumptions=COMMON)
eprop('C06', 'Output files hold the named fields in SI units',
      'Every output file (Output#####, Particles#####, residual files) contains the documented groups and datasets; each dataset holds the field its name says, over its own grid and with its own length, converted from internal to SI units with the scale of its own dimension (temperature and time included), as single precision values; integer and compositional fields are written unchanged. Which optional fields are present depends only on the matching options. Writing leaves the simulation state as it was.',
      ['inputs', 'configurations'], 'for every grid, option set and field content', 'they read back only the iteration counters.', [D + 'HDF5Output.c', D + 'ParticleRoutines.c', 'visualisation scripts reading the files'],
      [('fields', D + 'HDF5Output.c: WriteOutputHDF5'), ('particles', D + 'HDF5Output.c: WriteOutputHDF5Particles'), ('dataset writer', D + 'HDF5Output.c: AddFieldToGroup')],
      'Decides names, order-independent content, lengths, scales and conditions of every dataset; not the HDF5 library.')
eprop('C07', 'Flow laws: each database entry yields its published parameters',
      'Selecting a flow-law, Peierls, diffusion, grain-boundary-sliding, grain-size-evolution or kinetics number for a phase gives that phase exactly the parameters of that entry of the database (pre-factor, exponents, activation energy and volume, water and melt terms, invariant correction), converted to internal units, and the tensor correction that goes with its experiment type; an unknown number stops the run with a non-zero status instead of running with leftover parameters. Entries do not leak into other phases.',
      ['inputs'], 'for every entry number (positive or negative) and phase', 'they select a few entries and never check parameters.', [D + 'FlowLaws.c'],
      [('dislocation', D + 'FlowLaws.c: ReadDataPowerLaw'), ('diffusion', D + 'FlowLaws.c: ReadDataLinear'), ('Peierls', D + 'FlowLaws.c: ReadDataExponential'), ('GBS', D + 'FlowLaws.c: ReadDataGBS'), ('grain size', D + 'FlowLaws.c: ReadDataGSE'), ('kinetics', D + 'FlowLaws.c: ReadDataKinetics')],
      'Decides the complete database contents (as reviewed) and its unit conversion.')
eprop('C08', 'Memory: every block is sized for its use and released once',
      'Every array of the model (grids, markers, nonlinear history, topography, phase diagrams, matrices, decompositions) is allocated with the element type and length its users index it by, under the same options under which it is used, exactly those blocks are released, once, with the matching options, and allocation failure or resizing never loses data.',
      ['inputs', 'configurations'], 'for every grid size, number of phases and markers and option set', 'they run small grids with few options and no memory checker.', [D + 'MemoryAllocFree.c', D + 'FreeSurface.c', D + 'StokesAssemblyDecoupled.c'],
      [('grid', D + 'MemoryAllocFree.c: GridAlloc, GridFree'), ('markers', D + 'MemoryAllocFree.c: PartAlloc, PartFree'), ('systems', D + 'MemoryAllocFree.c: SAlloc, SFree, AllocMat, FreeMat'), ('topography', D + 'FreeSurface.c: AllocateMarkerChain, FreeMarkerChain')],
      'Decides sizes, element types, conditions and alloc/free pairing of the model arrays, lifetime of every block allocated and kept inside the program; run-time index bounds are decided only where index and length are affine in the same grid sizes.',
      'typestate of heap blocks over SSA (use after release, double release, leak on a path, element size) and affine index ranges against block lengths',
      'Every allocation and fopen in the program is followed through copies, locals, fields and returned pointers: no use or second release may be reachable after a release of the same block, a block owned by a function must be released, returned or stored on every path to its end, the element size must cover its use, and every field that keeps blocks must be released somewhere, under a condition (over options, as assumed at the call sites) that covers the condition of its allocation. Every load and store whose index and block length are affine in the grid sizes has its largest and smallest index over the enclosing loops compared with the length.')
eprop('C10', 'Set-up callbacks and boundary templates fill the model as specified',
      'Every user callback (phase, temperature, velocity, pressure, grain size, porosity, density, X, topography, boundary conditions ...) is called for exactly the markers or nodes it is documented for, with physical (SI) coordinates, its result is scaled with its own dimension and stored in its own field; missing optional callbacks give the documented default, missing mandatory ones or invalid results (phase out of range, boundary type invalid in the interior) stop the run. Pure/simple shear templates impose the background strain rate consistently on all sides and mark unused ghost and periodic nodes correctly.',
      ['inputs', 'configurations'], 'for every set of callbacks, every callback result, every grid and option set', 'they use three set-ups.', [D + 'Setup.c', D + 'ParticleRoutines.c', D + 'ThermalRoutines.c', D + 'InputOutput.c'],
      [('markers', D + 'Setup.c: SetParticles'), ('boundary conditions', D + 'Setup.c: SetBCs and templates'), ('validation', D + 'Setup.c: ValidateSetup, ValidatePhase, ValidateInternalPoint')],
      'Decides call arguments, guards, stored values and scales of all callbacks and templates.')
eprop('C11', 'Stokes operator: every equation gets the right coefficients',
      'For every momentum and continuity equation the assembled matrix row and right-hand side equal the discretised balance on the staggered grid: coefficients of all neighbours, chosen by the type of each neighbour (inner, Dirichlet on or off the boundary, Neumann, stress, periodic, free surface or air), known values moved to the right-hand side once, each equation numbered once, and the pieces assembled by different threads merged without loss, duplication or dependence on the number of threads.',
      ['inputs', 'configurations', 'schedules'], 'for every grid, boundary-condition pattern, viscosity field and number of threads', 'they never look at matrix entries.', [D + 'StokesAssemblyDecoupled.c', D + 'StokesRoutines.c'],
      [('momentum', D + 'StokesAssemblyDecoupled.c: X/Zmomentum_InnerNodesDecoupled'), ('continuity', D + 'StokesAssemblyDecoupled.c: Continuity_InnerNodesDecoupled'), ('entries', D + 'StokesAssemblyDecoupled.c: AddCoeff3'), ('merging', D + 'StokesAssemblyDecoupled.c: MergeParallelMatrix, DomainDecompositionDecoupled')],
      'Decides every coefficient, its column, its guard and the numbering.')
eprop('C12', 'Newton Jacobian: entries and material derivatives as specified',
      'The Newton operator has, for every equation and neighbour, the coefficient given by differentiating the discrete residual with the material tangent D; the tangent comes from perturbing one strain-rate component or the pressure at a time with everything else unchanged, averaged over phases as the viscosity is, symmetric in its treatment of centroids and vertices; without Newton it reduces to the viscous (anisotropic where chosen) operator.',
      ['inputs', 'configurations'], 'for every strain-rate, stress and phase field and boundary pattern', 'they compare iteration counts, which tolerate a wrong Jacobian.', [D + 'StokesAssemblyDecoupled.c', D + 'FD_Jacobian.c', D + 'StokesRoutines.c'],
      [('Jacobian rows', D + 'StokesAssemblyDecoupled.c: Xjacobian_InnerNodesDecoupled3, Zjacobian_InnerNodesDecoupled3'), ('derivatives', D + 'FD_Jacobian.c: DerivativesOnTheFly_n/s'), ('tangent', D + 'StokesRoutines.c: RheologicalOperators')],
      'Decides coefficients and perturbation scheme as written; not that finite differences are accurate.')
eprop('C13', 'Residuals, right-hand sides and boundary values are applied consistently',
      'Residuals of momentum and continuity are evaluated at every active node (and only there) from current stresses, pressure and body forces, their norms are normalised and stored per iteration; right-hand sides contain body forces and elastic terms at active nodes; boundary values are imposed on the solution fields; the solution vector is written to and read from the fields through the same equation numbers and unit scalings, so that extracting what was inserted gives the same fields.',
      ['inputs', 'configurations', 'histories'], 'for every grid, boundary-condition pattern and solution', 'they check only that the iteration converges.', [D + 'StokesRoutines.c', D + 'SparseTools.c'],
      [('residual', D + 'StokesRoutines.c: EvaluateStokesResidualDecoupled'), ('rhs', D + 'StokesRoutines.c: EvaluateRHS'), ('boundary values', D + 'StokesRoutines.c: ApplyBC'), ('vector <-> fields', D + 'StokesRoutines.c: ExtractSolutions2, InitialiseSolutionVector')],
      'Decides the formulas, node masks, numbering and scaling.')
eprop('C14', 'Heat and composition solver: matrix, sources and boundary conditions',
      'The heat (and composition) equation is assembled with fluxes between neighbouring active cells, conductivities at their faces, storage over the time step, radiogenic, shear (and optional adiabatic) heating, prescribed temperature or flux at the boundaries and at the free surface, steady or transient as chosen; the solution is written back to active cells only, and marker temperatures are updated from it; melt-dependent heat capacity and expansion are applied where melting is on.',
      ['inputs', 'configurations'], 'for every grid, boundary type, material field and option set', 'thermal evolution is switched off in them.', [D + 'ThermalRoutines.c', D + 'ThermalSolver.c', D + 'ChemicalRoutines.c', D + 'MeltingRoutines.c', D + 'RheologyParticles.c'],
      [('heat', D + 'ThermalRoutines.c: EnergyDirectSolve'), ('composition', D + 'ChemicalRoutines.c: ChemicalDirectSolve'), ('melting', D + 'MeltingRoutines.c: UpdateAlphaCp, MassSourceTerm')],
      'Decides matrix entries, sources, masks and write-back.')
eprop('C15', 'Effective viscosity, stress and strain-rate partitioning follow the flow laws',
      'For every strain rate, pressure, temperature, grain size and phase the effective visco-elasto-plastic viscosity is that of the active mechanisms in parallel-strain-rate combination with elasticity and the yield criterion, each mechanism with its own law and strain-rate share, limited to the allowed viscosity range, and averaged over phases at every active centroid and vertex; returned stresses, strain-rate partition, dissipation, grain size, overstress and pressure correction correspond to the same solution. Softening follows accumulated strain between its limits.',
      ['inputs', 'configurations'], 'for every state and any combination of active mechanisms', 'they use two or three mechanisms at a few states.', [D + 'RheologyDensity.c', D + 'FD_Jacobian.c', D + 'MeltingRoutines.c'],
      [('point rheology', D + 'RheologyDensity.c: ViscosityConcise, LocalIterationViscoElastic'), ('grid', D + 'RheologyDensity.c: NonNewtonianViscosityGrid'), ('friction and cohesion', D + 'RheologyDensity.c: CohesionFrictionDilationGrid, Softening')],
      'Decides formulas and their conditions; not convergence of the local iterations.')
eprop('C16', 'Density, shear modulus and other material fields are averaged as chosen',
      'Density (all density models, phase diagrams included), elastic moduli, thermal and mean properties on the grid are the phase-weighted averages by the chosen rule of the phase values at the local state; look-ups in phase diagrams interpolate inside the table and are clamped at its limits; values go between centroids and vertices by averaging active neighbours (periodic side included); lithostatic pressure integrates the density from the surface down; time series record means over the model.',
      ['inputs', 'configurations'], 'for every phase distribution, state and grid', 'they use constant densities.', [D + 'RheologyDensity.c', D + 'GridRoutines.c', D + 'MeltingRoutines.c', D + 'InputOutput.c'],
      [('density', D + 'RheologyDensity.c: UpdateDensity, EvaluateDensity'), ('moduli', D + 'RheologyDensity.c: ShearModCompExpGrid'), ('averaging between nodes', D + 'GridRoutines.c: InterpCentroidsToVerticesDouble'), ('time series', D + 'RheologyDensity.c: LogTimeSeries')],
      'Decides weights, masks, clamps and formulas.')
eprop('C17', 'The time step honours its limits',
      'The next time step never exceeds the Courant limit of the current velocities (with the chosen Courant number and grid spacing), the surface velocity limit and the user maximum, grows by no more than the allowed factor, is left alone when a constant step is asked for, and is positive; the initial step and the check before advection follow the same limits.',
      ['inputs', 'histories'], 'for every velocity field, grid and history of steps', 'they take one step.', [D + 'AdvectionRoutines.c'],
      [('next step', D + 'AdvectionRoutines.c: EvaluateCourantCriterion'), ('first step', D + 'AdvectionRoutines.c: DefineInitialTimestep'), ('check', D + 'AdvectionRoutines.c: Check_dt_for_advection')],
      'Decides the formula and its conditions.')
eprop('C18', 'Marker-grid interpolation: weights, masks and targets',
      'Transfers from markers to nodes are normalised weighted averages over the active markers of the stencil chosen (with harmonic, arithmetic or geometric averaging, phase-property or marker values, periodic images included), transfers from nodes to markers use the bilinear weights of the surrounding active nodes; inactive markers and nodes neither give nor receive; every node that should receive a value does; results do not depend on the number of threads.',
      ['inputs', 'configurations', 'schedules'], 'for every marker cloud, grid and field', 'they use uniform fields.', [D + 'ParticleRoutines.c'],
      [('markers to nodes', D + 'ParticleRoutines.c: P2Mastah'), ('nodes to markers', D + 'ParticleRoutines.c: Interp_Grid2P, Interp_Grid2P_centroids2, Centers2Particle, Vertices2Particle')],
      'Decides stencil, weights, masks and normalisation.')
eprop('C19', 'Advection moves markers, grid and box with the velocity field',
      'Markers are moved by the chosen Runge-Kutta scheme with velocities interpolated from the staggered grid at the intermediate positions; leaving markers are taken out (or wrapped in periodic models); the box deformation under pure-shear ALE keeps markers, surface and grid together; field advection is upwind in each direction; centre and vertex velocities are averages of the face velocities.',
      ['inputs', 'configurations'], 'for every velocity field, marker cloud and time step', 'they do not look at marker positions.', [D + 'AdvectionRoutines.c', D + 'ParticleRoutines.c'],
      [('markers', D + 'AdvectionRoutines.c: RogerGuntherII'), ('box', D + 'AdvectionRoutines.c: PureShearALE'), ('upwind', D + 'AdvectionRoutines.c: FirstOrderUpwindAdvection')],
      'Decides the scheme, masks and index formulas.')
eprop('C20', 'Marker population: creation, reuse and inheritance keep every marker valid',
      'Initial markers fill the box regularly; new markers (reseeding, inflow, sedimentation) take a free or new slot within the allocated number, get a position in the cell that lacks markers and inherit every property from the closest active marker; markers leaving the box or above the surface become inactive, and only inactive slots are reused; the number of markers never exceeds the allocation: otherwise the run stops.',
      ['inputs', 'histories'], 'for every marker cloud and history of steps', 'they take one step without reseeding.', [D + 'ParticleRoutines.c', D + 'ParticleReseeding.c'],
      [('reseeding', D + 'ParticleReseeding.c: CountPartCell'), ('inheritance', D + 'ParticleRoutines.c: AssignMarkerProperties'), ('inflow', D + 'ParticleRoutines.c: ParticleInflowCheck'), ('initial', D + 'ParticleRoutines.c: PutPartInBox')],
      'Decides slot choice, inherited properties, bounds tests and conditions.')
eprop('C21', 'Free surface: topography, air flags and corrections stay consistent',
      'The surface is carried by a marker chain advected with the surface velocity, remeshed without losing its shape, projected on the grid columns; cells and nodes above it are flagged as air or surface and get the matching boundary types, all others are active; markers above it are removed; densities of cut cells are corrected by their filling; erosion, sedimentation and zero-mean options act only when chosen.',
      ['inputs', 'histories', 'configurations'], 'for every topography, grid and history', 'only one of them has a free surface and checks nothing of it.', [D + 'FreeSurface.c', D + 'Setup.c'],
      [('chain', D + 'FreeSurface.c: AdvectFreeSurf, RemeshMarkerChain, InterpTopoPart2Grid'), ('flags', D + 'FreeSurface.c: CellFlagging'), ('density', D + 'FreeSurface.c: SurfaceDensityCorrection'), ('surface processes', D + 'FreeSurface.c: DiffuseAlongTopography, AddPartSed')],
      'Decides formulas, masks and conditions.')
eprop('C22', 'Marker state is updated once per step by the matching increments',
      'After each step every active marker gets the increments of its own fields: pressure, temperature, deviatoric stress (with rotation and subgrid relaxation as chosen), grain size, density, composition, melt, divergence, accumulated strain by mechanism (never decreasing), finite deformation, maximum pressure and temperature; inactive markers stay untouched and phase changes act only where their criterion holds.',
      ['inputs', 'histories', 'configurations'], 'for every field, marker cloud and history', 'they look only at solver iterations.', [D + 'RheologyParticles.c', D + 'ParticleRoutines.c'],
      [('stress', D + 'RheologyParticles.c: UpdateParticleStress'), ('strain', D + 'RheologyParticles.c: AccumulatedStrainII, DeformationGradient'), ('temperature, pressure, grain size', D + 'RheologyParticles.c: UpdateParticle*')],
      'Decides increments, masks and options.')
eprop('C23', 'Nonlinear iteration accepts, damps or rejects steps by the residual',
      'Each nonlinear step solves for the correction with the chosen solver and applies a step length whose residual is the smallest of those tried (full step when line search is off or residuals are small), rebuilds all dependent fields from the accepted solution, records residuals; linear solvers stop at their tolerances or report failure with a non-zero exit; nothing of a rejected trial remains.',
      ['inputs', 'histories'], 'for every residual history and solver choice', 'they pin the number of iterations of three problems.', [D + 'StokesRoutines.c', D + 'Solvers.c'],
      [('line search', D + 'StokesRoutines.c: LineSearchDecoupled'), ('field update', D + 'StokesRoutines.c: UpdateNonLinearity'), ('linear solvers', D + 'Solvers.c: KSPStokesDecoupled, kspgcr, KillerSolver, DirectStokesDecoupled')],
      'Decides the control conditions and data flow; not convergence.')
eprop('C24', 'A time step performs its stages in order and under its options',
      'RunMDOODZ initialises (or restarts), then in every step interpolates markers to the grid, updates material fields, solves the nonlinear Stokes problem until the residual criterion or the iteration limit holds, solves heat, updates markers, advects with the corrected time step, handles surface and reseeding, and writes output and checkpoints at the chosen intervals; each stage runs exactly when its option is on, with its own arguments, before the stages that use its results; time and step counters advance once per step; the run ends after Nt steps.',
      ['configurations', 'histories'], 'for every option set and number of steps', 'they run one step of a few option sets.', [D + 'Main_DOODZ.c'], [('driver', D + 'Main_DOODZ.c: RunMDOODZ')],
      'Decides every call, its arguments, guard and the order of conflicting calls in the driver.')
eprop('C26', 'Anisotropic rheology: rotation, invariants and fabric evolution',
      'With anisotropy on, strain rate and stress are rotated into and back out of the director frame by the same angle, invariants and viscosities use the anisotropy factor as specified, the factor evolves with finite strain between its limits, directors stay unit vectors and are rotated with the flow, and the operator derived from them reduces to the isotropic one for factor one.',
      ['inputs', 'configurations'], 'for every director field, factor and state', 'they compare iteration counts of two anisotropic problems.', [D + 'AnisotropyRoutines.c', D + 'RheologyDensity.c', D + 'RheologyParticles.c', D + 'StokesRoutines.c'],
      [('point rheology', D + 'AnisotropyRoutines.c: ViscosityConciseAniso'), ('grid', D + 'AnisotropyRoutines.c: NonNewtonianViscosityGridAniso, UpdateAnisoFactor'), ('operator', D + 'StokesRoutines.c: RheologicalOperators')],
      'Decides formulas and conditions.')
eprop('C27', 'Grid geometry, indices and initial fields',
      'Node and cell coordinates follow the box and the number of nodes (ghost nodes half a cell outside, spacing consistent), the node index tables enumerate each node once, every active node gets one equation number (shared by periodic partners), initial fields follow the boundary type and background flow, box deformation rebuilds them consistently.',
      ['inputs', 'configurations'], 'for every box, resolution and boundary pattern', 'they use three resolutions.', [D + 'GridRoutines.c', D + 'AdvectionRoutines.c', D + 'StokesRoutines.c'],
      [('coordinates', D + 'GridRoutines.c: SetGridCoordinates'), ('indices', D + 'GridRoutines.c: GridIndices'), ('initial fields', D + 'GridRoutines.c: InitialiseSolutionFields'), ('numbering', D + 'StokesRoutines.c: EvalNumberOfEquations')],
      'Decides formulas and ranges.')
eprop('C28', 'Sparse-matrix and array plumbing is lossless',
      'Copies between matrix formats, permutations and their inverses, transposes, dot products, norms, array arithmetic and reductions act on every element exactly once with the right index and length; solver objects get the matrix and right-hand side of their own system, failures of factorisation are reported, temporaries are released and results land in the vector they belong to.',
      ['inputs'], 'for every matrix and vector', 'they only see converged solves.', [D + 'SparseTools.c', D + 'MiscFunctions.c', D + 'Solvers.c', D + 'ThermalSolver.c', D + 'StokesAssemblyDecoupled.c'],
      [('copies', D + 'SparseTools.c'), ('arrays', D + 'MiscFunctions.c'), ('solvers', D + 'Solvers.c, ' + D + 'ThermalSolver.c')],
      'Decides element-wise effects and call data flow.')

prop('C09', 'A run that cannot continue stops with an error status',
     'Every condition the code treats as fatal (unreadable or missing input file, checkpoint, flow-law or phase-diagram data, unknown flow law or averaging rule, invalid internal points or phases, full marker arrays, non-finite values, diverged solvers, too many stagnated steps, unusable user callbacks) ends the process, under exactly that condition, with an exit status that a caller sees as failure; no file operation is carried out on a stream that could not be opened, and the run leaves the process by no other way.',
     ['inputs', 'configurations', 'histories'], 'for every input, option set and state of the run', TESTS + 'none provokes a fatal error.',
     [IO, MAIN, D + 'Setup.c', D + 'ParticleReseeding.c', D + 'StokesRoutines.c', D + 'RheologyDensity.c', D + 'FlowLaws.c'],
     [('streams', IO + ': every fopen'), ('input checks', IO + ': ReadInputFile'), ('set-up checks', D + 'Setup.c: ValidateSetup, ValidatePhase, ValidateInternalPoint'), ('run-time checks', MAIN + ': RunMDOODZ')],
     'constant status of every exit call; path analysis of every opened stream under its failure condition; reaching condition of every exit compared with the reviewed table',
     'Every exit in the program must have a constant status that is non-zero modulo 256; for every stream opened, no use of it may be reachable along edges compatible with the opening having failed; for each function that can end the run, the condition of each exit (canonical, over inputs) must equal the reviewed table data/eff_c09.json.',
     'Decides when and how the code decides to stop; whether further conditions should be fatal is not decided, nor are crashes (see C05, C08, C29).', assumptions=COMMON)
prop('C25', 'A run is a function of its input',
     'The results do not depend on wall-clock time, process or environment data, memory addresses or an unseeded random generator: such values reach printed timings only; random numbers used for marker noise and positions come from a generator whose seed is fixed in the code.',
     ['inputs', 'configurations', 'histories'], 'for every input, machine and moment of the run', TESTS + 'they run once and compare iteration counts.',
     [MAIN, D + 'ParticleRoutines.c', D + 'MemoryAllocFree.c'],
     [('timings', MAIN + ': RunMDOODZ'), ('random positions', D + 'ParticleRoutines.c: PutPartInBox'), ('random numbers', 'every srand, rand')],
     'forward dataflow from every source of non-determinism to its sinks over SSA',
     'Every call that returns clock, environment, process or entropy values is a source; its value may only flow through arithmetic into printing calls. Every seed must be a constant. No block address may be used as a number except to compare or subtract. Dependence on uninitialised memory is C29, on thread schedule C05.',
     'Decides the flow inside the library; external libraries and the order of parallel reductions (rounding) are out of scope.', assumptions=COMMON)
prop('C29', 'Nothing is computed from a value that was never set',
     'No branch, memory index, stored result or call argument depends on a local variable, local array element, or freshly allocated (not zeroed) block before it has been given a value, on any path that documented option values allow.',
     ['inputs', 'configurations', 'histories'], 'for every input and every documented value of every option', TESTS + 'an uninitialised value that happens to be zero passes them.',
     [D + 'StokesRoutines.c', D + 'RheologyDensity.c', MAIN, D + 'ParticleRoutines.c', D + 'ThermalRoutines.c', IO],
     [('solver control', MAIN + ': RunMDOODZ'), ('line search', D + 'StokesRoutines.c: LineSearchDecoupled'), ('inflow', D + 'ParticleRoutines.c: ParticleInflowCheck'), ('every function', 'MDLIB')],
     'condition under which an SSA value or local place is still unset (undef operands of phi/select, loads before stores) conjoined with the reaching condition of its use',
     'For every function: the condition under which a register value is undefined is propagated through phis, selects and arithmetic (with loop-carried flags and option domains from README and ReadInputFile); each use that is observable (branch, address, stored value, argument) must have unsatisfiable conjunction of reaching condition and undefined condition. Locals kept in memory: each load must be preceded on all feasible paths by a store covering it. Blocks allocated without zeroing and used in one function: the first use must fill them, and later loads stay in the index ranges that were filled.',
     'Decides local variables, local arrays and malloc blocks used in one function; blocks handed between functions and fields of the model structures are not covered.', assumptions=COMMON + ['options take the values documented in README.md and the reader'])
prop('C30', 'Writing files does not change the computation',
     'Checkpoints, grid, marker, residual and map files, logs and reports are observers: every output routine leaves the state of the model (fields, markers, options, time) as it found it (unit conversions applied in place are undone exactly), and options that control output (whether, how often, what, where, pruning, debug files, maps, plots) decide nothing but output, so that the computed states are the same with any of them.',
     ['configurations', 'histories'], 'for every combination of output options, every step at which output happens', TESTS + 'they run with one set of output options and do not compare runs.',
     [IO, D + 'HDF5Output.c', MAIN, D + 'RheologyDensity.c', D + 'MiscFunctions.c'],
     [('checkpoint', IO + ': MakeBreakpointParticles'), ('grid and markers', D + 'HDF5Output.c: WriteOutputHDF5, WriteOutputHDF5Particles'), ('residuals', D + 'HDF5Output.c: WriteResiduals'), ('driver', MAIN + ': RunMDOODZ'), ('maps', D + 'RheologyDensity.c: GenerateDeformationMaps')],
     'net-effect (mod) analysis of every output routine; control dependence of every write and call on output options',
     'For each output routine the net symbolic change of every place outside it must be the identity, and no callee may be handed model state it writes (in-place scalings must multiply to one over the same range); fields recomputed from markers before each use (phase proportions, composition on centres) are listed as exempt. In every function that reads an output option, no store to model state and no call that changes model state may be controlled by it or carry its value.',
     'Decides state changes made by code in the repository; file system effects (disk full) are out of scope. Rounding of multiply-then-divide scaling is not modelled.', assumptions=COMMON)

# ------------------------------------------------------------------------------------------------ outside this family
def na(id, title, statement, over, quant, files, mech, why_not): prop(id, title, statement, over, quant, TESTS + 'they do not check it.', files, mech, na=why_not)


na('C31', 'The discrete solution converges to analytical solutions with resolution',
   'For problems with known solutions (inclusion, sinking block, corner flow, thermal diffusion) velocity, pressure and temperature errors decrease at the order of the staggered-grid scheme with resolution.',
   ['inputs'], 'for every problem with a known solution and every resolution', [D + 'StokesAssemblyDecoupled.c', D + 'ThermalRoutines.c'], [('operators', D + 'StokesAssemblyDecoupled.c')],
   'convergence order is a statement about norms of floating-point solutions of linear systems; no static argument in reach bounds them (the stencils themselves are decided by C11-C14)')
na('C32', 'The computed Jacobian is the derivative of the residual',
   'The analytical consistent tangent used by Newton equals the derivative of the discrete residual with respect to the unknowns, so that Newton converges quadratically close to the solution.',
   ['inputs'], 'for every state and rheology', [D + 'StokesAssemblyDecoupled.c', D + 'RheologyDensity.c'], [('tangent', D + 'RheologyDensity.c: DerivativesOnTheFly_n')],
   'the code itself approximates the tangent by finite differences of a local iteration with a run-time perturbation; equality with the true derivative is numerical, not decidable from the source (the assembled formulas are decided by C12)')
na('C33', 'Linear and nonlinear solvers reach their tolerances',
   'For well-posed problems the Powell-Hestenes / GCR iterations and the Picard/Newton iterations converge to the chosen tolerances within the chosen numbers of iterations.',
   ['inputs'], 'for every well-posed problem', [D + 'Solvers.c', D + 'StokesRoutines.c', MAIN], [('iterations', D + 'Solvers.c: kspgcr, KillerSolver')],
   'convergence depends on spectra and magnitudes known only at run time (what happens when they do not converge is decided by C09 and C23)')
na('C34', 'Mass, momentum and energy are conserved over a run',
   'Total volume per phase, the marker population and the heat budget change only by boundary fluxes, sources and declared surface processes, up to the order of the scheme.',
   ['inputs', 'histories'], 'for every flow and number of steps', [D + 'ParticleRoutines.c', D + 'ThermalRoutines.c', D + 'AdvectionRoutines.c'], [('advection', D + 'ParticleRoutines.c: RogerGuntherII')],
   'conservation by markers is only approximate and its error is a run-time quantity; the pieces that are exact (residuals, fluxes per face, inheritance) are decided by C13, C14, C20')
na('C35', 'A restarted run continues bit for bit like an uninterrupted one',
   'Continuing from a checkpoint yields exactly the fields the uninterrupted run would have had.',
   ['histories'], 'for every step of restart', [IO, MAIN], [('restart', MAIN + ': RunMDOODZ')],
   'bitwise equality depends on rounding of the unit conversions and on every derived field being recomputed identically; static analysis decides that what is saved is restored (C01) but not floating-point identity')
na('C36', 'Memory and time stay within what the grid and marker limits imply',
   'Peak memory and run time grow with the allocated numbers of cells and markers and not with the number of steps.',
   ['histories'], 'for every number of steps', [D + 'MemoryAllocFree.c', MAIN], [('allocation', D + 'MemoryAllocFree.c')],
   'quantitative bounds on the factorisation libraries (fill-in) and on the process are run-time quantities; leaks inside the library are decided by C08')
