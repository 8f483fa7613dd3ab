FL = 'src/spatial/anumericalflux.cpp'
PH = 'src/physics/aphysics_defs.hpp'
R = 'Machine arithmetic is treated as real arithmetic (rounding, overflow, NaN not modelled); integers do not wrap. '
prop('C01', 'Numerical fluxes are consistent with the Euler equations',
     'For every inviscid flux scheme, every admissible gas state (positive density and pressure) and every unit face normal, the '
     'flux between two equal states is exactly the physical Euler flux of that state through the face.',
     ['inputs', 'configurations'], 'all states, normals, adiabatic indices > 1, all schemes of the factory',
     'tests run a few meshes and one gas; an inconsistency confined to a region of state space (a branch of a flux) is not sampled',
     [FL], [('get_flux of every scheme', FL), ('getDirectionalFluxFromConserved', PH)],
     note=R + 'All branches of all schemes are covered; the entropy-fix threshold is symbolic.')
prop('C02', 'Numerical fluxes are conservative and mirror symmetric',
     'For every scheme, any two admissible states and any unit normal, what leaves one cell enters the other: exchanging the states '
     'and reversing the normal negates the flux. Reflecting states and normal reflects the flux.',
     ['inputs', 'configurations'], 'all pairs of admissible states, normals and gases, all branches of each scheme',
     'regression tests compare a few converged solutions with loose tolerances; a sign error in a rarely taken branch loses '
     'conservation without moving them',
     [FL], [('get_flux of every scheme', FL)],
     note=R + 'HLLC excludes an exactly stationary contact (its two branches meet there; neither side is taken symmetrically) and '
     'assumes the wave-speed ordering sl < sm < sr of Einfeldt/Batten; AUSM+ excludes exact ties of the interface sound speed.')
prop('C03', 'Numerical fluxes are fully upwind in supersonic flow',
     'When both states (and their Roe average, for schemes built on it) move supersonically through the face in the same direction, '
     'the flux is exactly the physical flux of the upstream state.',
     ['inputs', 'configurations'], 'all pairs of supersonic states, normals and gases, for the upwind schemes',
     'no test has supersonic flow through a face with unequal states',
     [FL], [('get_flux of the upwind schemes', FL)],
     note=R + 'Van Leer, AUSM, AUSM+, Roe, HLL, HLLC. For AUSM+ supersonic means normal speed above the critical sound speed; for '
     'Roe the Roe state must be supersonic by the width of the entropy fix.')
prop('C04', 'Inviscid flux Jacobians are derivatives of the fluxes',
     'For every scheme that offers one, the flux Jacobian with respect to the left and right states is the exact derivative of the '
     'flux of the same scheme (with frozen wave speeds where the scheme documents that), the left block negated.',
     ['inputs', 'configurations'], 'all pairs of admissible states, unit normals and gases; prior contents of the outputs',
     'the tests compare a few states by finite differences; whole branches of the schemes are not visited',
     [FL], [('get_jacobian of the schemes', FL)],
     note=R + 'LLF and HLL: frozen wave speeds, as documented; AUSM, Roe, HLLC and the full LLF linearization: exact in every '
     'differentiable branch. Van Leer and AUSM+ offer no Jacobian. Known finding: Roe within the entropy fix.')
prop('C05', 'Gas relations and conversions are mutually consistent',
     'Pressure, temperature, sound speed, entropy, Mach number, enthalpy, energy, viscosity and conductivity of a state satisfy the '
     'ideal-gas relations; conversions between variable sets are inverse to each other, also in place; the free stream has unit '
     'density and speed, the requested direction and the requested Mach number.',
     ['inputs', 'configurations'], 'all admissible states, gases, Mach numbers, temperatures and angles',
     'the unit tests evaluate a few states',
     [PH, 'src/physics/aphysics.cpp'], [('IdealGasPhysics', PH)],
     note=R + 'Known finding: the finite pressure change used by the nonlinear relaxation is wrong.')
prop('C06', 'Derivatives of gas relations are exact',
     'Every routine that returns derivatives of a gas relation or of the physical flux with respect to the conserved variables '
     'returns (or adds, where so specified) exactly the derivative of the corresponding value routine.',
     ['inputs', 'configurations'], 'all admissible states and gases; arbitrary prior contents of accumulating outputs',
     'tests check a few states by finite differences with a tolerance; many routines are not tested',
     [PH, 'src/physics/aphysics.cpp'], [('getJacobian* routines', PH)],
     note=R + 'Derivatives are computed symbolically from the value routine\'s own code. Known finding: Sutherland viscosity.')
prop('C07', 'Boundary conditions impose what they name',
     'The ghost state of a slip wall mirrors the normal velocity and keeps everything else; no-slip walls put the wall velocity '
     'and the wall temperature or zero heat flux at the face; far field, extrapolation and in/outflow impose the documented '
     'quantities in each flow regime; the subsonic inflow has the given total pressure and temperature and blows inward.',
     ['inputs', 'configurations'], 'all interior states, unit normals, wall velocities and temperatures, gases',
     'regression tests use one wall and far-field configuration and see only aggregate errors',
     ['src/spatial/abc.cpp'], [('FlowBC::computeGhostState', 'src/spatial/abc.cpp')],
     note=R + 'The regime boundaries themselves (normal Mach number exactly 0 or 1) follow the code\'s documented comparison.')
prop('C08', 'Boundary-condition Jacobians match the ghost states',
     'For every boundary condition that offers a Jacobian, the Jacobian routine returns the same ghost state as the plain routine '
     'and exactly its derivative with respect to the interior state, whatever the prior contents of the output.',
     ['inputs', 'configurations'], 'all interior states, unit normals, boundary data, gases',
     'tests check a single state for some conditions', ['src/spatial/abc.cpp'],
     [('FlowBC::computeGhostStateAndJacobian', 'src/spatial/abc.cpp')],
     note=R + 'In/outflow excludes the points where the ghost state is not differentiable.')
prop('C09', 'Viscous flux is the Navier-Stokes flux',
     'The stress tensor is the symmetric, Newtonian, Stokes-hypothesis stress; the viscous face flux is minus stress, stress work '
     'and Fourier conduction through the face; it is conservative between the two sides and vanishes without gradients; the '
     'conversion to density-velocity-temperature states and gradients is exact.',
     ['inputs', 'configurations'], 'all states, gradients, normals and gases; constant and Sutherland viscosity',
     'regression tests cover a few viscous flows with tolerances',
     ['src/physics/viscousphysics.cpp', PH], [('computeViscousFlux', 'src/physics/viscousphysics.cpp'), ('getStressTensor', PH)],
     note=R)
prop('C10', 'Viscous flux Jacobians are exact derivatives',
     'The Jacobian of the viscous face flux with respect to the two adjacent states is its exact derivative, for any '
     'state-dependent face gradient whose derivatives are supplied; so is the Jacobian of the stress tensor.',
     ['inputs', 'configurations'], 'all states, gradients, gradient derivatives, normals and gases',
     'the existing test compares one face with finite differences',
     ['src/physics/viscousphysics.cpp'], [('computeViscousFluxJacobian', 'src/physics/viscousphysics.cpp')],
     note=R + 'With Sutherland viscosity the derivative of the viscosity is taken by contract (that routine is judged, and is a known '
     'finding, under C06).')
MESHN = R + ('The mesh is symbolic: any numbers of cells, faces of each kind and any connectivity, geometry and states; loops over faces and '
             'cells are summarised by invariants, checked once for an arbitrary iteration. OpenMP directives are not part of the verified build; '
             'PETSc vector access is by assumed contract.')
SP = 'src/spatial/flow_spatial.cpp'
AS = 'src/spatial/aspatial.cpp'
prop('C11', 'Residual assembly is conservative and complete',
     'The residual of each cell is the sum over its faces, each counted exactly once, of the face flux (inviscid minus viscous as '
     'configured) times face length, with opposite signs for the two cells of an interior face and the ghost state of the face\'s own '
     'boundary condition at physical boundaries; nothing else changes.',
     ['inputs', 'configurations'], 'all meshes, states, boundary-condition assignments, viscous and inviscid',
     'tests run a few meshes and look at aggregate errors',
     [SP], [('FlowFV::compute_fluxes', SP)], note=MESHN)
prop('C12', 'Local time step is limited by the wave speeds of all faces of the cell',
     'The time step of every cell is its area divided by the sum over all its faces of face length times (convective plus, if viscous, '
     'diffusive) spectral radius evaluated from that cell\'s own side.',
     ['inputs', 'configurations'], 'all meshes, states and gases, viscous and inviscid',
     'tests only observe convergence',
     [SP], [('FlowFV::compute_max_timestep', SP)], note=MESHN)
prop('C13', 'Face gradients and viscous face fluxes',
     'The gradient at a face is the average of the adjacent cell gradients corrected along the line of cell centres to reproduce the '
     'difference of the cell values exactly; its derivatives are exact; the viscous face flux uses that gradient, the average of the '
     'two states and the right pair of states and gradients for interior and boundary faces.',
     ['inputs', 'configurations'], 'all states, gradients, centres, normals; first and second order; both viscosity models',
     'tests run a few viscous flows with tolerances',
     [AS, SP], [('getFaceGradient_modifiedAverage', AS), ('compute_viscous_flux', SP)], note=R)
prop('C14', 'Face Jacobian blocks and boundary states belong to the face',
     'The Jacobian blocks of a face are the derivatives of that face\'s flux times length with respect to the two adjacent cells\' states, '
     'including the ghost state\'s derivative at boundaries; the ghost state of a boundary face is that of the condition registered for its '
     'marker.',
     ['inputs', 'configurations'], 'all states, meshes, faces, boundary conditions; viscous and inviscid',
     'tests check a few cells by finite differences',
     [SP], [('compute_local_jacobian_interior', SP), ('compute_local_jacobian_boundary', SP), ('compute_boundary_state', SP)],
     note=MESHN)
prop('C15', 'The global Jacobian is assembled from the face blocks, each at its place',
     'Each face adds its blocks to the diagonal and off-diagonal blocks of its two cells, at global indices, with the right sign, exactly '
     'once; boundary faces only to the diagonal; faces shared between subdomains to the local row only.',
     ['inputs', 'configurations'], 'all meshes, partitions, states and face blocks',
     'tests compare small cases on a few meshes',
     [AS], [('Spatial::assemble_jacobian', AS)], note=MESHN + ' MatSetValues is by assumed contract: it adds the block it is given.')
prop('C16', 'Fluxes are evaluated at reconstructed, admissible face states',
     'The residual routine converts to primitive variables, computes gradients and face values with the configured schemes, converts back '
     'to conserved variables, exchanges what the neighbours need before using it, computes ghost states from the interior face states, '
     'and passes exactly these to the flux and time-step routines.',
     ['inputs', 'configurations', 'schedules'], 'all meshes, states, partitions; first and second order, viscous and inviscid',
     'tests run a few configurations in which several of the steps are invisible',
     [SP], [('FlowFV::compute_residual', SP)],
     note=MESHN + ' Gradient, reconstruction and exchange routines are by assumed contract here.')
LR = 'src/spatial/limitedlinearreconstruction.cpp'
MR = 'src/spatial/musclreconstruction.cpp'
GS = 'src/spatial/agradientschemes.cpp'
prop('C17', 'Cell gradients are consistent with their definition',
     'Green-Gauss gradients are the sum over all faces of a cell, each once, of the inverse-distance-weighted face value times outward normal '
     'and length over the cell area; least-squares gradients solve the inverse-distance-weighted normal equations over all neighbours and '
     'boundary ghost values, and are exact for linear functions; the null scheme gives zero.',
     ['inputs', 'configurations'], 'all meshes, cell values and ghost values; prior contents of the output',
     'tests run a few meshes with tolerances on convergence rates',
     [GS], [('compute_gradients', GS)], note=MESHN + ' Exactness assumes that the cell\'s neighbours are not all on one line.')
prop('C18', 'Face values are the reconstruction the scheme documents, from the right cell',
     'For every face the left value is extrapolated from the left cell and the right value from the right cell (of interior faces): unlimited '
     'linear, MUSCL with the van Albada limiter, WENO-weighted gradients, Barth-Jespersen and Venkatakrishnan limiters; neighbour states come '
     'from the cell across the face or, at physical boundaries, the boundary ghost state, and no array is read out of range.',
     ['inputs', 'configurations'], 'all meshes, cell values, gradients, ghost states and scheme parameters; 1 and 4 variables',
     'tests run unlimited and WENO reconstructions on single processes through solver convergence rates',
     [LR, MR], [('LinearUnlimitedReconstruction::compute_face_values', 'src/spatial/areconstruction.cpp'),
                ('MUSCLVanAlbada::compute_face_values', MR), ('WENOReconstruction::compute_face_values', LR),
                ('BarthJespersenLimiter::compute_face_values', LR), ('VenkatakrishnanLimiter', LR)], note=MESHN)
ME = 'src/mesh/mesh.cpp'
ODE = 'src/ode/aodesolver.cpp'
prop('C19', 'Mesh geometry is consistent',
     'Cell areas are those of the polygons of their nodes, centres the mean of the nodes; face normals are unit, face lengths true, '
     'and the outward normals times lengths of the faces of a cell sum to zero and give its area by the divergence theorem; face centres '
     'are midpoints, ghost centres at physical boundaries reflections about the face, and those across subdomain boundaries are received '
     'from the neighbour after it computed them.',
     ['inputs', 'configurations'], 'all meshes of triangles and quadrilaterals, any node positions (faces of nonzero length), any partition',
     'tests read a few meshes and compare a few numbers',
     [ME, AS], [('UMesh::compute_areas', ME), ('UMesh::compute_face_data', ME), ('UMesh::compute_cell_centres', ME),
                ('Spatial::Spatial', AS)],
     note=MESHN + ' The closedness clause assumes the face list of a cell consists of its edges, each oriented along or against it; that the '
     'topology routines produce such a list is not proved.')
prop('C20', 'Output quantities are the integrals and averages they name',
     'Lift, pressure drag and friction drag of a wall are the length-weighted sums over exactly the faces of its marker, over all processes; '
     'surface data list one row per such face; the entropy error is the area-weighted L2 norm over all cells of all processes; exported cell '
     'values are those of the cell, exported nodal values those of the area-weighted mean state of the cells around the node.',
     ['inputs', 'configurations'], 'all meshes, states, gradients, markers, angles of attack, partitions; flow and scalar output',
     'tests only compare the entropy error and a few coefficients of particular flows; nodal output is not tested',
     [SP, 'src/spatial/aoutput.cpp', 'src/spatial/diffusion.cpp'],
     [('FlowFV_base::computeSurfaceData', SP), ('FlowOutput', 'src/spatial/aoutput.cpp'),
      ('scalar_postprocess_point', 'src/spatial/diffusion.cpp')],
     note=MESHN + ' Reductions over processes are by assumed contract (they add what the other processes hold; buffers must not alias).')
prop('C21', 'Scalar diffusion discretisation is conservative and consistent',
     'The residual of each cell is the sum over its faces, each once, of diffusivity times the corrected face gradient along the normal times '
     'length, plus source times area, with opposite signs for the two cells of a face; the boundary value is the face average with the ghost '
     'value; the time step is the squared cell size over the diffusivity; interior Jacobian blocks are the derivatives of the face flux; the gradients '
     'offered to others are those of the configured scheme with the boundary ghost values.',
     ['inputs', 'configurations'], 'all meshes, scalar fields, gradients, boundary values, diffusivities and sources',
     'tests solve one problem on a few meshes for its convergence rate',
     ['src/spatial/diffusion.cpp'], [('DiffusionMA::compute_residual', 'src/spatial/diffusion.cpp'),
                                     ('DiffusionMA::compute_local_jacobian_interior', 'src/spatial/diffusion.cpp')],
     note=MESHN + ' The Jacobian of boundary faces is specified for a fixed ghost value: the code leaves out the derivative of the ghost value, '
     'which only affects convergence. The source is an arbitrary function by assumed contract.')
prop('C22', 'Time steppers perform the steps of their schemes',
     'Each explicit pseudo-time step adds CFL times local time step over area times the residual of the current state; each implicit step solves '
     'the system of the current Jacobian plus pseudo-time term for the current residual and applies the relaxed update; Runge-Kutta '
     'steps evaluate each stage at the state and with the time step of the scheme of their order; residuals and states are exchanged exactly once '
     'per evaluation; CFL ramps and relaxation factors stay within their bounds and follow their formulas.',
     ['inputs', 'configurations', 'histories'],
     'all states, residual and time-step functions, meshes, partitions, ramp settings; the first two steps from an arbitrary state',
     'no test runs the unsteady schemes; steady ones are judged by their converged state, which does not depend on the steps taken',
     [ODE, 'src/ode/nonlinearrelaxation.cpp'],
     [('SteadyForwardEulerSolver::solve', ODE), ('SteadyBackwardEulerSolver::solve', ODE), ('TVDRKSolver::solve', ODE),
      ('SteadyBackwardEulerSolver::addPseudoTimeTerm', ODE), ('FlowSimpleUpdate::getLocalRelaxationFactor', 'src/ode/nonlinearrelaxation.cpp')],
     note=R + 'The time loops are followed for two steps from an arbitrary state (any state can be the start, so any two consecutive steps '
     'are covered except for the values carried in the residual history that selects the CFL); loops over cells have no bound. Residual, Jacobian '
     'assembly, linear solver and exchanges are by assumed contract.')
prop('C30', 'Subdomain ghost data equal the owners\' data',
     'After an exchange every ghost cell and every trace at a connectivity face holds the value its owning process has; the '
     'partition covers every cell exactly once and the solution is independent of the number of processes.',
     ['schedules', 'configurations'], 'all partitions, numbers of processes and message orders',
     'tests use one to four processes and two partitioners', ['src/linalg/tracevector.cpp', 'src/mesh/meshpartitioning.cpp'],
     [('exchange of traces at connectivity faces', 'src/linalg/tracevector.cpp')],
     na='the statement relates the memories of several processes through MPI, Scotch and PETSc scatters; function contracts over one '
     'process can only assume it (they check what is sent, when, and that exchanges are completed: C16, C17, C19, C21)')
prop('C31', 'Mesh and control files are read faithfully',
     'The mesh built from a file has the cells, boundary faces and markers of the file, and faces, neighbours and point stencils '
     'consistent with them; every documented control option reaches the solver, defaults apply when it is absent.',
     ['inputs'], 'all well-formed mesh and control files', 'tests read a handful of files',
     ['src/mesh/meshreaders.cpp', 'src/utilities/controlparser.cpp'],
     [('readers', 'src/mesh/meshreaders.cpp')],
     na='iostreams and boost property trees have no model in the verifier, and topology construction is a search over tables of '
     'input-dependent shape for which its loop rule has no invariant language')
prop('C32', 'Threaded loops are free of data races',
     'No two OpenMP threads access the same element without synchronisation when one writes; results do not depend on the schedule.',
     ['schedules'], 'all meshes, thread counts and schedules', 'races show rarely and tests run one or two threads',
     ['src/spatial/agradientschemes.cpp', 'src/spatial/flow_spatial.cpp'],
     [('parallel loops over faces', 'src/spatial/flow_spatial.cpp')],
     na='OpenMP directives are dropped in the verified build (outlined regions would need a permission logic that the verifier does not '
     'have)')
