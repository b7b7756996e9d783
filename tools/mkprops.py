"""Generates /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": observe, "hook_needed": None}})

p("C01", "Streaming moves every distribution by exactly its own velocity",
  "After the ghost points are refreshed, the transport phase moves the value of each distribution function carried by velocity v from a point to the point displaced by v, exactly, wrapping around the box in periodic directions. No interior value is lost, duplicated or mixed between velocities, schemes or directions, whatever the stencil, the number of stencils, the space dimension or the storage order, and the distribution arrays the user reads hold the streamed values as soon as the phase returns.",
  ["inputs", "configurations"],
  "every stencil (symmetric or not, norm up to 3), 1-3 dimensions, box sizes down to the halo width, all storage orders, numpy and cython kernels, every integer field",
  "the demo tests compare two dozen fixed simulations with stored files; no test streams alone, with an asymmetric or wide stencil, or in a non-default storage order",
  ["pylbm/algorithm/base.py", "pylbm/simulation.py", "pylbm/storage.py", "pylbm/symbolic.py", "pylbm/container.py"],
  [("pull from -v", "BaseAlgorithm.transport"), ("periodic ghost exchange", "Array.update"), ("storage permutation", "symbolic.indexed/set_order")],
  ["Simulation.boundary_condition", "Simulation.transport", "Simulation.F"])

p("C02", "Conserved moments are conserved by relaxation and by the whole step",
  "Relaxation leaves every conserved moment unchanged at every point, and on a periodic domain a complete time step without source term leaves the total of every conserved moment over the box unchanged for any number of steps. A domain closed by bounce-back walls or containing bounce-back obstacles keeps the total mass of its fluid part unchanged whatever the arrangement of the solid cells.",
  ["inputs", "configurations", "histories"],
  "every scheme (also coupled schemes, nonlinear equilibria, relative velocities), every initial field, every solid pattern, any number of steps",
  "tests compare final fields with stored files for fixed demos; none states conservation, none varies obstacles or the coupling of schemes",
  ["pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/scheme.py", "pylbm/boundary.py", "pylbm/domain.py"],
  [("relaxation of conserved rows", "BaseAlgorithm.relaxation_local"), ("conserved rows first", "Scheme._permute_consm_in_front"), ("bounce back pairing", "BounceBack.set_iload")],
  ["Simulation.one_time_step", "Simulation.m", "Simulation.F"])

p("C03", "Results do not depend on backend, storage order or algorithm variant",
  "The same problem gives the same moments and distributions at every fluid point after any sequence of phases or time steps whether it is run with the numpy or the cython generator, with any storage order or loop order, with the pull or the base algorithm, and with any combination of the local-moment and split-loop settings the generator supports. Those choices only affect speed.",
  ["configurations", "histories"],
  "all pairs of generator, storage order, algorithm class and algorithm settings (m_local, split), over random schemes, walls, obstacles, source terms and fields",
  "tests run each demo with the default settings of numpy and cython only; storage orders, the base algorithm, split and m_local are never run",
  ["pylbm/simulation.py", "pylbm/container.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py", "pylbm/generator/autowrap.py", "pylbm/generator/codegen.py", "pylbm/symbolic.py"],
  [("kernel generation", "generator"), ("storage permutation", "Array/set_order"), ("algorithm settings", "BaseAlgorithm.one_time_step")],
  ["Simulation.F", "Simulation.m"])

p("C04", "Splitting a run over processes does not change its result",
  "Running a simulation on any number of processes and any process grid gives at every point the values of the single-process run, whatever the sizes, the obstacles, the labels and the boundary conditions, as long as each process has at least as many points as the halo in every direction. The sub-domains of the processes partition the box exactly, with the same coordinates and the same fluid, distance and label maps as the single-process domain.",
  ["configurations", "schedules", "inputs"],
  "process grids of 1-6 processes in 1-3 dimensions, uneven sizes, obstacles cut by an interface, all boundary methods",
  "the test suite never runs more than one process",
  ["pylbm/mpi_topology.py", "pylbm/storage.py", "pylbm/domain.py", "pylbm/boundary.py", "pylbm/options.py"],
  [("region split", "MpiTopology.get_region_indices_"), ("ghost exchange by dimension", "Array.update"), ("interface labels", "Domain.__init__")],
  ["Domain.in_or_out/distance/flag", "Simulation.m"])

p("C05", "The grid tiles the box with cell-centred points",
  "The interior points of a domain are exactly the centres of the cells of side dx that tile the box, in every direction and dimension, also in a direction without velocity, and the halo adds on each side as many points as the largest displacement of the stencil in that direction. Every array seen through the interior view has the shape of the interior coordinates, and a box that is not a multiple of the space step is refused.",
  ["inputs", "configurations"],
  "all boxes, space steps and stencils (including stencils with no velocity in a direction or one-sided velocities)",
  "the tests only build domains with the usual symmetric stencils",
  ["pylbm/domain.py", "pylbm/stencil.py", "pylbm/storage.py", "pylbm/geometry.py"],
  [("coordinates", "Domain.create_coords"), ("halo width", "Stencil.vmax"), ("interior view", "Array._in")],
  ["Domain.coords", "Domain.coords_halo", "Domain.shape_in", "Simulation.m[...].shape"])

p("C06", "The fluid/solid map is the ordered composition of the elements",
  "A point of the box is fluid unless the last element of the list that contains it is a solid one; elements added later override earlier ones, and a point outside all elements is fluid. An element contains the points of its closed shape (a cylinder extends by its half-axis w on both sides of its centre). Every point outside the box is solid.",
  ["inputs", "configurations"],
  "every ordered list of solid and fluid elements (circles, ellipses, parallelograms, triangles, spheres, ellipsoids, cylinders, parallelepipeds) in any position, also overlapping, nested or cut by the box, in 2 and 3 dimensions",
  "a few hand-made pictures are compared by the tests; they do not cover order, overlap or position of arbitrary elements",
  ["pylbm/domain.py", "pylbm/geometry.py", "pylbm/elements"],
  [("ordered addition", "Domain.__add_elem"), ("inside test", "Element.point_inside"), ("bounding box window", "Element.get_bounds")],
  ["Domain.in_or_out"])

p("C07", "Wall links carry the exact distance, label and normal",
  "For every fluid point and every velocity, a wall is recorded exactly when the displaced point is not fluid (solid, or across a non-periodic side of the box; across a periodic side the point on the opposite side counts), and the recorded distance is the fraction of the displacement at which the link enters the solid, with the label of the element side or box side crossed there and the unit normal of that side, directed along the displacement. All other entries hold the neutral value.",
  ["inputs", "configurations"],
  "every element list and box labelling, every stencil velocity, all points",
  "stored reference images and arrays cover a handful of geometries, mostly one element at a time",
  ["pylbm/domain.py", "pylbm/elements", "pylbm/geometry.py"],
  [("box sides", "Domain.__add_init"), ("elements", "Domain.__add_elem"), ("clean up", "Domain.clean")],
  ["Domain.distance", "Domain.flag", "Domain.normal"])

p("C08", "Boundary methods act on exactly the crossing links of their label",
  "A boundary condition changes only distributions entering the fluid through a wall, and each entering distribution is set once by the method given for its label and scheme: bounce-back returns the opposite outgoing value, anti bounce-back its negative, Neumann copies the value of the fluid neighbour (along the velocity or the chosen axis) and the Bouzidi methods interpolate with the distance to the wall and reduce to the plain methods half-way. All other values are untouched.",
  ["inputs", "configurations", "histories"],
  "every solid pattern and box labelling, every method per label and scheme, every distribution field",
  "demos fix the geometry and compare final fields only; which links are touched is never observed",
  ["pylbm/boundary.py", "pylbm/domain.py"],
  [("link lists", "BoundaryVelocity/Boundary"), ("methods", "BounceBack, AntiBounceBack, Bouzidi*, Neumann*")],
  ["Simulation.boundary_condition", "Simulation.F_halo"])

p("C09", "Prescribed boundary values enter at the wall position and current time",
  "The user's boundary function receives the coordinates of the points where the links cross the wall, and the value added to the entering distribution is the odd (bounce-back) or even (anti bounce-back) part of the equilibrium computed from the moments it sets (the difference or the sum of the equilibria of the entering velocity and its opposite). A time dependent function is evaluated at the time of the beginning of the step, at every step, including after several steps and several boundary labels.",
  ["inputs", "configurations", "histories"],
  "every label/value combination, static or time dependent, with or without extra arguments, over any number of steps",
  "the demos with prescribed values compare only final fields of one configuration",
  ["pylbm/boundary.py", "pylbm/simulation.py", "pylbm/algorithm/base.py"],
  [("wall value", "BoundaryMethod.prepare_rhs"), ("time dependence", "BoundaryMethod.update_feq"), ("rhs", "set_rhs")],
  ["arguments of the user function", "Simulation.F_halo after boundary_condition"])

p("C10", "Reading moments or distributions always shows the current state",
  "Whatever the order of time steps, elementary phases, direct assignments and reads, a moment read by the user is the one produced by the last operation that defined the moments, and equals the moment matrix times the current distributions when the distributions were changed last. Reading never changes the later evolution, and the moment view with and without halo always agree. A phase given an array of the user reads and writes it in place of the array of the simulation, which it leaves unchanged.",
  ["histories", "configurations"],
  "all sequences of set/get/phase/step operations, both generators and all storage orders",
  "tests read the moments once after a run; stale caches show only for particular sequences of calls",
  ["pylbm/simulation.py", "pylbm/container.py", "pylbm/storage.py"],
  [("lazy update flag", "Simulation.m/m_halo/F_halo")],
  ["Simulation.m", "Simulation.m_halo", "Simulation.F", "Simulation.F_halo"],
  [("update flag", "moments must be recomputed from distributions", "Simulation._update_m")])

p("C11", "One time step is the documented succession of phases and advances time",
  "One time step gives the same distributions as calling boundary condition, transport, moment computation, half source, relaxation, half source and distribution computation in that order from the same state. Each completed step increases the step counter by one and the time by the time step dt = dx / scheme velocity, and initialisation happens exactly once, before the first step if it was postponed.",
  ["histories", "configurations", "inputs"],
  "every interleaving of whole steps and phase-by-phase steps, every scheme without relative velocity, with or without source terms, walls and symbolic scheme velocity",
  "no test calls the phases individually",
  ["pylbm/simulation.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py"],
  [("composition", "one_time_step_local"), ("counters", "Simulation.one_time_step")],
  ["Simulation.one_time_step", "Simulation.t", "Simulation.nt", "Simulation.F"])

p("C12", "Moment matrices are the polynomials at the velocities, and exactly inverted",
  "For every scheme the moments computed from distributions are the sums of the given polynomials evaluated at the physical velocities (scheme velocity times lattice velocity) weighted by the distributions, each scheme seeing only its own distributions, and going to moments and back is the identity. The matrices shown to the user follow the order in which the polynomials were given.",
  ["inputs", "configurations"],
  "every list of polynomials forming a basis, with symbolic or numeric parameters and scheme velocities, one or several schemes, 1-3 dimensions",
  "tests only run the standard schemes and never look at the matrices",
  ["pylbm/scheme.py", "pylbm/algorithm/base.py"],
  [("matrices", "Scheme._create_moments_matrices"), ("kernels", "f2m_local/m2f_local")],
  ["Scheme.M", "Scheme.invM", "Scheme.M_no_swap", "Simulation.f2m/m2f"])

p("C13", "Relaxation, equilibrium and source phases follow their formulas",
  "Relaxation maps each moment m to m + s (e - m) with its own rate s and equilibrium e evaluated at the conserved moments of the same point, so a rate 0 keeps it, a rate 1 sets the equilibrium, and an equilibrium state is unchanged. The equilibrium phase sets every moment to its equilibrium, and a source phase adds half a time step of the source evaluated at the moments before the phase, the coordinates of the point and the time at the beginning of the step to exactly the declared moments; parameters are replaced by their values everywhere.",
  ["inputs", "configurations"],
  "every polynomial equilibrium, numeric or symbolic rates and parameters, several coupled schemes and several coupled source terms, every field",
  "demos compare end results of fixed schemes with linear or standard equilibria",
  ["pylbm/algorithm/base.py", "pylbm/algorithm/ode.py", "pylbm/algorithm/transform.py", "pylbm/scheme.py", "pylbm/generator"],
  [("phases", "relaxation_local/equilibrium_local/source_term_local"), ("substitution", "recursive_sub")],
  ["Simulation.relaxation", "Simulation.equilibrium", "Simulation.source_term"])

p("C14", "The order in which moments are declared does not matter",
  "Permuting the moments of a scheme (polynomials with their equilibria and rates, each conserved moment keeping itself as equilibrium), the list of conserved moments, the schemes of a system or the entries of a dictionary leaves the evolution of the distributions unchanged, and every moment read or written by its name is the sum of its own polynomial.",
  ["inputs", "configurations"],
  "all permutations of moments, conserved moments and schemes, with and without source terms and prescribed boundary values",
  "each demo declares its moments in one order, nearly always conserved moments first",
  ["pylbm/scheme.py", "pylbm/storage.py", "pylbm/simulation.py", "pylbm/boundary.py"],
  [("internal reordering", "Scheme._permute_consm_in_front"), ("name to row map", "Scheme.consm")],
  ["Simulation.m[name]", "Simulation.F", "Scheme.consm"])

p("C15", "Relative velocities change the collision frame only",
  "A scheme with a relative velocity conserves the same moments as the one without, and coincides with it after any number of steps when the relative velocity is zero or when all non-conserved moments of a scheme relax with the same rate, because changing the frame of the moments is inverted exactly when going back (the polynomials of each scheme, and those of its conserved moments, spanning spaces stable by translation). With any rates, relaxation acts on the moments seen from the frame that moves with the relative velocity at the point.",
  ["inputs", "configurations", "histories"],
  "every relative velocity (constant or depending on conserved moments), every moment basis, all fields",
  "only two demos use relative velocities, compared with stored results",
  ["pylbm/scheme.py", "pylbm/algorithm/base.py", "pylbm/algorithm/pull.py"],
  [("translation matrices", "Scheme._create_moments_matrices"), ("relative collision", "f2m_local/relaxation_local/restore_conserved_moments")],
  ["Simulation.one_time_step", "Scheme.Tu/Tmu"])

p("C16", "Velocity numbering is a bijection ordered by norm, stable under symmetry",
  "In each dimension the number of a velocity and its components determine each other for every number and every vector, and the numbers of the vectors of maximum norm at most n are exactly the first (2n+1)^d ones. The symmetric of a velocity about the origin or an axis has the opposite components it should have, and applying the same symmetry twice gives back the velocity.",
  ["inputs"],
  "all numbers up to (2n+1)^d and all vectors of norm up to n (n large in 1D and 2D, up to 4 in 3D), all axes",
  "tests check a few dozen numbers in each dimension",
  ["pylbm/stencil.py"],
  [("vector to number", "Velocity._set_num"), ("number to vector", "Velocity._set_coord"), ("symmetric", "Velocity.get_symmetric")],
  ["Velocity.num", "Velocity.v", "Velocity.get_symmetric"])

p("C17", "A stencil keeps each scheme's velocities in the given order, consistently",
  "For any list of velocity lists, the stencil of each scheme holds exactly the given velocities in the given order, the set of unique velocities is their union without repetition, all index tables agree with each other, and the extreme components and the symmetric index table are those of the velocities. A set of stencils is reported symmetric exactly when every stencil contains the opposite of each of its velocities.",
  ["inputs", "configurations"],
  "every list of velocity lists in 1-3 dimensions in any order, overlapping or disjoint, symmetric or not",
  "tests only build stencils with contiguous numberings",
  ["pylbm/stencil.py"],
  [("tables", "Stencil.__init__"), ("extrema", "Stencil.vmax/vmin"), ("symmetric table", "Stencil.get_symmetric/is_symmetric")],
  ["Stencil attributes"])

p("C18", "Saved files hold the global fields, for every process grid",
  "Data saved through the HDF5 interface can be read back as the exact global field: each value sits at the index of its point in reverse axis order, each vector component in its place, with the global coordinates of the box, and the companion description file names every dataset with its true dimensions. The content does not depend on the number of processes (each with at least as many points as the halo) or on the order in which fields are added.",
  ["configurations", "inputs", "schedules"],
  "1-3 dimensions, even and uneven process grids, scalars and vectors given as arrays or functions, any file name and existing or new directory",
  "h5 comparison of demos on one process with square domains",
  ["pylbm/hdf5.py", "pylbm/mpi_topology.py"],
  [("global gather", "H5File.set_grid/_set_dset"), ("description", "H5File.save")],
  ["the .h5 file", "the .xdmf file"])

p("C19", "Initial conditions are installed exactly",
  "After construction every named moment holds at every point the prescribed constant, array function value or function with extra arguments evaluated at the coordinates of the point, every other moment is at its equilibrium and the distributions correspond to the moments. When distributions are initialised instead, they hold the prescribed values and the moments correspond to them, and the first step starts from exactly that state.",
  ["inputs", "configurations"],
  "every mixture of constants, functions and functions with arguments, both kinds of initialisation, immediate or postponed, all dimensions and storage orders",
  "demos use one kind of initial condition each and observe it only after many steps",
  ["pylbm/simulation.py", "pylbm/storage.py"],
  [("initialisation", "Simulation.initialization"), ("postponed", "Simulation._initialize")],
  ["Simulation.m", "Simulation.F"])

p("C20", "Monitoring accounts for every call and all elapsed time exactly once",
  "For any tree of calls of monitored functions, including recursive calls and calls that raise, each function's call count is the number of its calls, its total time is the sum of their durations and its self time is that minus the durations of the monitored calls made directly from it. The result and the exceptions of the monitored function are passed through unchanged, and the accounting of one call never leaks into another. The report shows these numbers, the shares of the total time and the number of updated grid points per second that follow from them.",
  ["histories", "inputs"],
  "every call tree (depth and width bounded), recursion, exceptions caught at any level",
  "no test exercises monitoring",
  ["pylbm/monitoring.py"],
  [("call tree", "Monitoring.start_timing/stop_timing"), ("wrapper", "monitor")],
  ["Monitor.func counts, totals and self times"])

p("C21", "Simulations living in one program do not influence each other",
  "Creating, initialising, running and reading several simulations in any interleaving gives for each of them the results it gives alone, whatever they share: velocities, labels, symbols, parameter names, dictionaries, value functions or generator. Building a simulation does not modify the user's dictionary, and the same dictionary can be used again with the same result.",
  ["histories", "schedules", "configurations"],
  "all interleavings of operations on two or three simulations built from equal, related or different dictionaries with both generators",
  "each test runs one simulation at a time in one process",
  ["pylbm/simulation.py", "pylbm/generator/autowrap.py", "pylbm/generator/generator.py", "pylbm/stencil.py", "pylbm/context.py", "pylbm/boundary.py"],
  [("module per simulation", "Autowrap compile"), ("per-instance state", "Simulation.__init__")],
  ["Simulation.F", "Simulation.m", "the dictionary"])

p("C22", "Linear analysis gives the exact amplification and consistency coefficients",
  "The amplification matrix used for the stability analysis is the inverse moment matrix times the linearised relaxation times the moment matrix, its action for a wave vector multiplies each distribution by the phase of its velocity, and a linear scheme run on the lattice evolves exactly by it. The first-order coefficients of the equivalent equation are the fluxes of the equilibrium and its second-order coefficients are linear in (1/s - 1/2) as computed from the scheme (no relative velocity, no vanishing rate).",
  ["inputs", "configurations"],
  "every linear scheme (one or several conserved moments) and linearisation state, in 1-3 dimensions",
  "no test covers the analysis package",
  ["pylbm/analysis/stability.py", "pylbm/analysis/equivalent_equation.py"],
  [("relaxation matrix", "Stability.__init__"), ("Taylor expansion", "EquivalentEquation")],
  ["Stability.relax_mat_f", "EquivalentEquation coefficients"])

p("C23", "Dictionaries are accepted exactly when they are well formed",
  "A problem dictionary is accepted when it has the documented entries with the documented types, including every documented alternative, and is refused with an error before anything is built when a required entry is missing, an unknown entry is present or an entry has a wrong type. Acceptance does not depend on entries being given in another order and leaves the dictionary as it was.",
  ["inputs", "configurations"],
  "every single and double mutation (removal, addition, renaming, type change, wrong number of items in a pair) of well-formed dictionaries of each class",
  "tests only use well-formed dictionaries",
  ["pylbm/validator.py", "pylbm/simulation.py", "pylbm/scheme.py", "pylbm/domain.py", "pylbm/geometry.py", "pylbm/stencil.py"],
  [("schema", "validator.validate")],
  ["constructor outcome"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
