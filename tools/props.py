prop(
    "P01",
    "The process grid and the tiles divide the domain exactly once",
    "For every grid size, number of processes and placement of the processes, each cell of the global grid belongs to exactly one process, process domains differ by at most one cell per axis, and all processes agree on the bounds and on each other's positions. Neighbour relations are mutual and periodic over the process grid. The tiles of a process hold each of its grid nodes exactly once, their spatial bounds adjoin without gap or overlap, and together cover exactly the process's domain.",
    ["configurations", "inputs"],
    "all global grid sizes, process grids, topologies (Cartesian, explicit, random), tile counts, cell sizes, origins, 2D and 3D",
    "The existing tests run one or two fixed decompositions of even sizes; remainders, prime counts, random placement and tile remainders are never reached.",
    [MR, TI, "src/modules/modules.F90"],
    [("decomposition of the grid and neighbour table", MR + " setup_communicator, mpi_initialise"), ("tile split", TI + " set_tile_split_for_species")],
    state=[("place", "coordinates of each rank in the process grid", MR), ("cuts", "first cell of each chunk per axis", MR), ("tiles", "first and last node and bounds of each tile", TI)],
    observe=["module variables of every rank after initialisation"],
    note="Decomp.tla is exhaustively checked for small grids; the set-up of every rank of some 44 (quick) random configurations is checked by TLC against it. Assumes configurations the library accepts (as many cells as guards).",
)
prop(
    "P02",
    "Every particle reaches the process and tile that own its position, exactly once",
    "After each particle exchange in a periodic box, every particle is held by exactly one process and by the tile that contains its position, none is lost or duplicated, and its position is the pushed position wrapped into the box. Its momentum, inverse gamma and extra attributes are unchanged, and the per-species particle counter of every process equals the number it holds. This holds for every exchange algorithm, process grid and tiling.",
    ["schedules", "histories", "configurations"],
    "all particle positions and displacements below a cell, process grids, topologies, tilings, the blocking, non-blocking and combined exchanges, in 2D and 3D, and all arrival orders of the messages",
    "The one existing test checks totals of one random case per exchange on four processes; loss or duplication at an edge or corner, wrong tile, or exchanged attributes pass it.",
    [PB, TI, MR],
    [("tile and MPI exchange", PB + " particle_bcs_tiles_and_mpi_3d, particle_bcs_mpi_blocking, particle_bcs_mpi_non_blocking(_2d), particle_bcs_tiles(_2d)"), ("insertion in and removal from a tile", TI)],
    state=[("held", "particles of each rank and tile with all attributes", TI), ("count", "particles per species and rank", "src/modules/modules.F90 species_npart")],
    observe=["every tile's particle arrays after particle_bcs"],
    note="PartExchange.tla: all interleavings for 2x2 ranks; the real exchange on up to 12 ranks is validated step by step by TLC (40 scenarios x 4 exchanges in quick). Particles move less than a cell per step.",
)
prop(
    "P03",
    "Particles crossing a face of the particle box get that face's boundary condition",
    "A particle that crosses an absorbing face leaves the simulation at that step; one that crosses a reflecting face comes back within one cell with only its normal momentum reversed; one that crosses a reinjecting face comes back near the face at rest; and no other particle is affected. This holds for each face separately, with faces placed at the grid boundary or offset inside it, on whichever process the face lies, and for every exchange algorithm. Counters of particles follow.",
    ["histories", "configurations"],
    "all assignments of boundary kinds to the faces, offsets, positions and displacements, process grids, tilings and exchange algorithms; where several different kinds are crossed at once either may win",
    "No existing test uses a particle boundary other than periodic.",
    [PB, MR],
    [("boundary kinds per face", PB), ("which process holds a face", MR + " mpi_initialise")],
    state=[("kind", "boundary kind per face", "src/modules/modules.F90 pbound_*"), ("box", "particle box", MR)],
    observe=["every tile's particle arrays after particle_bcs"],
    note="Same specification and machinery as P02, with the four boundary kinds; edges and corners with different kinds are left open.",
)
MX = "src/field_solvers/Maxwell/yee_solver/yee.F90"
prop(
    "P05",
    "After the field exchange every guard cell of E and B equals the cell it copies",
    "After the boundary exchange of E or B, every guard cell of every process holds exactly the value that the process owning that global node (periodically wrapped) holds there, in faces, edges and corners, for the total fields and, with absorbing boundaries, for the split fields; the nodes a process owns, guard cells beyond a non-periodic boundary, and all other field arrays are unchanged. Every communication mode and number of guard cells gives the same result.",
    ["schedules", "configurations", "inputs"],
    "all field contents, process grids and placements, guard widths, periodic and absorbing axes, the blocking, non-blocking and persistent modes, 2D and 3D, and all arrival orders of the messages",
    "The existing tests only look at physical quantities of long runs to a few per cent; a wrong corner or a wrong component there is invisible.",
    [FB, MR, "src/modules/modules.F90"],
    [("field exchange", FB + " field_bc, exchange_mpi_3d_grid_array_with_guards, exchange_mpi_3d_grid_array_with_guards_nonblocking, efield_bcs, bfield_bcs")],
    state=[("arrays", "every stored node of E, B and split fields of each rank", "src/modules/modules.F90")],
    observe=["whole field arrays of every rank after each exchange"],
    note="FieldSync.tla: all interleavings for up to 4 ranks; the arrays of the real exchange on up to 12 ranks (30 scenarios in quick) are compared node by node by TLC. Every rank has more cells than guards.",
)
prop(
    "P06",
    "The source exchange sums every contribution to a node exactly once",
    "After the boundary exchange of the current or charge density, every copy of a global node (an owned node or a node shared by neighbours) holds the sum of what all processes had deposited on their copies and guard copies of that node, each counted once; totals over the box are conserved in a periodic box; at an absorbing boundary nothing comes round from the other side. This holds in every communication mode, for guard widths of currents that differ from those of the fields, and whatever the process grid.",
    ["schedules", "configurations", "inputs"],
    "all contents of current and charge arrays, process grids and placements, guard widths, periodic and absorbing axes, the blocking, non-blocking and persistent modes, 2D and 3D, and all arrival orders of the messages",
    "Double counting or omission at edges, corners and shared nodes needs contributions there; existing tests only check global sums in one decomposition.",
    [FB, MR],
    [("summation exchange", FB + " summation_bcs, summation_bcs_nonblocking, summation_bcs_persistent_jx/jy/jz, current_bcs, charge_bcs")],
    state=[("arrays", "every stored node of J and rho of each rank", "src/modules/modules.F90")],
    observe=["whole J, rho arrays of every rank before and after each exchange"],
    note="FieldSync.tla as in P05; the summed arrays of the real code on up to 12 ranks are compared node by node by TLC.",
)
prop(
    "P09",
    "The Maxwell solver advances E and B by its finite-difference equations",
    "One half step of B and one full step of E change every node a process owns by exactly the discrete curl of the configured order on the staggered (or nodal) grid times the time step, with E also driven by minus mu0 c^2 dt J, with the right sign and direction for every component, in 2D and 3D and for different orders per axis; the fields on which nothing acts stay zero; the result at a global node does not depend on the process grid; div B does not change. The stencil coefficients are those of the given order.",
    ["inputs", "configurations", "histories"],
    "all field and current contents, cell sizes, time steps, stencil orders, process grids, 2D and 3D",
    "The existing Maxwell tests evolve one plane wave along the axes with order-2 stencils and a tolerance; errors of other components, orders and mixed orders pass.",
    [MX, "src/field_solvers/Maxwell/maxwell_solver_manager.F90"],
    [("push of B and E", MX + " pxrpush_em3d_bvec(_norder), pxrpush_em3d_evec(_norder), pxrpush_em2d_*"), ("choice of solver, time step factors", "src/field_solvers/Maxwell/maxwell_solver_manager.F90 push_bfield, push_efield, push_*_2d, "), ("stencil", "src/submain.F90 init_stencil_coefficients, FD_weights")],
    state=[("E, B, J", "every stored node of each rank", "src/modules/modules.F90")],
    observe=["whole arrays of every rank before and after each push"],
    note="Maxwell.tla: linearity, div B and translation invariance exhaustively on small grids; the real pushes (20 scenarios in quick) on exact dyadic data are recomputed node by node by TLC (orders 2, 4, nodal 4, 6).",
)
DC = "src/particle_deposition/current_deposition/current_deposition_manager_3d.F90"
DR = "src/particle_deposition/charge_deposition/charge_deposition_manager.F90"
PM = "src/particle_pushers/particle_pusher_manager_3d.F90"
FG = "src/field_gathering/field_gathering_manager_3d.F90"
prop(
    "P07",
    "Deposition gives each particle's exact charge and current, on every algorithm",
    "For every set of particles, the charge and current density deposited on the grid (before the exchange, guard cells included) are the sum over the depositing particles of the closed-form contribution of that particle: its charge and weight spread by the B-spline of the chosen order per axis, staggered where the component is. Every selectable algorithm (scalar, vectorised, cache-blocked, grouped, arbitrary order, 2D) with any vector length and any tiling gives that same result; species that do not deposit contribute nothing, and the total charge is that of the particles.",
    ["inputs", "configurations"],
    "all particle positions, displacements below a cell, weights and charges; orders 1-3, equal or mixed; deposition algorithm selectors; vector lengths; tilings; 2D and 3D; staggered and nodal",
    "The existing unit tests compare kernels with each other for random particles to a loose relative error in a single tile; common errors, the tile reduction, the dispatch, remainder loops, unequal orders are not reached.",
    [DC, DR, "src/particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90", "src/particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90", "src/particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90", "src/particle_deposition/charge_deposition/charge_deposition_3d.F90", "src/particle_deposition/charge_deposition/charge_deposition_2d.F90"],
    [("current deposition and its dispatch", DC), ("charge deposition and its dispatch", DR)],
    state=[("particles", "position, displacement, weight and charge of each particle", TI), ("density", "charge and current arrays of each rank", "src/modules/modules.F90")],
    observe=["whole charge and current arrays of every rank after each deposition and exchange"],
    note="DepositOps.tla defines the contributions in integers; positions on a lattice (1/8 or 1/4 cell), chosen so that the doubles are exact; TLC compares every array element of every rank. 3D rho vector kernel of order 1 'vecNOY' and 'vecHV' are not selectable and not covered.",
)
prop(
    "P08",
    "Deposition, push and exchange together conserve charge locally in every step",
    "In a periodic box with the charge-conserving deposition, after every step the change of the charge density at every grid node equals minus the divergence of the deposited current times the time step, for every field, momentum up to relativistic, shape order, deposition and push variant, process grid and tiling, particles crossing tiles, processes and the periodic boundary included; particles that do not move leave no current.",
    ["histories", "inputs", "configurations"],
    "all fields and particle states, orders 1-3 equal or mixed, dispatch variants of the push and of the depositions, process grids, tilings, 2D and 3D, over sequences of steps",
    "The existing tests see only energies to a few per cent; a mismatch between pushed position, exchanged position and deposited current in a variant, or only at a boundary, passes.",
    [DC, DR, PM, PB, FB],
    [("push", PM), ("deposition", DC), ("charge", DR), ("particle exchange", PB)],
    state=[("rho", "charge density before and after", "src/modules/modules.F90"), ("J", "current density of the step", "src/modules/modules.F90")],
    observe=["charge and current arrays of every rank after every step"],
    note="Deposit.tla proves the discrete continuity equation for every position and displacement on the lattice; TLC checks it at every node on 3 recorded steps of 20 configurations (quick), to 6e-6 of a particle.",
)
prop(
    "P10",
    "Each particle feels the fields of the grid averaged with its own shape",
    "After the gathering, the electric and magnetic field held by each moving particle is exactly the sum over the grid nodes of the field of its process with the B-spline weights of the chosen order per axis, each component taken at its own staggered position, with the lower order along staggered directions if that option is on; every algorithm (standard, vectorised, arbitrary order, fused with the push, cache blocked, 2D), vector length and tiling gives the same values; frozen species keep theirs and the grid is unchanged.",
    ["inputs", "configurations"],
    "all field contents and particle positions, orders 1-3 equal or mixed, lower-order option, gather algorithm selectors, fused and separate push, vector lengths, tilings, 2D and 3D, staggered and nodal",
    "The existing unit tests compare kernels with each other on random particles, summing absolute values; the tile copies, dispatch, options and mixed orders are not reached.",
    [FG, PM, "src/field_gathering/energy_conserving"],
    [("gather and its dispatch", FG), ("fused gather and push", PM)],
    state=[("fields", "E and B arrays of each rank", "src/modules/modules.F90"), ("partE, partB", "fields of each particle", TI)],
    observe=["fields held by every particle after the gathering and after the fused call"],
    note="Integers on a lattice with random integer fields, compared exactly by TLC for every particle and component. With lower order, particles exactly on a node (ambiguous nearest node) are left out.",
)
BO = "src/particle_pushers/boris_pusher/boris_3d.F90"
prop(
    "P11",
    "Every push solves the equation of motion of the chosen pusher",
    "For every particle the momentum after a push solves that pusher's equation from the momentum before and the fields the particle holds: Boris (half kick, rotation that keeps the length, half kick), Vay (kick by the mean of old and new velocity), or Boris plus the force of the chosen radiation reaction model (S09, B08, LL with the fields of the previous step). The inverse gamma stored belongs to the momentum stored; the position advances by velocity times step along the grid's axes; frozen and antenna species, fields and attributes stay. This holds for any fields (zero too), momenta, charge, number of particles, block size, full or half pushes, fused or separate from the gathering, in 2D and 3D.",
    ["inputs", "configurations", "histories"],
    "all momenta, fields, charges, masses and time steps; numbers of particles and block sizes; the five pushers, their full and half forms, fused, cache-blocked and separated dispatch; 2D and 3D",
    "The existing pusher tests compare two kernels or follow one trajectory to a tolerance: wrong signs of single components, one model, one dispatch, a remainder loop, a particle at rest are not reached.",
    [PM, BO, "src/particle_pushers/vay_pusher/vay_3d.F90", "src/particle_pushers/particle_pusher_manager_2d.F90", "src/particle_pushers/boris_pusher/boris_2d.F90"],
    [("Boris push and radiation reaction", BO), ("Vay push", "src/particle_pushers/vay_pusher/vay_3d.F90 pxr_ebcancelpush3d"), ("dispatch", PM + " field_gathering_plus_particle_pusher(_sub, _cacheblock_sub), particle_pusher_sub, pxrpush_particles_part1, pxrpush_particles_part2")],
    state=[("particles", "momentum, inverse gamma, position, fields held and previous fields of each particle", TI)],
    observe=["all the particles before and after each kernel and each push"],
    note="Push.tla: the rotation in exact arithmetic (implicit equation, length, reversal). PushOps.tla states the equations; TLC checks them, in floating point, for every particle of kernel calls and of 3-step runs of the real managers on up to 4 processes. OpenMP off.",
)
DG = "src/diags/diags.F90"
prop(
    "P12",
    "Diagnostics report what the particles and fields are",
    "However the box is split into processes and tiles, every diagnostic equals what the state says. Particle counts and kinetic energies of a species are those of its particles, and the arrays of particle quantities list every particle once in an order common to all quantities. Energies of field components and of the whole field, and the norms of rho, of div E and of their difference, count every node of the grid once, in 3D and in the plane of a 2D run; totals are the same on every process. The divergences of E and B are the differences of the fields at every node. A particle is caught by the moving plane exactly when it goes from behind (or on) it to its front, only those are selected, in order, and interpolated to the crossing. Lorentz transformations to the laboratory frame of fields, currents, charge and of particles (interpolated between two steps) are the exact ones.",
    ["inputs", "configurations", "histories"],
    "all fields and particles, decompositions and tilings, 2D and 3D; all positions of planes and particles over many steps; all frames, fields and currents",
    "No test calls these diagnostics: a node counted twice, a sum that is not started, a stale mark of a particle or a wrong factor of c changes no field and no trajectory.",
    [DG, "src/field_solvers/Maxwell/maxwell_solver_manager.F90"],
    [("particle sums and arrays", DG + " get_loc_kinetic_energy, get_kinetic_energy, getquantity, getquantity_pid, get_tot_number_of_particles_from_species"), ("grid sums", DG + " get_(loc_)field_energy(_2d), get_(loc_)norm_divErho, get_loc_norm_2; compute_em_energy"), ("divergences", DG + " calc_field_div, calc_field_divB"), ("plane", DG + " load_test_plane, select_quantity, interpolate_quantity"), ("frames", DG + " transform_lorentz2d, transform_lorentz3d, lorentz_transform_parts_with_fields, lorentz_transform_parts_without_fields")],
    state=[("grid and particles", "fields at the nodes of every process, particles of every tile", DG), ("plane", "position of plane and particles now and before", DG + " load_test_plane")],
    observe=["results of every diagnostic on every process, with the fields and particles they are computed from"],
    note="Diags.tla: every node of a ring cut anywhere is counted once; catches and returns balance. TraceDiag.tla recomputes every diagnostic in floating point from the logged state. OpenMP off; periodic boxes with consistent shared nodes. The interpolated Lorentz factor is checked as the code documents it (momenta and fields are transformed, the factor itself is not claimed).",
)
SO = "src/ios/simple_io.F90"
prop(
    "P13",
    "Output files hold exactly the fields, particles and diagnostics asked for",
    "After a run the output directory holds, for every step at which an output is due and no other, exactly the files asked for, whatever the decomposition, the tiling and the order in which processes write. A field file has the limits and the number of cells of the grid, then the value of every node of the grid once, from the process that owns it, for stored and derived fields. A particle file has position, momentum and weight of exactly the particles of its species that pass its filter, of all processes and tiles, each once and in an order common to all quantities. A temporal diagnostic has one value per due step, equal to that diagnostic (energies in 2D in the plane, kinetic energy with the mass of the species), for exactly the active ones. Time statistics have one record per due step.",
    ["inputs", "configurations", "histories", "schedules"],
    "all fields and particles; decompositions, tilings and numbers of processes; combinations of outputs, frequencies, first and last step, formats, filters; runs of any length",
    "No test reads an output file of more than one process; files with the data of another tile or process, shifted columns or a missing line look like any other.",
    [SO, DG, "src/parallelization/mpi/mpi_derived_types.F90"],
    [("field files", SO + " output_routines, write_3d_field_array_to_file, write_single_array_to_file"), ("particle files", SO + " write_particles_to_file, get_particles_to_dump, concatenate_particle_variable"), ("temporal diagnostics", DG + " init_temp_diags; " + SO + " output_temporal_diagnostics"), ("time statistics", DG + " init_time_stat_output; " + SO + " output_time_statistics, final_output_time_statistics")],
    state=[("files", "what each file has been given up to now", "RESULTS"), ("grid and particles", "fields at the nodes of every process, particles of every tile", DG)],
    observe=["names and contents of all the files after the run", "fields and particles of every process at each step"],
    note="Output.tla: the writers in all interleavings; every place written once, units kept apart. TraceOut.tla accumulates what every file must hold from the logged states and compares all files after the run. ROMIO instead of Open MPI's own MPI-IO (which now and then writes garbage). Steps below 100000.",
)
CF = "src/initialization/control_file.F90"
prop(
    "P16",
    "A run does what its input file and command line say",
    "After start-up every parameter holds what the last line of the input file or the last command-line argument naming it says, the command line overriding the file, and its documented default if nothing names it: whatever the order of sections and lines, sections given several times, commented or blank lines, lines outside any section, unknown keywords, blanks around keyword, sign and value, and whatever other keyword contains a keyword's name. A keyword acts in its own section only. Each species section makes one species, each antenna section two of opposite charge, each particle dump refers to the species it names; masses, charges and velocities are scaled to electron masses, elementary charges and c. The derived quantities the run starts with (cells, cell sizes, time step, plasma frequency and density, number of steps or final time, tiles, decomposition) follow from these parameters.",
    ["inputs", "configurations"],
    "all input files of the documented form and all argument lists; numbers of processes from 1 to 4; 2D and 3D",
    "The tests use fixed input files and never look at the parameters; a keyword taken for another, a section skipped the second time or a number cut short leaves a run with a default the user did not ask for.",
    [CF, "src/submain.F90", "src/parallelization/mpi/mpi_routines.F90"],
    [("defaults", CF + " default_init"), ("sections and keywords", CF + " read_input_file, read_*_section"), ("command line", CF + " read_from_cl"), ("derived quantities", "src/submain.F90 initall")],
    state=[("parameters", "value of every parameter", "src/modules/modules.F90"), ("species and dumps", "list of species, antennas and particle dumps", CF + " read_species_section, read_antenna_section, read_particle_dumps_section")],
    observe=["parameters after defaults, after reading, and when the run is about to start"],
    note="Deck.tla: all files of up to five lines (thorough: six) and an argument over a few sections: last wins, sections do not spill into each other. TraceDeck.tla reads random files line by line next to the code and compares every parameter. Not covered: file names, malformed lines, default momentum bounds of particle dumps.",
)
prop(
    "P17",
    "The initial plasma and laser antennas are the ones the input file asks for",
    "When a run starts, every species consists of exactly the macroparticles its section asks for, independent of the decomposition and the tiling: with the regular distribution, nppcell particles at equal distances along the diagonal in every cell of the species' box and nowhere else, each on the process that owns the cell; with the random ones as many, within the box. Every particle has the weight that gives the density asked for, a velocity made of the drift and a thermal part of the width asked for (random, bounded), and momentum and 1/gamma that agree with it. Every laser antenna is two species of opposite charge with one particle at rest over every cell of the plane through the spot, inside the grid, once, with coordinates in the frame of wave and polarization vectors and the weight that yields the amplitude asked for. The numbers of particles reported are the numbers loaded.",
    ["inputs", "configurations"],
    "boxes of any size and place, partly or wholly outside the grid; drifts and thermal velocities; three distributions; planes of any orientation; 2D and 3D; 1 to 4 processes, several tiles",
    "No test looks at a loaded particle; a plasma with a plane of cells missing at a process boundary, or spread outside its box, looks like any other.",
    ["src/parallelization/tiling/tiling.F90", CF],
    [("plasma", "src/parallelization/tiling/tiling.F90 load_particles"), ("antennas", "src/parallelization/tiling/tiling.F90 load_laser, load_laser_species"), ("adding a particle", "src/parallelization/tiling/tiling.F90 add_particle_to_species")],
    state=[("particles", "particles of every species and tile of every process", "src/parallelization/tiling/tiling.F90")],
    observe=["all particles and antenna parameters when the run is about to start"],
    note="Load.tla: a line cut anywhere among up to three processes, boxes in thirds of a cell, sloping planes: each cell and column once. TraceLoad.tla continues TraceDeck.tla: from the lines of the input file to the particles. Not covered: limits halfway between nodes, thermal velocities near c, the exact shape of the velocity distribution.",
)
prop(
    "P15",
    "Sorting reorders the particles of a tile by bin and changes nothing else",
    "Whenever sorting is activated, the iteration has reached the start of a species and is a multiple of its (positive) period, the particles of each tile of the species are put in the order of the bins of the sorting grid - nodes at the beginning of the tile plus the shift plus whole steps, x fastest, then y, then z - with particles of one bin in the order they had; each particle keeps everything that belongs to it (position, momentum, 1/gamma, weight, identifier and all other properties). No particle is lost, duplicated or moved to another tile. At every other iteration, and for species that are not to be sorted, nothing changes. This holds for every step and shift of the sorting grid, also for particles that a boundary has put back out of their tile.",
    ["inputs", "configurations", "histories"],
    "steps from a quarter of a cell to four cells, shifts of either sign, periods and starts, 2D and 3D, any tiling and decomposition, 1 to 4 properties per particle, histories of moves and exchanges with reflecting, absorbing and periodic boundaries",
    "No test sorts particles; a property that stays behind, or an order that is not by bin, shows in no energy or field until the wrong particle is followed or the memory beyond a table is hit.",
    ["src/housekeeping/sorting.F90", "src/submain.F90"],
    [("when and in which bins", "src/housekeeping/sorting.F90 particle_sorting_sub"), ("counting sort", "src/housekeeping/sorting.F90 pxr_particle_bin_sorting, pxr_particle_bin_sorting_2d")],
    state=[("tile", "the sequence of particles of a tile with all their properties", "src/housekeeping/sorting.F90")],
    observe=["the particles of every tile in array order, before and after each sort"],
    note="Sorting.tla: counting sort, a particle at a time, of every list of up to 3-4 particles in and around a tile, for shifts of either sign: ends, stays in its tables, gives the stable order with the properties attached. TraceSort.tla: every recorded sort of the library. Steps are powers of two of the cell, so that bin edges are exact.",
)
LB = "src/housekeeping/load_balancing.F90"
prop(
    "P14",
    "Load balancing shares all cells by cost and moves fields and particles intact",
    "Load balancing divides the cells of every axis between the processes along it in contiguous, non-empty, disjoint ranges that together are the whole axis, whatever the cells cost: each process takes cells until the processes up to it have their share of the total cost (mean time per particle times the particles, plus mean time per cell times the cells), as long as each later process is left a cell. After a move to any new split, every process holds at each node of its new box the value the field had at that node, and every particle is, once, on the process whose new box holds it, in the right species, with position, momentum, 1/gamma and all properties unchanged; the particle counters agree with what is held, and every species keeps its name, charge, mass, antenna, sorting and deposition settings. This holds whatever the numbers of processes on the axes and with or without a cartesian communicator, and for one balancing after another.",
    ["inputs", "configurations", "schedules", "histories"],
    "any costs and distributions of particles (also none, all in one place, at one end), any old and new splits including ones far apart, 1 to 6 processes, 2D and 3D, several species and properties, up to three balancings in a row",
    "No test balances anything: the routines are called by a driver that is not in the repository; a cell that nobody owns or a species that forgets that it is a laser shows up only in long parallel runs.",
    [LB, "src/parallelization/tiling/tiling.F90"],
    [("costs", LB + " compute_time_per_part, compute_time_per_cell, get_projected_load_on_x/y/z"), ("split", LB + " compute_new_split, compute_new_split_2D, balance_in_dir"), ("fields", LB + " remap_em_3Dfields, remap_em_2Dfields, get_1Darray_proclimits, pxr_convertindtoproc"), ("particles", LB + " create_new_tile_split, remap_particles, remap_particles_2D, get_proc_interval")],
    state=[("split", "first and last cell of every process on every axis", "src/modules/modules.F90"), ("held", "nodes and particles of every process", LB)],
    observe=["mean times, new splits, moved fields with guards, particles, counters and properties of the species"],
    note="Balance.tla: every cost (0-2 a cell) and old split of four cells over three processes and five over two: the cell-by-cell sharing is the one stated; messages in any order leave every node and particle at its new owner, once. TraceBal.tla: every recorded balancing of the library. One thread (one tile per process after the move).",
)
prop(
    "P18",
    "The number of OpenMP threads and their schedule do not change the result",
    "Compiled with OpenMP, the library computes what it computes with one thread, for any number of threads and any order in which they take the tiles and loop iterations: charge and current densities hold the sum of what all tiles deposit, no contribution is lost or added twice where tiles overlap (also at edges and corners, and where tiles are narrower than their guard regions), every particle gets the fields at its own position and moves once, the exchange between tiles loses and duplicates nothing, and every field node is advanced once.",
    ["schedules", "configurations"],
    "1 to 8 threads, tilings down to tiles as narrow as their guard regions, all deposition, gathering and exchange algorithms, shape orders 1 to 3, 2D and 3D",
    "The tests run with the one thread the sandbox gives them or look at totals with a tolerance; a lost update needs two threads at neighbouring tiles at the same instant.",
    ["src/particle_deposition/current_deposition/current_deposition_manager_3d.F90", "src/particle_deposition/current_deposition/current_deposition_manager_2d.F90", "src/particle_deposition/charge_deposition/charge_deposition_manager.F90", "src/particle_pushers/particle_pusher_manager_2d.F90", "src/particle_pushers/particle_pusher_manager_3d.F90", PB],
    [("adding tiles to the grid", "src/particle_deposition/current_deposition/current_deposition_manager_3d.F90, charge_deposition_manager.F90, phases +/-X, +/-Y, +/-Z"), ("tiles of the pushers", "src/particle_pushers/particle_pusher_manager_2d.F90, particle_pusher_manager_3d.F90"), ("exchange between tiles", PB + " particle_bcs_tiles")],
    state=[("grid", "nodes of the charge and current densities", "src/modules/modules.F90"), ("job", "tile and phase of each thread", "src/particle_deposition/current_deposition/current_deposition_manager_3d.F90")],
    observe=["charge and current densities, fields and all particles after every step, with different numbers of threads"],
    note="Threads.tla: all schedules of 2-3 threads that add 4-9 tiles in three phases, reads and writes apart: no two threads on the same node, the sum at the end; without the lock TLC finds the race. TraceThreads.tla: 5 runs of each of 11 scenarios with 1-8 threads and four schedules log the same; TracePic.tla and TracePart.tla judge half the scenarios of P02, P03, P08 and P10 with 3 threads. The schedules of the real runs are those the machine makes.",
)
Q = "src/multi_physics/QED/src/"
prop(
    "P21",
    "QED containers own their memory: deep copies, clean moves, no leaks",
    "For every sequence of constructions, copies, moves, assignments (also to itself or to a view), resizes, element writes and destructions of picsar_vector and picsar_array objects, each object holds the elements it was given: a copy equals its original and is independent of it, a move or move assignment takes the contents and leaves an empty usable object, a resize keeps the leading elements, a view made from a raw pointer shares the user's storage and never frees or resizes it (resizing throws). Indexing, iterators, data, front and back agree. Every buffer is freed exactly once.",
    ["histories"],
    "all sequences of operations on any number of containers, owners and views, of all sizes including zero",
    "The tests make a few containers and read them back; leaks, shared storage after a copy, a wrong end element or a double free in a later operation do not show.",
    [Q + "picsar_vector.hpp", Q + "picsar_array.hpp"],
    [("ownership", Q + "picsar_vector.hpp constructors, operator=, resize, destructor"), ("element access", Q + "picsar_vector.hpp, picsar_array.hpp")],
    state=[("objects", "buffer, size and ownership of each container", Q + "picsar_vector.hpp v_data, v_size, should_manage_memory")],
    observe=["contents of all the objects and the number of living elements after every operation"],
    note="QedVec.tla: all sequences of a few operations on three objects; random sequences of 60 operations on the real containers (elements that count themselves, address sanitizer) validated by TLC.",
)
prop(
    "P22",
    "Lookup tables interpolate their data everywhere and survive copies and files",
    "A one- or two-dimensional lookup table returns, at every place within its range including both limits and places within rounding of a node, the piecewise (bi)linear interpolation of the data it was given, reproducing the nodes; the equispaced and the general search agree; interpolation along the first coordinate alone uses the column asked for, its equispaced form keeps the end value beyond the ends, and nodes holding minus infinity are respected. No access leaves the table. Copies are independent, views share storage, and a table written to a file (several one after another as well) reads back identical.",
    ["inputs", "histories"],
    "all tables (sizes, coordinates equispaced or not, data), places within the range, precisions, and sequences of copy, move, assignment, view, write and read",
    "The tests query a handful of places of one table; limits, neighbours of nodes, small tables and reuse after copies are not reached.",
    [Q + "lookup_tables.hpp", Q + "utilities.hpp"],
    [("interpolation", Q + "lookup_tables.hpp interp_linear, interp_linear_equispaced, interp_linear_first(_equispaced), data_at_coords"), ("files", Q + "lookup_tables.hpp write_on_stream_bin, read_from_stream_bin")],
    state=[("tables", "coordinates, data and initialisation of each table, with shared storage of views", Q + "lookup_tables.hpp"), ("files", "tables in each file and position read", "the file system")],
    observe=["results of queries and the whole contents of tables"],
    note="QedOps.tla gives the value and the effect of rounding; traces of the real tables in single and double precision, with and without the Boost parts, under address and undefined-behaviour sanitizers, are validated by TLC.",
)
prop(
    "P23",
    "QED numerical utilities return the mathematical result for every valid argument",
    "Linearly and logarithmically spaced vectors have the requested size, exact end points and even spacing, and are empty for invalid arguments; the upper bound is the first greater element of any sorted range; Poisson numbers are the quantile of the distribution for every mean (large ones included) and uniform number; modified Bessel functions, integrals over finite and infinite ranges and bracketed roots are accurate; the random wrapper gives exactly the standard generator's stream for its seed, however it was constructed, copied or assigned; messages go to the given stream unchanged.",
    ["inputs", "histories"],
    "all sizes, limits, means, orders and arguments within the range of the type, single and double precision, seeds and sequences of draws",
    "The tests compare a few values; ends of ranges, sizes not divisible by three, large means and arguments, and copies of generators are not sampled.",
    [Q + "utilities.hpp", Q + "special_functions.hpp", Q + "quadrature.hpp", Q + "rng_wrapper.hpp", Q + "msg.hpp"],
    [("spaced vectors, upper bound, Poisson, roots", Q + "utilities.hpp"), ("Bessel functions", Q + "special_functions.hpp k_v"), ("integrals", Q + "quadrature.hpp"), ("random numbers", Q + "rng_wrapper.hpp")],
    observe=["results of the functions"],
    note="QedOps.tla states each function; exact values come from independent quadratures evaluated by TLC. Accuracies: rounding, 1e-9 (Bessel), 1e-6 (integrals) in double precision.",
)
prop(
    "P24",
    "Quantum parameters chi are right for every momentum and field",
    "For every momentum, electric and magnetic field, chi_photon and chi_lepton return the Lorentz-invariant quantum parameter |F.p|/(m c E_s) of the particle to rounding: zero for a particle at rest or in no field, insensitive to fields along the direction of a photon, vanishing for a particle running with a plane wave and doubled against it, scaling with the wavelength in normalized units and ignoring it in SI units, in single and double precision. The vector operations they use (norm, dot, cross, sum, difference, scaling) are exact to rounding.",
    ["inputs"],
    "all momenta and fields within the range of the type, both unit systems, wavelengths, both precisions",
    "The tests compare about ten fixed cases of fields in general position to per mille.",
    [Q + "chi_functions.hpp", Q + "vec_functions.hpp", Q + "qed_commons.h"],
    [("chi", Q + "chi_functions.hpp chi_photon, chi_lepton"), ("vectors", Q + "vec_functions.hpp"), ("units", Q + "qed_commons.h")],
    observe=["results of the functions"],
    note="The specification computes chi in double precision with bounds for the rounding of the implementation; some 2400 cases in quick, momenta of 0.01 to 1e5 mc, special positions included, validated by TLC.",
)
prop(
    "P25",
    "Optical depths shrink by rate times step; an event comes exactly at zero",
    "For every particle and field, one step of evolve_opt_depth_and_determine_event (Breit-Wheeler photons, quantum synchrotron leptons) leaves the optical depth unchanged, without event, when chi is not above the engine's minimum or the photon is below the pair threshold; otherwise it lowers it by the rate times the step and reports an event if and only if it becomes negative, at the time within the step at which it reached zero. Without a rate table the engine says so (the GPU function returns failure with nothing changed). The initial optical depth is -log(1-u), always non-negative.",
    ["inputs", "histories"],
    "all momenta, fields, steps, optical depths, rate tables, controls, wavelengths, unit systems and precisions",
    "The tests evolve one particle in one field; thresholds, events at the beginning or end of a step, and missing tables are not sampled.",
    [Q + "breit_wheeler_engine.hpp", Q + "quantum_sync_engine.hpp"],
    [("evolution", Q + "breit_wheeler_engine.hpp, quantum_sync_engine.hpp internal_evolve_opt_depth_and_determine_event, evolve_opt_depth_and_determine_event"), ("initial depth", Q + "*_engine.hpp internal_get_optical_depth, get_optical_depth")],
    state=[("depth", "optical depth of the particle", "argument opt_depth")],
    observe=["optical depth, event flag and event time after the step"],
    note="OptDepth.tla: whatever the subdivision of time into steps, the event comes at the same time (exhaustive, small numbers); single steps of the real code with random tables validated by TLC within rounding intervals.",
)
prop(
    "P26",
    "Breit-Wheeler and synchrotron rates and tables agree with the exact QED rates",
    "The rates that the engines compute directly equal the QED rates (integrals over Bessel functions) for every energy, chi and wavelength, and vanish at zero energy or chi. The tables they compute cover exactly the range of the controls with the requested number of points, hold the logarithms of the exact rate and of the exact cumulative probability (pairs, symmetric, ending at one half; photons, as the inverse), and rates interpolated from a table follow it within its range and the documented continuation outside (asymptotic forms for pairs, end values for photons), with the same coefficient and wavelength.",
    ["inputs", "configurations"],
    "all energies, chi from 0.02 to 10000, wavelengths, controls (ranges and sizes of the tables), unit systems and precisions",
    "The tests compare a few rates to reference values to a few per cent and never the contents of a table.",
    [Q + "breit_wheeler_engine.hpp", Q + "quantum_sync_engine.hpp", Q + "qed_commons.h", Q + "special_functions.hpp", Q + "quadrature.hpp"],
    [("exact rates", Q + "*_engine.hpp compute_dN_dt, compute_TT_function, compute_KK_function"), ("tables", Q + "*_engine.hpp compute_dN_dt_lookup_table, compute_cumulative_pair_table, compute_cumulative_phot_em_table"), ("rates from tables", Q + "*_engine.hpp internal_interp_dN_dt")],
    state=[("tables", "rate table and cumulative table of each engine", Q + "*_engine.hpp")],
    observe=["rates, cumulative probabilities and the whole tables (export_innards)"],
    note="The exact rates come from independent quadratures evaluated by TLC (accuracy 1e-6); computed rates and tables must agree to 1e-4 (single precision 1e-2 for pairs, 4e-3 for photons), rates from a given table to rounding.",
)
prop(
    "P27",
    "Breit-Wheeler pairs share the photon's momentum with the tabulated odds",
    "Every electron-positron pair generated from a photon flies along it and its two energies (rest energies included) add up to the photon's. The smaller share is the quantile of the random number in the table of cumulative probabilities at the photon's chi (clamped to the range of the table), interpolated linearly; random numbers from one half on exchange the roles of electron and positron. All values are finite, for random numbers at 0, 1/2 and just below 1 too. Each of the n samples carries 1/n of the weight, and nothing is written beyond the n samples.",
    ["inputs"],
    "all photon momenta above the threshold, fields, weights, numbers of samples, random numbers, tables, controls, unit systems and precisions",
    "The tests check the sign and the sum for a few fixed pairs; exact energy balance, distribution, ends of the table and number of samples are not.",
    [Q + "breit_wheeler_engine.hpp", Q + "lookup_tables.hpp"],
    [("pair generation", Q + "breit_wheeler_engine.hpp internal_generate_breit_wheeler_pairs, generate_breit_wheeler_pairs")],
    state=[("random stream", "numbers drawn by the engine so far", "the random wrapper of the engine")],
    observe=["momenta and weights of all the samples, random numbers drawn"],
    note="BWPairOK inverts the distribution: the share of the pair is put through the table and must give back the random number, within rounding intervals; tables made by hand and by the engine, 64 + 8 traces in quick.",
)
prop(
    "P28",
    "Emitted photons follow the tabulated odds, and the recoil balances",
    "Every photon emitted by a lepton flies along it and its energy is the fraction of the lepton's kinetic energy that the table gives for the random number at the lepton's chi (clamped to the range of the table), interpolated linearly in the probability. The lepton loses exactly the mean momentum of the n sampled photons; each sample carries 1/n of the weight. All values are finite, for random numbers at 0 and just below 1 too, and nothing is written beyond the n samples.",
    ["inputs"],
    "all lepton momenta, fields, weights, numbers of samples, random numbers, tables, controls, unit systems and precisions",
    "The tests check a few fixed emissions to per cent; momentum balance with several samples, distribution and ends of the table are not.",
    [Q + "quantum_sync_engine.hpp", Q + "lookup_tables.hpp"],
    [("photon emission", Q + "quantum_sync_engine.hpp internal_generate_photons_and_update_momentum, generate_photons_and_update_momentum")],
    state=[("random stream", "numbers drawn by the engine so far", "the random wrapper of the engine")],
    observe=["momenta and weights of all the samples, the lepton's momentum after, random numbers drawn"],
    note="QSPhotonOK and RecoilOK, within rounding intervals; tables made by hand and by the engine, 64 + 8 traces in quick.",
)
prop(
    "P29",
    "Schwinger pairs appear at the exact rate of the field invariants in every cell",
    "The Schwinger pair production rate depends on the fields only through their two Lorentz invariants and equals the exact formula, including its limits (no pairs from a magnetic field alone or a plane wave, purely electric fields), in both unit systems, for every wavelength and in both precisions. In a cell and step a single pair appears if and only if the random number is below rate times volume times step; multiple pairs are the Poisson quantile of it; the weight is one over the volume; and positions within a cell are three successive uniform numbers.",
    ["inputs", "histories"],
    "all fields up to the critical field and beyond, cell sizes, steps, wavelengths, random numbers, unit systems and precisions",
    "The existing test only checks the getter of the wavelength and that positions are between 0 and 1.",
    [Q + "schwinger_pair_engine.hpp", Q + "utilities.hpp", Q + "qed_commons.h"],
    [("rate", Q + "schwinger_pair_engine.hpp internal_compute_schwinger_pair_production_rate"), ("pairs in a cell", Q + "schwinger_pair_engine.hpp internal_generate_pairs_single, internal_generate_pairs_multiple, get_new_pair_position"), ("Poisson", Q + "utilities.hpp poisson_distrib")],
    state=[("random stream", "numbers drawn by the engine so far", "the random wrapper of the engine")],
    observe=["rates, numbers of pairs, weights, positions, random numbers drawn"],
    note="SwIv bounds the rate given rounding of the invariants; fields from 1e-17 to 1.5 times the critical one, means up to 1500; engines and GPU functions, validated by TLC.",
)
prop(
    "P30",
    "QED engines are values: copies, moves, views and files carry their whole state",
    "An engine's behaviour is determined by its wavelength, controls, tables and position in its random stream. Construction sets them as given (SI units force the wavelength to one), copies and assignments (to itself too) duplicate all of them and are independent afterwards, moves take them along, an engine made from exported innards sees the same tables and controls, and tables written by one engine and read by another are identical. Two engines in the same state give the same results from then on; every operation draws exactly the random numbers it needs, in order.",
    ["histories"],
    "all sequences of construction, copy, move, assignment, export, table computation, writing, reading, change of wavelength and use, of both engines",
    "The tests use one engine once; a field forgotten in a copy, shared storage or a lost position in the random stream shows only in later use.",
    [Q + "breit_wheeler_engine.hpp", Q + "quantum_sync_engine.hpp", Q + "breit_wheeler_engine_ctrl.h", Q + "quantum_sync_engine_ctrl.h", Q + "lookup_tables.hpp", Q + "rng_wrapper.hpp"],
    [("construction, copy, move, assignment, innards", Q + "*_engine.hpp"), ("files", Q + "*_engine.hpp write_*_table, read_*_table"), ("controls", Q + "*_engine_ctrl.h")],
    state=[("engine", "wavelength, controls, tables, random stream", Q + "*_engine.hpp"), ("files", "tables written", "the file system")],
    observe=["export_innards of the engines, results and random numbers drawn by each use"],
    note="TraceQed.tla keeps the state of every engine and the random stream as a function of seed and draws; random histories of 40 operations (32 traces in quick) validated by TLC.",
)
