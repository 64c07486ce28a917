prop("P03", "A time step of the complex field solves its equation of motion",
     "One propagation step of the complex (saxion) field advances field, velocity and conformal time exactly as the fourth-order Runge-Kutta-Nystrom scheme applied to m'' = lap m - lambda m (|m|^2 - R^2) + (R''/R) m + QCD force, each stage taking scale factor, lambda and axion mass at its own time, with periodic finite-difference Laplacian of the chosen number of neighbours. The QCD force derives from the selected potential; radial or full damping, phase-only and radius-only evolution follow their definitions. Every site is updated once, for any precision, rank count, thread count, slab thickness and field layout.",
     ["inputs", "histories", "configurations"], "all field values, background histories (mass growth, threshold, restoration), potentials, damping modes, stencils, precisions, lattice sizes and rank counts",
     "The test programs run one default potential and look at nothing but completion; a wrong sign, lane, coefficient, slice or stage time gives plausible output.",
     ["include/propagator/propClass.h", "include/propagator/propXeon.h", "include/utils/triSimd.h", "lib/propagator/propagator.cpp"],
     [("stages of a step", "include/propagator/propClass.h (sRunCpu, lowCpu)"), ("kick and drift kernels", "include/propagator/propXeon.h (propagateKernelXeon, updateVXeon, updateMXeon)"), ("integrator coefficients", "lib/propagator/propagator.cpp (initPropagator)")],
     state=[("m, v, ct", "field, velocity and conformal time", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): Evolve.tla computes every step from the recorded state; the recorded field, velocity and time must match it",
     note="every compiled potential x damping/projection mode x precision, stencils of 1-4 neighbours, 1-3 ranks, full and low-memory storage; tolerances 1e-12 (double) and 4e-6 (single) of the largest term")
prop("P04", "A time step of the angle field solves its equation of motion",
     "One propagation step of the angle (axion) field, and of its modulo-2pi variant, advances field, velocity and conformal time exactly as the fourth-order Runge-Kutta-Nystrom scheme applied to v' = lap m + (R''/R) m - m_A^2 R^3 sin(m/R) (or its linear, quadratic-minimum or extended-potential variants), every stage with the scale factor and axion mass of its own time, with periodic finite-difference Laplacian of the chosen number of neighbours; in the modulo variant differences between neighbours are taken on the circle and the field stays within the circle. Every site is updated once, for any precision, rank count, slab thickness and layout.",
     ["inputs", "histories", "configurations"], "all field values, background histories, potentials, stencils, precisions, lattice sizes and rank counts",
     "The tests run the axion with one configuration and inspect nothing; wrong stage times, wrap-around errors or lane errors yield plausible fields.",
     ["include/propagator/propClass.h", "include/propagator/propThetaXeon.h", "lib/propagator/propagator.cpp"],
     [("stages of a step", "include/propagator/propClass.h (tRunCpu)"), ("kernel", "include/propagator/propThetaXeon.h (propThetaKernelXeon)"), ("stage coefficients", "lib/propagator/propagator.cpp (initPropagator)")],
     state=[("m, v, ct", "angle times R, its velocity and conformal time", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): Evolve.tla computes every step from the recorded state; the recorded field, velocity and time must match it",
     note="every axion potential variant x precision x stencil of 1-4 neighbours, 1-3 ranks, several background histories; tolerances 1e-12 (double), 4e-6 (single) of the largest term")
prop("P05", "A time step of the non-relativistic field solves its equation of motion",
     "One propagation step of the non-relativistic axion fields advances field and conformal time as their schemes define: the complex amplitude form (naxion) and the pair form (paxion), with drift from the Laplacian over twice the comoving mass, self-interaction and, where active, the gravitational potential, each stage taking the background of its own time. Every site is updated once, for any precision, rank count, thread count and layout.",
     ["inputs", "histories", "configurations"], "all field values, background histories, stencils, precisions, lattice sizes and rank counts",
     "No test program compares a non-relativistic step with anything.",
     ["include/propagator/propClass.h", "include/propagator/propNaxXeon.h", "include/propagator/propPaxXeon.h", "lib/scalar/scalarField.cpp"],
     [("stages of a step", "include/propagator/propClass.h (nRunCpu, pRunCpu)"), ("kernels", "include/propagator/propNaxXeon.h, include/propagator/propPaxXeon.h")],
     state=[("m, v, ct", "the two components of the amplitude and conformal time", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): Evolve.tla computes every step from the recorded state; the recorded field and time must match it",
     note="both forms x precision x stencil of 1-4 neighbours, 1-3 ranks; tolerances 1e-12 (double), 4e-6 (single) of the largest term")
prop("P07", "Background cosmology, step size and starting time follow the run parameters",
     "For any run parameters the scale factor R(ct), Hubble rate, R''/R, axion mass squared (growing as ct^n up to the threshold, restored or frozen afterwards, with its own index), lambda (fixed or growing with lz2e), the saxion masses and vacuum shift at ct, the time-step limit for each field type, and the dependence of all of these on the field's own time rather than another field's, follow their definitions. Command-line options (msa, lsize, zi or logi, zf, ind3, lz2e, frw, mink, wDz, qcd, llcf...) give the cosmology, lattice spacing, initial time and step they document.",
     ["inputs", "configurations"], "all parameter values, times and command lines",
     "The tests use one parameter set; a wrong exponent, a missed threshold or a mis-parsed option changes numbers nobody asserts.",
     ["include/cosmos/cosmos.h", "lib/scalar/scalarField.cpp", "include/scalar/scalarField.h", "lib/utils/parse.cpp"],
     [("background", "include/cosmos/cosmos.h"), ("step and masses", "lib/scalar/scalarField.cpp (dzSize, AxionMassSq, SaxionShift, ...)"), ("command line", "lib/utils/parse.cpp (parseArgs, createCosmology)")],
     state=[("R, m_A, lambda, ct", "background quantities at conformal time ct", "include/cosmos/cosmos.h")],
     technique="TLA+ (TLC): Background.tla defines every quantity; recorded values at many times and for many command lines are validated against it")
prop("P06", "Results do not depend on how the work is laid out",
     "The same history of operations on the same global field gives the same field, velocity and time (to rounding) whatever the number of ranks the lattice is split over, the number of threads, the storage order the step starts from, the memory-saving variant of the complex field, and whether, when and with what outcome the propagator was tuned. Tuning itself terminates, leaves field, velocity and time as they were, and block sizes read back from an earlier run's cache never change results.",
     ["schedules", "configurations", "histories"], "all decompositions, thread counts, block sizes, cache contents, storage orders, field types, precisions and stencils",
     "The tests never compare two layouts of the same run; a site updated twice or skipped for one block size gives a plausible field.",
     ["include/propagator/propClass.h", "include/utils/tunable.h", "lib/propagator/propagator.cpp", "include/propagator/propNaxXeon.h", "include/propagator/propPaxXeon.h"],
     [("tuning and its cache", "lib/propagator/propagator.cpp (tunePropagator, resetPropagator)"), ("block sizes", "include/utils/tunable.h"), ("overlap of boundary slabs and bulk", "include/propagator/propClass.h")],
     technique="TLA+ (TLC): Twin.tla, a relational specification over the recorded traces of several executions of one history",
     note="lattices up to 40^2 x 24, up to 6 ranks and 8 threads, all field types; arbitrary cached block sizes")
prop("P10", "A saved configuration reads back as the same state",
     "Writing a configuration (numbered or restart) stores the field, its velocity, the time, the cosmology, the potential, the damping and evolution modes, the lattice and the run parameters; reading it, on any number of ranks that divides it, in the same precision or the other, folded or not, gives the same field, velocity, time and parameters, except exactly those the reader's command line overrides. Angle, complex, and pair fields keep their type; reading a complex field as an angle takes its phase. Writing leaves the live state unchanged.",
     ["inputs", "configurations", "histories"], "all field values and types, parameter combinations, override combinations, precisions, rank counts on either side",
     "The tests write configurations but never read one back and compare it with what was written.",
     ["lib/io/readWrite.cpp", "lib/utils/parse.cpp"],
     [("write", "lib/io/readWrite.cpp (writeConf)"), ("read", "lib/io/readWrite.cpp (readConf)"), ("options given on the command line", "lib/utils/parse.cpp")],
     state=[("m, v, ct and cosmology", "live state and stored attributes", "include/scalar/scalarField.h, include/cosmos/cosmos.h")],
     technique="TLA+ (TLC): Checkpoint.tla defines the file's content from the live state and the state read back from the file and the overriding options; traces of writes, dumps of the file and reads are validated against it",
     note="random field types, precisions, lattice shapes, 1-6 ranks on either side, random potentials and overrides; bit equality in equal precision")
prop("P11", "A run that is stopped and continued is the run that was not stopped",
     "Take any history of time steps and interrupt it any number of times: at any step the configuration is written (under its index or as the restart file, possibly overwritten by a later write), the process ends at any later point and loses everything else, and a new process, on any number of ranks and threads, with or without the memory-saving layout, reads the file and goes on. At every step number the field, velocity, time, scale factor and the step the library would choose are those of the run that was never interrupted, bit for bit in equal precision.",
     ["histories", "crash_points", "schedules", "configurations"], "all interruption points, sequences of saves and crashes, rank and thread counts, field types, potentials and step choices",
     "No test continues a run and compares it with an uninterrupted one; a parameter missing from the file gives a plausible continuation.",
     ["lib/io/readWrite.cpp", "lib/scalar/scalarField.cpp", "lib/propagator/propagator.cpp"],
     [("checkpoint", "lib/io/readWrite.cpp (writeConf, readConf)"), ("choice of the step", "lib/scalar/scalarField.cpp (dzSize)")],
     state=[("step number, m, v, ct", "state of the run and of the last files", "lib/io/readWrite.cpp")],
     technique="TLA+ (TLC): Resume.tla, a history specification of saving, losing and loading state, model-checked on its own (ResumeMC) and used to validate traces of interrupted executions",
     note="histories of up to 9 steps with up to 3 interruptions, 1-6 ranks, four field types, every damping and projection mode; bit equality in double (1e-13), 1e-6 in single")
prop("P08", "Changing the representation of the field keeps the physics",
     "Turning the complex field into the angle (plain or modulo 2 pi, seen from the shifted vacuum), an angle into a complex field, an angle into either non-relativistic amplitude, normalising the modulus, imposing string-core profiles and rescaling a buffer give, at every site, the field and velocity their definitions prescribe at the field's own time for any expansion, precision, storage layout, stencil and rank count, and touch nothing else. Removing jumps from an angle field changes it only by whole turns, with the velocity changed by the turns' rate; when the phase winds nowhere the result is continuous across every face, including the periodic ones and those between ranks, a second pass changes nothing, and the number of changes reported is zero exactly when nothing changed.",
     ["inputs", "configurations"], "all field values, phases with and without strings, times and expansions, precisions, lattice shapes and rank counts",
     "The test programs convert a field in passing and never look at the result; a wrong branch, lane or Hubble factor is invisible.",
     ["lib/scalar/thetaXeon.cpp", "lib/scalar/mendThetaXeon.cpp", "lib/scalar/theta2CmplxXeon.cpp", "lib/scalar/theta2NaxionXeon.cpp", "lib/scalar/theta2PaxionXeon.cpp", "lib/scalar/scaleXeon.cpp", "lib/scalar/normXeon.cpp", "lib/scalar/normCoreXeon.cpp"],
     [("complex to angle", "lib/scalar/thetaXeon.cpp (toThetaKernelXeon)"), ("unwrapping", "lib/scalar/mendThetaXeon.cpp"), ("other conversions", "lib/scalar/theta2*Xeon.cpp, lib/scalar/normCoreXeon.cpp, lib/scalar/scaleXeon.cpp")],
     state=[("m, v, m2", "field, velocity and auxiliary buffer", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): Convert.tla defines each operation on the whole lattice and when a phase can be unwrapped; recorded buffers after each call are validated against it",
     note="smooth, string-bearing and random phases, shifts, expansions frw 0-1.5, both precisions, stencils 1-3, 1-3 ranks, low-memory storage; the velocity ghosts of the pair form allow one neighbour only")
prop("P14", "Strings and walls are found where the phase winds and where it passes pi, and nowhere else",
     "For a complex field, every plaquette (of all three orientations, across every periodic face and every boundary between ranks) is marked as pierced by a string exactly when the phase, taken the shorter way along each link, winds once around it, with the sign of the winding; a site is marked as wall exactly when the phase passes through pi along one of its three forward links. The counts of strings, net chirality and walls, globally and per rank, are those of the map; the coordinates list every pierced plaquette once, at its centre in half-lattice units; strings have no ends and none leaves the box. The string length joins the points where the field vanishes on the faces of each cell, and the string velocity and Lorentz factor are those of the field around the pierced plaquettes; none depends on the number of ranks or threads, precision, storage layout or number of ghost slices. Searching leaves the field as it is, and an angle field has no strings.",
     ["inputs", "configurations", "schedules"], "all field values in general position, lattice shapes, layouts, precisions, ghost widths, rank and thread counts",
     "The test programs print a string count for one random field; a wrong sign, a missed boundary plaquette or a shifted map gives another plausible number.",
     ["lib/strings/strings.cpp", "lib/strings/stringXeon.cpp", "lib/strings/length.cpp"],
     [("plaquettes and walls", "lib/strings/stringXeon.cpp (stringKernelXeon, stringHand, stringWall)"), ("coordinates and totals", "lib/strings/strings.cpp"), ("length and velocity", "lib/strings/length.cpp (stringlength)")],
     state=[("defect map", "one byte per site", "lib/strings/stringXeon.cpp")],
     technique="TLA+ (TLC): Strings.tla defines winding, walls, positions, length and motion from the phases; closure is model-checked for every assignment of phases on a small torus, and recorded maps, counts, coordinates and lengths are validated against the definition",
     note="random, smooth, straight-string and winding-free phases, both precisions, stencils 1-2, 1-4 ranks, 1-3 threads, low-memory storage; phases within 1e-5 of an undecided link are excluded")
prop("P15", "Energies are those of the field",
     "The gradient energy along each axis, the kinetic and the potential energy of the radial and of the angular part of a complex field, the mean modulus, the energies of an angle field (differences taken modulo 2 pi in the wrapped variant) and the number density, gradient and self-interaction energy of a non-relativistic field are the physical densities of the stored configuration at its time: one-sided differences averaged over both sides with periodic neighbours across ranks, velocities with the expansion removed, and the potential that drives the evolution. A masked request gives the averages over the marked sites and their number; a map holds the energy density of every site in plain order (zero outside the mask for a masked map). Results are the same on every rank, and for any precision, layout, ghost width, rank and thread count; asking for totals only leaves the auxiliary field as it was, and no request changes the field.",
     ["inputs", "configurations", "schedules"], "all field values, masks, potentials, expansions and times, lattice shapes, precisions, ghost widths, rank and thread counts",
     "No stable test looks at an energy; a lost factor, a wrong neighbour at a rank boundary or a sum left out of the reduction gives a plausible number.",
     ["lib/energy/energy.cpp", "lib/energy/energyXeon.cpp", "lib/energy/energyThetaXeon.cpp", "lib/energy/energyPaxionXeon.cpp"],
     [("complex field", "lib/energy/energyXeon.cpp (energyKernelXeon)"), ("angle field", "lib/energy/energyThetaXeon.cpp"), ("non-relativistic field", "lib/energy/energyPaxionXeon.cpp"), ("reduction", "lib/energy/energy.cpp (energy)")],
     state=[("energies", "eRes, per component and per site in m2", "lib/energy/energyXeon.cpp")],
     technique="TLA+ (TLC): Energy.tla defines each density on the whole lattice; EnergyMC shows that its potentials are those whose forces Evolve.tla applies; recorded totals and maps are validated against it",
     note="three radial and five axion potentials, masks, shifts, low memory, both precisions, stencils 1-3, 1-3 ranks; the energies of a relativistic Naxion field are not implemented in the code and those of the linear potential fall back to the cosine, both not claimed")
prop("P16", "Spectra share out the energy of the field over shells of wave number",
     "Every Fourier mode of a cubic box belongs to exactly one shell, whatever the number of shells, and a spectrum is the sum over the modes of each shell, normalised so that the shells add up to the volume times half the mean square of what is analysed. For a complex field that is R times the velocity, gradient, value and half-angle sine of the axion phase about the displaced vacuum, or the velocity and displacement of the radial mode, unweighted, weighted by a power of the modulus, or without the masked sites; for an angle field the field and its velocity; for an energy map the map. Gradient and mass terms carry k^2 or the mass at the current time. Smoothing multiplies every mode by the Gaussian, ball or sharp filter of the requested length. Mode counts and mean wave numbers are those of the lattice. All are the same on every rank and for any precision, layout, ghost width, rank and thread count, and leave field and velocity alone.",
     ["inputs", "configurations", "schedules"], "all field values, masks, numbers of shells, filters and lengths, box sizes, precisions, ghost widths, rank and thread counts",
     "No test compares a spectrum with anything; a transposed index, a lost conjugate mode or a wrong shell gives a smooth plausible curve.",
     ["lib/spectrum/spectrum.cpp", "include/spectrum/spectrum.h", "lib/utils/kgvops.cpp", "lib/fft/fftCode.cpp"],
     [("shells and normalisation", "lib/spectrum/spectrum.cpp (fillBins)"), ("what is transformed", "lib/utils/kgvops.cpp (buildc_k, buildc_gx, buildc_gyz, buildc_v), lib/spectrum/spectrum.cpp (nRun, nSRun, pRun)"), ("smoothing", "lib/spectrum/spectrum.cpp (smoothFourier)")],
     state=[("shells", "binK, binG, binV, binVnl, binP, binNN, binAK", "include/spectrum/spectrum.h")],
     technique="TLA+ (TLC): Spectra.tla defines modes, shells, weights and filters with an exact transform; Parseval, translation invariance and plane waves are model-checked, recorded spectra and smoothed maps are validated against it",
     note="cubic boxes (wave numbers along z are counted in the same unit as along x); the tabulated correction next to string cores (fields with a zero within a lattice step) and the masks GAUS, DIFF, BALL, SAXI, AXIT are outside")
prop("P20", "A field in Fourier space is the same field, and spectral steps use its exact Laplacian",
     "Taking the field, the velocity or both to Fourier space and back, in any order and any number of times, from any memory layout, never changes what they are: the modes are the discrete Fourier transform divided by the number of sites, repeating a transform does nothing, and whoever reads the lattice (strings, files) first brings it back to position space. The spectral integrator makes the same kick and drift steps as the stencil one with minus the squared wave number as Laplacian, for every potential and damping mode, in any expansion law; the integrator that stays in Fourier space kicks with the potential and then moves every mode as the free wave it is, the homogeneous mode included.",
     ["inputs", "histories", "schedules"], "all field values, sequences of transforms, steps, analyses and files, precisions, rank and thread counts",
     "Tests never run these integrators and sample no sequence of transforms; an error in the tail of the modes, one missing term or a layout flag shows up as slightly different physics.",
     ["lib/scalar/fourier.cpp", "lib/scalar/scaleXeon.cpp", "lib/propagator/laplacian.cpp", "include/propagator/propClass.h", "include/propagator/sPropXeon.h", "include/propagator/sPropThetaXeon.h", "include/propagator/fsPropThetaXeon.h"],
     [("there and back", "lib/scalar/fourier.cpp (ftField, iftField)"), ("spectral steps", "include/propagator/propClass.h (sSpecCpu, tSpecCpu), lib/propagator/laplacian.cpp"), ("steps in Fourier space", "include/propagator/propClass.h (tFpecCpu), include/propagator/fsPropThetaXeon.h")],
     state=[("where field and velocity lie", "mmomspace, vmomspace", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): Momentum.tla extends Evolve with where each field lies and with the exact Laplacian; losslessness, Parseval, plane waves and the free wave are model-checked, recorded sequences of transforms, steps and files are validated against it",
     note="spectral steps with one ghost slice (the command line refuses others); steps in Fourier space for the angle field in single precision, the only one implemented for it")
prop("P13", "A measurement answers everything it was asked, under the right name and time, and changes nothing",
     "For any combination of analyses, maps, masks and indices, one measurement of a field leaves one file, named after its index, whose header is the state it was taken of (time, scale factor, masses, potential, lattice, run parameters), and whose datasets are exactly those asked for, each holding what the stored configuration gives: slices, maps, projections, energies, histograms, string numbers, maps and coordinates, spectra and mode counts. No analysis depends on which others were asked for or on what an earlier measurement left behind, the number of ranks and the layout of the field do not show, and field, velocity and time are afterwards what they were.",
     ["inputs", "histories", "schedules"], "all sets of analyses and maps, indices, sequences of measurements, fields, layouts, precisions, ghost widths, rank and thread counts",
     "The combinations are exponentially many and the analyses share one auxiliary field; tests run two of them and look at none of the files.",
     ["lib/meas/measa.cpp", "lib/io/readWrite.pHdf5.cpp"],
     [("order of the analyses", "lib/meas/measa.cpp (Measureme)"), ("file header", "lib/io/readWrite.pHdf5.cpp (createMeas)"), ("datasets", "lib/io/readWrite.pHdf5.cpp (writeArray, writeEDens, writeString, writeEnergy)")],
     state=[("auxiliary field", "m2Status and what each analysis needs and leaves", "lib/meas/measa.cpp")],
     technique="TLA+ (TLC): Measure.tla gives the plan of a measurement as steps with what they need, leave and write; every request of a large family is model-checked (never stuck, nothing twice, everything there), recorded measurements are validated number by number against it and the field, energy, string and spectrum specifications",
     note="complex and angle fields, flat mask; 16 random sequences of measurements quick, 96 thorough; a reduced map after the multi-scale contrast is excluded (the code reduces the smoothed field)")
prop("P17", "Histograms count every site once",
     "The histograms of the angle, of the modulus, of the logarithm of the squared angle and of the energy contrast of a measurement count every site of the whole lattice exactly once, in 3000 equal bins centred so that the smallest and the largest value fall in the first and last, and are normalised to unit area; the stored extremes are those of the field. They do not depend on layout, ghost width, rank or thread count.",
     ["inputs", "schedules"], "all fields, precisions, ghost widths, rank and thread counts",
     "A shifted pointer, a lost site or a double-counted rank keeps the area at one and the curve smooth.",
     ["lib/meas/measa.cpp", "include/utils/binner.h", "lib/io/readWrite.pHdf5.cpp"],
     [("counting", "include/utils/binner.h (find, run)"), ("what is counted", "lib/meas/measa.cpp (Measureme)"), ("storage", "include/io/readWrite.h (writeBinner)")],
     technique="TLA+ (TLC): MeasureTrace.tla defines extremes, bins and cumulative counts from the loaded field; recorded histograms are validated with an interval for values on a bin edge",
     note="complex, angle and non-relativistic complex fields; single and double precision, stencils 1-2, 1-4 ranks")
prop("P18", "Slices, maps and projections show the field at the place they name",
     "An xy slice is the field and velocity at the requested z, a yz slice at the requested x, the energy slice the energy density at the requested z, the energy map the density at every site in plain order, a projection the mean along z of the density or its square; every value of the picture is there once and in place, whichever rank owns it, also with several pictures in one file, several files and a folded field.",
     ["inputs", "schedules"], "all fields, slice positions, sets of pictures, lattice shapes, layouts, precisions, ghost widths, rank and thread counts",
     "Pictures of random fields look right with any permutation of their rows; no test reads one back.",
     ["lib/io/readWrite.pHdf5.cpp", "lib/projector/projector.cpp", "lib/scalar/folder.cpp"],
     [("slices", "lib/io/readWrite.pHdf5.cpp (writeMapHdf5s, writeMapHdf5s2, writeEMapHdf5s)"), ("projection", "lib/projector/projector.cpp"), ("energy map", "lib/io/readWrite.pHdf5.cpp (writeEDens)")],
     technique="TLA+ (TLC): MeasureTrace.tla defines every picture from the loaded field by site; recorded files are validated against it",
     note="complex and angle fields (slices also for the non-relativistic complex field), slices over the whole range across 1-4 ranks; the per-rank depth at most ghost width times length (the picture is assembled in the ghost slices)")
prop("P19", "A coarser lattice is the smoothed field, a finer one its interpolation",
     "Reducing field and velocity, or an energy map, multiplies every Fourier mode by the requested filter, telling the axes apart, and reads the result off at the points of the new lattice by linear interpolation, whatever the factor; out of place the source is left alone and the result is the new field, in place the field has the new size and goes on as such. A configuration file read with other sizes than its own is that field made coarser, with the smoothing that goes with the new spacing, or finer, by linear interpolation between periodic neighbours, for any factors along and across the ranks; it can then be evolved, written and read as any other. The reduced energy map of a measurement is the smoothed energy density. Layout, precision, ghost width, rank and thread counts do not show.",
     ["inputs", "configurations", "schedules"], "all fields, filters, old and new sizes, layouts, precisions, ghost widths, rank and thread counts",
     "Nothing in the tests changes a lattice's size; a swapped axis or a factor that is only right for cubes and whole ratios gives a smooth plausible field.",
     ["lib/reducer/reducer.cpp", "include/utils/simpleops.h", "lib/io/readWrite.pHdf5.cpp", "lib/fft/fftCode.cpp", "lib/meas/measa.cpp"],
     [("coarser", "lib/reducer/reducer.cpp (transformField, runCpu)"), ("finer", "include/utils/simpleops.h (expandField)"), ("on reading", "lib/io/readWrite.pHdf5.cpp (readConf)"), ("energy map", "lib/meas/measa.cpp (MEAS_REDENE3DMAP)")],
     state=[("size of the lattice", "n1, n2, n3, Lz (setDims), eReduced, rLx, rLz", "include/scalar/scalarField.h")],
     technique="TLA+ (TLC): Reduce.tla defines filtering and resampling with an exact transform; fixed points, bounds, mean, there-and-back and equivariance are model-checked; recorded reductions, files read at another size and the steps after them are validated against it and Evolve.tla",
     note="complex and angle fields, 1-4 ranks, factors from 1 to 3, also fractional and unequal; both sizes have to shrink or grow together (others the code leaves unread); not in low memory, which the library refuses")
prop("P21", "A run starts from the field its initial conditions describe",
     "Every kind of initial condition gives the field its parameters say, the same in both precisions, whatever the box's shape, the number of ranks or threads: the deterministic shapes (waves, minicluster, axiton, string loops, straight strings with a wave) site by site; smoothing as repeated averaging over the six neighbours; random kinds on or around the vacuum circle as asked, independent across ranks; momentum-space kinds with the requested envelope, cut and zero mode, their velocity fitting their field; a tabulated spectrum mode by mode. The conformal velocity is that of the same field in the expanding lattice (with the requested kick), and the field comes out unfolded with ghosts valid. A configuration asked for with pre-evolution is made at the earlier time, relaxed by the ordinary evolution under the potential, damping and coupling law asked for, and handed over at exactly the starting time with every parameter of the run restored.",
     ["inputs", "configurations", "schedules"], "all kinds and parameters of initial conditions, lattice shapes, expansion laws, precisions, rank and thread counts",
     "Initial conditions are random or unverified pictures in the tests; a wrong amplitude, a slab repeated on every rank or a velocity off by a factor leaves a run that looks healthy.",
     ["lib/gen/genConf.cpp", "lib/gen/randXeon.cpp", "lib/gen/momConf.cpp", "lib/gen/smoothXeon.cpp", "lib/gen/prepropa.cpp"],
     [("shapes and noise", "lib/gen/randXeon.cpp (randXeon)"), ("modes", "lib/gen/momConf.cpp (momXeon)"), ("smoothing", "lib/gen/smoothXeon.cpp (iteraXeon)"), ("pre-evolution", "lib/gen/prepropa.cpp (prepropa2)"), ("assembly", "lib/gen/genConf.cpp (confsmooth, conflola, confcole, confspax, conftkac, runCpu)")],
     technique="TLA+ (TLC): Initial.tla defines shapes, smoothing, envelopes and the conformal field and velocity; smoothing is model-checked on all small fields, the shapes on their strings; recorded configurations are validated site by site where nothing is random and by their invariants (with six-standard-deviation bounds) where it is; Pre.tla is the pre-evolution as a state machine, model-checked to its end, its steps those of Evolve.tla",
     note="complex fields (angle field for the tabulated spectrum), 1-4 ranks; thermal and coordinate-file (string) configurations are not covered, nor the zero mode of the tkachev kind")
prop("P22", "The gravitational potential solves Poisson's equation, and a field under gravity follows it",
     "For a non-relativistic field and for an angle field on a cubic box, the computed potential is the solution with zero mean of lap phi = density minus its mean, where the density is the squared amplitude (non-relativistic) or the energy divided by its mean (angle), with the box's periodicity and physical size, whatever the number of ranks, the precision, the number of ghost slices and whether the field is stored folded; computing it leaves field and time as they were. Turning gravity on scales a non-relativistic field to mean density one over the whole box, and its self-coupling with it. A step under gravity turns each site's phase by minus mass times potential times the gravitational coupling, for half a step before and, with the potential of the drifted density, half a step after the drift.",
     ["inputs", "configurations", "schedules"], "all densities, box sizes, rank counts, precisions, memory layouts, and sequences of steps",
     "The gravity code is exercised by no test with a checked result; a mode divided by the wrong wave number, a stale potential or a rank-local mean makes structure grow at the wrong rate without any error.",
     ["include/gravity/potentialClass.h", "include/gravity/gravityPaxionXeon.h", "lib/gravity/potential.cpp", "include/propagator/propClass.h", "include/propagator/propPaxXeon.h"],
     [("Poisson solver", "include/gravity/potentialClass.h (GraCpu)"), ("normalisation", "include/gravity/potentialClass.h (normaliseFields)"), ("steps under gravity", "include/propagator/propClass.h (pRunCpu), include/propagator/propPaxXeon.h (KIDI_POT_GRAV)")],
     technique="TLA+ (TLC): Gravity.tla defines the potential mode by mode; GravityMC checks that it solves the equation, moves with its sources, is linear, attracts and exerts no net self-force; recorded potentials, normalisations and steps under gravity (Evolve.tla with its gravitational phase) are validated site by site on 1-4 ranks, folded and unfolded",
     note="Fourier solver on cubic boxes; the experimental hybrid (multigrid) solver is an approximation and is outside")
prop("P23", "The WKB continuation carries every mode of the axion field to the later time",
     "Continuing an angle field (radiation expansion, massive axion) to a later time gives each Fourier mode the adiabatic solution of its equation of motion: amplitude scaled by the square root of the ratio of its frequencies, phase advanced by the integral of its frequency over the interval (exactly for whole mode numbers, to a tenth of a radian between the tabulated ones), field and velocity related by the frequency and its rate of change at either end; also when the axion mass stops growing before, after or within the interval, for any power law of the mass, from a folded or unfolded field, for any number of ranks and either precision, and one continuation after another. Afterwards the field is unfolded, at the requested time, and can be stepped on.",
     ["inputs", "configurations", "schedules"], "all fields, mass laws, times, box sizes, rank counts, precisions, and sequences of continuations and steps",
     "The test suite only runs the continuation to completion; wrong phases leave a field that looks equally random but whose oscillation, energy partition and axion spectrum belong to another time.",
     ["lib/WKB/WKB.cpp", "include/WKB/WKB.h", "include/WKB/spline.h"],
     [("phase of a mode", "lib/WKB/WKB.cpp (calculatePhiexact, buildlookuptable)"), ("continuation", "lib/WKB/WKB.cpp (doWKBinplace)")],
     technique="TLA+ (TLC): WKB.tla defines the continuation of a mode with the phase integrated numerically; WKBMC checks that it composes over time, keeps the Wronskian, is the free wave without mass and follows the equation of motion; recorded continuations are validated mode by mode on 1-4 ranks",
     note="the in-place continuation the programs use; radiation expansion, no restoration of the mass growth, non-zero mass")
prop("P24", "A simulation does what its command line says and leaves the record of it",
     "A run of the program starts at the time asked for (also when given as a logarithm), with the couplings, expansion law and potential that the options mean, goes forward in steps of the requested number or fraction of the fastest oscillation, and ends at the final time; it measures every so many steps or exactly at the listed times (each once, those before the start dropped), goes over to the angle after the requested number of string-less steps with a measurement on either side, and may continue in the WKB approximation; measurements are numbered in order and carry their time, scale factor, field type, step and couplings; the requested configurations are saved and hold the field the equations of motion give; every step has its line in the record. Interrupted by its time limit and restarted, once or more, it goes on as if it had not been.",
     ["inputs", "configurations", "histories", "crash points"], "all command lines within the supported options, measurement lists, interruptions, rank and thread counts",
     "The tests run programs to completion and look at the exit code; a measurement skipped, a wrong step size or a restart with another clock leaves a complete-looking set of files.",
     ["lib/utils/parse.cpp", "include/cosmos/cosmos.h", "lib/utils/utils.cpp", "include/scalar/scalarField.h", "lib/io/readWrite.pHdf5.cpp", "lib/meas/measa.cpp", "test/vaxions.cpp"],
     [("options", "lib/utils/parse.cpp (parseArgs)"), ("step size", "include/scalar/scalarField.h (dzSize)"), ("interruption", "lib/io/readWrite.pHdf5.cpp (writeConf, readConf)"), ("measurement", "lib/meas/measa.cpp (Measureme)"), ("main loop", "test/vaxions.cpp (main)")],
     state=[("clock, file number, list position, strings seen", "zV, index, i_meas, strcount/Nstrings", "test/vaxions.cpp, include/scalar/scalarField.h")],
     technique="TLA+ (TLC): Run.tla is the life of a simulation as a state machine (steps, measurements, lists, the change of field, interruption and restart); RunMC checks it over all small schedules with interruptions after any step; whole runs of the real program, interrupted and restarted, are validated against it file by file and line by line, the final field by stepping Evolve.tla from the first",
     note="vaxion3d on the CPU, 1-4 ranks, lattices up to 16^3, complex-field runs and runs that go over to the angle; the program itself lies with the tests and is not changed here, so three defects in it are known findings")
