prop("B01", "Particle distributions and bunches have exactly the requested content",
     "A generated distribution has the requested numbers of points and dimensions, uniform in [-1,1) or Gaussian of the requested width in each coordinate independently of all others. "
     "Scaling, adding correlations, setting single coordinates, taking subsets and moving the data through buffers change exactly the named coordinates and nothing else; illegal indices are without effect and buffers of wrong size are refused. "
     "A bunch created from a distribution has one particle per point with exactly its displacements added to the reference time, position and momentum, the requested charge per particle, and correlations added later keep the mean and act on the named coordinate only.",
     ["inputs", "histories"], "all sizes, dimensions, parameters and sequences of distribution operations",
     "No test inspects a generated distribution beyond creating one and tracking it.",
     ["src/bunch.cpp", "src/bunch.h"],
     [("distribution generators and operations", "src/bunch.cpp Distribution"), ("bunch from distribution", "src/bunch.cpp Bunch(Distribution*,...), addCorrelation")],
     ["coordinates of distribution and particles"],
     technique="stateful model-based property testing; distribution shape tested with Kolmogorov-Smirnov and correlation statistics beyond 7 sigma",
     note="Statistical limits are chosen such that a false alarm has a probability below 1e-12 per run.")

prop("B02", "Bunch and beam diagnostics are the moments of the particles",
     "Mean position and momentum, their spreads, mean energy, energy (momentum) spread, emittances, bunching factors, total charge and particle number reported for a bunch or beam are those of the current coordinates of its particles, for every particle number, charge and position in space. "
     "They are invariant under reordering the particles, spreads also under translation; fields, recorded traces, particle probes and state buffers of a beam are the sums and lists over all particles of all its bunches.",
     ["inputs"], "all ensembles of particles (sizes, charges, coordinates far off the origin), including empty bunches",
     "Tests only compare one or two moments of one bunch near the origin.",
     ["src/bunch.cpp", "src/beam.cpp"],
     [("ensemble averages", "src/bunch.cpp averages and spreads; src/beam.cpp"), ("superposition", "src/bunch.cpp, src/beam.cpp Field/integrateFieldTrace/bufferProbe")],
     ["diagnostic functions of bunch and beam", "fields and buffers"],
     technique="property-based testing against long-double moment computation and sums over the particles",
     note="Tolerances follow the conditioning of the moments.")

prop("B03", "Particle files carry the beam without loss",
     "SDDS particle files with the documented columns are imported with every particle's time, position, momentum and charge according to the file, whatever the file name, storage mode, column order and particle number, and wherever the reference position and propagation axis are. "
     "Watch files written as SDDS or HDF5 contain exactly the current coordinates and charge of all particles of the beam in documented units. Missing, inconsistent or truncated files are reported as errors, never as data, and no file stays open.",
     ["inputs", "faults"], "all ensembles, file names and defective files",
     "Tests write and read no particle files.",
     ["src/bunch.cpp", "src/beam.cpp"],
     [("SDDS import and export", "src/bunch.cpp Bunch(filename), WriteWatchPointSDDS; src/beam.cpp WriteWatchPointSDDS"), ("HDF5 export", "src/beam.cpp WriteWatchPointHDF5")],
     ["files on disk", "imported particles"],
     technique="property-based testing of import and export against independently written/read files, plus injected file defects, under ASan/UBSan",
     note="Files are written and read back with the file libraries, not with the code under test.")

prop("O01", "Loggers record the sampled history of the particles",
     "For every number of steps, step spacing and ensemble, a parameter or trajectory logger asks for exactly the steps of its spacing and then holds one record per update with the diagnostics of the bunch (or the coordinates of the chosen particles) at that time. "
     "The file written has exactly these records, in order, with documented column names and units, and is completely closed when writing returns; logging never changes the tracked particles.",
     ["inputs", "histories"], "all ensembles, logger settings and sequences of tracking steps and updates",
     "Tests log one run and do not look into the file.",
     ["src/logger.cpp", "src/logger.h"],
     [("parameter log", "src/logger.cpp ParameterLogger"), ("trajectory log", "src/logger.cpp TrajectoryLogger")],
     ["SDDS/HDF5 log file"],
     technique="property-based testing of whole logging histories against a recomputed record list, independent file readers, ASan/UBSan",
     note="Includes a check of open file descriptors.")

prop("O02", "Point observers hold and write the field at their position",
     "A point observer of a beam, bunch or lattice holds, sample by sample on its time grid, the sum of the fields of all its sources at its position, for any number of observation points and any order of integration. "
     "The buffer used for exchange between processes has the stated size and carries the trace losslessly, a buffer of other size is refused, and the file written contains exactly the grid and the field.",
     ["inputs"], "all sources, positions, time grids and buffer operations",
     "One test observes one particle at one position.",
     ["src/point_observer.cpp", "src/observer.h"],
     [("point observer", "src/point_observer.cpp PointObserver")],
     ["observer buffers", "SDDS file"],
     technique="property-based testing against sums over the sources and file round trip, ASan/UBSan",
     note="Source fields themselves are decided by R01/R02/L01.")

prop("O03", "Screens hold and write the field traces of every cell",
     "A screen of any size, orientation and time window holds for each cell at its documented position the field trace that a point observer there would see, for every source type and number of threads. "
     "Exchange buffers keep every cell and sample in place; refused accesses change nothing; the HDF5 file contains geometry, time window, positions and fields of this screen in the documented layout and is closed when writing returns.",
     ["inputs", "schedules"], "all screens, sources, thread counts and buffer operations",
     "One test integrates one small screen, compares few numbers and never reads the file.",
     ["src/screen.cpp", "src/observer.h"],
     [("screen observer", "src/screen.cpp ScreenObserver")],
     ["observer buffers", "HDF5 file"],
     technique="property-based testing: per-cell comparison with source sums, thread-count variation, file round trip, ASan/UBSan",
     note="Thread interleavings are sampled by varying the thread count.")

prop("O04", "Snapshots hold and write field and particles of one instant",
     "A snapshot of any size, orientation and instant holds for each cell the field of its source at exactly this instant, for every source type and number of threads, and the particle coordinates at that instant interpolated between the stored steps. "
     "Buffers, refused accesses and the written file obey the same rules as for screens.",
     ["inputs", "schedules"], "all snapshots, sources, instants and thread counts",
     "One test fills one snapshot; the file and particle coordinates are not inspected.",
     ["src/snapshot.cpp", "src/observer.h", "src/particle.cpp"],
     [("snapshot observer", "src/snapshot.cpp SnapshotObserver"), ("coordinates at a time", "src/particle.cpp CoordinatesAtTime")],
     ["observer buffers", "HDF5 file"],
     technique="property-based testing: per-cell comparison with source sums, thread-count variation, file round trip, ASan/UBSan",
     note="Instants outside the tracked time give zero coordinates as the code does.")

prop("O05", "Meshed screens are consistent in geometry, fields, energy and files",
     "A meshed screen read from a file reports for every cell the area, the normal and a right-handed orthonormal local system of its triangle, and a neighbourhood of exactly the cells sharing a corner with it; the report does not depend on orientation or position in space. "
     "Its traces are those of point observers at the cell positions, for every source type and number of threads, energies are the sums over the cells, and writing and re-reading the file reproduces everything; files that are incomplete or inconsistent (sizes not those of the data, unknown corners) are refused. Exchange buffers and illegal accesses obey the same rules as for other observers.",
     ["inputs", "schedules"], "all triangulations, orientations, sources, thread counts and buffer operations",
     "One test reads one mesh file and compares one number.",
     ["src/mesh.cpp", "src/mesh.h"],
     [("meshed screen", "src/mesh.cpp MeshedScreen")],
     ["cell geometry", "buffers", "HDF5 file"],
     technique="property-based testing on generated triangulations against an independent geometry model, source sums and file round trip, ASan/UBSan",
     note="Files with attribute sizes contradicting the data are not generated.")

prop("S01", "A recorded screen used as source radiates its recorded field",
     "An external field defined by a recorded screen yields at every point behind the screen and time the surface (Kirchhoff) integral over the recorded traces and their normal derivatives, whatever the position, orientation, cell size and time window of the screen and however its definition in space is rotated or shifted: a recorded pulse re-emerges as this pulse, in position, timing, direction, amplitude and polarisation. "
     "Files that are missing, incomplete or inconsistent (sizes not those of the data) are refused.",
     ["inputs", "faults"], "all recorded screens, placements, observation points and defective files",
     "One test uses one recorded wave seen from one direction with a wide tolerance.",
     ["src/source_screen.cpp", "src/source_screen.h"],
     [("screen source", "src/source_screen.cpp SourceScreen")],
     ["field at observation points", "error reports"],
     technique="property-based testing against an independently computed Kirchhoff integral and analytic Gaussian pulses, injected file defects, ASan/UBSan",
     note="The analytic pulse comparison has the accuracy of the discretisation; the sum comparison is exact.")

prop("S02", "Screen-to-screen propagation and reflection transport the field",
     "The programs propagate and reflection write a target file that keeps geometry and times of the target screen and holds in each cell the surface integral over the recorded (respectively perfectly reflected) fields and their derivatives, for every mesh, orientation, time grid and number of threads: a pulse arrives behind (in front of) the screen with correct timing, amplitude, sign and polarisation. "
     "Input files are never modified, and missing arguments or files end the program with an error status.",
     ["inputs", "schedules"], "all source and target meshes, recorded fields, time grids and thread counts",
     "No test runs these programs.",
     ["src/propagate.cpp", "src/reflection.cpp", "src/mesh.cpp", "src/fieldtrace.cpp"],
     [("propagation", "src/propagate.cpp"), ("reflection", "src/reflection.cpp"), ("neighbourhood, traces", "src/mesh.cpp, src/fieldtrace.cpp")],
     ["output file", "exit status"],
     technique="property-based testing of the command-line programs against an independently computed Kirchhoff integral and analytic pulses",
     note="Contributions whose time-integrated energy flow is exactly zero are ignored by the programs as documented for FieldTrace::retard and not generated; cells with fewer than 6 neighbours or singular fits are not generated.")

prop("I01", "Input values are computed by the calculator as written and in order",
     "Every number in the input file may be an expression of constants, functions and previously defined variables, and means its mathematical value. "
     "Definitions at the top level hold for all sections wherever they stand; definitions inside an entry are evaluated exactly once, before the values of that entry are read, and remain visible afterwards; a redefinition (also of a predefined constant) replaces a value from then on, a failing definition changes nothing and is reported. "
     "Print requests appear once, in order and with the value, on the master node only; values that cannot be evaluated read as zero with a message.",
     ["inputs", "histories"], "all expressions and all sequences and placements of definitions, redefinitions and failing definitions",
     "The tests use fixed example files with a few definitions, none of which is redefined, self-referencing or failing, and look only at the final field values.",
     ["src/parser.cpp", "src/parser.h", "src/undulator.cpp", "src/dipole.cpp", "src/wave.cpp", "src/fel1d.cpp"],
     [("calculator", "src/parser.cpp parseCalc, parseCalcChildren, parseDouble, parseInt"), ("evaluation inside entries", "InputParser::parseLattice, parseBeam, parseTracking, parseObservers and the constructors taking an XML node")],
     ["values of parsed objects", "printed lines"],
     technique="model-based property testing: expressions against an independent evaluator with error bounds, definition histories against a variable-table model, ASan/UBSan",
     note="Definitions of a section are evaluated in document order (known finding against the manual); definitions inside <position>, <field> etc. of lattice elements and observers are ignored (known finding).")

prop("I02", "The simulated objects are exactly those described in the input file",
     "Every lattice element, particle, bunch, imported beam, log, probe, watch point, interaction, tracking parameter and observer described in the input file is created with exactly the described properties, in the order of the file and nothing else: fields equal those of the element set up directly, particles have the described charge, charge-to-mass ratio, energy, position, direction, start time, spreads and correlations, logs belong to their bunch and step, observers have the described geometry, time grid, file and source. "
     "Optional entries take their documented defaults; order of the nodes inside an entry and the way a value is written do not matter.",
     ["inputs"], "all combinations of entries, attribute values, optional parts and orders",
     "The tests build objects directly or run fixed example files and compare a few field values; almost none of the input options is ever varied.",
     ["src/parser.cpp", "src/undulator.cpp", "src/dipole.cpp", "src/wave.cpp", "src/fel1d.cpp"],
     [("input parser", "src/parser.cpp InputParser::parseLattice, parseBeam, parseTracking, parseObservers"), ("elements parsing themselves", "constructors taking an XML node")],
     ["parsed objects", "their output files"],
     technique="property-based differential testing: generated input files against directly constructed objects, ASan/UBSan",
     note="Random spreads are checked by the exactly invertible correlations and statistically for large bunches with eight-sigma limits.")

prop("U01", "The one-dimensional FEL field propagates, couples and reports as documented",
     "The interaction field moves with its grid along the propagation direction at the speed of light: a seed pulse keeps its shape, at every step the field at the cell nearest to a point (any transverse offset) is returned as E along the polarisation with B = E/c perpendicular to both. "
     "The beam drives it linearly: with the charge, the transverse acceleration along the polarisation and the inverse mode area at the distance travelled, deposited in a pulse of two cells rms; independent beams superpose and particles without transverse acceleration leave it unchanged. "
     "Queries or particles outside of the grid or at another time, and a beam with a different time step, are refused. Field and current histories written to file are those of the recorded steps with their describing attributes.",
     ["inputs", "histories"], "all grids, directions, polarisations, modes, seeds, beams and step sequences",
     "Two long runs compare one number each of one configuration propagating along z with default polarisation.",
     ["src/fel1d.cpp", "src/fel1d.h"],
     [("FEL interaction", "src/fel1d.cpp FEL_1D")],
     ["field at points", "HDF5 output", "error reports"],
     technique="stateful property-based testing against an independent long-double recursion, with superposition and rigid-transport relations",
     note="The sign and coupling constant of the radiation are taken from the code (experimental according to its authors).")

prop("E01", "A complete run gives the same results for every number of processes",
     "Running the teufel program on an input file writes exactly the requested outputs (watch points at their steps, bunch logs, trajectories, probe, FEL field log, observers of beam and lattice), each with the content the described lattice, beam, tracking, interactions and observers have when composed serially. "
     "The results do not depend on the number of MPI processes or OpenMP threads, also when particles are distributed unevenly or there are fewer particles than processes (only the probe is limited to the particles of the first process). "
     "Initial coordinates are those described, interaction fields act on the particles but do not appear in observations of the lattice, input files stay unchanged, and wrong use (no argument, missing, truncated or foreign file) ends with an error status.",
     ["inputs", "schedules", "histories"], "all input files, numbers of processes and threads",
     "The tests run the main program with one process on three inputs and look at the beam only; other numbers of processes, observers and combinations of outputs are never exercised.",
     ["src/teufel_hybrid.cpp"],
     [("main program", "src/teufel_hybrid.cpp main"), ("MPI distribution of particles and reduction of fields", "src/teufel_hybrid.cpp")],
     ["output files", "exit status"],
     technique="differential property-based testing of generated complete simulations: mpirun -n 1..4 with 1..3 threads against a serial composition of the library in the harness",
     note="The parts (tracking, fields, loggers, observers) are decided by their own properties.")

prop("E02", "Output that cannot be written is reported and harms nothing else",
     "When an output file cannot be created or written (missing directory, a directory of that name, a path below a file, an empty name, no file descriptors left, no space on the device or a size limit reached at any point of the file), "
     "its writer (watch points, bunch logs, trajectories, probe, point, screen, snapshot and mesh output, FEL log) reports it: the error status of its interface or an IOexception, and a message. A file reported as written is complete and does not contain remains of an older file of that name. "
     "After a failure the same process goes on to write correct files. In a complete run such a failure is contained: the run ends normally, all other outputs (later watch points, loggers, field logs and observers, at every number of processes) are those of the undisturbed run, and input files are unchanged. "
     "If the run is killed, all files which it had finished before are complete on disk.",
     ["inputs", "fault points", "crash points"], "all writers, kinds of failure, positions of the failure in the file, points at which a run is killed",
     "No test makes an output fail or interrupts a run.",
     ["src/teufel_hybrid.cpp", "src/beam.cpp", "src/bunch.cpp", "src/logger.cpp", "src/point_observer.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/fel1d.cpp"],
     [("watch points", "src/beam.cpp WriteWatchPointHDF5/WriteWatchPointSDDS, src/bunch.cpp WriteWatchPointSDDS"), ("loggers", "src/logger.cpp WriteData"), ("observer files", "generateOutput of the observers, MeshedScreen::writeFile"), ("order and containment", "src/teufel_hybrid.cpp main")],
     ["return values, exceptions and messages", "output files", "exit status"],
     technique="property-based testing with fault injection: generated writers and simulations under generated faults (file system state, resource limits, failing n-th write, process killed at the n-th file) against the undisturbed output",
     note="Failures of reading are I03; physical loss of power (data not yet flushed by the kernel) is not considered.")

prop("E03", "A complete simulation depends only on what it describes",
     "Complete runs of the program are related to each other as the described physics is. Shifting everything (beam, lattice, waves, observers) in space and time shifts all outputs; mirroring it, or exchanging axes, transforms positions, momenta, electric fields as vectors and magnetic fields as axial vectors; "
     "reversing the signs of all charges and external fields leaves the motion unchanged and reverses the fields; the radiated field is proportional to the charge at a given charge-to-mass ratio. "
     "Bunches do not influence each other without interaction fields: tracking, logs and trajectories of a bunch are the same with and without the others, the observed field is the sum of the fields of the parts of the beam. An external field may be given in parts and in any order. "
     "Recording has no influence: removing watch points, logs, trajectories, the probe or observers does not change the other outputs. A run with more steps begins like the shorter one: watch points, logs, trajectories, probe and FEL field histories agree as far as the shorter run goes, and what is observed of the lattice is the same.",
     ["inputs"], "complete simulations and their transformations, subsets and continuations",
     "The tests run single library objects with fixed parameters; no test compares two complete simulations.",
     ["src/teufel_hybrid.cpp", "src/parser.cpp", "src/beam.cpp", "src/bunch.cpp", "src/particle.cpp", "src/fields.cpp", "src/dipole.cpp", "src/undulator.cpp", "src/wave.cpp", "src/logger.cpp", "src/point_observer.cpp", "src/screen.cpp", "src/snapshot.cpp", "src/mesh.cpp", "src/fel1d.cpp"],
     [("main loop", "src/teufel_hybrid.cpp main"), ("equation of motion and fields", "src/particle.cpp, src/fields.cpp, src/dipole.cpp, src/undulator.cpp, src/wave.cpp"), ("outputs", "loggers, watch points and observers")],
     ["output files", "exit status"],
     technique="metamorphic property-based testing of complete generated simulations: pairs and triples of runs of the program related by symmetry, superposition, reduced output or continuation",
     note="Independent of the library (the harness only reads output files). Bunches with random spreads are left out: they differ from run to run.")

prop("I03", "Incomplete or malformed input is refused; no input damages the program",
     "An input file in which a required part is missing (lattice, beam, tracking, observer section; position, field, momentum, time, pitch, dipole plane or FEL_1D parts; file names, numbers of steps and cells, types) or which has an unknown kind of entry, type, source or tracking method, a logging step or number of grid cells below one, an FEL_1D grid below two cells, or which names a missing or foreign screen file, is refused with an IOexception carrying a message. "
     "Without any of its optional parts (names, spreads, correlations, logs, single entries of a section, sources with a default) it is still accepted. "
     "An unreadable SDDS particle file counts for no particles. "
     "Whatever else is removed, copied, renamed or overwritten in it, the input is refused or tracked, logged and observed without memory errors, crashes or endless loops.",
     ["inputs"], "all modifications of a complete input file",
     "The tests only use three well-formed files.",
     ["src/parser.cpp", "src/fel1d.cpp", "src/logger.cpp", "src/source_screen.cpp", "src/undulator.cpp", "src/wave.cpp", "src/dipole.cpp"],
     [("structure and attribute checks", "src/parser.cpp InputParser"), ("element constructors from XML", "src/undulator.cpp, src/wave.cpp, src/dipole.cpp, src/fel1d.cpp")],
     ["exceptions", "simulated objects", "memory safety"],
     technique="mutation-based fuzzing of generated input files (structural XML mutations and byte mutations) under AddressSanitizer, with a list of required and optional parts as oracle",
     note="Expressions which cannot be evaluated only print a complaint and count as zero; this is the documented behaviour and not judged.")

prop("P01", "The analysis scripts read the program's output without loss",
     "The Python classes for analysis (scripts/screen.py, scripts/teufel.py, scripts/sdds.py) return exactly what the program has written: screens (also files of the older format without stored geometry) with their size, geometry, timing and fields; watch points with position and momentum of every particle in order, the same from HDF5 and SDDS files; bunch parameter logs; point records. "
     "Pixel positions and start times are those at which the program has recorded; incident energy density, in-plane fields, spectral density with its frequency axis (channel k at k/(N dt)), and the beam parameters of a watch point (numbers, means, rms values, energies, normalised emittances) follow from the data, also as printed by plot_Watch.py. "
     "Setting the fields of a pixel changes only this pixel; a screen written by a script is the same screen for scripts and, as a source screen, for the program.",
     ["inputs"], "all screens, watch points, logs and point records",
     "The tests do not touch the scripts.",
     ["scripts/screen.py", "scripts/teufel.py", "scripts/sdds.py", "scripts/plot_Watch.py"],
     [("TeufelScreen, TeufelWatch, readTeufelBeamLog", "scripts/teufel.py, scripts/screen.py"), ("SDDS reader", "scripts/sdds.py")],
     ["script results", "files written by scripts"],
     technique="property-based round-trip testing: files generated through the C++ library, read by the scripts, compared with the generated data and independent evaluations",
     note="The plots drawn are covered by P03; here matplotlib is replaced by a stand-in.")

prop("P02", "Scripts and program exchange fields on meshes without loss",
     "A meshed surface with its fields written by MeshedScreen is read by scripts/MeshedFields.py with the same corners, triangles, cell centres, start times, time step and samples, and a mesh or meshed field written by the script is read back the same by the script and by the program (a mesh without fields contains the geometry only). "
     "Cell areas, normals, bounding box, energy flow and its normal component computed by the script follow from the data and agree with the program. "
     "Fields at a given time are interpolated linearly between the samples of each cell including its first and last one, and vanish outside of the trace.",
     ["inputs"], "all meshes, timings and fields; all times",
     "The tests do not touch the scripts.",
     ["scripts/MeshedFields.py", "src/mesh.cpp"],
     [("MeshedField", "scripts/MeshedFields.py"), ("MeshedScreen", "src/mesh.cpp")],
     ["script results", "files written by scripts and program"],
     technique="property-based round-trip and differential testing between the C++ library and the Python class",
     note="Mesh generation (pygmsh) and display (vtk) are not available here and replaced by stand-ins.")

prop("P03", "Plot scripts draw and print what has been recorded",
     "plot_PointObservation, plot_Screen, plot_Screen_TD, plot_Screen_Cross, plot_SingleFrequency, plot_Snapshot, plot_MeshedField, plot_BeamParameters and plot_WatchSDDS draw what the given file contains: every curve and map has the recorded fields or beam parameters at the recorded times and positions, in the units of its labels. "
     "Spectra have channel k at k/(N dt) and are, like energy flows, single-frequency amplitudes and phases, fitted distributions, means and widths, those which follow from the data; cross sections, pixels, frequency ranges, times and circles chosen on the command line select exactly the data meant by them. "
     "Numbers printed are those of the data drawn. All options work for recordings of every size.",
     ["inputs"], "all recordings of points, screens, snapshots, meshes, watch points and logs; all options",
     "The tests do not touch the scripts.",
     ["scripts/plot_PointObservation.py", "scripts/plot_Screen.py", "scripts/plot_Screen_TD.py", "scripts/plot_Screen_Cross.py", "scripts/plot_SingleFrequency.py", "scripts/plot_Snapshot.py", "scripts/plot_MeshedField.py", "scripts/plot_BeamParameters.py", "scripts/plot_WatchSDDS.py"],
     [("plot scripts", "scripts/plot_*.py"), ("TeufelScreen, MeshedField, SDDS", "scripts")],
     ["curves and maps handed to matplotlib", "printed numbers"],
     technique="property-based testing: recordings generated through the C++ library are given to the plot scripts with random options; curves, maps and printed numbers are compared with an independent evaluation of the data",
     note="Colours, layout and rendered pixels are not judged. The display on meshes (vtk) is replaced by a recorder of the values to be shown.")
