# property -> (technique, level note)
CLAIMS = {
"C01": ("differential runtime monitoring: site-wise comparison of recorded fields across decompositions, PMPI ghost-exchange monitor with injected delays",
        "Holds on every generated (field, decomposition, block shape, schedule); trusts the one-rank run, which C02-C04 check. Delays perturb schedules, they do not enumerate them."),
"C02": ("runtime monitor comparing every site of executed steps with an executable reference model, ghosts poisoned",
        "Holds on every generated case; the numpy model of the equations is trusted. Known deviations of --vqcdL are listed in known_findings.json."),
"C03": ("runtime monitor comparing every site of executed steps with an executable reference model, ghosts poisoned",
        "Holds on every generated case; the numpy model is trusted; sites within rounding of a branch point of the modulus are excluded and counted."),
"C07": ("model-based runtime monitor: random fold/unfold/slice sequences on random bit patterns checked against a shadow model, folded/unfolded differential of every operation",
        "Holds on every generated sequence; operations are compared with themselves (fold state before the call), their absolute correctness is the subject of the other properties."),
"C09": ("runtime monitor: every reported energy component, masked mean and map site compared with the density recomputed from the dumped field in double precision, m2 and ghosts poisoned",
        "Holds on every generated case; the numpy density formulas (documented in DESIGN.md) are trusted. The energy of --vqcdL is declared undefined by the code (logged fallback to the cosine) and is excluded."),
"C10": ("runtime monitor: counts, flags, positions, length, velocity and energy of detected defects compared with a plaquette-by-plaquette winding computation, closed-plane conservation of the recorded flags",
        "Holds on every generated field whose windings are decided by more than rounding (ties are counted and skipped)."),
"C13": ("runtime monitor: every bin, limit and total recounted from the loaded data, padded and unpadded, with extremes and infinities placed at rank and thread borders",
        "Holds on every generated data set; sites within rounding of a bin border may fall on either side."),
  "C12": ("runtime monitoring: every spectrum bin, mode count and smoothed map of the real library against a mode-by-mode recount on an independent FFT, over ranks, threads, precisions, masks, boxes and bin counts", "the kinetic/gradient table for string cores is excluded (requests are only judged where it is not consulted); masks FLAT, VIL, VIL2, REDO, AXIT2; energy-type spectra on cubic boxes (the code assumes them), densities and mode counts on any box"),
  "C20": ("runtime monitor: reduce / expand / filter operations of the real library on random fields compared with an independent FFT resampling, over ranks, precisions, fields and ratios", "Expansion of AXION_MOD and PAXION fields is not supported by the code and is not exercised."),
  "C08": ("runtime monitor: every background quantity (scale factor, Hubble terms, masses, saturation, shifts, integrals) evaluated by the real library compared with independent high-precision quadrature over random cosmologies, options and times", "The shift fit of --vPQ2 and the QCD2 shift are not compared; mass integrals are compared without mass restoration."),
  "C04": ("model-based runtime monitor: every site of evolved non-relativistic fields against an independent numpy splitting of the discrete Schroedinger flow, number conservation, Newtonian potential against an FFT Poisson solution, poisoned ghosts", "The timing-driven hybrid gravity solver is excluded; the order of the splitting in time-dependent backgrounds is not claimed."),
  "C05": ("model-based runtime monitor: every site after spectral steps against the stage equations with the exact Laplacian, all ranks, precisions, potentials", "The full-spectral experiment (--prop fspec), --onlytheta and --vqcdL with the spectral saxion kernel are recorded findings."),
  "C06": ("runtime monitor: time, scale factor and field bits reported before and after null, tuning, manual and automatic steps; measured convergence order against an independent classical Runge-Kutta integration", "Order is measured for undamped smooth double precision fields."),
  "C11": ("model-based runtime monitor: every site of m and v after each field conversion (saxion to axion, mending of jumps, axion to complex, axion to non-relativistic) against the definition evaluated in numpy, with winding-free and winding fields, over ranks, precisions, expansions and shifts, plus round trips", "The lowmem layout (no m2) is not exercised: the conversions do not support it."),
  "C18": ("model-based runtime monitor: potential written by the Newtonian solver against an independent spectral solution of the discrete Poisson equation for the loaded non-relativistic field, over ranks, precisions, depths and densities; hybrid solver against its regression slope and correlation", "The hybrid (relaxation) solver is approximate and only judged by slope and correlation; the potential of relativistic axion fields is not judged."),
  "C14": ("runtime monitor: every site and attribute of configurations written and read back through the real HDF5 code compared bitwise (or to rounding on precision change) over rank counts, ghost depths, precisions, field types, potentials, restart files and command-line overrides; files also read by an independent extractor", "Storing Wait/decoupling time of the decaying mass is not part of the format and not claimed."),
  "C17": ("runtime monitor: every site of generated initial conditions compared with the configured generator's definition or with its conserved/statistical contract, across ranks, precisions, depths; repeatability and rank independence", "stringwave/string, vilgor and preprop generators, and non-cubic boxes for momentum-space generators, are excluded (listed in DESIGN.md)."),
  "C16": ("runtime monitor: files written by the measurement dispatcher and by runs of the real main program, with contents recomputed from the loaded or stored configuration and the schedule (indices, times, types, end) recomputed from the request", "strings are measured for the complex field even when not requested (accepted); masks list, smoothed and string-core-table spectra and Axit2 contents not judged; three defects of the main program itself are known findings because test/ may not be edited"),
  'C15': ('runtime monitor with fault injection: real vaxion3d runs stopped at chosen steps (LD_PRELOAD shim answering the stop-file poll, on all or single ranks), restarted from the written snapshot and compared with the uninterrupted run file by file, attribute by attribute, dataset by dataset', 'Wall time, step counters and the sample line repeated at the restart are not compared; known findings in test/vaxions.cpp are listed by input class.'),
  'C21': ('address and undefined-behaviour sanitizers and valgrind memcheck over the workloads of the other monitors and the chain of all main programs, with deliberate errors proving that the sanitizers are awake', "External libraries are not instrumented; overruns within one allocation are left to the value monitors; the propagator kernels' unit has the address sanitizer only."),
  'C19': ('runtime race detection: the workloads of the other monitors and the chain of main programs run on a ThreadSanitizer build with at least three threads per rank, on an OpenMP run-time of our own whose forks, barriers, locks and loops the sanitizer understands; a deliberate race must be seen first', 'Accesses by uninstrumented libraries (MPI, HDF5, FFTW) and non-temporal vector stores are not seen; only the schedules executed are judged.'),
  'C22': ('runtime monitoring: mask bits, exported masks and their spectra from the real library against masks recomputed on the whole lattice from the recorded plaquettes, over ranks, threads, slab and ghost sizes; repeated contended masks at rank boundaries watch for lost updates', 'ball radii up to the thickness of a slab; smoothed masks on cubic boxes; axiton masks not judged'),
}
NA = {}
