#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list lives here because JSONL is unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Evolution does not depend on the domain decomposition",
 "Evolving a given initial field by a given sequence of real-space (finite-difference) time steps gives the same field, site by site, for every supported number of MPI ranks along z, number of OpenMP threads and tuned block shape. In particular the sites next to slab borders and box faces are updated with their true periodic neighbours, for every stencil range.",
 ["configurations", "schedules", "inputs"],
 "all (ranks, threads, block shapes, stencil range 1-5, precision, field type) with at least as many planes per rank as twice the stencil range; all initial fields and step sequences",
 "The tests only check that a 64^3 run on 2 ranks ends with exit code 0 and never compare two decompositions or any value.",
 ["lib/scalar/scalarField.cpp", "include/propagator/propClass.h", "include/propagator/propXeon.h", "include/propagator/propThetaXeon.h"],
 [("ghost exchange in z", "Scalar::sendGhosts / sendGeneral"), ("overlap of communication and computation (bulk first, then border planes)", "PropClass::sRunCpu, tRunCpu"), ("cache blocking", "propagateKernelXeon block loops")],
 observe=["field and velocity arrays after propagate()"])

prop("C02", "Complex-field steps solve the discretised equation of motion",
 "One evolution step of the complex (saxion) field equals, at every site and within rounding, the composition of kick and drift stages of the discretised comoving equation of motion: Laplacian of the chosen order, Mexican-hat potential with the current self-coupling, scale-factor term, QCD potential of the chosen model with the current axion mass, and the chosen damping or constrained evolution. This holds for both precisions, every supported potential/damping/evolution choice, any time and any field values.",
 ["inputs", "configurations"],
 "all field/velocity values, times, step sizes, stencil ranges 1-5, precisions, QCD potentials (none/standard/double/cosine/linear) and damping/evolution types the program accepts for the complex field",
 "The tests never look at a field value; smooth physical runs cannot see a wrong coefficient that merely changes the physics.",
 ["include/propagator/propXeon.h", "include/propagator/propClass.h", "lib/propagator/propagator.cpp", "lib/cosmos/cosmos.cpp"],
 [("SIMD stencil kernels", "propXeon.h propagateKernelXeon"), ("stage coefficients and parameter refresh", "propClass.h sRunCpu"), ("Laplacian weights", "Scalar::setCO")],
 observe=["field and velocity arrays after propagate()"])

prop("C03", "Axion-angle steps solve the discretised equation of motion",
 "One evolution step of the axion angle field equals, at every site and within rounding, the composition of kick and drift stages of the discretised axion equation with the chosen Laplacian order, the current axion mass (cosine, linear or no potential) and the scale-factor term. In the compact variant, neighbour differences are taken modulo the field period, so shifting any site by a whole period changes nothing else.",
 ["inputs", "configurations"],
 "all field/velocity values, times, step sizes, stencil ranges 1-5, precisions and potentials accepted for the axion field, compact and non-compact",
 "The tests never look at a field value.",
 ["include/propagator/propThetaXeon.h", "include/propagator/propThetaModXeon.h", "include/propagator/propClass.h"],
 [("SIMD stencil kernels", "propThetaXeon.h, propThetaModXeon.h"), ("stage coefficients and parameter refresh", "propClass.h tRunCpu")],
 observe=["field and velocity arrays after propagate()"])

prop("C04", "Non-relativistic axion evolution is the discrete Schroedinger flow",
 "One evolution step of the non-relativistic (paxion) field equals, within rounding, the symmetric splitting of the potential phase rotation (leading self-interaction of the cosine potential, integrated over the half step with the background at its beginning, and, when enabled, the periodic Newtonian potential of the density contrast) and the discretised kinetic evolution. The potential part conserves the density of each site and the whole step conserves the total number up to the integrator's order.",
 ["inputs", "configurations", "histories"],
 "all paxion fields, times, step sizes, stencil ranges, precisions",
 "The only test is that paxion3d ends with exit code 0.",
 ["include/propagator/propPaxXeon.h", "include/propagator/propClass.h"],
 [("kick/drift kernels", "propPaxXeon.h"), ("stage loop", "propClass.h pRunCpu")],
 observe=["field arrays after propagate()"])

prop("C05", "Spectral propagators equal the exact-Laplacian evolution",
 "The spectral propagators evolve the field with the Laplacian applied exactly in Fourier space (minus k squared on every resolved mode of the periodic box) and otherwise the same stages as the finite-difference ones, for every number of ranks.",
 ["inputs", "configurations"],
 "all fields, times, precisions, ranks dividing the box for saxion and axion fields",
 "No test selects a spectral propagator and compares values.",
 ["include/propagator/sPropXeon.h", "include/propagator/sPropThetaXeon.h", "lib/propagator/laplacian.cpp", "include/propagator/propClass.h"],
 [("Fourier Laplacian", "lib/propagator/laplacian.cpp"), ("spectral stages", "propClass.h sSpecCpu, tSpecCpu")],
 observe=["field arrays after propagate()"])

prop("C06", "Time bookkeeping and integration order",
 "A step of size dz advances conformal time by exactly dz and keeps the scale factor consistent with it, a zero step (as used by the tuner) leaves time and fields unchanged, and the result converges to the continuous-time solution at the advertised order (fourth for RKN4) as dz is reduced. The automatic step is positive, finite, scales with the user's stability factor and never exceeds it divided by the fastest frequency (field mass and the nearest-neighbour lattice frequency sqrt(12)/spacing) at that time, also when it is shortened to land just beyond the saturation of the axion mass.",
 ["inputs", "configurations", "histories"],
 "all start times, step sizes, expansion laws, coupling/mass models and field types",
 "Tests only check that runs end; an integrator of lower order or with lagging parameters still ends.",
 ["include/propagator/propClass.h", "lib/scalar/scalarField.cpp", "lib/propagator/propagator.cpp"],
 [("stage coefficients", "propClass.h"), ("adaptive step", "Scalar::dzSize"), ("tuner", "propagator.cpp tunePropagator")],
 observe=["time, scale factor and arrays after propagate()"])

prop("C07", "Folding is a lossless relayout",
 "Folding and unfolding the field only permutes memory: unfold after fold restores field and velocity exactly, repeated calls are idempotent, slice extraction from a folded or unfolded field yields exactly the values of that slice, and no operation's result depends on whether the field was folded before it.",
 ["inputs", "configurations", "histories"],
 "all grids, precisions, field types, slices, and sequences of fold/unfold/slice operations",
 "No test reads a value back after fold/unfold.",
 ["lib/scalar/folder.cpp", "include/scalar/folder.h"],
 [("Folder", "lib/scalar/folder.cpp")],
 observe=["arrays after Folder calls"])

prop("C08", "Background cosmology is self-consistent",
 "Scale factor, Hubble rate and scale-factor acceleration reported at any conformal time are mutually consistent derivatives for the selected expansion law, and the axion mass, self-coupling and saxion mass follow the documented power laws, thresholds and saturations of the command-line options. Derived quantities (box size, msa, lambda, log-ratio, Compton scale, threshold times) are consistent with those definitions for every way of specifying them.",
 ["inputs", "configurations"],
 "all times and option combinations (lambda fixed/z2/PRS, frw, nqcd, zthres, zrestore, mass index, msa vs lambda vs size specification)",
 "Tests run one or two fixed option sets and check nothing but exit status.",
 ["lib/cosmos/cosmos.cpp", "lib/scalar/scalarField.cpp", "lib/utils/parse.cpp", "include/cosmos/cosmos.h"],
 [("background functions", "lib/cosmos/cosmos.cpp"), ("time-dependent masses", "lib/scalar/scalarField.cpp")],
 observe=["return values of the background API"])

prop("C09", "Reported energies equal the energy of the field",
 "Every reported energy component (gradient per direction, kinetic and potential, of the axion and, for the complex field, of the radial mode, plus masked variants) equals the mean over the periodic box of the corresponding density of the stored field and velocity, for every precision, decomposition, thread count and field type. The energy density map written next to it is non-negative where the physics demands and averages to the same total.",
 ["inputs", "configurations", "schedules"],
 "all fields, times, grids, ranks, threads, precisions, potentials, field types",
 "No test checks an energy value.",
 ["lib/energy/energy.cpp", "lib/energy/energyXeon.cpp", "lib/energy/energyThetaXeon.cpp", "lib/energy/energyPaxionXeon.cpp", "lib/energy/dContrast.cpp"],
 [("SIMD reductions", "energyXeon.cpp, energyThetaXeon.cpp"), ("MPI reduction", "energy.cpp")],
 observe=["energy array, energy density map"])

prop("C10", "String and wall detection counts exactly the defects of the field",
 "The reported number of string-pierced plaquettes, net chirality and wall count equal those of a direct plaquette-by-plaquette winding computation on the periodic lattice, and the recorded positions and flags name exactly those plaquettes, for every decomposition, thread count and precision. In particular the net chirality over any closed periodic box plane is conserved and the counts do not depend on translations of the field by whole lattice units.",
 ["inputs", "configurations", "schedules"],
 "all complex fields, ranks, threads, precisions",
 "No test checks the count.",
 ["lib/strings/strings.cpp", "lib/strings/stringXeon.cpp", "lib/strings/stringCpu.cpp"],
 [("SIMD winding test", "stringXeon.cpp"), ("MPI reduction and position lists", "strings.cpp")],
 observe=["StringData, string flag array, position list"])

prop("C11", "Conversions between field representations preserve the physics",
 "Switching from the complex field to the axion angle yields exactly the phase times scale factor (and its conformal-time derivative) at every site, and removing 2 pi jumps changes each site only by whole periods and leaves no neighbouring jump larger than half a period in a defect-free field, on every decomposition. Conversion to the non-relativistic field preserves amplitude and phase of the oscillation.",
 ["inputs", "configurations"],
 "all complex fields without zeros, all saxion shifts, ranks, precisions",
 "No test compares the field before and after a conversion.",
 ["lib/scalar/theta2Cmplx.cpp", "lib/scalar/thetaScalar.cpp", "lib/scalar/mendTheta.cpp", "lib/scalar/mendThetaXeon.cpp", "lib/scalar/theta2Naxion.cpp", "lib/scalar/theta2Paxion.cpp"],
 [("phase extraction", "thetaXeon.cpp"), ("jump mending across slabs", "mendThetaXeon.cpp")],
 observe=["arrays before and after conversion"])

prop("C12", "Power spectra account for every mode exactly once",
 "Every reported spectrum equals the sum over all Fourier modes of the periodic box of the squared modulus of the transform, each mode counted once in the bin of its wavenumber with the documented normalisation, so bin counts sum to the number of sites and Parseval's identity holds against the real-space field. The result is independent of ranks, threads and precision up to rounding.",
 ["inputs", "configurations", "schedules"],
 "all fields, grids, ranks, threads, precisions, spectrum types",
 "No test checks a spectrum value.",
 ["lib/spectrum/spectrum.cpp", "lib/fft/fftCode.cpp"],
 [("SpecBin filler", "lib/spectrum/spectrum.cpp"), ("FFT plans", "lib/fft/fftCode.cpp")],
 observe=["spectrum bins"])

prop("C13", "Histograms count every data point once",
 "A binned distribution over a field counts every site of every rank exactly once in the bin containing its (filtered) value, with limits equal to the global minimum and maximum, and is normalised to unit integral; it does not depend on ranks or threads.",
 ["inputs", "configurations", "schedules"],
 "all data arrays, padded or not, all bin numbers, filters, ranks and threads",
 "No test checks a histogram.",
 ["include/utils/binner.h"],
 [("parallel binning with atomic increments", "Binner::run"), ("global limits", "Binner::find")],
 observe=["bin array, limits"])

prop("C14", "Snapshots round-trip exactly",
 "A configuration written to disk and read back by a program with the same or a different number of ranks has bit-identical field and velocity values, time, scale factor, box and grid size, precision, field type and physics parameters, whether or not the field was folded; written files carry the parameters of the run. Reading with the other precision yields the rounded values.",
 ["inputs", "configurations", "histories"],
 "all fields, field types, precisions, rank counts for write and read, times, restart or snapshot files",
 "Tests write files but never read a value back.",
 ["lib/io/readWrite.pHdf5.cpp"],
 [("collective hyperslab I/O", "writeConf/readConf"), ("attributes", "writeConf header")],
 observe=["HDF5 files, re-read arrays"])

prop("C15", "An interrupted and resumed run equals an uninterrupted one",
 "A simulation stopped at any point where it saves a restart file and then resumed produces the same subsequent fields, times and measurements as the run that was never interrupted.",
 ["crash_points", "histories"],
 "all stop points and option sets of the main program",
 "The resume test only checks exit status.",
 ["lib/io/readWrite.pHdf5.cpp", "test/vaxions.cpp", "lib/utils/parse.cpp"],
 [("restart file", "writeConf/readConf restart"), ("parameter restoration", "readConf")],
 observe=["measurement and snapshot files of both runs"])

prop("C16", "A run delivers the requested measurements at the requested times",
 "The main program writes exactly the measurement files its schedule asks for, numbered consecutively, each containing the requested quantities consistent with each other and recorded at the time it states, and stops within one step of the requested end time.",
 ["inputs", "configurations"],
 "all schedules (regular dumps, measurement lists, final times) and measurement type masks",
 "Tests check only that the program ends.",
 ["test/vaxions.cpp", "lib/meas/measa.cpp", "lib/io/readWrite.pHdf5.cpp"],
 [("measurement dispatcher", "Measureme")],
 observe=["measurement files"])

prop("C17", "Initial conditions follow the requested profile or statistics",
 "Every generated initial condition is the one asked for on the command line, whatever the ranks, threads, precision and box: analytic profiles (clusters, axitons, single modes, string loops) hold at every site of the whole box including smoothing; random fields have the requested distribution or spectrum (mode amplitudes, phases, cut-offs) with random streams that are not shared between threads or ranks; normalised fields lie on the vacuum manifold or on the fitted string-core profile; and velocities are those of the requested motion (comoving, kicked, or the growing mode of each Fourier mode).",
 ["inputs", "configurations", "schedules"],
 "all initial-condition types and parameters, ranks, threads, precisions, boxes",
 "No test compares initial conditions.",
 ["lib/gen/genConf.cpp", "lib/gen/momConf.cpp", "lib/gen/randXeon.cpp", "lib/gen/smoothXeon.cpp", "lib/scalar/normField.cpp", "lib/scalar/normCoreXeon.cpp"],
 [("generators", "lib/gen")],
 observe=["field and velocity after construction"])

prop("C18", "The gravitational potential solves the discrete Poisson equation",
 "The Newtonian potential computed from the non-relativistic density satisfies the periodic Poisson equation with zero-mean source on every mode, for every decomposition and precision.",
 ["inputs", "configurations"],
 "all densities, ranks, precisions",
 "No test checks the potential.",
 ["include/gravity/potentialClass.h", "lib/gravity/potential.cpp"],
 [("FFT Poisson solver", "potentialClass.h")],
 observe=["potential array"])

prop("C20", "Reducing and expanding grids preserves the field",
 "Reducing the grid of a field applies the given momentum-space filter and interpolates to the smaller grid without mixing slabs, and a configuration read on a larger or smaller grid represents the same physical field.",
 ["inputs", "configurations"],
 "all fields, ratios, ranks, precisions, field types",
 "The redu test checks exit status only.",
 ["lib/reducer/reducer.cpp", "lib/io/readWrite.pHdf5.cpp"],
 [("Reducer", "lib/reducer/reducer.cpp")],
 observe=["reduced field"])

prop("C21", "No memory error or undefined behaviour on supported inputs",
 "No supported run of the library or its main programs reads or writes outside its allocations, uses freed or uninitialised memory, or executes undefined behaviour, on any rank.",
 ["inputs", "configurations", "schedules", "histories"],
 "all supported configurations and command sequences",
 "Tests run without instrumentation; out-of-bounds accesses within the large allocations do not crash.",
 ["lib", "include", "test"],
 [("allocation", "lib/utils/memAlloc.cpp, Scalar constructor")],
 observe=["sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
