#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "The free energy never increases along a minimisation",
 "In every minimisation the free energies of the successively accepted states (as evaluated by the caller's energy object plus the smearing entropy) form a non-increasing sequence, up to rounding. A trial step that raises the free energy is never kept, whatever the energy landscape looks like; in particular the result is never worse than the starting point.",
 ["inputs", "histories"], "all energy functionals (including rough ones that defeat the quadratic model), starting points, smearings, restart periods and backtracking factors",
 "no existing test runs the minimiser at all; the guarantee ranges over all landscapes and all iteration histories, including the rarely taken backtracking, forced restart and abort paths",
 ["src/linesearch/linesearch.hpp", "src/nlcglib.cpp"],
 [("quadratic line search rejects F_min > F0", "linesearch.hpp qline"), ("backtracking accepts only Fp < F0", "linesearch.hpp bt_search"), ("slope > 0 forces a restart", "nlcglib.cpp nlcg_us")],
 [dict(name="accepted state", meaning="orbitals+occupations in the energy object when an iteration is reported", where="EnergyBase implementation of the caller")],
 ["EnergyBase callbacks", "nlcg.json"])

prop("C02", "A run reported as converged has found the minimum",
 "When a minimisation reports convergence, the state left in the energy object is the minimiser of the free energy: its free energy and occupations agree with an independently computed reference solution within the accuracy implied by the tolerance, as long as no band is numerically full or empty. No evaluated state and no reported free energy lies below the minimum. A well-posed problem with a reachable tolerance and enough iterations does converge.",
 ["inputs", "configurations"], "all k-point/spin sets, weights, band counts, overlap and preconditioner operators, temperatures and smearings of well-posed problems, linear and density-dependent",
 "the tests never call the minimiser; correctness of the minimum quantifies over every Hamiltonian/overlap/preconditioner/temperature combination",
 ["src/nlcglib.cpp", "src/mvp2/descent_direction_impl.hpp", "src/pseudo_hamiltonian/grad_eta.hpp", "src/geodesic.hpp", "src/free_energy.hpp"],
 [("|slope| < tol stopping test", "nlcglib.cpp nlcg_us"), ("joint gradient in orbitals and pseudo-Hamiltonian", "descent_direction_impl.hpp, grad_eta.hpp")],
 observe=["final state in the EnergyBase object", "nlcg_info"])

prop("C03", "The returned summary is truthful",
 "The summary a minimisation returns (free energy, entropy term, residual, iteration number, converged flag) describes a state the run really visited: free energy = energy of that state + its entropy term, the entropy term is -kT*S of its occupations, and the residual is the slope that was compared with the tolerance. Convergence is reported exactly when the residual is below the tolerance at iteration number < maxiter, and then the summary describes the state left behind; every field is defined whatever maxiter is.",
 ["inputs", "histories"], "all problems, tolerances and iteration limits, converged and not converged exits alike",
 "no test inspects the returned summary; it must be right on every exit path",
 ["src/nlcglib.cpp", "include/interface.hpp", "src/free_energy.hpp"],
 [("print_info fills nlcg_info", "nlcglib.cpp print_info"), ("free_energy = etot + kT*S", "free_energy.hpp compute")],
 observe=["return value of nlcg_us_cpu", "EnergyBase callbacks"])

prop("C04", "Every evaluated set of orbitals is orthonormal w.r.t. the overlap",
 "Whenever the library asks the caller to evaluate the energy, the orbitals it has written for each k-point and spin are orthonormal in the metric of the caller's overlap operator (X^H S X = 1), and this does not degrade over the iterations of a run.",
 ["inputs", "histories"], "all overlap operators (identity, diagonal, dense HPD), step lengths, matrix sizes, leading dimensions and iteration histories, provided the initial orbitals are orthonormal",
 "no test drives the orthogonalisation; drift and rare step lengths only show over long histories and special shapes",
 ["src/geodesic.hpp", "src/la/lapack.hpp", "src/free_energy.hpp"],
 [("Loewdin orthogonalisation after each step", "lapack.hpp loewdin, geodesic.hpp advance_x"), ("unitary subspace rotation", "geodesic.hpp")],
 observe=["EnergyBase::compute"])

prop("C05", "Electron number is conserved at every evaluation",
 "Occupations produced by the library, weighted with the k-point weights and summed over all k-points, spins and ranks, equal the requested number of electrons: to 1e-10 for Fermi-Dirac, Gauss and Gaussian-spline smearing (and for all smearings if the Newton search is disabled), and to 1e-2 for the two non-monotonous smearings. They are the smearing function evaluated at the returned chemical potential, and when no such chemical potential can be found an exception is raised instead of returning wrong occupations.",
 ["inputs", "configurations"], "all spectra, weights, temperatures, electron counts, maximal occupancies, smearing types and distributions of k-points over MPI ranks",
 "test_smearing evaluates a single spectrum with one smearing and checks no electron count",
 ["src/smearing.hpp", "src/dft/newton_minimization_smearing.hpp", "src/free_energy.hpp"],
 [("chemical potential search", "smearing.hpp find_chemical_potential"), ("Newton minimisation with fallback", "newton_minimization_smearing.hpp"), ("k-point allgather", "mvector.hpp allgather")],
 observe=["EnergyBase::set_fn", "Smearing::fn"])

prop("C06", "Smearing functions are thermodynamically consistent",
 "For each of the five smearing schemes and for maximal occupancy 1 and 2, occupation, broadened delta function, its derivative and entropy agree with their closed forms, tend to the correct limits, scale linearly with the maximal occupancy, and are mutually consistent: delta is the derivative of the occupation, and dS = -x df. Entropies summed over k-points use the k-point weights.",
 ["inputs"], "all real arguments x (including cut-off boundaries and the far tails), all five schemes, both maximal occupancies",
 "test_smearing prints one entropy value; a function identity over the reals cannot be settled by an example",
 ["src/smearing.hpp"],
 [("fn/delta/dxdelta/entropy of each scheme", "smearing.hpp"), ("weighted entropy sum", "smearing.hpp Smearing::entropy")],
 observe=["static smearing functions", "Smearing::entropy"])

prop("C07", "The slope used by the minimiser is the true derivative of the free energy",
 "The slope that the minimiser reports for a search direction, and uses for its line search and its stopping test, equals the derivative of the free energy along the path the trial states actually follow, for steepest-descent and for conjugated directions, for every smearing, temperature, k-point weighting, overlap and preconditioner.",
 ["inputs", "histories"], "all problems, all five smearings, restarted and conjugated iterations",
 "no test evaluates a gradient; correctness is an identity over all states and directions",
 ["src/mvp2/descent_direction_impl.hpp", "src/mvp2/descent_direction.hpp", "src/pseudo_hamiltonian/grad_eta.hpp", "src/geodesic.hpp"],
 [("gradient w.r.t. orbitals", "mvp2.hpp gradx"), ("gradient w.r.t. pseudo-Hamiltonian incl. chemical potential response", "grad_eta.hpp g_eta"), ("slope accumulation", "descent_direction.hpp")],
 observe=["nlcg.json slope", "EnergyBase evaluations at shrinking trial steps"])

prop("C08", "Search directions are tangent, preconditioned and conjugate",
 "The restart direction is the preconditioned residual projected onto the tangent space of the orthonormality constraint (overlap-orthogonal to the orbitals) together with the Hermitian pseudo-Hamiltonian direction kappa*(<X|H|X> - eta), and for a positive definite preconditioner and monotonous smearing it never points uphill. The conjugated direction is that direction plus the Fletcher-Reeves multiple of the previous direction transported by the subspace rotation and re-projected onto the tangent space. Conjugation is dropped for the restart direction periodically with the requested restart period, after a failed line search, and when the conjugated direction would point uphill, and only then.",
 ["inputs", "histories"], "all states, overlaps, preconditioners, weights and previous directions",
 "nothing in the test suite constructs a search direction",
 ["src/mvp2/mvp2.hpp", "src/mvp2/descent_direction_impl.hpp", "src/mvp2/descent_direction.hpp", "src/pseudo_hamiltonian/grad_eta.hpp"],
 [("Lagrange multipliers", "mvp2.hpp lmult, conjugatex"), ("Fletcher-Reeves factor", "descent_direction.hpp conjugated")],
 observe=["states handed to EnergyBase::compute", "descent_direction::restarted", "descent_direction::conjugated"])

prop("C09", "Results do not depend on how k-points are distributed over MPI ranks",
 "Running the same problem with its k-points spread over any number of ranks in any way (including ranks without any k-point) gives on every rank the same summary, chemical potential and free-energy history as the serial run, up to rounding. All ranks issue the same sequence of matching collective operations, so that no run can deadlock because of the library.",
 ["schedules", "configurations", "inputs"], "all rank counts, k-point distributions and message timings",
 "two smoke tests run with two ranks and never compare results; distribution and timing are unbounded",
 ["src/la/mvector.hpp", "src/mpi/communicator.hpp", "src/smearing.hpp", "src/mvp2/descent_direction.hpp", "src/nlcglib.cpp"],
 [("k-communicator reductions", "mvector.hpp sum, grad_eta.hpp"), ("allgather of band energies", "mvector.hpp allgather")],
 observe=["nlcg_info on every rank", "MPI profiling layer"])

prop("C10", "Host arrays are honoured exactly: any layout, nothing else touched",
 "Caller-owned arrays are interpreted through their size, stride and k-point key only: results are the same for any leading dimension, any order of the entries and any key numbering. The library writes nothing but the described elements of the orbital arrays: padding, H|psi>, eigenvalues, occupations and weights owned by the caller are never modified.",
 ["inputs", "configurations"], "all leading dimensions, entry orders, key numberings and sizes",
 "test_stride_dvector copies one fixed array; the minimiser is never run on padded arrays",
 ["src/la/dvector.hpp", "src/la/mvector.hpp", "include/interface.hpp", "src/free_energy.hpp"],
 [("LayoutStride views over buffer_protocol", "dvector.hpp"), ("copies before computing", "nlcglib.cpp copy(), free_energy.hpp compute")],
 observe=["EnergyBase arrays with canaries and poisoned padding"])

prop("C11", "No memory error, undefined behaviour or uninitialised result",
 "For every valid input the library performs no out-of-bounds or use-after-free access, no undefined arithmetic or conversion, passes only in-bounds operands to BLAS/LAPACK, and no result depends on uninitialised memory.",
 ["inputs", "configurations", "histories"], "all valid problem sizes, layouts, smearings, operator wrappers and helper routines",
 "the tests run without any instrumentation and never execute the minimiser",
 ["src/nlcglib.cpp", "src/la/lapack_cpu.hpp", "src/la/cblas.hpp", "src/la/utils.hpp", "src/operator.hpp", "src/utils/format.hpp", "src/la/mvector.hpp"],
 [("empty_like allocates uninitialised storage that must be overwritten", "la/utils.hpp"), ("leading dimensions passed to BLAS", "lapack_cpu.hpp"), ("operator iterators", "operator.hpp")],
 observe=["AddressSanitizer", "UndefinedBehaviorSanitizer", "valgrind memcheck", "checking BLAS/LAPACK shims"])

prop("C12", "Each energy evaluation sees one complete, consistent state",
 "Every evaluation requested by the library is preceded by writing the orbitals and setting occupations for exactly the local k-point keys (each once, one value per band), quantities are read only after the evaluation that produced them, and the chemical potential set afterwards belongs to the same occupations. When the minimiser returns, the energy object holds orbitals, occupations and chemical potential of the last accepted state, not of a rejected trial.",
 ["histories", "inputs"], "all call sequences the minimiser can generate, including backtracking, restarts and aborts",
 "a trace property over all histories at the callback interface; tests contain no EnergyBase implementation",
 ["src/free_energy.hpp", "src/linesearch/linesearch.hpp", "src/nlcglib.cpp"],
 [("write X, set_fn, compute, set_chemical_potential", "free_energy.hpp compute"), ("reset to t=0", "linesearch.hpp bt_search")],
 observe=["trace of EnergyBase calls"])

prop("C13", "Overlap and preconditioner callbacks are invoked correctly",
 "The caller's overlap and preconditioner operators are only ever applied with the key of a local k-point, to matrices belonging to that k-point, through well-formed non-overlapping host buffers of the right shape; the operand is not modified by the library during the call, and the result of the library does not depend on what the output buffer contained before.",
 ["inputs", "histories"], "all k-point sets, shapes and operators",
 "no test implements or calls an operator",
 ["src/operator.hpp", "src/overlap.hpp", "src/ultrasoft_precond.hpp", "src/la/dvector.hpp"],
 [("applicator", "operator.hpp"), ("as_buffer_protocol", "dvector.hpp")],
 observe=["OverlapBase::apply", "UltrasoftPrecondBase::apply"])

prop("C14", "The step log records every iteration once and faithfully",
 "The JSON step log of a run contains exactly one record per iteration, numbered consecutively from 0 to the last reported iteration, written once regardless of the number of ranks, with the free energy, energy, entropy, slope, Fermi energy and energy components of the state accepted at that iteration; every tenth record also lists eigenvalues and occupations of all k-points of all ranks under the right key. Records of earlier runs do not survive.",
 ["histories", "configurations", "inputs"], "all run lengths, rank counts, k-point sets and sequences of runs",
 "no test produces a step log",
 ["src/utils/step_logger.hpp", "src/nlcglib.cpp", "src/la/mvector.hpp"],
 [("StepLogger appends one document per iteration", "step_logger.hpp"), ("allgather of eta and fn", "nlcglib.cpp cg_write_step_json")],
 observe=["nlcg.json", "EnergyBase callbacks"])

prop("C15", "A failing callback never corrupts or wedges the library",
 "If any caller-supplied callback (energy, overlap, preconditioner) throws at any point of a minimisation, that same exception reaches the caller, nothing is leaked or corrupted, and a later minimisation in the same process behaves as if the failed one had not happened.",
 ["fault_sequences", "crash_points"], "every callback invocation of a run as failure point, and sequences of failed and successful runs",
 "no test injects a fault; the number of failure points is the length of the callback history",
 ["src/nlcglib.cpp", "src/linesearch/linesearch.hpp", "src/free_energy.hpp", "src/la/utils.hpp"],
 [("only DescentError/SlopeError/StepError are caught", "nlcglib.cpp, linesearch.hpp"), ("RAII views", "la/dvector.hpp")],
 observe=["exception at the API", "allocation balance", "later runs"])

prop("C16", "Minimisations are repeatable and resource neutral",
 "Repeating a minimisation from the same starting state, in the same process or a fresh one and whatever other minimisations ran before, yields the same history and result. Repeated runs do not accumulate heap memory, open files or MPI objects.",
 ["histories", "configurations"], "all sequences of runs with arbitrary problems in one process",
 "tests run each program once",
 ["src/nlcglib.cpp", "src/utils/logger.hpp", "src/csingleton.hpp", "src/utils/env.hpp", "src/mpi/mpi_type.hpp"],
 [("no state besides logger and environment switch", "logger.hpp, env.hpp"), ("MPI datatypes", "mpi_type.hpp")],
 observe=["result histories", "heap in use", "/proc/self/fd", "MPI profiling layer"])

prop("C17", "Dense matrix kernels compute what they claim",
 "Inner and outer products, subspace transformation, scaled addition, row/column scaling, diagonal extraction and construction, trace products, Hermitian eigendecomposition, positive definite solve and (generalised) Loewdin orthogonalisation return the mathematically defined result within rounding for every shape, leading dimension and scalar factor, leave their inputs intact, and do not read the destination when its factor is zero. A solve or eigendecomposition that LAPACK reports as failed, and operands the kernels do not support (row-major or distributed storage), end in an exception, not in a wrong result.",
 ["inputs"], "all shapes (including 1x1, tall, square), strides, real/complex element types and scalars",
 "three unit tests use one real-valued 30x5 shape and one 20x20 solve",
 ["src/la/lapack_cpu.hpp", "src/la/lapack.hpp", "src/la/cblas.hpp", "src/la/utils.hpp"],
 [("BLAS/LAPACK wrappers", "lapack_cpu.hpp"), ("elementwise kernels", "lapack.hpp")],
 observe=["return values of the kernels"])

prop("C18", "Keyed collections and collectives lose, duplicate or mix nothing",
 "Gathering a keyed collection over a communicator gives every rank exactly the union of all entries with unchanged values under unchanged keys, for any distribution including ranks without entries; reductions equal the reduction of all contributions; applying a function over collections pairs entries of equal key, evaluates each exactly once per evaluation and keeps the communicator of the first operand.",
 ["inputs", "configurations", "schedules"], "all key sets, entry sizes, element types, rank counts and distributions",
 "test_mpi_wrapper prints gathered data of one fixed layout without checking it",
 ["src/la/mvector.hpp", "src/mpi/communicator.hpp", "src/mpi/mpi_type.hpp", "src/la/utils.hpp"],
 [("serialised allgather", "mvector.hpp"), ("derived MPI datatypes", "mpi_type.hpp"), ("tapply/tapply_async/unzip", "utils.hpp, mvector.hpp")],
 observe=["gathered collections on every rank"])

prop("C19", "Process-wide services are safe to use from several threads",
 "The shared log and the process-wide switches can be used concurrently by several threads of the host program without data races; every message written to an attached log arrives exactly once and unscrambled.",
 ["schedules"], "all interleavings of logging, prefixing and flushing threads",
 "tests are single threaded; races depend on the schedule",
 ["src/utils/logger.hpp", "src/csingleton.hpp", "src/utils/env.hpp"],
 [("lock in Logger::operator<<", "logger.hpp"), ("call_once", "csingleton.hpp"), ("atomic switch", "env.hpp")],
 observe=["ThreadSanitizer", "log file content"])

prop("C20", "Results respect the symmetries of the physical problem",
 "Transformations that leave the physics unchanged leave the outcome unchanged: a constant energy shift moves free energy and chemical potential accordingly, unitary basis changes, band permutations, complex conjugation, k-point reordering and relabelling, splitting a k-point into equal copies sharing its weight, describing a spin-degenerate system with one doubly occupied or two singly occupied channels, and a change of the energy unit only rescale or do not change the free-energy history.",
 ["inputs"], "all problems and all such transformations, for every smearing",
 "metamorphic relation over pairs of runs; no test runs the minimiser once",
 ["src/nlcglib.cpp", "src/smearing.hpp", "src/mvp2/descent_direction.hpp", "src/pseudo_hamiltonian/grad_eta.hpp", "src/free_energy.hpp"],
 [("weights, occupancy and temperature enter all terms consistently", "grad_eta.hpp, smearing.hpp, free_energy.hpp")],
 observe=["free-energy histories of paired runs"])

prop("C21", "The line search always ends with an acceptable outcome",
 "For every free-energy profile that is bounded below, the line search ends after a bounded number of evaluations: either with a step whose free energy does not exceed the starting value and which is also the last state evaluated, or with a reset to the starting point and a request to restart, or (if a restart was already pending) with a descent error; a positive slope is refused before any evaluation.",
 ["inputs", "histories"], "all profiles (smooth, rough, discontinuous), slopes, trial steps and backtracking factors, pending and non-pending restarts",
 "no test calls the line search",
 ["src/linesearch/linesearch.hpp", "src/exceptions.hpp"],
 [("quadratic step", "linesearch.hpp qline"), ("backtracking", "linesearch.hpp bt_search")],
 observe=["sequence of evaluated step lengths", "returned tuple / exception / restart flag"])

prop("C22", "Unsupported or invalid requests are refused loudly",
 "Requests the library cannot serve - non-positive temperature, unknown smearing, unreachable electron count, non-positive restart period, arrays in device memory or distributed over several ranks, device or unavailable entry points on a host-only build, invalid backtracking factor when it is needed - end in a C++ exception before a result is returned; they never crash the process, return a result, or leave the library unusable.",
 ["inputs", "configurations"], "all entry points and all such requests, in any order with valid ones",
 "no test makes an invalid request",
 ["src/nlcglib.cpp", "src/smearing.hpp", "src/la/mvector.hpp", "src/la/lapack_cpu.hpp", "src/linesearch/linesearch.hpp"],
 [("argument checks that throw", "nlcglib.cpp, smearing.hpp, mvector.hpp, lapack_cpu.hpp")],
 observe=["exceptions at the public entry points"])

prop("C23", "GPU back ends give the same results as the CPU back end",
 "Every entry point gives the same result on CUDA and ROCm devices (with or without MAGMA) as on the host.",
 ["configurations", "inputs"], "all back ends and problems",
 "GPU tests are not built without a GPU tool chain",
 ["src/la/lapack_cuda.hpp", "src/la/lapack_rocm.hpp", "src/la/cuda.hpp", "src/la/rocm.hpp", "src/la/magma.cpp"],
 [("device specialisations of the kernels", "lapack_cuda.hpp, lapack_rocm.hpp")])

prop("C24", "The overlap self-check reports the true deviation",
 "The exported check (nlcheck_overlap) of an overlap operator against its inverse reports the norms of X, S X and S^-1 X, the trace of X^H S X and the norm of X - S^-1 S X, summed over all k-points, spins and ranks, correctly for whatever operators the caller supplies; in particular the reported deviation vanishes (up to rounding) exactly if the second operator inverts the first on the orbitals. It modifies neither the orbitals nor the state of the energy object.",
 ["inputs", "configurations"], "all overlap operators and supposed inverses, k-point sets and distributions",
 "no test calls nlcheck_overlap",
 ["src/nlcglib.cpp", "src/overlap.hpp", "src/operator.hpp", "src/la/lapack.hpp"],
 [("norms and traces reduced over ranks", "lapack.hpp l2norm, innerh_reduce"), ("operator application per key", "operator.hpp")],
 observe=["console output of nlcheck_overlap"])

prop("C25", "The text log describes the current run, completely and truthfully",
 "When a minimisation returns, the text log (nlcg.out, written by the master rank only) describes that run and no other: its parameters, exactly one entry per iteration with the free energy, residual, entropy term, Fermi energy and energy of the state accepted at that iteration, success if and only if the run converged and an error if and only if it was given up early. The console shows the same iterations, once. This holds whatever runs - converged, aborted or failed with an exception - went before it in the process.",
 ["inputs", "histories"], "all sequences of converging, aborted, failing and too short runs in a process, any number of ranks",
 "no test reads a log; the defect only shows in the run after the one that caused it",
 ["src/nlcglib.cpp", "src/utils/logger.hpp"],
 [("iteration table", "nlcglib.cpp print_info"), ("opening, replacing and flushing the log file", "logger.hpp")],
 observe=["nlcg.out and standard output after each run of a chain of runs"])

prop("C26", "The kinetic-energy preconditioner follows its formula for every key",
 "The diagonal preconditioner built from caller-supplied kinetic energies multiplies each row of a matrix with the Payne-Teter-Allan factor of that row's kinetic energy, (27+18t+12t^2+8t^3)/(27+18t+12t^2+8t^3+16t^4), for every key, vector stride and energy from zero to very large values, out of place (leaving its operand intact) or in place; a key for which no kinetic energies were supplied is refused.",
 ["inputs"], "all kinetic energies, keys and shapes",
 "no test uses the preconditioner",
 ["src/preconditioner.hpp"],
 [("Teter factor", "preconditioner.hpp PreconditionerTeter"), ("row scaling", "preconditioner.hpp diagonal_preconditioner::apply")],
 observe=["results of applying the preconditioner"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
