"""Which monitored workloads decide which property."""

WRAP = ["-Wl,--wrap=" + f for f in ("cblas_zgemm", "LAPACKE_zheevd", "LAPACKE_zpotrf", "LAPACKE_zpotrs")]
BINS = {
    "drv": {"src": ["drv.cpp"], "lib": True},
    "h_smear": {"src": ["h_smear.cpp"], "core": True},
    "h_la": {"src": ["h_la.cpp"], "core": True},
    "h_coll": {"src": ["h_coll.cpp"], "core": True},
    "h_ls": {"src": ["h_ls.cpp"], "core": True},
    "h_pre": {"src": ["h_pre.cpp"], "core": True},
    "h_thr": {"src": ["h_thr.cpp"]},
    "h_thr_tsan": {"src": ["h_thr.cpp"], "san": "tsan"},
    "drv_asan": {"src": ["drv.cpp", "shim.cpp"], "lib": True, "san": "asan", "ldflags": WRAP},
    "h_la_asan": {"src": ["h_la.cpp", "shim.cpp"], "core": True, "san": "asan", "ldflags": WRAP},
    "h_coll_asan": {"src": ["h_coll.cpp"], "core": True, "san": "asan"},
    "h_smear_asan": {"src": ["h_smear.cpp"], "core": True, "san": "asan"},
}


def T(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def drv(prop, tier, seed, mode, q, t, *extra, **kw):
    """one workload of the black-box driver: q/t cases in the quick/thorough tier"""
    n = T(tier, q, t)
    budget = T(tier, 150, 1500)
    p = {"bin": "drv", "args": [mode, seed, "@A", "@B", "prop=" + prop, "budget=%d" % budget] + list(extra), "n": n}
    p.update(kw)
    return p


def fuzz(prop, tier, seed, prof, q, t):
    return drv(prop, tier, seed, "fuzz", q, t, "profile=" + prof)


def hh(prop, tier, seed, bin, mode, q, t, *extra, **kw):
    """one workload of a harness that drives the library's headers directly"""
    p = {"bin": bin, "args": [mode, seed, "@A", "@B", "prop=" + prop, "budget=%d" % T(tier, 150, 1500)] + list(extra),
         "n": T(tier, q, t), "optional": True}
    p.update(kw)
    return p


RULE = ("random well-formed problems (1-8 k-points/spins, 2-12 (48) basis functions, ultrasoft or trivial overlap, "
        "preconditioner kinds, all smearing schemes, linear / self-consistent / non-convex / noisy energy functionals, "
        "padded layouts) derived from seed and case number; a case is non-trivial if the library ran on it; distinct "
        "cases are counted by problem class (smearing, functional, overlap, preconditioner, occupancy, spectrum, size)")

CHECKS = {}


def check(prop, parts, require, level="exploration", evaluations=("cases",), distinct=("classes",), rule=RULE, **kw):
    CHECKS[prop] = dict(parts=parts, require=list(require), level=level, evaluations=list(evaluations), distinct=list(distinct), rule=rule, **kw)


check("C01", lambda tier, s: [
    fuzz("C01", tier, s, "general", 4800, 60000),
    fuzz("C01", tier, s, "rough", 4800, 60000),
    fuzz("C01", tier, s, "long", 480, 4000),
    drv("C01", tier, s, "lie", 2400, 30000),
], ["accepted_transitions", "lie_runs_aborted", "lie_runs_recovered"])

check("C02", lambda tier, s: [drv("C02", tier, s, "c02", 7200, 80000)],
      ["reference_compared", "variational_checks"])

check("C03", lambda tier, s: [
    fuzz("C03", tier, s, "general", 4800, 60000),
    fuzz("C03", tier, s, "short", 4800, 60000),
    fuzz("C03", tier, s, "cold", 1200, 10000),
    fuzz("C03", tier, s, "long", 480, 4000),
    drv("C03", tier, s, "lie", 2400, 30000),
    drv("C03", tier, s, "c03tol", 1600, 20000),
], ["summaries_checked", "runs_converged", "runs_not_converged", "tolerances_at_the_edge"])

check("C04", lambda tier, s: [
    fuzz("C04", tier, s, "general", 4800, 60000),
    fuzz("C04", tier, s, "rough", 2400, 30000),
    fuzz("C04", tier, s, "large", 480, 4000),
    fuzz("C04", tier, s, "long", 480, 4000),
], ["orth_checks"])

check("C05", lambda tier, s: [
    fuzz("C05", tier, s, "general", 3200, 60000),
    fuzz("C05", tier, s, "cold", 1600, 30000),
    drv("C05", tier, s, "c09", 80, 2000, np=3, slices=1),
    hh("C05", tier, s, "h_smear", "obj", 24000, 300000),
    hh("C05", tier, s, "h_smear", "obj", 6000, 100000, env={"NLCGLIB_DISABLE_NEWTON_EFERMI": "1"}),
    hh("C05", tier, s, "h_smear", "obj", 600, 10000, np=3, slices=1),
], ["electron_checks", "occupations_compared", "electron_counts_tight"])

check("C06", lambda tier, s: [
    fuzz("C06", tier, s, "general", 4800, 60000),
    fuzz("C06", tier, s, "cold", 1200, 15000),
    hh("C06", tier, s, "h_smear", "fun", 12000, 200000),
    hh("C06", tier, s, "h_smear", "obj", 12000, 200000),
    hh("C06", tier, s, "h_smear", "obj", 600, 10000, np=3, slices=1),
], ["entropies_compared", "function_values_compared", "derivative_relations_checked"])

check("C07", lambda tier, s: [drv("C07", tier, s, "c07", 8000, 100000)],
      ["slopes_compared_conjugated", "slopes_compared_restarted"], distinct=["slope_classes"])

def c08_post(jobs, stats, sets):
    """no iteration is special: restarts out of turn must be as rare there as elsewhere"""
    at, out = {}, []
    for j in jobs:
        for l in j.out.splitlines():
            if l.startswith("IDX "):
                _, i, r, n = l.split()
                x = at.setdefault(int(i), [0, 0, j])
                x[0] += int(r)
                x[1] += int(n)
    R, N = sum(x[0] for x in at.values()), sum(x[1] for x in at.values())
    if not N:
        return out
    stats["restart_positions_judged"] = 0
    for i, (r, n, j) in sorted(at.items()):
        p = max(R / N, 0.02)
        if n < 30:
            continue
        stats["restart_positions_judged"] += 1
        # binomial: expectation np; 9 sigma and half of everything
        if r > n * p + 9 * (n * p * (1 - p)) ** 0.5 and r > n * min(1, 2 * p) and r > 0.25 * n:
            out.append(("restart-position", "iteration %d was restarted out of turn in %d of %d runs (all iterations: %.1f %%)" % (i, r, n, 100 * R / N), j))
    return out


check("C08", lambda tier, s: [drv("C08", tier, s, "c08", 14400, 100000),
                              drv("C08", tier, s, "c08long", 800, 12000, noreplaycase=True),
                              drv("C08", tier, s, "c08edge", 800, 12000)],
      ["restart_directions", "conjugated_directions", "rotations_compared", "runs_with_forced_reset",
       "long_conjugated", "long_restarts_due", "restart_positions_judged", "edge_uphill_by_little", "edge_downhill_by_little"], post=[c08_post],
      evaluations=["directions_compared"], distinct=["direction_classes"])

check("C09", lambda tier, s: [
    drv("C09", tier, s, "c09", 150, 6000, np=np, slices=1) for np in (2, 3, 4)
] + [drv("C09", tier, s + 1, "c09", 150, 6000, np=2, slices=1), drv("C09", tier, s + 2, "c09", 60, 2000, np=6, slices=1)],
      ["collectives_recorded", "distributed_runs", "iterations_compared"], distinct=["distributions"])

check("C10", lambda tier, s: [
    drv("C10", tier, s, "c10", 2000, 60000),
    fuzz("C10", tier, s, "general", 800, 30000),
], ["layout_pairs", "guard_checks"], distinct=["layouts"])

check("C12", lambda tier, s: [
    fuzz("C12", tier, s, "general", 4800, 60000),
    fuzz("C12", tier, s, "rough", 2400, 30000),
    drv("C12", tier, s, "lie", 2400, 30000),
], ["evaluations_monitored"])

check("C13", lambda tier, s: [
    fuzz("C13", tier, s, "general", 4800, 60000),
    fuzz("C13", tier, s, "large", 240, 3000),
    fuzz("C13", tier, s, "rough", 2400, 30000),
], ["operator_checks", "operand_owner_confirmed"])

check("C14", lambda tier, s: [
    fuzz("C14", tier, s, "long", 480, 8000),
    fuzz("C14", tier, s, "general", 3200, 60000),
    drv("C14", tier, s, "lie", 1600, 30000),
    drv("C14", tier, s, "c09", 120, 2000, np=3, slices=1),
], ["json_records"])

check("C15", lambda tier, s: [drv("C15", tier, s, "c15", 96, 400, "step=1",
                                  env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})],
      ["faults_injected", "clean_reruns"], level="fault_enumeration", evaluations=["faults_injected"], distinct=["fault_sites"],
      rule="an exception is thrown from the k-th callback of a run, k enumerated; non-trivial if the fault was reached; distinct by the callback (and its nesting) that threw")


def c16_post(jobs, stats, sets):
    """the same minimisation in different processes, orders and heap layouts: same bits"""
    seen, out = {}, []
    for j in jobs:
        for l in j.out.splitlines():
            if l.startswith("DIGEST "):
                _, c, d = l.split()
                k = c
                stats["digests_compared_across_processes"] = stats.get("digests_compared_across_processes", 0) + (k in seen)
                if k in seen and seen[k][0] != d:
                    out.append(("process", "case=%s: two processes (%s | %s) computed different histories for the same minimisation" % (c, " ".join(seen[k][1].part["args"][4:]), " ".join(j.part["args"][4:])), j))
                seen.setdefault(k, (d, j))
    return out


check("C16", lambda tier, s: [
    drv("C16", tier, s, "c16", 256, 1600, "order=%d" % o, "rounds=%d" % r, env=e, noreplaycase=True) for o, r, e in (
        (0, 2, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"}),
        (1, 3, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "MALLOC_PERTURB_": "90"}),
        (2, 2, {"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "MALLOC_PERTURB_": "165"}))
], ["repetitions_compared", "resource_blocks"], post=[c16_post])

check("C20", lambda tier, s: [drv("C20", tier, s, "c20", 1600, 60000)],
      ["metamorphic_pairs", "iterations_compared"], distinct=["relations"])

check("C22", lambda tier, s: [
    drv("C22", tier, s, "c22", 24 * 96, 24 * 800),
    drv("C22", tier, s, "c22", 24 * 12, 24 * 40, np=2, slices=1),
], ["invalid_requests", "valid_runs_after"], evaluations=["invalid_requests"], distinct=["requests"],
      rule="one invalid request per case (24 kinds, enumerated) on a random problem, followed by a valid run in the same process; distinct by kind of request")


# ---------------------------------------------------------------- memory
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1",
        "UBSAN_OPTIONS": "print_stacktrace=1"}
VG = ["valgrind", "-q", "--error-exitcode=99", "--error-limit=no", "--num-callers=25", "--leak-check=no"]


def asan(prop, tier, seed, mode, q, t, *extra, **kw):
    p = drv(prop, tier, seed, mode, q, t, *extra, env=ASAN, **kw)
    p["bin"] = "drv_asan"
    return p


check("C11", lambda tier, s: [
    asan("C11", tier, s, "fuzz", 160, 12000, "profile=general"),
    asan("C11", tier, s, "fuzz", 96, 6000, "profile=rough"),
    asan("C11", tier, s, "fuzz", 16, 800, "profile=large"),
    asan("C11", tier, s, "lie", 64, 4000),
    asan("C11", tier, s, "c10", 48, 3000),
    asan("C11", tier, s, "c15", 8, 64, "step=%d" % T(tier, 31, 5)),
    asan("C11", tier, s, "c22", 24 * 4, 24 * 40),
    asan("C11", tier, s, "c09", 24, 600, np=3, slices=1),
    hh("C11", tier, s, "h_la_asan", "la", 400, 30000, env=ASAN),
    hh("C11", tier, s, "h_coll_asan", "coll", 200, 6000, env=ASAN, np=3, slices=1),
    hh("C11", tier, s, "h_smear_asan", "obj", 400, 20000, env=ASAN),
    drv("C11", tier, s, "fuzz", 24, 600, "profile=general", wrap=VG, env={"OPENBLAS_CORETYPE": "Haswell"}),
    drv("C11", tier, s, "lie", 16, 300, wrap=VG, env={"OPENBLAS_CORETYPE": "Haswell"}),
] + [drv("C11", tier, s, "c16", 48, 1600, "order=0", "rounds=1", "fill=%d" % f, noreplaycase=True,
         env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "MALLOC_PERTURB_": str(f)}) for f in (1, 128, 255)],
      ["blas_calls_checked", "digests_compared_across_processes", "evaluations_monitored"], post=[c16_post])

# ---------------------------------------------------------------- building blocks
check("C17", lambda tier, s: [
    hh("C17", tier, s, "h_la", "la", 4800, 300000),
    hh("C17", tier, s, "h_la", "la", 200, 6000, np=3, slices=1),
    drv("C17", tier, s, "fuzz", 800, 20000, "profile=general", also=("C04",)),
], ["kernel_results_compared", "failures_provoked", "refusals_provoked", "guard_checks"], evaluations=["kernel_results_compared"],
      distinct=["shapes", "scalars"], rule="random shapes (1-70), leading dimensions, scalar factors (0, 1, -1, imaginary, general), strided and owning storage; distinct by shape relation and kind of scalars")

check("C18", lambda tier, s: [
    hh("C18", tier, s, "h_coll", "coll", T(tier, 500, 10000), T(tier, 500, 10000), np=np, slices=1, mpirun=True) for np in (1, 2, 3, 4, 5, 7)
] + [drv("C18", tier, s, "c09", 60, 2000, np=3, slices=1, also=("C09",))],
      ["gathers_compared", "reductions_compared", "applications_checked"], evaluations=["gathers_compared", "reductions_compared", "applications_checked"],
      distinct=["distributions"], rule="random keyed tables (0-14 entries, arbitrary keys, arrays of 0-30 elements) distributed in five schemes over 1-7 ranks and over split communicators; distinct by number of ranks, scheme and presence of empty ranks")

check("C19", lambda tier, s: [
    hh("C19", tier, s, "h_thr", "log", 800, 40000),
    hh("C19", tier, s, "h_thr", "env", 400, 8000),
    hh("C19", tier, s, "h_thr_tsan", "log", 400, 20000, env={"TSAN_OPTIONS": "halt_on_error=0:exitcode=66"}),
    hh("C19", tier, s, "h_thr_tsan", "env", 200, 4000, env={"TSAN_OPTIONS": "halt_on_error=0:exitcode=66"}),
    drv("C19", tier, s, "fuzz", 64, 400, "profile=short"),
], ["messages_accounted", "singleton_first_uses", "switch_first_reads"], evaluations=["messages_accounted", "switch_first_reads", "singleton_first_uses"],
      distinct=["log_kinds"], rule="2-8 threads writing tagged messages with random pauses while others push prefixes, flush and query; distinct by thread count, prefixes, churn, console, rank")

check("C21", lambda tier, s: [
    hh("C21", tier, s, "h_ls", "ls", 200000, 8000000),
    drv("C21", tier, s, "lie", 800, 30000, also=("C01", "C12")),
    drv("C21", tier, s, "fuzz", 800, 30000, "profile=rough", also=("C01",)),
], ["line_searches", "outcome_accepted", "outcome_reset", "outcome_descent_error", "outcome_refused", "lie_runs_aborted", "lie_runs_recovered"],
      evaluations=["line_searches", "runs"], distinct=["profiles", "classes"])

# ---------------------------------------------------------------- diagnostics and logs
check("C24", lambda tier, s: [
    drv("C24", tier, s, "c24", 4000, 100000),
    drv("C24", tier, s, "c24", 300, 6000, np=3, slices=1),
], ["overlap_checks"], distinct=["overlap_kinds"])

check("C25", lambda tier, s: [
    drv("C25", tier, s, "c25", 1600, 40000),
    drv("C25", tier, s, "c25", 100, 3000, np=3, slices=1),
], ["logs_checked", "log_records", "headers_checked", "aborted_runs"], evaluations=["logs_checked"], distinct=["chains"],
      rule="chains of four runs in one process, each normal, too short, dishonest (aborted), failing with an exception or converging; distinct by kind of run, kind of the run before it and number of ranks")

check("C26", lambda tier, s: [
    hh("C26", tier, s, "h_pre", "pre", 8000, 400000),
], ["preconditioned_elements", "unknown_keys"], evaluations=["preconditioned_elements"], distinct=["shapes"],
      rule="random tables of kinetic energies (zero to 1e12) under arbitrary keys and strides; distinct by shape and stride")

# ---------------------------------------------------------------- how each property is decided (for MANIFEST.json)
BB = "trusts the mock Hamiltonian and reference formulas of the harness, and the system BLAS/LAPACK/MPI"
TECH = {
    "C01": ("online monitor in the energy callback: free energies of accepted states, recomputed from the caller's own energy and occupations, must not increase; smooth, rough, noisy and dishonest energy landscapes",
            "Holds on every accepted transition of the monitored runs; " + BB + ". For the two smearings without f-only entropy the library's own entropy is used after C06 has compared it."),
    "C02": ("offline oracle over finished runs: independent dense eigen-solver / self-consistency reference, plus an online lower-bound monitor on every evaluation",
            "Well-posed small problems only (2-12 basis functions, no band numerically full or empty); " + BB + "."),
    "C03": ("offline checker: returned summary against the monitored history of evaluations and the step log, over normal, short, non-positive maxiter and aborted runs, and repeated with tolerances at the residual of an iteration",
            "Holds on every monitored run; " + BB + "."),
    "C04": ("online monitor: X^H S X - 1 computed with the harness' own overlap matrix at every evaluation, with an error bound derived from the operands handed to the overlap operator",
            "Tolerance scales with the conditioning of the operand, so a loss of accuracy below that bound is not seen; " + BB + "."),
    "C05": ("online monitor of the weighted electron count at every set_fn, also distributed over MPI; direct stress of the occupation search against a long double reference root",
            "Random spectra and weights; exceptions are accepted only where the reference finds no root; " + BB + "."),
    "C06": ("oracle comparison at run time: every smearing function against long double closed forms, numerical derivatives and limits on dense and adversarial arguments; entropy of each monitored run",
            "Sampled arguments, |x| up to overflow range; trusts the closed forms written in the harness."),
    "C07": ("finite-difference monitor: the reported slope against differences of free energies along the path that the trial states really follow (recorded through the evaluation callback)",
            "Accuracy of the difference quotient (about 1e-5 relative), so smaller errors of the slope are not seen; " + BB + "."),
    "C08": ("online shadow model: each search direction reconstructed from the trial states is compared with a naive re-implementation of the documented direction, including rotation, projection and restart schedule",
            "Directions are observed through the states they produce; " + BB + "."),
    "C09": ("differential monitoring under mpirun (2-6 ranks): distributed against serial run of the same problem, PMPI interposition compares the collective sequence of all ranks, watchdog for deadlock",
            "Shared-memory Open MPI, at most 6 ranks; schedules are those the MPI library produced plus random per-rank delays."),
    "C10": ("differential monitoring over layouts (padding, row stride, row-major, vector stride, per-collection order, relabelled keys) with canaries in all unused elements and snapshots of caller-owned arrays",
            "Comparison tolerance from measured sensitivity of each run; " + BB + "."),
    "C11": ("ASan+UBSan builds of all workloads, a BLAS/LAPACK wrapper that checks operand extents against shadow memory, valgrind memcheck, and differential runs with different malloc fill patterns",
            "Only executed paths; the system BLAS and MPI are not instrumented, their operands are."),
    "C12": ("online automaton over the callback trace (write orbitals, set_fn, compute, read, set_chemical_potential, report) and final-state comparison at return",
            "Holds on every monitored callback trace; " + BB + "."),
    "C13": ("online monitor in the operator callbacks: key, shape, stride, aliasing, memory type, ownership of operands (by subspace test), poisoned result buffers",
            "Ownership of an operand is only decidable where the subspaces of k-points differ; " + BB + "."),
    "C14": ("offline checker: nlcg.json of each run parsed and compared field by field with the monitored history, serial and distributed",
            "Holds on every monitored run; " + BB + "."),
    "C15": ("fault enumeration: an exception thrown from the k-th callback of a run for k enumerated, identity of the exception, resource counters, and bitwise comparison of a clean rerun; under ASan as part of C11",
            "Every callback index of each scenario, one exception type (of five) per index."),
    "C16": ("repeated, reordered and interleaved runs compared bitwise within and across processes with different heap fills; heap, descriptor and MPI-object counters over blocks of runs",
            "Leak threshold is growth per block over several blocks; the serial Kokkos back end is the only one available."),
    "C17": ("oracle comparison of each dense kernel with naive long double loops over random shapes, strides and scalars, with NaN-poisoned destinations, canaries and provoked LAPACK failures",
            "Shapes up to 70; part of the check compiles against internal headers and is skipped (and reported as such) should they be renamed."),
    "C18": ("oracle comparison under mpirun (1-7 ranks): gathers, reductions and keyed application against the union known to the harness; call counting monitors",
            "Random distributions including empty ranks; shared-memory Open MPI."),
    "C19": ("ThreadSanitizer and exactly-once accounting of tagged messages written by 2-8 threads with random delays, prefix pushes, flushes and queries",
            "Schedules produced by the OS plus injected delays; not an enumeration of interleavings."),
    "C20": ("metamorphic monitoring: pairs of runs on problems related by a symmetry, histories compared within a tolerance measured from the runs' own sensitivity",
            "Nine kinds of symmetry on random problems; chaotic runs are compared up to where the measured sensitivity allows."),
    "C21": ("direct stress of the line search on synthetic profiles (quadratic, rough, stepped, noisy, NaN, flat) with an online monitor of the evaluation sequence and an outcome automaton; dishonest energies in full runs",
            "Profiles are sampled; a profile unbounded below is outside the property."),
    "C22": ("each invalid request (24 kinds, enumerated) issued against the real entry points, followed by a valid run in the same process that must match a clean one",
            "The kinds of request are the harness' list; the values within a kind are sampled."),
    "C24": ("console output of the exported overlap self-check captured and compared with the harness' own matrices, serial and under mpirun; state snapshots before and after",
            "Six printed digits; " + BB + "."),
    "C25": ("nlcg.out and standard output captured after each run of random chains of runs in one process and compared with the monitored history, serial and under mpirun",
            "Chains of four runs; the labels of the log are part of the observed format."),
    "C26": ("oracle comparison of the header-only preconditioner with the long double formula on random tables, operand snapshots",
            "Compiles against an internal header; skipped (and reported as such) should it be renamed."),
}
for _p, (_t, _n) in TECH.items():
    CHECKS[_p]["technique"] = "runtime monitoring: " + _t
    CHECKS[_p]["level_note"] = _n
