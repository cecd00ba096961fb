"""Per-property run budgets and evidence text."""
_REAL = ["all of /repo's library sources except synk/loadimba.cpp (profiling add-on), compiled from the working tree",
         "synk barriers and wait/notify macros as inlined by the client code"]
_SIM = ["OpenMP runtime (libgomp): simulated, one OS thread, fibers", "malloc/new/_mm_malloc/mmap: simulated arena with red zones, poison and quarantine",
        "stdio: glibc streams over a simulated disk", "rdtsc, gettimeofday, rand: simulated", "CPU spin hint: scheduler yield"]
_ASSUME = ["memory is sequentially consistent in two thirds of the runs and x86-TSO (a store buffer per thread) in one third; weaker memory models and compiler reordering beyond this build are not simulated", "library compiled with -O1 and instrumentation by the same compiler the Makefile uses",
           "memory accesses made inside uninstrumented libc routines are checked only at the intercepted call"]
COMMON = dict(quick_runs=40000, quick_time=60, thorough_time=600, selfcheck=60, real=_REAL, simulated=_SIM, assumptions=_ASSUME)
NOTE = ("Seeded exploration: every run is one exactly repeatable execution of the real code under the simulator; silence means no violation on the runs listed in the evidence file, "
        "not a proof. Memory is sequentially consistent or, in a third of the runs, x86-TSO; sizes are bounded (see properties' generators in props/).")
CONF = {
  "C01": dict(quick_runs=280000, state_measure="(tasks, levels, threads) of the schedule built"),
  "C02": dict(quick_runs=300000, state_measure="(matrix entries, threads)"),
  "C03": dict(quick_runs=220000, state_measure="(matrix entries, threads)"),
  "C04": dict(quick_runs=270000, state_measure="(matrix entries, threads)"),
  "C05": dict(quick_runs=440000, state_measure="team shape (cores, threads per core)"),
  "C06": dict(quick_runs=420000, state_measure="(cores, threads per core, operation)"),
  "C07": dict(quick_runs=1200000, state_measure="(entries, rows, columns)"),
  "C08": dict(quick_runs=2200000, state_measure="(entries, product form, threads)"),
  "C09": dict(quick_runs=2000000, state_measure="execution length in 64-step buckets"),
  "C10": dict(quick_runs=220000, state_measure="(entries, parallel threshold)"),
  "C11": dict(quick_runs=1300000, state_measure="(components, entries)"),
  "C12": dict(quick_runs=260000, state_measure="(entries, components)"),
  "C13": dict(quick_runs=850000, state_measure="(entries, threads)"),
  "C14": dict(quick_runs=1200000, state_measure="(entries, threads)"),
  "C15": dict(quick_runs=300000, state_measure="(entries, file form)", faults=True),
  "C16": dict(quick_runs=600000, state_measure="(file form, execution length)", faults=True),
  "C17": dict(quick_runs=90000, state_measure="(workload form, execution length)", faults=True),
  "C18": dict(quick_runs=600000, state_measure="(utility, threads, execution length)"),
  "C19": dict(quick_runs=80000, state_measure="execution length in 16-step buckets", faults=True),
  "C20": dict(quick_runs=800000, state_measure="(grid sides, construction form)"),
  "C21": dict(quick_runs=200000, state_measure="(matrix entries, threads)"),
}
