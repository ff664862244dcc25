#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claims below (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("differential trajectory monitor against an independent integrator and exact solutions, random fields", "Every push observed in the workload matched the reference within the fourth-order error bound; trusts the reference integrator in harness/phys.hh."),
 "C02": ("differential trajectory monitor (Landau-Lifshitz reference), convergence-order monitor", "As C01 with the drag computed independently."),
 "C03": ("per-step optical-depth monitor against first-principles synchrotron rate and the shipped tables", "Sampled eta over the table range; statistical statements at 6 sigma or rarer."),
 "C04": ("per-emission conservation monitor, spectrum goodness-of-fit against first principles", "Conservation checked on every emission seen; spectrum at sampled eta."),
 "C05": ("statistical monitor of recorded photons against emissions seen on the lepton", "Thresholds beyond 6 sigma."),
 "C06": ("per-call frame monitor plus mean-power monitor", "Thresholds beyond 6 sigma plus the stated 5%."),
 "C07": ("per-conversion conservation monitor, NaN sentinels", "Checked on every conversion seen."),
 "C08": ("per-step optical-depth monitor against tables and first principles, goodness-of-fit of the energy split", "Sampled chi over the table range."),
 "C09": ("pointwise monitor of wave and Maxwell invariants by finite differences at random space-time points", "Random waves, polarisations, foci."),
 "C10": ("measurement monitor: amplitude, focus, waist, duration, wavelength, polarisation measured on the field", "Random pulses."),
 "C11": ("statistical monitor of generated beams", "Thresholds beyond 6 sigma; directions include all axes and random ones."),
 "C12": ("goodness-of-fit, repeatability and cross-thread stream-distinctness monitors", "Thresholds beyond 6 sigma."),
 "C13": ("algebraic-identity monitor over random and degenerate operands", "Relative tolerance a few hundred ulp."),
 "C14": ("shadow-state monitor of particle kinematics and recorded histories", "Every update compared with a shadow model."),
 "C15": ("shadow-state monitor with destructor-counting particles", "Exactly-once destruction counted on instrumented particles."),
 "C16": ("differential monitor: random decks parsed by the real parser, parameters compared with a model of the deck", "Decks drawn from the documented keys and notations."),
 "C17": ("fault-injection monitor on the parser in child processes, with AddressSanitizer, UBSan and LeakSanitizer", "Mutated and random decks; every child's end judged."),
 "C18": ("differential monitor of histograms against a shadow model", "Every bin compared."),
 "C19": ("read-back monitor: random output sequences written by the real output manager, file read back through the HDF5 library", "Every value compared exactly or to rounding of the unit factor."),
 "C20": ("end-to-end trace monitor: QEDCASC runs of random decks, output files checked for conservation, counts, kinematics and histograms", "Random decks of every field, model and source; energy balance to 1e-5."),
 "C21": ("distributed-trace monitor: mpirun with an MPI profiling interposer that injects delays and records messages; the gathered file checked for exactly-once and sums", "Rank counts 1-8, send modes and slow ranks drawn at random; energy balance to 1e-5."),
 "C22": ("ThreadSanitizer with an instrumented OpenMP runtime and injected delays, and exactly-once, thread-count-invariance monitors on the results, also under libgomp", "Team sizes 1-16; races in HDF5 and numpy are not seen."),
 "C23": ("stateful API monitor: random RunManager call sequences in forked children against a model, SI-unit kinematics, and differential runs against QEDCASC", "Call sequences drawn at random; statistics beyond 6 sigma."),
 "C24": ("AddressSanitizer, UBSan, LeakSanitizer, libstdc++ assertions, valgrind and memory-growth measurement over the workloads of the other checks", "Only executions seen; valgrind on smaller workloads."),
 "C25": ("fault-injection monitor of QEDCASC processes: exit status, message, crash, hang and files left", "Command lines, missing tables and settings drawn at random."),
 "C26": ("identity monitor of the unit tables and unit-field trajectories", "Constants from CODATA."),
}
LATER = {
 "C27": "Source/Geant (and the Geant4 and TensorFlow parts of the build) need Geant4 and TensorFlow, neither installed nor obtainable offline: the code cannot be compiled, so no execution exists to monitor.",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick python3 checks/run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p,
                 "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in ids if p in T],
     "not_applicable": [{"property": p, "reason": LATER.get(p, "check not built yet")} for p in ids if p not in T]}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
