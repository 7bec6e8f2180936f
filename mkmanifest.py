#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in step with properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "C01": ("differential fuzzing of verdicts against a reference solver", "an independent DPLL/enumeration reference solver decides satisfiability of every generated problem"),
 "C02": ("property-based testing with independent model evaluation", "printed models are evaluated by an independent evaluator and, when partial, extended by the reference solver"),
 "C03": ("fuzzing with crash / hang / verdict-line oracle", "a run that exceeds 3000000 clock reads or 10 s CPU counts as endless; normal runs need < 10000 reads and milliseconds"),
 "C04": ("trace-monitoring property-based testing; implication oracle", "every learned clause and resolvent of the -verbose trace is checked against the reference solver and against the reconstructed trail"),
 "C05": ("trace-monitoring property-based testing; trail model", "every assignment of the -verbose trace is replayed on an independent trail model"),
 "C06": ("trace-monitoring property-based testing; state model over the history", "the search state is reconstructed from the -verbose trace; levels, completeness of propagation and the final model are checked against it"),
 "C07": ("trace-monitoring property-based testing; heuristic reference model", "scores are recomputed independently; ties and halving order are left free"),
 "C08": ("trace-monitoring property-based testing; restart model", "restarts are observed in the trace and compared with the number of backtracks"),
 "C09": ("trace-monitoring property-based testing; counter model", "events of the trace are counted independently"),
 "C10": ("metamorphic property-based testing", "each problem is respelled or rewritten and the two runs are compared"),
 "C11": ("fuzzing over virtual clock schedules", "the clock is replaced at link time; time passes at drawn points"),
 "C12": ("metamorphic / differential fuzzing across runs, builds and memory contents", "builds -O0, -O1, -O3 and two heap/stack fill patterns are compared"),
 "C13": ("fuzzing under AddressSanitizer and UndefinedBehaviorSanitizer", "only accesses that the sanitizers can see; leaks are not errors"),
 "C14": ("property-based testing with model counting", "models of the encoding are counted and mapped by an independent solver"),
 "C15": ("property-based testing with model counting", "models of the encoding are counted and mapped by an independent solver"),
 "C16": ("property-based testing of the conversion; differential solving", "the written file is parsed and compared with the input clause by clause"),
 "C17": ("round-trip property-based testing", "repeated conversions are compared with the original"),
 "C18": ("property-based testing over options and random seeds", "the file is parsed strictly; satisfiability is decided by the reference solver"),
 "C19": ("property-based testing over options and random seeds", "the file is parsed strictly; satisfiability is decided by the reference solver"),
 "C20": ("differential fuzzing of the bit-vector solver", "reference solver for the verdict, set-wise evaluation for the model"),
 "C21": ("trace-monitoring property-based testing of the bit-vector solver", "the -verbose trace is replayed on an independent domain model"),
 "C22": ("fault-injecting fuzzing of file arguments", "missing, dangling, over-long and unwritable paths"),
 "C23": ("stateful property-based testing (model enumeration)", "the sequence of answers is compared with the reference's set of solutions"),
 "C25": ("fuzzing over virtual clock schedules", "the clock is replaced at link time; times are compared with 0.0002 s tolerance and a slack of 14 clock reads under a steady clock"),
 "C26": ("stateful property-based testing of file effects", "the whole working directory is compared before and after; files elsewhere are not watched"),
 "C27": ("statistical property-based testing over options and random seeds", "only absences whose probability under uniform draws is below e^-60 (e^-30 for pairs) count"),
 "C28": ("fault-injecting fuzzing of reads and writes", "read, write and writev are replaced at link time; only runs in which the fault was delivered are judged"),
 "C29": ("differential fuzzing around the limit of the representation", "refusal, or a right answer by the reference solver"),
 "C30": ("fuzzing with a proof checker as oracle (reverse unit propagation over the trace)", "the trace is checked step by step by propagation; no reference solver is involved, so problems may be hard"),
 "C31": ("fuzzing with a model-based trace monitor (history invariant)", "the trace is replayed on a model of clauses, remaining values and activities"),
 "C32": ("property-based testing of the benchmark generators against their problems' definitions", "colourings are compared clause by clause by implication, queens by placements (all of them up to 6 queens)"),
 "C24": ("fuzzing of menu dialogues", "dialogues and raw bytes on standard input; help texts are recognised by their usage lines"),
}
checks = []
for p in props:
    t, n = T[p["id"]]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py run %s --tier quick" % p["id"],
                   "thorough_cmd": "python3 check.py run %s --tier thorough" % p["id"],
                   "technique": t, "level": "exploration",
                   "level_note": "Holds on every generated case of the run (counts in the evidence file), not a proof; " + n + ". Trusts the harness in /verif/harness, g++ and rapidcheck."})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the programs are observed through their output, files, exit status and a link-time wrapped main/clock."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
