"""Writes MANIFEST.json from the families that exist and tools/na.json."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic simulation of write/read histories with short and interrupted system calls, table model",
    "C02": "deterministic simulation with crash, power-loss and I/O fault injection at chosen system calls",
    "C03": "deterministic simulation of concurrent processes at system-call granularity, linearizability check, read fault injection",
    "C04": "deterministic simulation of converter runs with faults and kills at system calls, whole-disk comparison",
    "C05": "deterministic simulation of chains of converter runs with I/O faults against a reference conversion",
    "C06": "deterministic simulation of concurrent converter processes, seeded schedules and kills",
    "C07": "deterministic simulation of caller threads at statement and bytecode granularity, compared with solitary calls",
    "C08": "deterministic simulation of call histories with clock jumps, dirty memory, random-state and failure injection",
    "C09": "deterministic simulation of call histories in which callers overwrite results, argument snapshots",
    "C10": "deterministic simulation with allocation failures and interrupts injected at chosen points of computations",
    "C11": "deterministic simulation of container histories with failed changes against a dictionary model",
    "C12": "deterministic simulation of the random source: unique draws, failing draws, interleaved callers",
    "C13": "deterministic simulation of plot command sequences with I/O faults, pixel comparison",
    "C14": "deterministic simulation of figure sessions with failing calls, pixel comparison against a lone figure",
    "C15": "deterministic simulation of threads and processes that copy, pickle and fork, compared with solitary calls",
    "C16": "deterministic simulation of program starts: import orders, threads inside imports, I/O errors and interrupts in them",
    "C17": "deterministic simulation of long-running processes: ever new values, failing file calls, memory errors and interrupts, exact count of what remains",
}
NOTE = {
    "exploration": "Seeded sampling of schedules, faults and histories on the real code; a clean run is evidence, not proof. Trusts the "
                   "simulator's seams (preloaded file calls, allocator, trace hook) and the reference model in /verif/sim.",
    "fault_enumeration": "Seeded sampling of fault points inside every recorded operation of the real code; a clean run is evidence, not "
                         "proof. Trusts the seams, the fault models named in the evidence and the reference model in /verif/sim.",
}


def const(mod, name):
    with open(os.path.join(HERE, "sim", mod + ".py")) as f:
        for n in ast.parse(f.read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
                return ast.literal_eval(n.value)


fam = const("engine", "FAMILY")
na = json.load(open(os.path.join(HERE, "tools", "na.json")))
na = [dict(property=k, reason=v) for k, v in na.items()] if isinstance(na, dict) else na
checks = []
for p in sorted(fam):
    mod = fam[p]
    if not os.path.exists(os.path.join(HERE, "sim", mod + ".py")) or p not in const(mod, "RUNS"):
        na.append(dict(property=p, reason="its simulation family is not built yet"))
        continue
    lv = const(mod, "LEVEL")[p]
    checks.append(dict(property=p, quick_cmd=f"python3 run.py check {p}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py check {p}",
                       technique=TECH[p], level=lv, level_note=NOTE[lv]))
m = dict(version=1, setup_cmd="python3 run.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every seam is outside it (LD_PRELOAD, numpy memory handler, sys.settrace, patched clock and entropy). "
               "run.py re-executes itself under /opt/venv/bin/python; package code is always /repo's working tree.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
