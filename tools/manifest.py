"""Writes MANIFEST.json."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

tech = {
    "C01": "seeded schedules and request histories against the answers of fresh simulated servers",
    "C02": "seeded schedules, map orders and storage delays; byte comparison with a reference execution",
    "C03": "seeded schedules of opening generated reference graphs against a sequential reference walk",
    "C04": "seeded schedules of opening cyclic and layered reference graphs with counted work",
    "C05": "seeded storage fault injection against fault-free answers",
    "C06": "seeded storage fault injection followed by recovery, against fault-free answers",
    "C07": "seeded damage to filings and hostile requests under seeded schedules; crash, deadlock and step limit detection",
    "C08": "seeded schedules with happens-before race detection",
    "C09": "seeded concurrent creators with storage faults and crash points, checked by a restarted process",
    "C10": "seeded schedules and map orders; grids compared with the generated filing",
    "C11": "seeded request histories; catalogs and networks compared with the generated filing",
    "C12": "seeded schedules of fact lookups compared with the generated filing",
    "C13": "seeded schedules and read faults; served documents compared with the stored ones",
    "C14": "seeded interrupt moments, storage delays and grace periods under simulated time",
    "C15": "seeded states and read faults of the name list against answers with a complete list",
    "C16": "seeded references that lead outside and hostile requests; every file operation is monitored, answers compared with a disk without the other files",
    "C17": "seeded histories in which storage of opened filings fails, changes, disappears or time passes; answers compared with those over the original files",
    "C18": "seeded histories with damaged filings and storage faults; goroutines and open files counted at rest",
    "C19": "seeded storage stalls under overlapping requests; waiting measured in simulated time",
    "C21": "seeded slow, stuck and disconnecting clients among healthy ones; answers compared with those of fresh servers, waiting measured in simulated time",
    "C20": "seeded rounds of nonsense requests; memory in use compared between rounds",
}
note = {
    "C08": "Every access of the executed code is watched by the race detector in its own happens-before order, so a race is found in any schedule in which both accesses occur; races in code that no generated request reaches are not.",
    "C09": "A crash is the death of the process at a disk operation; power loss with unwritten caches is not simulated.",
    "C19": "Computing takes no simulated time, so only waiting for storage, locks or timers is seen, not slow computation.",
    "C21": "Computing takes no simulated time, so only waiting is seen. Connections are simulated at the level of reads and writes of the handler; packets are not.",
    "C20": "The memory in use is that of the real garbage collector; a request counts as kept when a quarter of its size or more remains.",
}
why_not = {
    "N01": "pure function of the reported strings: no schedule, fault, clock or history changes its result, so simulation decides nothing that a table of inputs would not",
    "N02": "pure function of two dates and a language; no schedule, fault, clock or history changes its result",
    "N03": "pure function of the definition relationships; what schedules, map orders and histories can change about it is decided under C02, C08 and C10",
    "N04": "pure function of the label linkbases; what schedules, map orders and histories can change about it is decided under C02 and C08",
}
default = ("Seeded search, not exhaustive: it shows that no explored combination of generated filing, request history, schedule, map order and fault breaks the property. "
           "Runs the real packages and main on a simulated scheduler, clock, disk and listener, which are trusted to behave like the real ones; goroutines are preempted at synchronisation, channel, disk and clock operations and between statements of the repository, not inside libraries.")
checks = []
for p in props:
    i = p["id"]
    if i in why_not:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bash bin/check " + i,
        "thorough_cmd": "bash bin/check " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation: " + tech[i],
        "level": "exploration",
        "level_note": (default + " " + note[i]) if i in note else default,
    })
m = {
    "version": 1,
    "setup_cmd": "bash bin/build.sh",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": why_not[p["id"]]} for p in props if p["id"] in why_not],
    "notes": "No hooks in /repo: bin/build.sh rewrites copies of the current sources and compiles them with go build -overlay. A failing check leaves its minimised replay file in replays/; bash bin/replay FILE runs it again. Repaired defects are listed in known-findings.txt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
