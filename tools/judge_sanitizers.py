#!/usr/bin/env python3
"""Reads the logs of a sanitizer run, writes evidence/C28.json and gives the verdict."""
import glob, json, os, re, shutil, sys, time
here, logs, tier, seed, t0, leaks = sys.argv[1:7]
REPORT = re.compile(
    r"WARNING: ThreadSanitizer|ERROR: AddressSanitizer|AddressSanitizer:DEADLYSIGNAL|ERROR: LeakSanitizer"
    r"|ThreadSanitizer:DEADLYSIGNAL|error: Undefined Behavior|error: memory leaked|error: deadlock"
    r"|error: the evaluated program (deadlocked|leaked|aborted)|error: unsupported operation|SUMMARY: (Thread|Address|Leak)Sanitizer")
FATAL = {132, 134, 135, 136, 139}
totals, runs, samples, notes, bad = {}, {}, [], [], []
evals = distinct = 0
for rcf in sorted(glob.glob(os.path.join(logs, "*.rc"))):
    name = os.path.basename(rcf)[:-3]
    rc = int(open(rcf).read().strip() or -1)
    log = open(os.path.join(logs, name + ".log"), errors="replace").read()
    tool = name.split("-")[0].replace("probe", "asan")
    runs[tool] = runs.get(tool, 0) + 1
    m = REPORT.search(log)
    functional = "VIOLATION property=" in log or "HARNESS ERROR" in log
    if m and "unsupported operation" in m.group(0):
        notes.append(f"{name}: Miri met an unsupported operation")
        m = None
    if m and functional and "LeakSanitizer" in m.group(0) and "AddressSanitizer: " not in log.replace("SUMMARY: AddressSanitizer: ", ""):
        m = None  # the run was cut short by a monitor of another property
    if m or rc == 77 and not functional or rc in FATAL:
        bad.append((name, m.group(0) if m else f"exit status {rc}"))
        continue
    if rc == 124:
        notes.append(f"{name}: stopped at its time limit")
    elif rc != 0:
        notes.append(f"{name}: ended with {rc}; judged only by sanitizer reports")
    m = re.search(r"SAN-EVIDENCE (.*)", log)
    if m:
        cov = json.loads(m.group(1))["coverage"]
        evals += cov["evaluations"]
        distinct += cov["distinct_nontrivial"]
        for k, v in cov.items():
            if k.startswith("n_"):
                key = f"n_{tool}_{k[2:]}"
                totals[key] = totals.get(key, 0) + v
        if len(samples) < 12 and tool in ("miri", "tsan", "asan"):
            samples.append(name + ": " + ", ".join(f"{k[2:]} {v}" for k, v in cov.items() if k.startswith("n_"))[:400])
    elif rc == 0:
        # a suite of another property under this sanitizer
        f = re.search(r"^(C\d\d): held", log, re.M)
        if f:
            key = f"n_{tool}_suites"
            totals[key] = totals.get(key, 0) + 1
if leaks == "0":
    notes.append("LeakSanitizer may not stop threads here; leaks were looked for by Miri only")
doc = dict(property="C28", tier=tier, seed=int(seed), level="exploration",
    coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
        rule="storm (threads doing everything the API offers on several drivers), breadth (random component trees on several threads), shared (Sync components shown concurrently), one case per random seed and sanitizer; plus the workloads of the other properties' checks under TSan and ASan. Only sanitizer reports count. Non-trivial: every case sends or shows something.",
        samples=samples, runs=runs, notes=notes, **totals),
    assumptions=["races and undefined behaviour are found on executed schedules only; Miri uses tree borrows (the json dependency violates stacked borrows)"],
    wall_s=round(time.time() - float(t0), 1), violations=len(bad))
json.dump(doc, open(os.path.join(here, "evidence", "C28.json"), "w"))
if bad:
    replay = os.path.join(here, "replays", f"C28-{bad[0][0]}.txt")
    shutil.copy(os.path.join(logs, bad[0][0] + ".log"), replay)
    for n, why in bad:
        print(f"C28 {n}: {why}")
    print(f"VIOLATION property=C28 replay={replay}")
    sys.exit(1)
if evals == 0:
    print("HARNESS ERROR: nothing ran", file=sys.stderr)
    sys.exit(2)
print(f"C28: no sanitizer reported anything ({runs})")
