#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json
import os

from specs import SPECS

HERE = os.path.dirname(os.path.abspath(__file__))
T = {
    "verify": ("generated workloads under ASan+UBSan; independent verdict oracle observes every verification", ["C01", "C02", "C18"]),
    "meta": ("generated workloads under ASan+UBSan; metamorphic monitor over permutations, subsets and extensions of key sets", ["C03"]),
    "parse": ("generated and coverage-guided (libFuzzer) workloads under ASan+UBSan; independent parser as oracle", ["C04", "C05"]),
    "hist": ("random histories under ASan+UBSan; every state compared with a fresh object's", ["C06"]),
    "grid": ("boundary grids and random values under ASan+UBSan; exact-arithmetic or normalising oracle", ["C07", "C08", "C16"]),
    "entry": ("workloads under a virtual clock and ASan+UBSan; conjunction oracle", ["C09"]),
    "import": ("generated documents under ASan+UBSan; key descriptors as oracle, key material compared", ["C10", "C11"]),
    "hostile": ("ASan+UBSan and valgrind over mutated inputs, libFuzzer, hang watchdog", ["C12"]),
    "clean": ("allocator byte accounting and error-queue monitor over repeated and faulted calls", ["C13"]),
    "conc": ("ThreadSanitizer under injected delays; concurrent results compared with sequential ones", ["C14"]),
    "fault": ("allocation-fault enumeration through BoringSSL's hooks under ASan+UBSan; fault-free run as oracle", ["C15"]),
    "work": ("exact counting of control flow edges, bytes moved and allocations over inputs of two sizes; growth compared", ["C19"]),
    "trace": ("hashed traces of control flow edges and libc memory calls compared between wrong signatures", ["C26"]),
    "effects": ("first calls run under a seccomp system call monitor in forked processes; process state and arguments compared before and after", ["C27"]),
    "pure": ("results in fresh processes compared with those in a process with a long, disturbed history", ["C28"]),
    "caches": ("ThreadSanitizer under injected delays; per-cache call logs replayed in one thread by an offline checker", ["C29"]),
    "codes": ("exhaustive execution over all codes", ["C17"]),
    "lru": ("random histories under a virtual clock and ASan+UBSan; reference model and callback monitor after every operation", ["C20", "C21", "C22", "C23", "C24", "C25"]),
}
tech = {p: t for t, ps in T.values() for p in ps}
props = [json.loads(x) for x in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in SPECS:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    s = SPECS[i]
    note = "Holds on every execution observed; no claim beyond them. "
    if s.get("exhaustive"):
        note = "All codes are executed. "
    if s["level"] == "fault_enumeration":
        note = "Every crypto allocation of every generated call is failed; no claim about calls not generated. "
    a = s.get("assumptions", [])
    checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                       technique=tech[i], level=s["level"], level_note=note + ("Assumes: " + "; ".join(a) + "." if a else "")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors observe the public interface, interposed libc and BoringSSL allocation functions. "
               "Replay a violation with: python3 run.py <ID> replay <file>.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
