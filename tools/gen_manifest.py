#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
OBS = "monitored executions; the oracle judges what was executed, nothing is claimed about inputs, schedules or crash points that were not reached"
T = {
 "C01": ("differential monitor against an independent Ethash specification", "exploration", OBS + ". Trusts the reference in harness/ref, which is anchored by published test vectors."),
 "C02": ("differential monitor against an independent KawPow specification", "exploration", OBS + ". Trusts harness/ref (published KawPow vectors)."),
 "C03": ("differential monitor against an independent FiroPow specification", "exploration", OBS + ". Trusts harness/ref (published FiroPow vectors)."),
 "C04": ("differential monitor of the ProgPoW core over random programs and parameter sets", "exploration", OBS + ". Trusts harness/ref."),
 "C05": ("differential monitor against an independent Octopus specification, with crafted retry hashes", "exploration", OBS + ". Trusts harness/ref (Conflux vectors)."),
 "C06": ("differential monitor; exhaustive sweep of every height segment of the N schedule", "exploration", OBS + ". The N schedule is swept at every change point."),
 "C07": ("differential monitor over every input length up to several blocks", "exploration", OBS),
 "C08": ("differential monitor with crafted singular seeds and a termination watch on a CPU clock", "exploration", OBS + ". Termination means: within 100 s and 50 s of CPU for a call of milliseconds."),
 "C09": ("verdict monitor against a global definition; solver-made valid and single-rule-broken solutions", "exploration", OBS + ". Valid and one-rule-broken solutions come from an own Wagner solver (small sets live, shipped sets from a committed corpus)."),
 "C10": ("verdict monitor against a global definition for twisted Equihash; solver-made solutions", "exploration", OBS),
 "C11": ("verdict monitor against a global definition for BeamHash III; solver-made solutions", "exploration", OBS),
 "C12": ("verdict and error-truth monitor over solved Cuckoo graphs and crafted edge tables", "exploration", OBS + ". Error truth follows the documented names."),
 "C13": ("verdict and error-truth monitor over solved Cuckaroo graphs and crafted edge tables", "exploration", OBS),
 "C14": ("online monitor of size queries against the growth schedule, every tabled epoch and beyond", "exploration", OBS + ". Tables are swept completely."),
 "C15": ("online monitor of epoch and seed queries against iterated Keccak", "exploration", OBS),
 "C16": ("content monitor: caches, L1 and dataset items against the specification, memory and disk", "exploration", OBS),
 "C17": ("Go race detector plus result, deadlock and crash monitors under concurrent stress", "exploration", OBS + ". Data races are judged by ThreadSanitizer's happens-before on the executed schedules."),
 "C18": ("online monitor of residency: identity, reachability via weak references, and an LRU model over request histories", "exploration", OBS),
 "C19": ("online monitor of generation events (inotify, allocation, identity) under concurrent requests", "exploration", OBS),
 "C20": ("fault workload over storage contents with result and repair monitors", "exploration", OBS),
 "C21": ("crash injection at every traced system call and at random moments, with directory audit and restart", "fault_enumeration", OBS + ". Crash points: every file-system call of the traced generations, each by its own run, and sampled calls of traces under a failing call; process kill, not power loss."),
 "C22": ("fault injection into every traced storage call (strace), resource limits, tmpfs, mmap stand-in", "fault_enumeration", OBS + ". Faults: one per run at every traced call with several errno values, persistent ones, sampled pairs, and resource exhaustion."),
 "C23": ("offline checker over directory states and the kernel's event log per request", "exploration", OBS),
 "C24": ("resource monitor (descriptors, mappings) and fault watch under eviction and collection", "exploration", OBS),
 "C25": ("multi-process stress with publication monitor and result oracle", "exploration", OBS),
 "C26": ("panic, fault and CPU-time monitor under hostile inputs", "exploration", OBS + ". Promptly means: within the CPU watch."),
 "C27": ("purity monitor: guard bytes, kept results, overwritten buffers, answers of fresh processes as oracle", "exploration", OBS),
 "C28": ("differential monitor of the primitives against own implementations", "exploration", OBS + ". One known finding (see KNOWN_FINDINGS.json)."),
 "C29": ("guard-page and canary monitor over all lengths and alignments: amd64, 386 and WebAssembly builds run, the arm64 build interpreted over exact memory", "exploration", OBS + ". The arm64 build is executed by an interpreter written here (harness/arm64); an instruction it does not know ends that run as undecided."),
 "C30": ("differential monitor of the generator program's output", "exploration", OBS),
 "C31": ("transcript comparison of amd64, 386 and WebAssembly builds, and with the specification", "exploration", OBS + ". arm64 is executed only for the XOR kernel (C29). WebAssembly stands in for 64-bit platforms with portable code."),
 "C32": ("offline checker over file incarnations and the kernel's event log across restarts", "exploration", OBS),
 "C33": ("differential monitor of the presets against published parameters; storage observed as another user", "exploration", OBS),
 "C34": ("timed requests during the generation of other epochs; a wait of most of a generation, three trials in a row, is a violation", "exploration", OBS),
}
checks = []
for c in sorted(T):
    t, l, n = T[c]
    checks.append({"property": c, "quick_cmd": "python3 check.py " + c, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + c,
                   "evidence_file": "evidence/%s.json" % c, "technique": "runtime monitoring: " + t, "level": l, "level_note": n})
json.dump({"version": 1, "setup_cmd": "go version && python3 --version", "checks": checks, "not_applicable": [],
           "notes": "The harness is compiled into /repo's module through a build overlay (check.py), so no hook is committed in /repo. Every check rebuilds from /repo's working tree."},
          open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
