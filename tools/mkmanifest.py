#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = ["C%02d" % k for k in range(1, 15)]
GEN = []
if os.path.exists(os.path.join(HERE, "sim", "gen", "Cargo.toml")):
    GEN = ["C%02d" % k for k in range(20, 30)]
NA = {
    "C30": "A fact about the compiler as a pure function of the schema: nothing that schedules, faults or histories could change decides it. (Generated code of every simulated schema is compiled, and a failure to compile fails the checks that needed it, but that does not decide this property.)",
    "C31": "Rejection of ill-formed schemas is a pure function of one input without time, I/O or interleaving; deterministic simulation adds nothing over example tests.",
    "C32": "No Swift toolchain is installed, so the Swift runtime cannot run in a simulation.",
    "C33": "Template rendering is a pure function of its input.",
}
RT_T = "deterministic simulation with fault injection: seeded search over histories, sink and link faults and damage, against a reference codec"
GEN_T = "deterministic simulation with fault injection: file system calls interposed, seeded faults, crashes and interleavings, against the fault-free outputs"
T = {p: RT_T for p in RT}
T["C14"] = "deterministic simulation: chains of relays over links that damage messages and sinks that fail, each hop compared with the reference codec"
T["C13"] = "deterministic simulation: seeded baton scheduler interleaves callers at every callback, each history compared with the caller running alone"
RT_N = "Seeded sampling of schedules, faults and values over a hand-written and a random set of protocols; a clean run is evidence, not proof. Trusts the reference codec and register model in sim/core."
GEN_N = "Seeded sampling of schedules, faults and crash points over generated schema sets; a clean run is evidence, not proof. Trusts the interposed libc layer in sim/gen and that all file access goes through it."
checks = []
for p in RT + GEN:
    checks.append({
        "property": p,
        "quick_cmd": "./check %s --tier quick" % p,
        "thorough_cmd": "./check %s --tier thorough" % p,
        "technique": T.get(p, GEN_T),
        "level": "exploration",
        "level_note": RT_N if p in RT else GEN_N,
    })
na = [{"property": p, "reason": r} for p, r in NA.items()]
if not GEN:
    na += [{"property": "C%02d" % k, "reason": "Not yet claimed: the simulator of the compiler's file access is under construction."} for k in range(20, 30)]
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the runtime is driven through its own seams (sinks, slices, buffers), the compiler through interposed libc entry points of the simulator's own process."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as o:
    json.dump(m, o, indent=1)
    o.write("\n")
