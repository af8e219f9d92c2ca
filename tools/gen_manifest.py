#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: each observed evaluation against the Bernstein polynomial in double-double arithmetic",
 "C02": "runtime monitor: end points, coordinate range of the control points and designed hull functionals on observed evaluations",
 "C03": "runtime monitor: observed splits against the reference curve on both parts, nested splits",
 "C04": "runtime monitor: control points and values of observed derivatives against reference derivatives of each order",
 "C05": "runtime monitor: axis samplers and dd against the reference per axis",
 "C06": "runtime monitor: observed boxes against the exact extent and against observed evaluations",
 "C07": "runtime monitor: observed arc lengths against reference chord sums and metamorphic refinement",
 "C08": "runtime monitor: observed distances against a certified global search",
 "C09": "runtime monitor: observed distances against the exact segment distance",
 "C10": "runtime monitor: observed predicate answers against exact classification with an undecided band of rounding",
 "C11": "differential runtime monitor across the representations of one curve",
 "C12": "metamorphic runtime monitor over frame changes, permutations, embeddings and reversal",
 "C13": "runtime monitor: observed construction results against the documented decision table",
 "C14": "runtime monitor: domain and outcome of every observed evaluation, with panic capture",
 "C15": "runtime monitor: observed values against the Cox-de Boor recursion in double-double arithmetic",
 "C16": "runtime monitor: interpolation, hull, locality and continuity relations between observed values",
 "C17": "runtime monitor: observed derivative splines of every order against derivatives of the basis functions",
 "C18": "runtime monitor: observed spline lengths against reference chord sums, bounds and translation",
 "C19": "metamorphic runtime monitor over knot scales, shifts and mirroring",
 "C20": "runtime monitor: bit-exact component oracle on every observed point operation",
 "C21": "instrumented user-side point type (recording trait calls and axes read), differential against the provided type",
 "C22": "allocation monitor: counting global allocator armed inside each observed library call, self-tested",
 "C23": "instrumented build (overflow, bounds, library preconditions) with a step-counting scalar, watchdog and finiteness monitor; AddressSanitizer in thorough",
 "C24": "Miri on a 32-bit and a 64-bit target, natively instrumented builds in both precisions, AddressSanitizer in thorough; reference monitor on each",
 "C26": "ThreadSanitizer (instrumented std) and Miri's race detector on threads sharing one object, bitwise differential monitor against sequential answers; the sharing program itself has to build",
 "C27": "runtime monitor: observed comparisons against component-wise equality",
 "C28": "stack monitor (marks below each library call) against plain data of the same type; freestanding program compared with a hosted run",
 "C29": "differential runtime monitor across build profiles: digests of all answers of each case compared",
 "C30": "history monitor: objects met along random chains of operations, differential against newly constructed ones and against a double-double reference of the chain",
 "C31": "fault-injection monitor: text and outcome of printing, read back and on output devices that fail at a random byte",
 "C25": "history monitor: bit-exact shadow state over random histories of queries, copies and mutations",
}
NOTE = {
 "default": "No violation among the observed executions of the real code (counts per run in the evidence file), in the 64-bit (f64) and, through a guarded hook, the 32-bit (f32) scalar configuration. Trusts the reference arithmetic and tolerances of the oracle; inputs are sampled, not enumerated.",
 "C24": "No undefined behaviour found by Miri (riscv64 and armv7 interpretation, hundreds of cases in quick) nor by instrumented native runs of the same workload; results within precision of the reference on every target. Miri and the sampled workload are trusted.",
 "C26": "No wrong answer and no race report while 3 threads per object asked millions of queries natively, thousands of cases under ThreadSanitizer, and tens of cases under Miri. Interleavings are the scheduler's and Miri's random ones, not all.",
 "C28": "Stack use observed per call, up to 100000 steps; the bound is a multiple of the use on plain data of the same type. The freestanding program covers every operation on a fixed set of 192 answers per precision.",
 "C29": "Identical answers in the development, unoptimised, release and native-CPU builds (more in thorough: size, LTO, checked release) for every case of the workload, in both scalar configurations. Digests are 64 bits per case; one compiler.",
 "C22": "No heap event between entry and exit of any observed library call; the process's own allocator is the observer and is shown to see an allocation at the start of each run. Sampled inputs, every operation.",
}
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "technique": T[i],
        "level": "exploration",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "stroke_verif_f32",
        "enable": "RUSTFLAGS=\"--cfg stroke_verif_f32\" when building the harness (crate /verif/harness, path dependency on /repo); selects the library's own 32-bit scalar configuration on a 64-bit host. The f64 runs use no hook.",
        "source_commits": ["1af0fe45"],
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "Findings (all repaired) are listed in known-findings.txt; how each property is decided is described in DESIGN.md.",
}
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", "1af0fe4"], capture_output=True, text=True).stdout.strip()]
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(R, "MANIFEST.json"), "a").write("\n")
