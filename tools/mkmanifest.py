"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation with fault injection"
notes = {
 "default": "Seeded search, not proof: random struct definitions are really expanded and compiled from the current tree, and seeded programs of builder operations by 1-4 clients run against them under a seeded scheduler with injected panics, errors and stalls at every user-code call. Each operation, each scheduling point and each finished run is judged against an independent reference model. Trusts the reference model, rustc and the probe types.",
}
extra = {
 "C19": " Here each program is a different place (edition, no_std crate, feature set, renamed dependency) and each definition has other surroundings in it (a function, macros of the same or another crate, items named like std's). What goes wrong counts only if the same definition, under the same plan, is right in plain surroundings.",
 "C14": " Interleavings are decided at user-code calls (and at futex waits, sleeps and yields, should generated code contain any), not at single machine instructions.",
 "C15": " Several builders of the same and of different types live in each run, and hundreds of runs share a process.",
 "C09": " Panics are injected at each conversion and clone call; allocation failure is not, because it aborts a Rust process.",
}
checks = []
for p in ["C%02d" % i for i in range(1, 22)]:
    if p == "C11":
        if not os.path.exists(os.path.join(V, "lib", "expcheck.py")):
            continue
        note = ("Seeded search, not proof: the real expansion entry point runs in one long-lived process with several simulated worker threads; a seeded scheduler decides every hand-over at heap allocations and at the entropy, clock and lock seams, and injects duplicated, reordered, truncated and corrupted requests, panicking requests and dying workers. Every result is compared token for token with the same expansion alone in a fresh process. Trusts the token comparison and that expansions share state only through memory reached by these paths.")
    elif p in ("C16", "C17", "C18"):
        what = {"C16": "names, visibilities, signatures, fields and trait implementations", "C17": "user's attributes, place by place", "C18": "parameters, bounds and predicates"}[p]
        note = (f"Seeded search, not proof: the real expansion entry point serves sessions of random definitions, correct ones and damaged or wrong ones, in a process with 1-4 simulated workers; a seeded scheduler decides every hand-over at heap allocations and waits, and injects damaged requests and dying or stalled workers. The {what} in each answer to a correct definition are compared with a list that a generator following the documentation wrote down together with the definition. Reads the generated items, not what rustc makes of them. Trusts syn and the generator.")
    elif p == "C20":
        note = ("Seeded search, not proof: the real expansion entry point serves sessions of definitions with and without injected mistakes in a process with 1-4 simulated workers; a seeded scheduler decides every hand-over at heap allocations and waits, and stalls and ends workers. A definition with mistakes has to be answered with diagnostics of which one lies in the lines of each faulty item, one without with a builder. The same texts go through the compiled macro in real compiler processes. Knows the kinds of mistakes its generator makes; mistakes that only rustc can see (types, unknown names) and the wording of diagnostics are not judged.")
    elif p == "C21":
        note = ("Seeded search, not proof: the real expansion entry point serves sessions of correct, wrong and damaged definitions in a process with 1-4 simulated workers; a seeded scheduler decides every hand-over at heap allocations and waits, and injects damaged requests and dying or stalled workers. Each answer is judged by itself: no panic, a bounded number of steps, a builder or diagnostics, and a well-formed builder for definitions that follow the documentation. Wording and completeness of diagnostics are not judged. Trusts syn, darling and proc_macro2's fallback implementation.")
    else:
        note = notes["default"] + extra.get(p, "")
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick", "thorough_cmd": f"python3 check.py {p} --tier thorough",
                   "technique": SIM + (" (expansion processes, compared with solo expansions in fresh processes)" if p == "C11" else " (expansion processes under damaged requests; each answer judged)" if p in ("C16", "C17", "C18", "C20", "C21") else " (generated builders against a reference model)"),
                   "level": "exploration", "level_note": note})
na = {}
if not any(c["property"] == "C11" for c in checks):
    na["C11"] = "Not claimed yet: its check is being built."
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(na.items())],
     "notes": "No hooks in /repo: the code's own seams (user-code calls of generated builders; the public expansion entry point) and libc symbols suffice. Eleven fix commits are in /repo, see known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
