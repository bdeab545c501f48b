"""Decides C11: seeded simulation of expansion processes with several workers, compared with solo expansions."""
import concurrent.futures
import json
import os
import random
import subprocess


import hostcheck
from common import *
import expgen

PKG = """[package]
name = "expsim"
version = "0.1.0"
edition = "2021"
publish = false
[[bin]]
name = "expsim"
path = "{verif}/expsim/src/main.rs"
[dependencies]
dbsim = {{ path = "{verif}/sim" }}
derive_builder_core = {{ path = "{repo}/derive_builder_core", features = ["{feat}"] }}
proc-macro2 = {{ version = "1", features = ["span-locations"] }}
quote = "1"
serde_json = "1"
syn = {{ version = "2", features = ["full"] }}
[profile.dev]
opt-level = 1
debug = 0
incremental = false
[workspace]
"""
FEATS = ["lib_has_std", "alloc"]


def build(feat="lib_has_std"):
    d = os.path.join(BUILD, f"expsim-{feat}")
    write_if_changed(os.path.join(d, "Cargo.toml"), PKG.format(verif=VERIF, repo=REPO, feat=feat))
    lock = open(os.path.join(VERIF, "gen", "Cargo.lock.template")).read()
    lock += '\n[[package]]\nname = "expsim"\nversion = "0.1.0"\ndependencies = [\n "dbsim",\n "derive_builder_core",\n "proc-macro2",\n "quote",\n "serde_json",\n "syn",\n]\n'
    write_if_changed(os.path.join(d, "Cargo.lock"), lock)
    rc, msgs, err = cargo(["build", "--offline", "--target-dir", os.path.join(TARGET, "x-" + feat)], d)
    if rc:
        text = "\n".join(m["message"].get("rendered", "") for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error")
        raise CheckError(f"the expansion process does not build:\n{text}\n{err[-3000:]}")
    return os.path.join(TARGET, "x-" + feat, "debug", "expsim")


def prepare():
    build()
    hostcheck.prepare()


def run(path, cmd, inp, timeout=200):
    try:
        p = subprocess.run([path] + cmd, input=json.dumps(inp).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", b"", e.stderr or b""
    err = err.decode("utf8", "replace")
    if rc == 70:
        raise CheckError(f"harness panic in the expansion process: {err[-2000:]}")
    res = None
    if rc == 0:
        res = json.loads(out.decode().splitlines()[-1])
    return rc, res, err


def solos(path, texts, seed):
    rc, res, err = run(path, ["solos"], {"texts": texts, "seed": seed})
    if rc:
        raise CheckError(f"solo expansions: {rc} {err[-2000:]}")
    return res["solos"]


def fails(path, s):
    """Why this session is a violation, or None; with its result."""
    rc, res, err = run(path, ["session"], s)
    if rc:
        return {"rule": "died", "detail": f"the expansion process died ({rc}) though each request alone is answered: {err[-400:]}"}, res
    if res["stuck"]:
        return {"rule": "stuck", "detail": res["stuck"]}, res
    if res["bad"]:
        b = res["bad"][0]
        return {"rule": "differs", "detail": f"request {b['request']} of worker {b['worker']} is expanded differently than alone in a fresh process",
                "text": b["text"], "got": b["got"]}, res
    return None, res


def gen_session(seed, texts):
    """texts: indices to choose from, each with its family's weight."""
    r = random.Random(seed)
    pick = r.sample(texts, min(len(texts), r.choice([1, 2, 2, 3, 4, 6, 10])))
    n = r.choice([1, 2, 2, 3, 3, 4])
    # Most processes serve few requests; some serve as many as a large crate's build.
    long = r.random() < .04
    total = r.choice([80, 300, 700]) if long else r.choice([4, 8, 16, 30])
    workers = [[] for _ in range(n)]
    for _ in range(total):
        q = {"text": r.choice(pick), "restart": r.random() < .08, "stall_at": r.choice([1, 10, 100, 1000, 3000]) if n > 1 and r.random() < .08 else 0}
        workers[r.randrange(n)].append(q)
    return {"seed": r.getrandbits(40), "every": r.choice([10000, 30000, 100000] if long else [3, 30, 300, 300, 1000, 3000, 3000, 10000, 30000]), "workers": [q for q in workers if q] or [[]],
            "downwards": r.random() < .3, "schedule": None}


def with_texts(s, texts, wants):
    used = sorted({q["text"] for w in s["workers"] for q in w})
    return {**s, "texts": [texts[i] for i in used], "wants": [wants[i] for i in used],
            "workers": [[{**q, "text": used.index(q["text"])} for q in w] for w in s["workers"]]}


# ---------------------------------------------------------------- minimising

def minimise(path, s, rule, clock, limit):
    """Smaller session with the same rule; prefers one worker, then few requests, then few hand-overs, then few lines."""
    def ok(c):
        if clock.s() > limit:
            return None
        v, res = fails(path, c)
        return (v, res) if v and v["rule"] == rule else None

    def flat(c):
        return [(w, q) for w, qs in enumerate(c["workers"]) for q in qs]

    def unflat(c, items):
        ws = {}
        for w, q in items:
            ws.setdefault(w, []).append(q)
        return {**c, "workers": [ws[w] for w in sorted(ws)] or [[]]}

    def tries(c):
        for k in range(1 if len(c["workers"]) == 1 else 6):
            x = {**c, "seed": c["seed"] if k == 0 else stable_seed(c["seed"], k), "schedule": None}
            if ok(x):
                return x
        return None

    if rule == "differs" or rule == "died":
        one = {**s, "workers": [[q for _, q in flat(s)]]}
        for c in (one, {**one, "workers": [one["workers"][0] * 2]}):
            x = tries(c)
            if x:
                s = x
                break
    for drop in ({"restart": False}, {"stall_at": 0}):
        x = tries({**s, "workers": [[{**q, **drop} for q in w] for w in s["workers"]]})
        if x:
            s = x
    size = max(1, len(flat(s)) // 2)
    while size >= 1:
        i, progress = 0, False
        while i < len(flat(s)):
            items = flat(s)
            x = tries(unflat(s, items[:i] + items[i + size:]))
            if x:
                s, progress = x, True
            else:
                i += size
        if size == 1 and not progress:
            break
        size = max(1, size // 2)
    # Lines of the texts, which needs new solos.
    used = sorted({q["text"] for _, q in flat(s)})
    for t in used:
        k = 0
        while clock.s() < limit:
            lines = s["texts"][t].split("\n")
            if k >= len(lines):
                break
            texts = list(s["texts"])
            texts[t] = "\n".join(lines[:k] + lines[k + 1:])
            x = tries({**s, "texts": texts, "wants": solos(path, texts, 1)})
            if x:
                s = x
            else:
                k += 1
    used = sorted({q["text"] for _, q in flat(s)})
    s = with_texts(s, s["texts"], s["wants"])
    # From here on the schedule is written down.
    r = ok(s)
    if r and r[1]:
        rec = {**s, "schedule": r[1]["schedule"]}
        if ok(rec):
            s = rec
            size = max(1, len(s["schedule"]) // 2)
            while size >= 1:
                i = 0
                while i < len(s["schedule"]):
                    x = {**s, "schedule": s["schedule"][:i] + s["schedule"][i + size:]}
                    if ok(x):
                        s = x
                    else:
                        i += size
                size //= 2
    return s


def report(path, feat, s, v, clock):
    s = minimise(path, s, v["rule"], clock, clock.s() + 60)
    a = fails(path, s)
    rc, res, err = run(path, ["session", "--log"], s)
    same = bool(a[0]) and a[1] == res
    d = {"property": "C11", "kind": "expansion-simulation", "mode": "session", "feature": feat, "violation": a[0] or v, "reproduces_exactly": same,
         "digest": res and res["digest"], "session": s, "trace": err.splitlines()[-200:]}
    if not same:
        log("warning: the replay is not exact")
    return (a[0] or v), replay_path("C11", d)


# ---------------------------------------------------------------- the check

TIERS = {"quick": dict(seconds=30, families=160, sessions=6, max_rounds=6, host=(10, 16)), "thorough": dict(seconds=600, families=400, sessions=12, max_rounds=1000, host=(80, 60))}


def check(tier, seed):
    t = TIERS[tier]
    clock = Clock()
    cov = dict.fromkeys(["served", "switches", "mid_expansion", "waits", "stalls", "restarts", "allocs", "entropy_reads", "clock_reads", "surroundings_reads", "disk_opens"], 0)
    kinds, outcomes = {}, {"tokens": 0, "rejected": 0, "unparsable": 0, "panicked": 0}
    sessions = multi = faulty = rechecks = nsolos = 0
    digests, samples, found, mismatch = set(), [], [], []
    rnd = 0
    feats = {}
    sim_s = 0.0
    while rnd < t["max_rounds"] and not found and (not rnd or clock.s() < t["seconds"]):
        feat = FEATS[rnd % 2 if tier == "thorough" else 0]
        path = build(feat)
        feats[feat] = feats.get(feat, 0) + 1
        jobs = list(range(t["families"]))

        def work(i):
            fam = expgen.family(stable_seed("family", seed, rnd, i))
            r = random.Random(stable_seed("cross", seed, rnd, i))
            if r.random() < .4:
                fam = fam + [x for x in expgen.family(stable_seed("family", seed, rnd, r.randrange(t["families"]))) if x not in fam]
            texts = [x for _, x in fam]
            a, b = (solos(path, texts, stable_seed(k, seed, rnd, i)) for k in "ab")
            out = []
            if a == b and not any(x.startswith("died") for x in a):
                for k in range(t["sessions"]):
                    s = with_texts(gen_session(stable_seed("session", seed, rnd, i, k), list(range(len(texts)))), texts, a)
                    v, res = fails(path, s)
                    again = fails(path, s)[1] if k == 0 and i % 4 == 0 else None
                    out.append((s, v, res, again))
                    if v:
                        break
            return fam, a, b, out

        t0 = clock.s()
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for fam, a, b, out in ex.map(work, jobs):
                nsolos += 2 * len(a)
                for (k, text), x, y in zip(fam, a, b):
                    kinds[k] = kinds.get(k, 0) + 1
                    outcomes["panicked" if x.startswith("panic:") else "unparsable" if x.startswith("not a struct") else
                             "rejected" if "compile_error !" in x else "tokens"] += 1
                    if x != y or x.startswith("died"):
                        found.append(("solo", feat, text, x, y))
                for s, v, res, again in out:
                    sessions += 1
                    multi += len(s["workers"]) > 1
                    if res:
                        for k in cov:
                            cov[k] += res[k]
                        nt = res["switches"] + res["restarts"] + res["stalls"] > 0
                        faulty += nt
                        if nt:
                            digests.add((res["digest"], hash(tuple(s["texts"]))))
                        if len(samples) < 3 and nt and len(s["workers"]) > 1:
                            samples.append({"texts": s["texts"], "workers": s["workers"], "first_hand_overs": res["schedule"][:30]})
                    if again is not None:
                        rechecks += 1
                        if again != res:
                            mismatch.append(s["seed"])
                    if v:
                        found.append(("session", feat, s, v, path))
        sim_s += clock.s() - t0
        rnd += 1
    host = {"sessions": 0}
    if not found:
        host, hfound = hostcheck.check(seed, *t["host"])
        found += hfound
    reports = []
    seen = set()
    for x in found:
        if len(reports) >= 2:
            break
        if x[0] == "session":
            if x[3]["rule"] in seen:
                continue
            if x[3]["rule"] in ("died", "stuck") and not any(fails(x[4], x[2])[0] for _ in range(2)):
                log(f"not repeatable: {x[3]}")
                continue
            seen.add(x[3]["rule"])
            reports.append(report(x[4], x[1], x[2], x[3], clock))
        elif x[0] == "solo":
            if "solo" in seen:
                continue
            seen.add("solo")
            _, feat, text, p, q = x
            v = {"rule": "solo", "detail": "two fresh processes with different entropy, clock, environment and addresses expand it differently" if p != q else f"expanding it kills the process: {p}",
                 "text": text, "one": p, "other": q}
            d = {"property": "C11", "kind": "expansion-simulation", "mode": "solo", "feature": feat, "violation": v, "text": text, "trace": []}
            reports.append((v, replay_path("C11", d)))
        else:
            reports.append((x[1], replay_path("C11", x[2])))
    if mismatch and not reports:
        raise CheckError(f"same seed, different execution: {mismatch}")
    for v, p in reports:
        log(f"C11: {v['rule']}: {v['detail']}")
        print(f"VIOLATION property=C11 replay={p}", flush=True)
    wall = clock.s()
    write_evidence("C11", {
        "property": "C11", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sessions + host["sessions"], "distinct_nontrivial": len(digests),
            "rule": "one evaluation is one session: a fresh expansion process with 1-4 worker threads serving a seeded list of requests under a seeded schedule, "
                    "every answer compared token for token with the same request alone in a fresh process. Counted as distinct and non-trivial: sessions with at least one "
                    "hand-over, dying worker or stall whose texts or sequence of requests and hand-overs differ from all others.",
            "samples": samples, "rounds": rnd, "texts_by_kind": kinds, "solo_outcomes": outcomes, "solo_expansions_in_fresh_processes": nsolos,
            "requests_served": cov["served"], "sessions_with_several_workers": multi, "sessions_with_a_hand_over_or_fault": faulty,
            "hand_overs": cov["switches"], "hand_overs_in_the_middle_of_an_expansion": cov["mid_expansion"],
            "simulated_steps": cov["allocs"], "simulated_time_note": "logical: one step is one allocation of the code under test; it reads no clock (clock reads seen: %d)" % cov["clock_reads"],
            "faults_injected": {"dying_workers": cov["restarts"], "stalled_workers": cov["stalls"], "lock_waits": cov["waits"],
                                "requests_that_panic": outcomes["panicked"], "rejected_requests": outcomes["rejected"], "corrupted_or_truncated_texts": kinds.get("corrupted", 0),
                                "new_entropy_clock_environment_addresses": "every process"},
            "entropy_reads": cov["entropy_reads"], "reads_of_environment_directory_process_or_processors": cov["surroundings_reads"], "opened_files": cov["disk_opens"], "features": feats,
            "compiler_host": host,
            "seeds_per_hour": int(sessions / max(wall, .001) * 3600), "seeds_per_hour_simulating_only": int(sessions / max(sim_s, .001) * 3600),
            "determinism_rechecks": rechecks, "determinism_mismatches": len(mismatch),
            "real_components": ["derive_builder_core::builder_for_struct", "darling, syn, quote", "proc_macro2 (its fallback implementation)", "OS threads (one runs at a time)",
                                "in the compiler-host part: rustc, the compiled derive_builder_macro and the proc_macro bridge"],
            "stubbed_components": ["the compiler's side of the proc-macro bridge (except in the compiler-host part)", "thread scheduler", "heap placement", "futex, entropy, clock and sleep seams"],
        },
        "assumptions": ["spans carry no meaning for the comparison: tokens, their order, spacing and delimiters do",
                        "hand-overs happen at heap allocations and at lock, sleep and yield calls; between two allocations a worker runs undisturbed"],
        "wall_s": round(wall, 2), "violations": len(reports)})
    return 1 if reports else 0


def replay_file(d):
    if d["mode"] == "host":
        return hostcheck.replay(d)
    if d["mode"] == "solo":
        path = build(d["feature"])
        res = {solos(path, [d["text"]], k)[0] for k in range(40)}
        bad = len(res) > 1 or any(x.startswith("died") for x in res)
        print(f"{len(res)} different answers" if bad else "no violation")
        return 1 if bad else 0
    path = build(d["feature"])
    s = d["session"]
    # What it gives alone is a question to the current tree.
    s = {**s, "wants": solos(path, s["texts"], 1)}
    v, res = fails(path, s)
    _, _, trace = run(path, ["session", "--log"], s)
    print(trace)
    if not v:
        print("no violation")
        return 0
    print(f"{v['rule']}: {v['detail']}")
    print("reproduced exactly" if res and res["digest"] == d["digest"] else "differs from the recorded execution")
    return 1
