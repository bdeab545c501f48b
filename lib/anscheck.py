"""Decides C16-C18, C20 and C21: in simulated expansion processes, every answer is judged by itself."""
import concurrent.futures
import random
import re

from common import *
import expcheck
import expgen
import hostcheck
import surface

TIERS = {"quick": dict(seconds=40, families=600, files=10, max_rounds=100), "thorough": dict(seconds=600, families=1500, files=30, max_rounds=1000)}
RULES = {"panic": "the expansion panics", "unparsable": "the answer to a documented definition is not a list of items", "empty": "the answer is empty",
         "refused": "a documented definition is refused", "accepted": "a definition with a mistake is not rejected", "elsewhere": "no diagnostic points to the mistake", "steps": "the expansion takes more steps than its text accounts for",
         "surface": "what can be seen of the builder is not what the definition asks for", "attributes": "the user's attributes are not where they belong",
         "parameters": "the builder's type parameters are not limited as the definition asks for",
         "not a struct definition": "a documented definition does not parse"}


FINE = ("answered", "unseen")
KNOWN = ("C16", "C17", "C18")
QUESTIONS = {"C16": lambda s: surface.family(s, 1), "C17": lambda s: surface.family(s, 2), "C18": lambda s: surface.family(s, 3), "C20": expgen.mistakes, "C21": expgen.questions}


def fails(path, s):
    rc, res, err = expcheck.run(path, ["session"], s)
    if rc:
        return {"rule": "died", "detail": f"the expansion process died or did not finish ({rc}): {err[-400:]}"}, res
    if res["stuck"]:
        return {"rule": "stuck", "detail": res["stuck"]}, res
    if res["bad"]:
        b = res["bad"][0]
        rule = b["got"].split(":")[0]
        return {"rule": rule, "detail": f"{RULES.get(rule, rule)} (request {b['request']} of worker {b['worker']}): {b['got'][:300]}", "text": b["text"]}, res
    return None, res


def gen_session(seed, fam):
    """Every text at least once."""
    r = random.Random(seed)
    n = r.choice([1, 1, 2, 3, 4])
    order = list(range(len(fam))) + [r.randrange(len(fam)) for _ in range(r.choice([0, 2, 6]))]
    r.shuffle(order)
    workers = [[] for _ in range(n)]
    for t in order:
        workers[r.randrange(n)].append({"text": t, "restart": r.random() < .08, "stall_at": r.choice([1, 10, 100, 1000]) if n > 1 and r.random() < .08 else 0})
    return {"seed": r.getrandbits(40), "every": r.choice([30, 300, 1000, 3000, 10000]), "workers": [q for q in workers if q], "downwards": r.random() < .3, "schedule": None,
            "judge": True, "texts": [t for _, t, _ in fam], "wants": [""] * len(fam), "expect": [e for _, _, e in fam]}


def shrink(text, ok):
    """Without the lines, then the words, that are not needed."""
    for sep in ("\n", " "):
        size = max(1, len(text.split(sep)) // 2)
        while size:
            k = 0
            while k < len(text.split(sep)):
                p = text.split(sep)
                x = sep.join(p[:k] + p[k + size:])
                if ok(x):
                    text = x
                else:
                    k += size
            size //= 2
    return text


def hosted(tools, texts, seed, expect=None):
    """What the real compiler says about each text: "unseen" if its own parser stops before the macro, "answered", or the violation."""
    expect = expect or [None] * len(texts)
    # Under a false condition the compiler asks for no expansion.
    seen = [re.sub(r"(?m)^ *#\[cfg\(.*$", "#[allow(dead_code)]", t) if isinstance(e, list) else t for t, e in zip(texts, expect)]
    res = hostcheck.compile_(tools, seen, seed)
    if len(texts) > 1 and all(o in ("nothing", "the compiler does not finish") for o, _ in res):
        h = len(texts) // 2
        return hosted(tools, texts[:h], seed, expect[:h]) + hosted(tools, texts[h:], seed, expect[h:])
    out = []
    for (o, d), e in zip(res, expect):
        # A literal that the compiler itself rejects arrives as a broken token; what syn makes of it is not the macro's affair.
        bad = [x for x in d if "panicked" in x[1]] if len(d) == 1 else []
        if bad:
            out.append(f"the compiler reports {bad[0][1:]}")
        elif o == "the compiler does not finish":
            out.append(o)
        elif o == "nothing" and not d:
            out.append("unseen")
        elif not isinstance(e, list):
            out.append("answered")
        elif not d:
            out.append(RULES["accepted"])
        elif all(any(a - (a == 1) <= x[0] + 1 <= b for x in d) for a, b in e):
            out.append("answered")
        else:
            out.append(f"a mistake in lines {e} is not pointed to: {d}")
    return out


def ranges(e):
    """Lines of mistakes, not names of items."""
    return isinstance(e, list) and isinstance(e[0], list)


def fewer_lines(text, expect, ok):
    """Without the lines that are no part of the mistakes."""
    k = 1
    while k <= text.count("\n") + 1:
        p = text.split("\n")
        t = "\n".join(p[:k - 1] + p[k:])
        e = [[a - (k < a), b - (k < a)] for a, b in expect]
        if not any(a <= k <= b for a, b in expect) and k > 1 and ok(t, e):
            text, expect = t, e
        else:
            k += 1
    return text, expect


def minimise(path, s, rule, clock, limit):
    def ok(c):
        if clock.s() > limit:
            return False
        v, _ = fails(path, c)
        return bool(v) and v["rule"] == rule

    def one(c, i):
        return {**c, "workers": [[{"text": 0, "restart": False, "stall_at": 0}]], "texts": [c["texts"][i]], "wants": [""], "expect": [c["expect"][i]]}

    v, res = fails(path, s)
    if not v:
        return s
    first = [s["texts"].index(v["text"])] if "text" in v else []
    for i in first + list(range(len(s["texts"]))):
        x = one(s, i)
        if ok(x):
            s = x
            break
    if len(s["texts"]) > 1:
        # It takes several requests: fewer of them.
        for w in range(len(s["workers"])):
            k = 0
            while k < len(s["workers"][w]):
                x = {**s, "workers": [q[:k] + q[k + 1:] if j == w else q for j, q in enumerate(s["workers"])]}
                if any(x["workers"]) and ok({**x, "workers": [q for q in x["workers"] if q]}):
                    s = x
                else:
                    k += 1
        s = {**s, "workers": [q for q in s["workers"] if q]}
    elif ranges(s["expect"][0]):
        t, e = fewer_lines(s["texts"][0], s["expect"][0], lambda t, e: ok({**s, "texts": [t], "expect": [e]}))
        s = {**s, "texts": [t], "expect": [e]}
    elif s["expect"][0] is None:
        s = {**s, "texts": [shrink(s["texts"][0], lambda t: ok({**s, "texts": [t]}))]}
    return s


def check(prop, tier, seed):
    t = TIERS[tier]
    clock = Clock()
    cov = dict.fromkeys(["served", "switches", "mid_expansion", "stalls", "restarts", "allocs", "waits"], 0)
    kinds, answers, most = {}, [0, 0, 0], 0.
    sessions = rechecks = rnd = 0
    digests, samples, found, mismatch, texts = set(), [], [], [], set()
    feats = {}
    sim_s = 0.
    tools, hostbad, host = None, [], {"files": 0, "answered": 0, "unseen": 0, "violations": 0}
    while rnd < t["max_rounds"] and not found and not hostbad and (not rnd or clock.s() < t["seconds"]):
        feat = expcheck.FEATS[rnd % 2 if tier == "thorough" else 0]
        path = expcheck.build(feat)
        feats[feat] = feats.get(feat, 0) + 1

        def work(i):
            fam = QUESTIONS[prop](stable_seed("questions", prop, seed, rnd, i))
            s = gen_session(stable_seed("answers", prop, seed, rnd, i), fam)
            v, res = fails(path, s)
            again = fails(path, s)[1] if i % 16 == 0 and not v else None
            return fam, s, v, res, again

        t0 = clock.s()
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for fam, s, v, res, again in ex.map(work, range(t["families"])):
                sessions += 1
                for k, x, _ in fam:
                    kinds[k] = kinds.get(k, 0) + 1
                    texts.add(hash(x))
                if res:
                    for k in cov:
                        cov[k] += res[k]
                    answers = [a + b for a, b in zip(answers, res["answers"])]
                    most = max(most, res["most"])
                    digests.add((res["digest"], hash(tuple(s["texts"]))))
                    if len(samples) < 3 and len(s["workers"]) > 1 and res["switches"]:
                        samples.append({"texts": s["texts"][:4], "workers": s["workers"], "first_hand_overs": res["schedule"][:20]})
                if again is not None:
                    rechecks += 1
                    if again != res:
                        mismatch.append(s["seed"])
                if v:
                    found.append((s, v, path, feat))
        sim_s += clock.s() - t0
        # The compiled macro inside the real compiler, which has its own tokens, identifiers, literals and spans.
        # A known builder is known by its tokens, which the compiler does not show.
        files = 0 if found or prop in KNOWN else t["files"]
        tools = tools or files and hostcheck.prepare()

        def compiled(i):
            s = stable_seed("hosted", prop, seed, rnd, i)
            fam = QUESTIONS[prop](s)
            ts, es = [t for _, t, _ in fam], [e for _, _, e in fam]
            return ts, es, s % 2 ** 30, hosted(tools, ts, s % 2 ** 30, es)

        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for ts, es, s, res in ex.map(compiled, range(files)):
                host["files"] += 1
                for i, r in enumerate(res):
                    host[r if r in host else "violations"] += 1
                    if r not in host:
                        hostbad.append((ts, es, i, s, r))
        rnd += 1
    reports, seen = [], set()
    for s, v, path, feat in sorted(found, key=lambda f: len(f[1].get("text", ""))) if prop in KNOWN else found:
        if v["rule"] in seen or len(reports) >= 3:
            continue
        if v["rule"] in ("died", "stuck") and not any(fails(path, s)[0] for _ in range(2)):
            log(f"not repeatable: {v}")
            continue
        seen.add(v["rule"])
        s = minimise(path, s, v["rule"], clock, clock.s() + 60)
        a, b = fails(path, s), fails(path, s)
        v = a[0] or v
        _, res, err = expcheck.run(path, ["session", "--log"], s)
        if a != b:
            log("warning: the replay is not exact")
        reports.append((v, replay_path(prop, {"property": prop, "kind": "answer-simulation", "feature": feat, "violation": v, "reproduces_exactly": a == b,
                                               "digest": res and res["digest"], "session": s, "trace": err.splitlines()[-100:]})))
    for ts, es, i, s, r in hostbad[:1]:
        def ok(ts, es):
            return clock.s() < end and any(x not in FINE for x in hosted(tools, ts, s, es))
        end = clock.s() + 60
        if ok([ts[i]], [es[i]]):
            ts, es = [ts[i]], [es[i]]
            if isinstance(es[0], list):
                t, e = fewer_lines(ts[0], es[0], lambda t, e: ok([t], [e]))
                ts, es = [t], [e]
            else:
                ts = [shrink(ts[0], lambda t: ok([t], es))]
        elif ok(ts, es):
            # It takes what the process expanded before.
            k = 0
            while k < len(ts):
                if len(ts) > 1 and ok(ts[:k] + ts[k + 1:], es[:k] + es[k + 1:]):
                    ts, es = ts[:k] + ts[k + 1:], es[:k] + es[k + 1:]
                else:
                    k += 1
        else:
            log(f"not repeatable: {r}")
            continue
        v = {"rule": "compiler", "detail": next((x for x in hosted(tools, ts, s, es) if x not in FINE), r)}
        reports.append((v, replay_path(prop, {"property": prop, "kind": "answer-simulation", "mode": "host", "violation": v, "texts": ts, "expect": es, "entropy": s})))
    if mismatch and not reports:
        raise CheckError(f"same seed, different execution: {mismatch}")
    for v, p in reports:
        log(f"{prop}: {v['rule']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={p}", flush=True)
    wall = clock.s()
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cov["served"], "distinct_nontrivial": len(texts),
            "rule": "one evaluation is one request served in a simulated expansion process (1-4 workers, seeded hand-overs, dying and stalled workers). Counted as distinct and "
                    "non-trivial: different texts; most sessions serve definitions that are damaged or wrong next to correct ones.",
            "samples": samples, "rounds": rnd, "sessions": sessions, "distinct_sessions": len(digests), "texts_by_kind": kinds,
            "answers": {"not_a_type_definition_any_more": answers[0], "diagnostics": answers[1], "builder": answers[2]},
            "simulated_steps": cov["allocs"], "largest_share_of_the_step_bound_used": round(most, 4),
            "simulated_time_note": "logical: one step is one heap allocation of the code under test",
            "faults_injected": {**{k: n for k, n in kinds.items() if k not in ("documented", "exotic", "known builder")}, "dying_workers": cov["restarts"], "stalled_workers": cov["stalls"]},
            "hand_overs": cov["switches"], "hand_overs_in_the_middle_of_an_expansion": cov["mid_expansion"], "features": feats,
            "seeds_per_hour": int(sessions / max(wall, .001) * 3600), "seeds_per_hour_simulating_only": int(sessions / max(sim_s, .001) * 3600),
            **({"in_real_compiler_processes": host} if host["files"] else {}), "determinism_rechecks": rechecks, "determinism_mismatches": len(mismatch),
            "real_components": ["derive_builder_core::builder_for_struct", "darling, syn, quote", "proc_macro2 (its fallback implementation)", "OS threads (one runs at a time)"] + ["rustc and the compiled macro (files in real compiler processes)"] * bool(host["files"]),
            "stubbed_components": ["the compiler's side of the proc-macro bridge", "thread scheduler", "heap placement", "futex, entropy, clock, sleep, environment and file seams"],
        },
        "assumptions": ["a definition that syn does not parse never reaches the macro", "the step bound is 20000 allocations plus 60 for each byte of the definition"],
        "wall_s": round(wall, 2), "violations": len(reports)})
    return 1 if reports else 0


def replay_file(d):
    if d.get("mode") == "host":
        print("\n\n".join(d["texts"]))
        bad = [x for x in hosted(hostcheck.prepare(), d["texts"], d["entropy"], d["expect"]) if x not in FINE]
        print(bad[0] if bad else "no violation")
        return int(bool(bad))
    path = expcheck.build(d["feature"])
    v, res = fails(path, d["session"])
    print("\n".join(d["session"]["texts"]))
    if not v:
        print("no violation")
        return 0
    print(f"{v['rule']}: {v['detail']}")
    print("reproduced exactly" if res and res["digest"] == d["digest"] else "differs from the recorded execution")
    return 1
