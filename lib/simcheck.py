"""Decides C01-C10, C12-C15: seeded simulation of generated builders under adversarial user code and schedules."""
import concurrent.futures
import copy
import json
import os
import shutil
import subprocess

import corpus
from common import *

SHARDS = JOBS
DIRECT = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C15", "C19"]

WS_TOML = """[workspace]
members = [{members}]
resolver = "2"
[profile.dev]
debug = 0
incremental = false
[profile.dev.package.dbsim]
opt-level = 2
"""
PKG_TOML = """[package]
name = "{name}"
version = "0.1.0"
edition = "{edition}"
publish = false
[[bin]]
name = "{name}"
path = "src/main.rs"
[dependencies]
dbsim = {{ path = "{verif}/sim" }}
{dep} = {{ {package}path = "{repo}/derive_builder"{feat} }}
"""
LIB_TOML = """[lib]
name = "{name}_defs"
path = "src/lib.rs"
"""
FEATS = {"std": "", "alloc": ', default-features = false, features = ["alloc"]', "core": ", default-features = false"}


class Workspace:
    def __init__(self, name, nshards, variant="std", places=None):
        self.places = places or [None] * nshards
        self.dir = os.path.join(BUILD, f"{name}-{variant}")
        # One name per place: binaries of different workspaces share a target directory.
        self.tag = name.lower()
        self.variant = variant
        self.names = [f"{self.tag}_{variant}_s{i}" for i in range(nshards)]
        write_if_changed(os.path.join(self.dir, "Cargo.toml"),
                         WS_TOML.format(members=", ".join(f'"s{i}"' for i in range(nshards))))
        for i, n in enumerate(self.names):
            place = self.places[i] or corpus.PLAIN_PLACE
            write_if_changed(os.path.join(self.dir, f"s{i}", "Cargo.toml"),
                             PKG_TOML.format(name=n, verif=VERIF, repo=REPO, feat=FEATS[variant], edition=place["edition"],
                                             dep="db_renamed" if place["rename"] else "derive_builder",
                                             package='package = "derive_builder", ' if place["rename"] else "")
                             + (LIB_TOML.format(name=n) if self.places[i] else ""))
        lock = open(os.path.join(VERIF, "gen", "Cargo.lock.template")).read()
        for n in self.names:
            lock += f'\n[[package]]\nname = "{n}"\nversion = "0.1.0"\ndependencies = [\n "dbsim",\n "derive_builder",\n]\n'
        write_if_changed(os.path.join(self.dir, "Cargo.lock"), lock)

    def write(self, i, configs):
        """The program of a shard, with its library where it has surroundings."""
        text = corpus.program(configs, self.places[i])
        lib = corpus.library(configs, self.places[i]) if self.places[i] else None
        self.write_text(i, text, lib)
        return text, lib

    def write_text(self, i, text, lib):
        write_if_changed(self.src(i), text.replace("FAR_DEFS", self.names[i] + "_defs"))
        if lib is not None:
            write_if_changed(os.path.join(os.path.dirname(self.src(i)), "lib.rs"), lib)

    def src(self, i):
        return os.path.join(self.dir, f"s{i}", "src", "main.rs")

    def bin(self, i):
        return os.path.join(TARGET, "debug", self.names[i])

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        for n in self.names:
            for d in ("", "deps", ".fingerprint"):
                base = os.path.join(TARGET, "debug", d)
                if os.path.isdir(base):
                    for f in os.listdir(base):
                        if f == n or f.startswith(n + "-") or f.startswith(n + "."):
                            p = os.path.join(base, f)
                            shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.remove(p)


def module_lines(text):
    """(first line, last line, module name) of each configuration in a program."""
    lines = text.split("\n")
    starts = [(i, l.split()[2]) for i, l in enumerate(lines, 1) if l.startswith("pub mod c")]
    ends = [i - 1 for i, _ in starts[1:]] + [next(i for i in range(len(lines), 0, -1) if lines[i - 1].startswith("fn main"))]
    return [(a, e, n) for (a, n), e in zip(starts, ends)]


def build_deps(variant="std"):
    """The crates under test and the simulator; a failure here is not a verdict about any property."""
    ws = Workspace("deps", 1, variant)
    write_if_changed(ws.src(0), corpus.program([]))
    rc, msgs, err = cargo(["build", "--offline"], ws.dir)
    if rc:
        text = "\n".join(m["message"].get("rendered", "") for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error")
        raise CheckError(f"the crates under test do not build:\n{text}\n{err[-3000:]}")


def build(ws, shards):
    """Builds the shards; returns configurations that did not compile as {name: (config, diagnostics)}."""
    failed = {}
    for attempt in range(4):
        spans = []
        for i, cs in enumerate(shards):
            text, _ = ws.write(i, [c for c in cs if c.name not in failed])
            spans.append(module_lines(text))
        rc, msgs, err = cargo(["build", "--offline", "--keep-going"], ws.dir)
        if rc == 0:
            return failed
        byname = {c.name: c for cs in shards for c in cs}
        new = {}
        for m in msgs:
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            t = m.get("target", {}).get("name")
            if t not in ws.names:
                continue
            sp = spans[ws.names.index(t)]
            for s in m["message"]["spans"]:
                lines, e = set(), {"span": s}
                while e:
                    if e["span"]["file_name"].endswith("main.rs"):
                        lines.add(e["span"]["line_start"])
                    e = e["span"].get("expansion")
                for a, b, n in sp:
                    if any(a <= x <= b for x in lines):
                        new.setdefault(n, []).append(m["message"].get("rendered", m["message"]["message"]))
        if not new:
            raise CheckError(f"the corpus does not build, and not because of one configuration:\n{err[-3000:]}\n"
                             + "\n".join(m["message"].get("rendered", "") for m in msgs if m.get("reason") == "compiler-message" and m["message"]["level"] == "error")[-3000:])
        for n, d in new.items():
            failed[n] = (byname[n], d)
    raise CheckError(f"the corpus does not settle: {sorted(failed)}")


# ---------------------------------------------------------------- running

def run_bin(path, args, stdin=None, timeout=240):
    try:
        p = subprocess.run([path] + args, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", e.stdout or b"", e.stderr or b""
    res = []
    for l in out.decode("utf8", "replace").splitlines():
        if l.startswith(("{", "[")):
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
    return rc, res, err.decode("utf8", "replace")


def replay(path, runs, logit=False):
    """Runs a list of plans in a fresh process. Returns (list of violations of the last run, digest, its plan, log)."""
    rc, res, err = run_bin(path, ["replay", "-"] + (["--log"] if logit else []), json.dumps({"runs": runs}).encode(), timeout=60)
    if rc == 70:
        raise CheckError(f"harness panic: {err[-2000:]}")
    if rc == 0 and res and "results" in res[-1]:
        last = res[-1]["results"][-1]
        return last["violations"], last["digest"], last["plan"], err
    if res and res[-1].get("fatal"):
        return res[-1]["violations"], f"fatal{rc}", res[-1]["plan"], err
    return [dict(props=[], rule="crash", detail=f"the process died ({rc}): {err[-300:]}", client=0, op=0, operation="?")], f"crash{rc}", None, err


# ---------------------------------------------------------------- minimising

class Minimiser:
    def __init__(self, path, want, budget=500):
        self.path, self.want, self.budget = path, want, budget
        self.tries = 0
        # Only executions that go on for ever take that long; their trace may come out less than minimal.
        self.deadline = time.time() + 120

    def fails(self, runs, must=False):
        if not must and self.tries and (self.tries >= self.budget or time.time() > self.deadline):
            return None
        self.tries += 1
        v, _, plan, _ = replay(self.path, runs)
        hit = [x for x in v if self.want(x)]
        return (hit[0], plan) if hit else None

    def ddmin(self, items, test):
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n)
            done = True
            i = 0
            while i < len(items):
                cand = items[:i] + items[i + size:]
                if test(cand):
                    items = cand
                    done = False
                else:
                    i += size
                if self.tries >= self.budget:
                    return items
            if size == 1 and done:
                return items
            n = min(len(items), n * 2) if size > 1 else max(2, len(items))
            if not items:
                return items
        return items


def with_ops(plan, keep):
    p = dict(plan)
    p["clients"] = [[dict(o) for j, o in enumerate(c) if (i, j) in keep] for i, c in enumerate(plan["clients"])]
    return p


def drop_empty_clients(plan):
    live = [i for i, c in enumerate(plan["clients"]) if c]
    if len(live) == len(plan["clients"]) or not live:
        return plan
    p = dict(plan)
    p["clients"] = [plan["clients"][i] for i in live]
    ren = {o: n for n, o in enumerate(live)}
    if p["schedule"] is not None:
        p["schedule"] = [ren.get(x, 255) if k else ren.get(x, 0) for k, x in enumerate(p["schedule"])]
    return p


def minimise(path, runs, want, budget=450):
    """Shrinks a failing list of runs; only the last one needs to show the violation. Returns (runs, violation)."""
    m = Minimiser(path, want, budget)
    r = m.fails(runs)
    if not r:
        return None
    if len(runs) > 1:
        last = runs[-1]
        pre = m.ddmin(runs[:-1], lambda c: m.fails(c + [last]) is not None)
        runs = pre + [last]
    pre = runs[:-1]

    # Sequential first: all operations in one client, in the order in which they would start.
    def test(plan):
        got = m.fails(pre + [plan])
        if got:
            return plan
        if len([c for c in plan["clients"] if c]) > 1:
            for s in range(4):
                q = dict(plan)
                q["schedule"], q["seed"], q["stay"] = None, (plan["seed"] + s * 7919) % (1 << 62), [20, 50, 75, 90][s]
                got = m.fails(pre + [q])
                if got and got[1]:
                    q = dict(q)
                    q["schedule"] = got[1]["schedule"]
                    return q
        return None

    plan = runs[-1]
    if plan.get("schedule") is None:
        r = m.fails(runs)
        plan = dict(plan)
        if r and r[1]:
            plan["schedule"] = r[1]["schedule"]
    best = [plan]
    if len(plan["clients"]) > 1:
        for order in ("concat", "round"):
            if order == "concat":
                ops = [o for c in plan["clients"] for o in c]
            else:
                ops = [c[k] for k in range(max(len(c) for c in plan["clients"])) for c in plan["clients"] if k < len(c)]
            q = dict(plan)
            q["clients"], q["schedule"] = [ops], [0]
            if m.fails(pre + [q]):
                best[0] = q
                break

    def shrink_ops():
        p = best[0]
        ids = [(i, j) for i, c in enumerate(p["clients"]) for j in range(len(c))]

        def t(keep):
            got = test(drop_empty_clients(with_ops(p, set(keep))))
            if got:
                t.last = got
                return True
            return False
        t.last = None
        m.ddmin(ids, t)
        if t.last:
            best[0] = t.last
            return True
        return False

    while shrink_ops() and m.tries < m.budget:
        pass

    # Operations: no faults, simpler arguments.
    def simpler(o):
        for k in range(len(o.get("faults", []))):
            q = dict(o)
            q["faults"] = o["faults"][:k] + o["faults"][k + 1:]
            if not q["faults"]:
                del q["faults"]
            if o["faults"][k]["fault"] == "nest" and not any(f["fault"] == "nest" for f in q.get("faults", [])):
                q.pop("inner", None)
            yield q
        for k, x in enumerate(o.get("inner", [])):
            if any(f.get("inner") == k for f in o.get("faults", [])):
                yield dict(x)
                for y in simpler(x):
                    yield {**o, "inner": o["inner"][:k] + [y] + o["inner"][k + 1:]}
        a = o.get("arg")
        if isinstance(a, list) and a:
            yield {**o, "arg": a[:1] if len(a) > 1 else []}
        if isinstance(a, dict) and isinstance(a.get("some"), list) and a["some"]:
            yield {**o, "arg": {"some": a["some"][:1] if len(a["some"]) > 1 else []}}
        if o["op"] == "set" and o.get("dst") != o["slot"]:
            yield {**o, "dst": o["slot"]}

    changed = True
    while changed and m.tries < m.budget:
        changed = False
        for i, c in enumerate(best[0]["clients"]):
            for j, o in enumerate(c):
                for q in simpler(best[0]["clients"][i][j]):
                    p = dict(best[0])
                    p["clients"] = [list(x) for x in p["clients"]]
                    p["clients"][i][j] = q
                    got = test(p)
                    if got:
                        best[0] = got
                        changed = True
                        break
    # Schedule: as few switches as possible.
    p = best[0]
    sw = [k for k, x in enumerate(p["schedule"]) if k and x != 255]

    def sched_with(keep):
        keep = set(keep)
        s = [x if k == 0 or k in keep else 255 for k, x in enumerate(p["schedule"])]
        while len(s) > 1 and s[-1] == 255:
            s.pop()
        return {**p, "schedule": s}

    def t2(keep):
        if m.fails(pre + [sched_with(keep)]):
            t2.last = sched_with(keep)
            return True
        return False
    t2.last = None
    m.ddmin(sw, t2)
    if t2.last:
        best[0] = t2.last
    # Slots and builders that are left.
    def slots_of(ops):
        return {o[k] for o in ops for k in ("slot", "dst") if k in o}.union(*(slots_of(o.get("inner", [])) for o in ops))
    used = set().union(*(slots_of(c) for c in best[0]["clients"]))
    if used and len(best[0]["builders"]) == 1 and max(used) + 1 < best[0]["slots"]:
        q = {**best[0], "slots": max(used) + 1}
        if m.fails(pre + [q]):
            best[0] = q
    runs = pre + [best[0]]
    r = m.fails(runs, must=True)
    return (runs, r[0]) if r else None


def implied(runs, v):
    """Properties that the shape of the minimised execution shows to be broken, beyond those its rule names."""
    out = set()
    plan = runs[-1]
    live = [c for c in plan["clients"] if c]
    if v["rule"] != "compile" and len(live) > 1:
        out.add("C14")
    if len(runs) > 1:
        out.add("C15")
    # Lineages: slots connected by clones and immutable setters.
    slots = {}

    def find(x):
        while slots.setdefault(x, x) != x:
            x = slots[x]
        return x

    def each(ops):
        for o in ops:
            yield o
            yield from each(o.get("inner", []))
    nested = False
    for c in live:
        for o in each(c):
            if "dst" in o:
                slots[find(o["slot"])] = find(o["dst"])
            find(o["slot"])
            nested |= any(f["fault"] == "nest" for f in o.get("faults", []))
    if nested:
        out.add("C15")
    if len({find(s) for s in list(slots)}) > 1:
        out.add("C15")
    news = sum(o["op"] == "new" for c in live for o in c)
    if news and v["rule"] != "new-not-empty":
        out.add("C15")
    # What had to happen on the builder before the operation that went wrong.
    ci, oi = min(v["client"], len(plan["clients"]) - 1), v["op"]
    before = plan["clients"][ci][:oi]
    for o in before:
        fs = o.get("faults", [])
        if o["op"] == "build":
            out.add("C03")
        if o["op"] == "set" and o["how"] == "try" and any(f["fault"] == "error" for f in fs):
            out.add("C02")
        if o["op"] == "set" and any(f["fault"] == "panic" for f in fs):
            out.add("C09")
    return out


# ---------------------------------------------------------------- the check

TIERS = {
    # rounds are generated until the time is used up
    "quick": dict(configs=52, runs=240, seconds=42, max_rounds=6),
    "thorough": dict(configs=60, runs=800, seconds=600, max_rounds=400),
}


def in_plain_surroundings(configs):
    """The same definitions where nothing is around them: (workspace, names that do not compile there either)."""
    cs = [corpus.strip_around(copy.copy(c)) for c in configs]
    ws = Workspace("C19plain", 1)
    failed = build(ws, [cs])
    return ws, {n: d for n, (_, d) in failed.items()}, [c for c in cs if c.name not in failed]


def confirm_and_report(prop, cfgs, runs, violation, variant, place=None):
    """Rebuilds only the configurations concerned, replays twice, and writes the replay file."""
    need = []
    for r in runs:
        for b in r["builders"]:
            if b not in need:
                need.append(b)
    cs = [c for n in need for c in cfgs if c.name == n]
    ws = Workspace(f"{prop}rep", 1, variant, [place])
    source, lib = ws.write(0, cs)
    rc, msgs, err = cargo(["build", "--offline"], ws.dir)
    if rc:
        raise CheckError(f"the reduced program does not build: {err[-2000:]}")
    a = replay(ws.bin(0), runs)
    b = replay(ws.bin(0), runs, logit=True)
    same = a[1] == b[1] and a[0] == b[0]
    hit = [v for v in a[0] if v["rule"] == violation["rule"]]
    data = {
        "property": prop, "kind": "builder-simulation", "violation": hit[0] if hit else violation,
        "all_violations": a[0], "variant": variant,
        "reproduces_exactly": bool(hit) and same, "digest": a[1], "runs": runs,
        "trace": b[3].splitlines()[-200:],
        "struct_seeds": [{"name": c.name, "seed": c.seed, "focus": c.focus} for c in cs],
        "program": source, "place": place, "library": lib,
    }
    ws.clean()
    return replay_path(prop, data), bool(hit) and same


def check(prop, tier, seed):
    t = TIERS[tier]
    clock = Clock()
    ev = dict.fromkeys(["runs", "distinct", "nontrivial", "multi", "values", "ops", "builds_ok", "builds_failed", "steps", "switches",
                        "invariant_checks", "lock_waits", "stalls", "nested", "entropy_reads", "clock_reads"], 0)
    kinds = {"callbacks": {}, "panics": {}, "errors": {}}
    samples, others = [], {}
    programs = relevant = fields = rechecks = 0
    found, mismatch = [], []
    sim_s = 0.0
    ncs, nruns = t["configs"], t["runs"]
    places, surroundings = None, {}
    if prop == "C19":
        # More places, and fewer executions in each.
        ncs, nruns = (34, 80) if tier == "quick" else (50, 200)
    build_deps()
    done_variants = {"std"}
    used = {}
    rnd = 0
    while rnd < t["max_rounds"] and not found:
        if rnd and clock.s() > t["seconds"]:
            break
        variant = "std"
        if rnd % 4 == 1:
            variant = "alloc" if rnd % 8 == 1 else "core"
        if prop == "C19":
            variant = ["std", "core", "alloc"][rnd % 3]
            places = [corpus.gen_place(stable_seed(prop, "place", seed, rnd, s)) for s in range(SHARDS)]
        if variant not in done_variants:
            try:
                build_deps(variant)
            except CheckError as e:
                if prop != "C19":
                    raise
                # With std it does build.
                found.append(("feature set", str(e), variant))
                break
            done_variants.add(variant)
        ws = Workspace(prop, SHARDS, variant, places)
        shards = []
        for s in range(SHARDS):
            cs, k = [], 0
            while len(cs) < ncs:
                c = corpus.gen_config(stable_seed(prop, seed, rnd, s, k), prop, f"c{s}x{len(cs)}", variant)
                k += 1
                if places:
                    corpus.surround(c, places[s], variant)
                    for w in corpus.around_words(c, places[s]):
                        surroundings[w] = surroundings.get(w, 0) + 1
                # Nearly all definitions are ones the property speaks about; the others keep it honest.
                if prop in corpus.features(c) or k % 12 == 0:
                    c.focus = prop
                    cs.append(c)
            shards.append(cs)
        used[variant] = used.get(variant, 0) + 1
        failed = build(ws, shards)
        for n, (c, diag) in failed.items():
            if prop in corpus.features(c):
                found.append(("compile", c, diag, variant))
        jobs = []
        for s, cs in enumerate(shards):
            live = [c for c in cs if c.name not in failed]
            programs += len(live)
            relevant += sum(prop in corpus.features(c) for c in live)
            fields += sum(len(c.fields) for c in live)
            jobs += [(s, i, c, live) for i, c in enumerate(live)]

        def args(i, extra=()):
            return ["batch", "--cfg", str(i), "--seed", str(stable_seed("plans", prop, seed, rnd)), "--n", str(nruns), "--focus", prop, *extra]

        def work(j):
            s, i, c, live = j
            r = run_bin(ws.bin(s), args(i, ("--sample",) if i < 2 else ()))
            again = None
            if i % 16 == 3 and r[0] == 0:
                again = run_bin(ws.bin(s), args(i))
            return j, r, again

        t0 = clock.s()
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for j, (rc, res, err), again in ex.map(work, jobs):
                s, i, c, live = j
                if rc == 70 or (rc == 101 and not res):
                    raise CheckError(f"harness panic in {c.name}: {err[-2000:]}")
                if again:
                    rechecks += 1
                    if again[1][-1]["fold"] != res[-1]["fold"]:
                        mismatch.append(c.name)
                if rc != 0:
                    found.append(("died", j, (rc, res, err), variant, args(i)))
                    continue
                o = res[-1]
                for k in ev:
                    ev[k] += o[k]
                for k in kinds:
                    for a, b in o[k].items():
                        kinds[k][a] = kinds[k].get(a, 0) + b
                if o["samples"] and len(samples) < 4:
                    samples.append({"struct": corpus.emit_struct(c), "execution": o["samples"][0]})
                for v in o["violations"]:
                    found.append(("run", j, v, variant, args(i)))
        sim_s += clock.s() - t0
        rnd += 1

    reports, notes = judge(prop, found, ws, shards)
    for n in notes:
        others[n] = others.get(n, 0) + 1
    if mismatch and not reports:
        raise CheckError(f"same seed, different execution: {mismatch}")
    nviol = finish(prop, reports)
    wall = clock.s()
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev["runs"], "distinct_nontrivial": ev["distinct"],
            "rule": "one evaluation is one simulated execution: a seeded program of builder operations by 1-4 clients against "
                    "really expanded and compiled builders of a random struct definition, under a seeded schedule with injected faults. "
                    "Counted as distinct and non-trivial: executions of one definition whose event sequence (operations, user-code calls, "
                    "hand-overs between clients) differs from all others of that definition, and in which at least one fault was injected "
                    "or one hand-over happened.",
            "samples": samples,
            "struct_definitions": programs, "of_these_the_property_speaks_about": relevant, "fields": fields,
            "derive_builder_feature_sets": used,
            **({"definitions_by_surroundings": surroundings} if places else {}),
            "simulated_steps": ev["steps"],
            "simulated_time_note": "logical: one step is one scheduling point; the generated code reads no clock (clock reads seen: %d, entropy reads seen: %d)" % (ev["clock_reads"], ev["entropy_reads"]),
            "operations": ev["ops"], "successful_builds": ev["builds_ok"], "failed_builds": ev["builds_failed"],
            "tracked_values": ev["values"], "invariant_checks": ev["invariant_checks"],
            "executions_with_several_clients": ev["multi"], "hand_overs": ev["switches"], "waits_for_exclusive_builders": ev["lock_waits"],
            "executions_with_a_fault_or_hand_over": ev["nontrivial"],
            "faults_injected": {"panics": kinds["panics"], "errors_returned": kinds["errors"], "stalls": ev["stalls"]},
            "operations_performed_by_user_code_inside_others": ev["nested"],
            "user_code_calls": kinds["callbacks"],
            "seeds_per_hour": int(ev["runs"] / max(wall, .001) * 3600),
            "seeds_per_hour_simulating_only": int(ev["runs"] / max(sim_s, .001) * 3600),
            "determinism_rechecks": rechecks, "determinism_mismatches": len(mismatch),
            "rounds": rnd,
            "real_components": ["derive_builder_core expansion", "derive_builder_macro", "darling/syn/quote as locked", "rustc", "generated builders and errors", "derive_builder::UninitializedFieldError", "OS threads (one runs at a time)"],
            "stubbed_components": ["field types, conversions, defaults, validators and build expressions (simulator probes)", "thread scheduler", "futex, clock, sleep and entropy seams"],
            "violations_of_other_properties_seen": others,
        },
        "assumptions": ["the reference model in sim/src/exec.rs and the meaning computed in gen/corpus.py state the documented behaviour",
                        "interleavings are decided at user-code calls, where generated code can be suspended by anything it calls; the generated code has no other synchronisation points unless it takes a lock, which the futex seam sees"],
        "wall_s": round(wall, 2), "violations": nviol})
    return 1 if nviol else 0


def judge(prop, found, ws, shards):
    """Decides which findings are violations of this property; minimises and writes replay files for the first few."""
    reports, notes = [], []
    budget = 3
    seen = set()
    clock = Clock()

    if prop == "C19":
        found = [x for x in found if x[0] != "compile"] + only_here([x for x in found if x[0] == "compile"], notes)

    def tagged(x):
        return prop == "C19" or prop in x[2]["violation"]["props"] if x[0] == "run" else True
    found.sort(key=lambda x: (not tagged(x), x[0] == "compile", len(str(x[2])) if x[0] == "run" else 0))
    for x in found:
        if len(reports) >= budget or clock.s() > 150:
            break
        if x[0] == "feature set":
            data = {"property": prop, "kind": "feature-set", "variant": x[2],
                    "violation": {"rule": "feature-set", "props": [prop], "detail": f"derive_builder does not build with the features of {x[2]!r}: {x[1][:3000]}"}}
            reports.append((data["violation"], replay_path(prop, data)))
            continue
        if x[0] == "compile":
            _, c, diag, variant = x
            place = ws.places[int(c.name[1:c.name.index("x")])]
            key = ("compile", diag[0].split("\n")[0])
            if key in seen:
                continue
            seen.add(key)
            data = {"property": prop, "kind": "bring-up", "variant": variant,
                    "violation": {"rule": "compile", "props": sorted(corpus.features(c)),
                                  "detail": "a struct definition the documentation allows does not expand to code that compiles: " + diag[0]},
                    "diagnostics": diag[:5], "struct": corpus.emit_struct(c), "program": corpus.program([c], place),
                    "place": place, "library": corpus.library([c], place) if place else None}
            reports.append((data["violation"], replay_path(prop, data)))
            continue
        _, (s, i, c, live), what, variant, args = x
        path = ws.bin(s)
        if x[0] == "run":
            v, k = what["violation"], what["run"]
            rule = v["rule"]
            direct = prop in v["props"] or prop == "C19"
            runs = [what["plan"]]
        else:
            rc, res, err = what
            rc2, res2, err2 = run_bin(path, args + ["--verbose"])
            ks = [int(l.split()[1]) for l in err2.splitlines() if l.startswith("run ")]
            k = ks[-1] if ks else 0
            if res2 and res2[-1].get("fatal"):
                v = res2[-1]["violations"][0]
            else:
                v = dict(props=sorted(corpus.features(c)), rule="crash", detail=f"the process died ({rc2})", client=0, op=0, operation="?")
            rule = v["rule"]
            direct = prop in v["props"] or prop == "C19"
            runs = [{**plans(path, args, k, 1)[0], "schedule": None}]
        if (rule, direct) in seen and (direct or len(seen) > 12):
            continue
        seen.add((rule, direct))

        def want(y):
            return y["rule"] == rule and (rule == "crash" or not direct or prop in y["props"] or prop == "C19")
        m = minimise(path, runs, want)
        if not m:
            # Alone it does not happen: it needs what ran before it in the same process.
            pre = plans(path, args, 0, k + 1)
            m = minimise(path, [{**p, "schedule": None} for p in pre], want)
            if not m:
                raise CheckError(f"a violation that does not reproduce: {v}")
        runs, v = m
        if prop == "C19":
            names = {b for r in runs for b in r["builders"]}
            twin, bad, _ = in_plain_surroundings([c for c in live if c.name in names])
            if bad or any(y["rule"] == rule for y in replay(twin.bin(0), runs)[0]):
                notes.append(f"{rule} {'/'.join(v['props'])} (in any surroundings)")
                continue
            v = {**v, "props": sorted({*v["props"], "C19"})}
        also = implied(runs, v)
        if not direct and prop not in also:
            notes.append(f"{rule} {'/'.join(v['props'])}")
            continue
        if known(prop, v):
            print(f"KNOWN-FINDING: property={prop} {known(prop, v)['text']}", flush=True)
            continue
        p, ok = confirm_and_report(prop, live, runs, v, variant, ws.places[s])
        if not ok:
            log(f"warning: {p} does not replay exactly")
        reports.append((v, p))
    return reports, notes


def only_here(found, notes):
    """Of the definitions that do not compile, those that do in plain surroundings, with all features."""
    found = found[:40]
    if not found:
        return []
    _, bad, _ = in_plain_surroundings([x[1] for x in found])
    notes += ["compile (in any surroundings)"] * len(bad)
    return [x for x in found if x[1].name not in bad]


def known(prop, v):
    for f in known_findings():
        if f.get("property") == prop and f.get("rule") == v["rule"] and f.get("match", "").replace("_", " ") in v["detail"]:
            return f
    return None


def plans(path, args, a, n):
    args = list(args)
    args[0] = "plans"
    args[args.index("--n") + 1] = str(n)
    return run_bin(path, args + ["--from", str(a)])[1][-1]


def finish(prop, reports):
    for v, p in reports:
        log(f"{prop}: {v['rule']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={p}", flush=True)
    return len(reports)


def replay_file(d):
    """Rebuilds the program of a replay file against the current tree and replays it. 1 if it fails as recorded."""
    build_deps()
    try:
        build_deps(d["variant"])
    except CheckError as e:
        if d["kind"] != "feature-set":
            raise
        print(e)
        return 1
    if d["kind"] == "feature-set":
        print("builds now")
        return 0
    ws = Workspace("replay", 1, d["variant"], [d.get("place")])
    ws.write_text(0, d["program"], d.get("library"))
    rc, msgs, err = cargo(["build", "--offline"], ws.dir)
    if d["kind"] == "bring-up":
        print("does not compile" if rc else "compiles now")
        return 1 if rc else 0
    if rc:
        raise CheckError(f"the program of the replay file does not build: {err[-3000:]}")
    v, digest, _, trace = replay(ws.bin(0), d["runs"], logit=True)
    print(trace)
    for x in v:
        print(f"{x['rule']}: {x['detail']} [{', '.join(x['props'])}] at client {x['client']} operation {x['op']}: {x['operation']}")
    exact = digest == d["digest"] and v == d["all_violations"]
    print("reproduced exactly" if exact else "differs from the recorded execution" if v else "no violation")
    return 1 if v else 0
