"""C11, compiler-host part: the compiled proc macro inside the real compiler, with sequences of requests in one process."""
import concurrent.futures
import json
import os
import random
import subprocess
import tempfile



from common import *
import expgen
import simcheck


def prepare():
    """The compiled derive macro of the current tree, and the entropy and clock shim."""
    ws = simcheck.Workspace("deps", 1, "std")
    write_if_changed(ws.src(0), simcheck.corpus.program([]))
    rc, msgs, err = cargo(["build", "--offline"], ws.dir)
    if rc:
        raise CheckError(f"the crates under test do not build: {err[-3000:]}")
    so = [f for m in msgs if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "derive_builder_macro" for f in m["filenames"] if f.endswith(".so")]
    if not so:
        raise CheckError("no derive macro was built")
    shim = os.path.join(BUILD, "hostshim.so")
    src = os.path.join(VERIF, "expsim", "hostshim.c")
    if not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(src):
        tmp = f"{shim}.{os.getpid()}"
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src], stderr=subprocess.PIPE)
        if p.returncode:
            raise CheckError(f"the shim does not build: {p.stderr.decode()}")
        os.replace(tmp, shim)
    return so[0], shim


def compile_(tools, texts, seed):
    """[(expanded text, diagnostics of the expansion)] of each text, all expanded in order by one compiler process."""
    so, shim = tools
    lines, first = [], []
    for i, t in enumerate(texts):
        lines.append(f"mod m{i} {{")
        lines.append("#[derive(derive_builder_macro::Builder)]")
        first.append(len(lines) + 1)
        lines += t.split("\n") + ["}"]
    first.append(len(lines) + 3)
    with tempfile.TemporaryDirectory(dir=BUILD) as d:
        src = os.path.join(d, "a.rs")
        open(src, "w").write("\n".join(lines) + "\n")
        e = {**ENV, "RUSTC_BOOTSTRAP": "1", "LD_PRELOAD": shim, "HOST_SEED": str(seed), "EXPANSION": str(seed)}
        try:
            p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "-Zunpretty=expanded", "--error-format=json", src,
                                "--extern", f"derive_builder_macro={so}"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            return [("the compiler does not finish", [])] * len(texts)
    parts, cur = {}, None
    for l in p.stdout.decode("utf8", "replace").split("\n"):
        if l.startswith("mod m") and l.endswith("{"):
            cur = int(l[5:-2])
            parts[cur] = []
        elif l.startswith("mod m") and l.endswith("{}"):
            parts[int(l[5:-3])] = []
        elif cur is not None:
            parts[cur].append(l)
    diags = [[] for _ in texts]
    for l in p.stderr.decode("utf8", "replace").splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") != "error" or m.get("code") or not m.get("spans") or m["message"].startswith("cannot find"):
            continue
        at = m["spans"][0]["line_start"]
        for i in range(len(texts)):
            if first[i] - 1 <= at < first[i + 1] - 2:
                kids = [c["message"] for c in m.get("children", []) if c["message"].startswith("message:")]
                diags[i].append([at - first[i], m["message"]] + kids)
    return [("\n".join(parts[i]).rstrip() if i in parts else "nothing", diags[i]) for i in range(len(texts))]


def differs(tools, order, texts, want, seed):
    got = compile_(tools, [texts[i] for i in order], seed)
    for k, i in enumerate(order):
        if got[k] != want[i]:
            return k, got[k]
    return None


def check(seed, groups, sessions):
    tools = prepare()
    ev = {"sessions": 0, "solo_compilations": 0, "requests": 0, "with_duplicates": 0}
    found = []

    def group(g):
        r = random.Random(stable_seed("host", seed, g))
        texts = []
        k = 0
        while len(texts) < 8:
            fam = expgen.family(stable_seed("hostfam", seed, g, k))
            k += 1
            texts += [t for kind, t in fam if kind != "corrupted"][:r.choice([3, 5, 8])]
        texts = texts[:9]
        a = [compile_(tools, [t], r.getrandbits(30))[0] for t in texts]
        b = [compile_(tools, [t], r.getrandbits(30))[0] for t in texts]
        bad = [i for i in range(len(texts)) if a[i] != b[i]]
        if bad:
            i = bad[0]
            return 2 * len(texts), [], (texts, [i], r.getrandbits(30), a[i], b[i])
        # Texts the compiler's own parser takes apart differently never reach the macro.
        ok = [i for i in range(len(texts)) if a[i][0] != "nothing"]
        out = []
        for _ in range(sessions if ok else 0):
            pick = r.sample(ok, min(len(ok), r.choice([1, 2, 3, 6])))
            order = [r.choice(pick) for _ in range(r.choice([2, 4, 8, 14]))]
            s = r.getrandbits(30)
            d = differs(tools, order, texts, a, s)
            out.append(order)
            if d:
                return 2 * len(texts), out, (texts, order, s, a, d)
        return 2 * len(texts), out, None

    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for n, out, bad in ex.map(group, range(groups)):
            ev["solo_compilations"] += n
            ev["sessions"] += len(out)
            ev["requests"] += sum(map(len, out))
            ev["with_duplicates"] += sum(len(set(o)) < len(o) for o in out)
            if bad:
                found.append(bad)
    res = []
    for texts, order, s, a, d in found[:1]:
        if len(order) > 1:
            k = 0
            while k < len(order):
                o = order[:k] + order[k + 1:]
                if o and differs(tools, o, texts, a, s):
                    order = o
                else:
                    k += 1
            d = differs(tools, order, texts, a, s) or d
        v = {"rule": "host-differs", "detail": "in a real compiler process that expanded other structs before, a struct is expanded differently than alone"
             if len(order) > 1 else "two compiler processes with different entropy, clock and environment expand a struct differently", "got": str(d)[:4000]}
        res.append(("host", v, {"property": "C11", "kind": "expansion-simulation", "mode": "host", "violation": v, "entropy": s,
                                "texts": [texts[i] for i in order], "trace": []}))
    return ev, res


def replay(d):
    tools = prepare()
    texts = d["texts"]
    for k in range(12):
        alone = [compile_(tools, [t], 1 + k)[0] for t in texts]
        together = compile_(tools, texts, d["entropy"] + k)
        for i in range(len(texts)):
            if alone[i] != together[i]:
                print(f"text {i} expands differently (attempt {k})")
                print(f"--- alone\n{alone[i]}\n--- together\n{together[i]}")
                return 1
    print("no violation")
    return 0
