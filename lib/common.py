"""Shared by the checks: environment, building, evidence, known findings."""
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TARGET = os.path.join(BUILD, "target")
JOBS = min(8, os.cpu_count() or 8)

sys.path.insert(0, os.path.join(VERIF, "gen"))


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "1.88.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cap-lints warn"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "VERIF_REPO"):
        e.pop(k, None)
    return e


ENV = env()


class CheckError(Exception):
    """The check itself could not do its work (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def stable_seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def cargo(args, cwd, timeout=800):
    """Returns (exit code, list of compiler messages, stderr)."""
    p = subprocess.run(["cargo"] + args + ["--message-format=json"], cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    msgs = []
    for line in p.stdout.decode("utf8", "replace").splitlines():
        if line.startswith("{"):
            try:
                msgs.append(json.loads(line))
            except ValueError:
                pass
    return p.returncode, msgs, p.stderr.decode("utf8", "replace")


# ---------------------------------------------------------------- findings

def known_findings():
    """Entries `finding: property=<id> rule=<rule> match=<text in the detail> | <what fails>`; `fixed:` entries suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        head, _, text = line[len("finding:"):].partition("|")
        d = {"text": text.strip()}
        for part in head.split():
            k, _, v = part.partition("=")
            d[k] = v
        out.append(d)
    return out


# ---------------------------------------------------------------- evidence

def write_evidence(prop, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    text = json.dumps(ev, indent=1)
    while len(text) > 60000 and ev["coverage"].get("samples"):
        ev["coverage"]["samples"] = ev["coverage"]["samples"][:-1]
        text = json.dumps(ev, indent=1)
    with open(p, "w") as f:
        f.write(text + "\n")


def replay_path(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1)
    h = hashlib.sha256(text.encode()).hexdigest()[:12]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        f.write(text + "\n")
    return p


class Clock:
    def __init__(self):
        self.t0 = time.time()

    def s(self):
        return time.time() - self.t0
