"""Development aid: genstress.py FIRST LAST — compiles many generated programs (no runs), to find definitions the
generator gets wrong."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from common import *
import simcheck, corpus
from common import *
for seed in range(int(sys.argv[1]), int(sys.argv[2])):
    for variant in ["std", "std", "alloc", "core"]:
        for prop in (["C01", "C12", "C13"] if variant == "std" else ["C01"]):
            simcheck.build_deps(variant)
            ws = simcheck.Workspace("stress", 8, variant)
            shards = [[corpus.gen_config(stable_seed("stress", seed, variant, prop, s, k), prop, f"c{s}x{k}", variant) for k in range(60)] for s in range(8)]
            for n, (c, d) in simcheck.build(ws, shards).items():
                print(seed, variant, prop, c.seed, corpus.emit_struct(c), d[0], flush=True)
    print("seed", seed, "done", flush=True)
