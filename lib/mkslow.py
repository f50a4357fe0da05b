"""Lists the cases of the quick runs that are slow on the current tree (data/slow.json).

The checks take a case that is not listed and does not end as a violation.
Run by hand after a change of the workloads, never by a check.
"""
import json, os, shutil, sys, tempfile
import concurrent.futures
import check, vbuild
from spec import SPEC

SEED = 1
counts = {}
for s in SPEC.values():
    for r in s["runs"]:
        if r.get("tool"):
            continue
        k = (r["cfg"], r["mode"])
        c = counts.get(k, (0, 99))
        counts[k] = (max(c[0], r["quick"]), min(c[1], r.get("cpu", 1)))
only = sys.argv[1:]
path = os.path.join(vbuild.VERIF, "data", "slow.json")
out = {"seed": SEED, "modes": {}}
if only and os.path.exists(path):
    out = json.load(open(path))
scratch = tempfile.mkdtemp()
for (cfg, mode), (count, cpu) in sorted(counts.items()):
    if only and mode not in only:
        continue
    exe = vbuild.build_mon(cfg)
    env = {"VERIF_CLI": os.path.join(vbuild.build_lib(cfg), "cloog"), "VERIF_DATA": os.path.join(vbuild.VERIF, "data")}
    n = min(count, 48)
    slow = set()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for j in ex.map(lambda i: check.run_chunk(exe, mode, SEED, i * count // n, (i + 1) * count // n - i * count // n, scratch, cpu, 3000, env), range(n)):
            slow |= set(j["slow"]) | set(j["hung"])
    out["modes"][cfg + "/" + mode] = {"count": count, "slow": sorted(slow)}
    print(cfg, mode, count, len(slow), flush=True)
with open(path, "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
shutil.rmtree(scratch, ignore_errors=True)
