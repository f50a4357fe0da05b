"""Runs the check of one property:  check.py PROPERTY quick|thorough

Builds the tree under test and the monitors, runs the monitored workloads in
parallel, confirms each alarm by running the case again, compares confirmed
alarms with known-findings.json, writes the evidence file and exits 0 or 1.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from spec import SPEC

VERIF = vbuild.VERIF
REPO = vbuild.REPO
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:handle_abort=0",
           UBSAN_OPTIONS="print_stacktrace=1",
           TSAN_OPTIONS="exitcode=66:halt_on_error=1:die_after_fork=0",
           LC_ALL="C")


VALGRIND = ["valgrind", "-q", "--error-exitcode=66", "--leak-check=no", "--num-callers=14"]


def run_chunk(exe, mode, seed, start, count, scratch, cpu, wall, env=None, tool=None):
    d = tempfile.mkdtemp(dir=scratch)
    out = os.path.join(d, "out.json")
    p = subprocess.Popen((VALGRIND if tool == "valgrind" else []) + [exe, "run", mode, str(seed), str(start), str(count), out, d, REPO, str(cpu), str(wall)],
                         env=dict(ENV, **(env or {})), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        _, err = p.communicate(timeout=wall + 300)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None
    try:
        j = json.load(open(out))
    except Exception:
        sys.stderr.write("worker lost: %s\n" % err.decode(errors="replace")[-500:])
        return None
    shutil.rmtree(d, ignore_errors=True)
    return j


class Agg:
    def __init__(self):
        self.done = self.ok = self.nviol = 0
        self.inc, self.stats, self.viol, self.hashes, self.samples = {}, {}, [], set(), []
        self.cut = 0
        self.lost = 0
        self.other = 0
        self.hung, self.slow = [], []

    def add(self, j, mode, run):
        kinds = run.get("kinds")
        if j is None:
            self.lost += 1
            return
        self.done += j["done"]
        self.ok += j["ok"]
        self.nviol += j["nviol"]
        self.cut += j["cut"]
        for a, b in (("inc", self.inc), ("stats", self.stats)):
            for k, v in j[a].items():
                b[k] = b.get(k, 0) + v
        for v in j["violations"]:
            if kinds and v["kind"] not in kinds:
                self.other += 1
                continue
            self.viol.append(dict(v, mode=mode, cfg=run["cfg"], cpu=run.get("cpu", 1), tool=run.get("tool")))
        self.hung += [(mode, run["cfg"], run.get("cpu", 1), run.get("tool"), i) for i in j["hung"]]
        self.slow += j["slow"] + j["hung"]
        self.hashes |= {mode + h for h in j["hashes"]}
        if len(self.samples) < 4:
            self.samples += j["samples"][:1]


def load_slow():
    p = os.path.join(VERIF, "data", "slow.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def matches(f, v):
    return (f.get("input", "\0") in v["desc"]) and re.search(f.get("message", ""), v["msg"] + "\n" + v["stderr"]) is not None


def main(prop, tier):
    t0 = time.time()
    spec = SPEC[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = [f for f in load_known()["findings"] if f["property"] == prop]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    budget = 620 if tier == "quick" else 5400
    agg = Agg()
    report, runs = [], []
    try:
        for run in spec["runs"]:
            cfg, mode = run["cfg"], run["mode"]
            exe = vbuild.build_mon(cfg)
            env = {"VERIF_CLI": os.path.join(vbuild.build_lib(run.get("cli", cfg)), "cloog"),
                   "VERIF_DATA": os.path.join(VERIF, "data")}
            if run.get("tool"):
                env["VERIF_TOOL"] = run["tool"]
            count = run[tier]
            n = max(1, min(count, JOBS * 6))
            chunks = [(i * count // n, (i + 1) * count // n - i * count // n) for i in range(n)]
            a0 = agg.done
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                fs = [ex.submit(run_chunk, exe, mode, seed, s, c, scratch, run.get("cpu", 1),
                                max(20, budget - (time.time() - t0)), env, run.get("tool")) for s, c in chunks]
                for f in fs:
                    agg.add(f.result(), mode, run)
            runs.append({"mode": mode, "build": cfg, "tool": run.get("tool", "none"), "cases": agg.done - a0})
        # confirm alarms
        confirmed, unconfirmed, seen = [], 0, set()
        for v in agg.viol:
            key = (v["mode"], re.sub(r"-?\d+", "#", v["msg"])[:60])
            if len(confirmed) >= 8 and key in seen:
                continue
            if len(confirmed) >= 20:
                break
            seen.add(key)
            exe = vbuild.build_mon(v["cfg"])
            env = {"VERIF_CLI": os.path.join(vbuild.build_lib(v["cfg"]), "cloog"), "VERIF_DATA": os.path.join(VERIF, "data")}
            if v["tool"]:
                env["VERIF_TOOL"] = v["tool"]
            good = None
            for k in range(3):
                j = run_chunk(exe, v["mode"], seed, v["idx"], 1, scratch, 2 * v["cpu"], 120, env, v["tool"])
                if j and j["violations"] and j["violations"][0]["kind"] == v["kind"]:
                    good = j["violations"][0]
                    break
            if good is None:
                unconfirmed += 1
                continue
            confirmed.append(dict(v, **good))
        # Cases that ended in time on the tree this was built for and now do not end in eight times their limit.
        base, stuck, late = load_slow(), [], 0
        todo = [h for h in agg.hung if seed == base.get("seed") and h[4] < base["modes"].get(h[1] + "/" + h[0], {}).get("count", 0)
                and h[4] not in base["modes"][h[1] + "/" + h[0]]["slow"] and not h[3]]
        if todo and not confirmed:
            def again(h):
                exe = vbuild.build_mon(h[1])
                env = {"VERIF_CLI": os.path.join(vbuild.build_lib(h[1]), "cloog"), "VERIF_DATA": os.path.join(VERIF, "data")}
                return h, run_chunk(exe, h[0], seed, h[4], 1, scratch, 8 * h[2], 200, env, None)
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                for h, j in ex.map(again, todo[:JOBS]):
                    late += 1
                    if j and j["hung"]:
                        stuck.append(h)
        hit = set()
        new = []
        if len(stuck) >= 1:
            h = stuck[0]
            confirmed.append({"mode": h[0], "cfg": h[1], "tool": None, "idx": h[4], "kind": "hang", "desc": "", "stderr": "",
                              "msg": "code generation or the generated code does not end (%d such cases of %d tried again)" % (len(stuck), late)})
        for v in confirmed:
            for i, f in enumerate(known):
                if matches(f, v):
                    hit.add(i)
                    break
            else:
                new.append(v)
        for f in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        slow = agg.inc.get("cpu limit", 0)
        if agg.done >= 200 and slow > max(10, spec.get("maxslow", 0.04) * agg.done):
            new.append({"mode": "-", "idx": -1, "cfg": "-", "tool": None, "kind": "hang", "desc": "", "stderr": "",
                        "msg": "%d of %d runs did not terminate within their processor time" % (slow, agg.done)})
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        for v in new:
            p = os.path.join(rd, "%s-%s-%d-%d.txt" % (prop, v["mode"], seed, v["idx"]))
            with open(p, "w") as f:
                f.write("property %s violated: %s\nkind: %s\nredo: python3 %s/replay.py %s %s %d %d\n\n%s\n\nstderr:\n%s\n" % (
                    prop, v["msg"], v["kind"], HERE, v["cfg"], v["mode"], seed, v["idx"], v["desc"], v["stderr"]))
            report.append(p)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  " + v["msg"].split("\n")[0][:300])
        # The monitors must have observed something, otherwise the run says nothing.
        idle = [k for k in spec.get("observe", []) if not agg.stats.get(k)]
        if idle and not new:
            sys.stderr.write("monitors observed nothing for: %s (done %d, inconclusive %s)\n" % (idle, agg.done, agg.inc))
            if agg.done and agg.nviol:
                pass
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": agg.done, "distinct_nontrivial": len(agg.hashes), "rule": spec["rule"],
                           "samples": agg.samples or ["none"], "runs": runs, "conclusive": agg.ok,
                           "inconclusive": agg.inc, "observed": agg.stats, "cut_short": agg.cut, "workers_lost": agg.lost,
                           "alarms_not_reproduced": unconfirmed, "late_cases_tried_again": late, "not_observed": idle,
                           "known_findings_seen": len(hit), "alarms_of_other_properties": agg.other},
              "wall_s": round(time.time() - t0, 2), "violations": len(new), "assumptions": spec.get("assumptions", [])}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d conclusive, %d distinct non-trivial, %d violations, %.1f s" % (
            prop, tier, agg.done, agg.ok, len(agg.hashes), len(new), time.time() - t0))
        return 1 if new else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except vbuild.BuildError as e:
        sys.stderr.write("the tree does not build: %s\n" % e)
        sys.exit(2)
