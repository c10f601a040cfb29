#!/usr/bin/env python3
"""Driver of the bounded-exhaustive checks.

  run.py C05 [--tier quick|thorough]     build the harness of C05 from /repo's working tree, explore, report
  run.py --replay replays/C05-xxxx.json  rebuild and re-execute one recorded case
  run.py --all [--tier T]                every check, one after another (summary)

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.  2: the check itself failed.
"""
import sys, os, json, subprocess, time, hashlib, shutil, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")     # overridden only by tools/ when a planted bug is tried in a scratch copy
sys.path.insert(0, VERIF)
from checks import CHECKS

CXX = "g++"
BASE = ["-std=c++17", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(VERIF, "harness"), "-I" + REPO]

def build(pid, bdir):
    """compiles every binary of the check (objects in parallel)"""
    spec = CHECKS[pid]
    jobs = []
    for b in spec["bins"]:
        exe = os.path.join(bdir, b["name"])
        objs = []
        for src in b["src"]:
            o = os.path.join(bdir, b["name"] + "_" + os.path.basename(src) + ".o")
            objs.append(o)
            jobs.append(([CXX] + BASE + b.get("flags", []) + ["-c", os.path.join(VERIF, "harness", src), "-o", o], None))
        b["_link"] = [CXX] + objs + ["-o", exe] + b.get("libs", [])
        b["_exe"] = exe
    def comp(j):
        return subprocess.run(j[0], capture_output=True, text=True)
    with cf.ThreadPoolExecutor(8) as ex:
        for j, r in zip(jobs, ex.map(comp, jobs)):
            if r.returncode:
                sys.stderr.write(" ".join(j[0]) + "\n" + "\n".join([l for l in r.stderr.split("\n") if "error" in l or "required from here" in l][:12]) + "\n")
                raise SystemExit(2)
    for b in spec["bins"]:
        r = subprocess.run(b["_link"], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stderr[-6000:] + "\n")
            raise SystemExit(2)

def run_one(exe, args, timeout, cwd):
    try:
        p = subprocess.run([exe] + args, cwd=cwd, timeout=timeout, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return p.returncode
    except subprocess.TimeoutExpired:
        return "timeout"

def parse(path):
    recs, end = [], None
    try:
        for line in open(path, errors="replace"):
            line = line.strip()
            if not line: continue
            try: r = json.loads(line)
            except ValueError: continue
            if r["k"] == "v": recs.append(r)
            else: end = r
    except FileNotFoundError:
        pass
    return recs, end

def explore(pid, tier, bdir):
    spec = CHECKS[pid]
    tasks = []
    for b in spec["bins"]:
        n = b.get("shards", 8)
        for i in range(n):
            out = os.path.join(bdir, "%s.%d.out" % (b["name"], i))
            wd = os.path.join(bdir, "wd_%s_%d" % (b["name"], i)); os.makedirs(wd, exist_ok=True)
            tasks.append((b, ["--tier", tier, "--shard", str(i), "--nshards", str(n), "--out", out], out, wd))
    tmo = 780 if tier == "quick" else 6 * 3600
    res = []
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [(t, ex.submit(run_one, t[0]["_exe"], t[1], tmo, t[3])) for t in tasks]
        for t, f in futs:
            rc = f.result()
            recs, end = parse(t[2])
            for r in recs: r["bin"] = t[0]["name"]
            res.append((t, rc, recs, end))
    return res

def replay_case(b, bdir, rec, tier):
    wd = os.path.join(bdir, "wd_replay_" + b["name"]); os.makedirs(wd, exist_ok=True)
    out = os.path.join(bdir, "replay.out")
    if os.path.exists(out): os.remove(out)
    run_one(b["_exe"], ["--tier", tier, "--out", out, "--replay", rec["section"], str(rec["ord"])], 600, wd)
    recs, end = parse(out)
    return [r for r in recs if r["tag"] == rec["tag"] and r["case"] == rec["case"]]

def key_of(pid, r):
    return "%s|%s|%s|%s" % (pid, r["section"], r["tag"], r["case"])

def load_known():
    known = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"): continue
            e = json.loads(line)
            for k in e["cases"]:
                known["%s|%s|%s|%s" % (e["property"], k["section"], k["tag"], k["case"])] = e
    return known

def check(pid, tier):
    t0 = time.time()
    spec = CHECKS[pid]
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "build"))
    try:
        build(pid, bdir)
        tb = time.time() - t0
        res = explore(pid, tier, bdir)
        viol, cases, steps, checks_, nviol, outc = [], 0, 0, 0, 0, 0
        sections, samples, problems = {}, [], []
        for t, rc, recs, end in res:
            viol += recs
            if end is None:
                problems.append("%s shard %s ended without a summary (status %s)" % (t[0]["name"], t[1][3], rc))
                continue
            if end.get("aborted"): problems.append("aborted") if not recs else None
            cases += end["cases"]; steps += end["steps"]; checks_ += end["checks"]; nviol += end["nviol"]
            outc += end["outcomes"]
            for k, v in end["sections"].items(): sections[t[0]["name"] + ":" + k] = sections.get(t[0]["name"] + ":" + k, 0) + v
            samples += end["samples"]
        known = load_known()
        seen_known, fresh = {}, []
        for r in viol:
            e = known.get(key_of(pid, r))
            if e: seen_known.setdefault(e["id"], [e, 0]); seen_known[e["id"]][1] += 1
            else: fresh.append(r)
        for i in sorted(seen_known):
            e, n = seen_known[i]
            print("KNOWN-FINDING: property=%s %s (%d listed case(s) reproduced)" % (pid, e["what"], n))
        rc = 0
        reported = 0
        if fresh:
            # shortest / simplest first; replay in a fresh process before reporting
            fresh.sort(key=lambda r: (len(r["case"]), r["section"], r["ord"]))
            done_tags = set(); tried = 0
            for r in fresh:
                tag = (r["bin"], r["section"], r["tag"])
                if tag in done_tags or tried >= 12: continue
                b = [x for x in spec["bins"] if x["name"] == r["bin"]][0]
                tried += 1
                if not replay_case(b, bdir, r, tier):
                    continue
                done_tags.add(tag)
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                h = hashlib.sha1(key_of(pid, r).encode()).hexdigest()[:12]
                path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
                json.dump(dict(property=pid, tier=tier, **r), open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
                print("   [%s/%s] %s\n      %s" % (r["section"], r["tag"], r["case"], r["msg"]))
                reported += 1
                rc = 1
            if not reported:
                problems.append("%d violation(s) recorded but none reproduced on replay, e.g. %s" % (len(fresh), json.dumps(fresh[0])))
        if problems and rc == 0:
            sys.stderr.write("\n".join(problems) + "\n"); rc = 2
        if cases == 0: sys.stderr.write("nothing explored\n"); rc = rc or 2
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "model_checking"),
                  coverage=dict(states=cases, transitions=steps, traces_validated_against_impl=cases,
                                oracle_comparisons=checks_, distinct_outcomes_summed_over_shards=outc,
                                per_section=sections, exhaustive=True, bounds=spec["bounds"][tier], samples=samples[:24] or ["(none)"]),
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
        ev["coverage"]["build_s"] = round(tb, 2)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %d cases, %d steps, %d comparisons, %d outcomes, %d violation record(s) (%d listed), build %.1fs total %.1fs"
              % (pid, tier, cases, steps, checks_, outc, len(viol), len(viol) - len(fresh), tb, time.time() - t0))
        if os.environ.get("VERBOSE"):
            import collections
            c = collections.Counter((r["bin"], r["section"], r["tag"]) for r in fresh)
            for k, v in c.most_common(): print("  ", v, k)
            shown = collections.Counter()
            for r in fresh:
                k = (r["section"], r["tag"])
                if shown[k] < int(os.environ["VERBOSE"]):
                    shown[k] += 1; print("    ", k, r["ord"], r["case"], "=>", r["msg"])
        return rc
    finally:
        if not os.environ.get("KEEP_BUILD"): shutil.rmtree(bdir, ignore_errors=True)

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if tier not in ("quick", "thorough"): tier = "quick"
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        pid = r["property"]
        os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
        bdir = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "build"))
        try:
            build(pid, bdir)
            b = [x for x in CHECKS[pid]["bins"] if x["name"] == r["bin"]][0]
            got = replay_case(b, bdir, r, r["tier"])
            print(json.dumps(got or "not reproduced", indent=1))
            return 1 if got else 0
        finally:
            shutil.rmtree(bdir, ignore_errors=True)
    if a and a[0] == "--all":
        rcs = {p: check(p, tier) for p in sorted(CHECKS) if not a[1:] or p in a[1:]}
        print(rcs)
        return max(rcs.values())
    return check(a[0], tier)

if __name__ == "__main__":
    sys.exit(main())
