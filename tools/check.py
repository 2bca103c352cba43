#!/usr/bin/env python3
"""check.py <property id>: rebuilds from /repo's working tree, searches, reports, writes evidence."""
import json, os, subprocess, sys, time, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = json.load(open(B.VERIF + "/tools/checks.json"))[pid]
    exe = B.build(cfg["srcs"], pid, cfg.get("flavor", "asan"), cfg.get("libs", ()))
    tb = time.time()
    rdir = B.VERIF + "/_replays"
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(B.VERIF + "/evidence", exist_ok=True)
    out = "%s/%s.%d.out.json" % (rdir, pid, os.getpid())
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-dir", rdir,
           "--jobs", str(os.cpu_count() or 8)]
    if tier == "quick":
        cmd += ["--budget", str(cfg.get("quick_budget", 240))]
    if os.environ.get("VP_CASES"):
        cmd += ["--cases", os.environ["VP_CASES"]]
    p = subprocess.run(cmd, stdin=subprocess.DEVNULL)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        print("harness ended with %d" % p.returncode, file=sys.stderr)
        return 2
    r = json.load(open(out))
    os.unlink(out)
    known = []
    kf = B.VERIF + "/known_findings.jsonl"
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == pid and k.get("status") == "open":
                    known.append(k)
    kids = {k["id"]: k for k in known}
    nviol = 0
    for pr in r["probes"]:
        if not pr["failed"]:
            continue
        if pr["id"] in kids:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, pr["id"], kids[pr["id"]]["what"]))
        else:
            path = "%s/%s-probe-%s.txt" % (rdir, pid, pr["id"])
            open(path, "w").write("probe %s of harness %s\n%s\n" % (pr["id"], cfg["srcs"], pr["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  " + pr["msg"][:1500])
            nviol += 1
    for v in r["violations"]:
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        print("  %s [%s] %s" % (v["prop"], v["key"], v["msg"][:1500]))
        print("  sample: %s" % v["sample"][:1500])
        nviol += 1
    if r["unreproduced"]:
        print("note: %d failing case(s) did not fail again and are not reported: %s" % (r["unreproduced"], r["unreproduced_msg"][:1500]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
            "rule": r["rule"], "samples": r["samples"] or ["(none)"],
            "planned": r["planned"], "stopped_by_budget": r["capped"], "labels": r["labels"],
            "search_s": r["search_s"], "build_s": round(tb - t0, 1),
            "unreproduced": r["unreproduced"],
            "probes": [{"id": x["id"], "fails": x["failed"]} for x in r["probes"]],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    tmp = B.VERIF + "/evidence/%s.json.tmp" % pid
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, B.VERIF + "/evidence/%s.json" % pid)
    print("%s: %d cases, %d distinct non-trivial, %d violation(s), build %.0f s, total %.0f s" % (
        pid, r["evaluations"], r["distinct_nontrivial"], nviol, tb - t0, time.time() - t0))
    return 1 if nviol else 0

sys.exit(main())
