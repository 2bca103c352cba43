#!/usr/bin/env python3
"""Helper for planted bugs (never used by a check).
plant.py new ID   : /tmp/bugw holds an edited copy of /repo; writes seeded/ID/patch.diff from it, confirms build, tests and demo
plant.py try ID [PROP..]: applies seeded/ID in the copy and runs the property's check (or PROP..) against it"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/bugw"
def sh(c, **k): return subprocess.run(c, shell=True, **k)
def ns(c, **k): return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (W, c)], **k)
def build(): return ns("bash /opt/vp/build.sh > /tmp/bugw.log 2>&1").returncode == 0
def tests():
    ns("bash /opt/vp/test.sh /tmp/bugt.json > /dev/null 2>&1"); t = json.load(open("/tmp/bugt.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    need = set(b["passed"] if isinstance(b, dict) and "passed" in b else b.get("stable", b)); return sorted(need - set(t["passed"]))
def reset():
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f --detach FETCH_HEAD" % (W, W), check=True)
def main():
    cmd, i = sys.argv[1:3]; d = "%s/seeded/%s" % (V, i)
    if cmd == "new":
        p = sh("git -C %s diff" % W, capture_output=True, text=True, errors="surrogateescape").stdout
        if not p.strip(): sys.exit("no change in " + W)
        os.makedirs(d, exist_ok=True); sh("git -C %s diff --binary > %s/patch.diff" % (W, d), check=True)
        if not os.path.exists(d + "/demo.sh"): sh("cp %s/tools/demo_template.sh %s/demo.sh && chmod +x %s/demo.sh" % (V, d, d))
        if not build(): sys.exit("does not build, see /tmp/bugw.log")
        m = tests(); print("tests missing:", m[:5], len(m))
        r1 = ns("bash %s/demo.sh" % d).returncode
        reset(); build(); r0 = ns("bash %s/demo.sh" % d).returncode
        ok = not m and r1 != 0 and r0 == 0
        print("%s: demo patched %d, unpatched %d: %s" % (i, r1, r0, "OK" if ok else "NOT KEPT"))
        if not ok: sys.exit(1)
    if cmd in ("try", "new"):
        meta = json.load(open(d + "/meta.json")); props = sys.argv[3:] or [meta["property"]]
        reset(); sh("git -C %s apply %s/patch.diff" % (W, d), check=True)
        for p in props:
            r = ns("cd %s && VP_EVIDENCE=/tmp/bugev python3 tools/check.py %s" % (V, p), capture_output=True, text=True)
            hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            print("%s by %s: %s (rc %d) %s" % (i, p, "CAUGHT" if hit and r.returncode == 1 else "MISSED", r.returncode, r.stdout.splitlines()[1:2] if hit else r.stdout[-300:] + r.stderr[-300:]))
        reset()
main()
