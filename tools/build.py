#!/usr/bin/env python3
"""Builds the library from /repo's working tree (sanitized) and a harness, with a cache keyed by
the content of every file that takes part, so a change in /repo is always picked up."""
import concurrent.futures, glob, hashlib, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.path.join(VERIF, "_build")
DEFS = ("-DNDEBUG -DGS_LIN -D_LINUX -DUNICODE -D_UNICODE -DBUILD_MVR_XCHANGE "
        "-DDONT_USE_XERCES_AS_XMLLIB -DIS_UNITTEST").split()
BASE = ["-std=gnu++14", "-w", "-g1", "-fno-omit-frame-pointer", "-include", "algorithm"] + DEFS
FLAVORS = {
    # asan: every quick check; fuzz: additionally coverage counters for libFuzzer
    "asan": ["-O1", "-fsanitize=address,return,unreachable", "-fno-sanitize-recover=all"],
    "fuzz": ["-O1", "-fsanitize=address,return,unreachable,fuzzer-no-link", "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-fsanitize=thread"],
}

def sh(data):
    return hashlib.sha256(data).hexdigest()

def read(p):
    with open(p, "rb") as f:
        return f.read()

def headers():
    h = hashlib.sha256()
    for root in (REPO + "/src", REPO + "/mdns_cpp"):
        fs = sorted(f for ext in ("h", "hpp", "hh", "inl", "inc", "c") for f in glob.glob(root + "/**/*." + ext, recursive=True))
        for f in fs:
            h.update(f.encode()); h.update(read(f))
    return h.hexdigest()

def compile_one(args):
    src, obj, cmd = args
    if os.path.exists(obj):
        return None
    tmp = obj + ".tmp%d" % os.getpid()
    p = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return "%s\n%s" % (src, p.stdout.decode(errors="replace")[-4000:])
    os.rename(tmp, obj)
    return None

def build(harness_srcs, name, flavor="asan", libs=()):
    os.makedirs(OUT + "/" + flavor, exist_ok=True)
    flags = BASE + FLAVORS[flavor]
    hh = headers()
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/mdns_cpp/include"]
    jobs, objs = [], []
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) + sorted(glob.glob(REPO + "/mdns_cpp/src/*.cpp"))
    for s in srcs:
        if "/XMLLib/" in s:
            continue
        key = sh((hh + s + " ".join(flags)).encode() + read(s))[:32]
        o = "%s/%s/%s-%s.o" % (OUT, flavor, os.path.basename(s), key)
        jobs.append((s, o, ["clang++"] + flags + inc)); objs.append(o)
    lib = "%s/%s/lib-%s.a" % (OUT, flavor, sh(" ".join(objs).encode())[:24])
    vh = hashlib.sha256()
    for f in sorted(glob.glob(VERIF + "/harness/*.h")):
        vh.update(read(f))
    hobjs = []
    for s in harness_srcs:
        s = os.path.join(VERIF, "harness", s)
        hf = list(flags)
        key = sh((hh + vh.hexdigest() + s + " ".join(hf)).encode() + read(s))[:32]
        o = "%s/%s/h-%s-%s.o" % (OUT, flavor, os.path.basename(s), key)
        jobs.append((s, o, ["clang++"] + hf + inc + ["-I" + VERIF + "/harness"])); hobjs.append(o)
    # big files first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) * (8 if "mvrxchange" in j[0] else 1) * (4 if "/harness/" in j[0] else 1))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        sys.stderr.write("BUILD FAILED\n" + "\n".join(errs[:5]) + "\n")
        sys.exit(2)
    if not os.path.exists(lib):
        tmp = lib + ".tmp%d" % os.getpid()
        subprocess.check_call(["ar", "crs", tmp] + objs)
        os.rename(tmp, lib)
    exe = "%s/%s/%s-%s" % (OUT, flavor, name, sh((lib + " ".join(hobjs) + " ".join(libs)).encode())[:16])
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        san = [f for f in FLAVORS[flavor] if f.startswith("-fsanitize")]
        if flavor == "fuzz":
            san = [f.replace("fuzzer-no-link", "fuzzer") for f in san]
        subprocess.check_call(["clang++"] + san + ["-fno-sanitize-recover=all", "-Wl,--wrap=getpwuid", "-Wl,--wrap=fsync", "-o", tmp] + hobjs + [lib, "-luuid", "-lpthread", "-lz"] + list(libs))
        os.rename(tmp, exe)
    return exe

if __name__ == "__main__":
    import json
    cfg = json.load(open(VERIF + "/tools/checks.json"))
    for pid, c in cfg.items():
        print(pid, build(c["srcs"], pid, c.get("flavor", "asan"), c.get("libs", ())))
