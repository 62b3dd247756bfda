#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]      run the check of one property
   check.py --replay <file>            re-run one recorded violation
   check.py --one <ID> <space:index> [tier]   re-run one case
   check.py --setup                    build one harness (sanity check of the toolchain)

Builds Ninkasi's library sources from /repo's working tree (gcc, ASan+UBSan, asserts on) together with the
property's harness, explores its case spaces, writes evidence/<ID>.json."""
import sys, os, re, json, glob, hashlib, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NK_REPO", "/repo")
SRC = os.path.join(REPO, "src")
JOBS = min(8, os.cpu_count() or 8)
SAN = ["-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
NCHECKS = 28


def read(p):
    with open(p, "rb") as f:
        return f.read()


def libsources():
    out = []
    for p in sorted(glob.glob(SRC + "/*.c")):
        if not re.search(rb"^\s*int\s+main\s*\(", read(p), re.M):
            out.append(p)
    return out


def build(pid, quiet=True):
    """Returns the path of the harness binary for the property."""
    cache = os.path.join(V, "build", "cache")
    os.makedirs(cache, exist_ok=True)
    hdr = hashlib.sha256()
    for p in sorted(glob.glob(SRC + "/*.h")) + sorted(glob.glob(V + "/mc/*.h")):
        hdr.update(os.path.basename(p).encode() + b"\0" + read(p))
    hdr.update(SRC.encode())
    base = hdr.hexdigest()
    jobs = []
    for p in libsources():
        jobs.append((p, ["gcc"] + SAN + ["-DNK_VERIF=1", "-Dmalloc=nkv_malloc", "-Dfree=nkv_free", "-Dcalloc=nkv_calloc", "-Drealloc=nkv_realloc", "-w", "-I" + SRC, "-c", p]))
    hs = [V + "/mc/mc.cpp", V + "/mc/host.cpp"]
    hp = V + "/mc/%s.cpp" % pid.lower()
    m = re.findall(r"^//\s*uses:\s*(.*)$", read(hp).decode(), re.M)
    for l in m:
        hs += [V + "/mc/" + x for x in l.split()]
    hs.append(hp)
    # "// program: <file> <name>": a program of the repository whose main is linked in under another name
    for f, n in re.findall(r"^//\s*program:\s*(\S+)\s+(\S+)", read(hp).decode(), re.M):
        p = os.path.join(SRC, f)
        jobs.append((p, ["gcc"] + SAN + ["-DNK_VERIF=1", "-Dmain=" + n, "-Dmalloc=nkv_malloc", "-Dfree=nkv_free", "-Dcalloc=nkv_calloc", "-Drealloc=nkv_realloc", "-w", "-I" + SRC, "-c", p]))
    for p in hs:
        # the reference interpreter is not code under test: it is built without sanitizers
        opt = ["-g1", "-O2"] if p.endswith("/lang.cpp") else SAN
        jobs.append((p, ["g++", "-std=c++17"] + opt + ["-w", "-I" + SRC, "-I" + V + "/mc", "-c", p]))
    objs = []

    def one(j):
        p, cmd = j
        h = hashlib.sha256(base.encode() + read(p) + " ".join(cmd).encode()).hexdigest()[:32]
        o = os.path.join(cache, h + ".o")
        if not os.path.exists(o):
            t = o + ".%d.tmp" % os.getpid()
            r = subprocess.run(cmd + ["-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return None, r.stdout
            os.rename(t, o)
        return o, ""
    with ThreadPoolExecutor(JOBS) as ex:
        for o, msg in ex.map(one, jobs):
            if o is None:
                print("BUILD ERROR\n" + msg)
                sys.exit(2)
            objs.append(o)
    h = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
    binp = os.path.join(cache, "h_%s_%s" % (pid, h))
    if not os.path.exists(binp):
        t = binp + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + SAN + objs + ["-lm", "-o", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("LINK ERROR\n" + r.stdout)
            sys.exit(2)
        os.rename(t, binp)
    return binp


def known(pid):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                k = json.loads(l[7:])
                if k["property"] == pid:
                    out.append(k)
    return out


def prune():
    c = os.path.join(V, "build", "cache")
    try:
        fs = sorted((os.path.join(c, f) for f in os.listdir(c)), key=os.path.getmtime)
        tot = sum(os.path.getsize(f) for f in fs)
        for f in fs:
            if tot < 600e6:
                break
            tot -= os.path.getsize(f)
            os.unlink(f)
    except OSError:
        pass


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(V + "/build", exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replays", exist_ok=True)
    prune()
    binp = build(pid)
    tb = time.time() - t0
    d = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=V + "/build")
    try:
        deadline = {"quick": 660, "thorough": 5 * 3600}[tier]
        if os.environ.get("NK_DEADLINE"):
            deadline = float(os.environ["NK_DEADLINE"])
        res = os.path.join(d, "res.json")
        r = subprocess.run([binp, "--tier", tier, "--jobs", str(JOBS), "--out", res, "--dir", d, "--deadline", str(deadline)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode or not os.path.exists(res):
            print("HARNESS ERROR rc=%d\n%s" % (r.returncode, r.stdout[-4000:]))
            sys.exit(2)
        j = json.load(open(res))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    kn = known(pid)
    seen = [0] * len(kn)
    viol, unconf = [], []
    for f in j["failures"]:
        sanit = f["crash"] and re.search(r"AddressSanitizer|runtime error:|Assertion", f["msg"])
        if not f["confirmed"] and not sanit:
            unconf.append(f)
            continue
        hit = False
        for i, k in enumerate(kn):
            if k["space"] == f["space"] and re.search(k["case"], f["desc"]) and re.search(k["msg"], f["msg"]):
                seen[i] += 1
                hit = True
                break
        if not hit:
            viol.append(f)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    lines = []
    for n, f in enumerate(viol):
        rp = os.path.join(V, "replays", "%s-%s-%d.json" % (pid, f["space"].replace("/", "_"), f["index"]))
        f2 = dict(f, property=pid, tier=tier, replay_cmd="python3 check.py --replay " + os.path.relpath(rp, V))
        with open(rp, "w") as o:
            json.dump(f2, o, indent=1)
        if n < 5:
            print("--- %s[%d]: %s" % (f["space"], f["index"], f["desc"][:1500]))
            print("    " + f["msg"][:2500].replace("\n", "\n    "))
        lines.append("VIOLATION property=%s replay=%s" % (pid, rp))
    for f in unconf:
        print("note: not reproduced alone (not reported): %s[%d]: %s" % (f["space"], f["index"], f["msg"][:300]))
    exhaustive = not j["capped"] and not j["stopped_early"] and not j["sets_saturated"]
    cov = {"exhaustive": not j["capped"] and not j["stopped_early"], "cases_total": j["total_cases"], "cases_run": j["cases_run"],
           "spaces": j["spaces"], "distinct_outcomes": j["distinct_outcomes"], "samples": j["samples"][:12], "bounds": j["bounds"],
           "rule": j["rule"], "build_s": round(tb, 1)}
    if j["sets_saturated"]:
        cov["note"] = "a distinct-count set filled up: states / distinct_nontrivial are lower bounds"
    cov.update({k: v for k, v in j["notes"].items()})
    if j["level"] == "model_checking":
        cov.update(states=j["states"], transitions=j["transitions"], traces_validated_against_impl=j["traces"])
    else:
        cov.update(evaluations=j["cases_run"], distinct_nontrivial=j["distinct_nontrivial"])
        if j["transitions"]:
            cov["transitions"] = j["transitions"]
    if unconf:
        cov["unconfirmed"] = len(unconf)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": j["level"], "coverage": cov, "assumptions": j["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    with open(V + "/evidence/%s.json" % pid, "w") as o:
        json.dump(ev, o, indent=1)
    print("%s %s: %d/%d cases, %d executions compared, %d transitions, %d states, %d violations, %.1fs%s" % (
        pid, tier, j["cases_run"], j["total_cases"], j["traces"], j["transitions"], j["states"], len(viol), time.time() - t0,
        "" if exhaustive else " (NOT exhaustive)"))
    for l in lines[:20]:
        print(l)
    sys.exit(1 if viol else 0)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build("C01")
        print("setup ok")
        return
    if a and a[0] == "--replay":
        f = json.load(open(a[1]))
        a = ["--one", f["property"], "%s:%d" % (f["space"], f["index"]), f["tier"]]
    if a and a[0] == "--one":
        b = build(a[1])
        with tempfile.TemporaryDirectory(prefix="one-", dir=V + "/build") as d:
            sys.exit(subprocess.run([b, "--tier", a[3] if len(a) > 3 else "quick", "--replay", a[2], "--dir", d]).returncode)
    if not a:
        print(__doc__)
        sys.exit(2)
    run(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


main()
