#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the bug definitions and validates them in scratch copies.
mk.py gen [ID..] | verify [ID..] | checks [ID..]"""
import sys, os, re, json, glob, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.abspath(H + "/../..")
sys.path.insert(0, H); sys.path.insert(0, V)
BUGS = {}
for f in sorted(glob.glob(H + "/bugs*.py")):
    m = __import__(os.path.basename(f)[:-3])
    for b in m.BUGS: BUGS[b["id"]] = b
# the test suite sees these, or they break nothing
for i in """C11-max-size-not-aligned C12-destroy-skips-empty C08-kept-halves C21-third-level-undo C14-header-slack C15-savepoint-before-limit
 C09-objects-after-header C02-push-order C24-region-reserve-tail C24-lsregion-gc-reserved C17-dup-from-refused C12-stats-stop C24-truncate-keeps-reserved C09-spare-not-linked C21-reserve-shared-level C17-reset-used-only C14-gc-last-slab C13-aligned-fast-path C11-group-of-33 C02-hoisted-element C14-destroy-leaves-cached
 C02-stale-next-on-retry C06-idle-lessor-keeps C06-halved-below-required C13-reset-stops-at-unused C17-destroy-used-only C22-refusal-rewinds C13-callback-before-truncation C06-used-not-rounded C02-tag-carry C20-next-link-lost
 C02-pop-gives-up C08-put-into-full-order C06-lease-rounded-quota-not C20-view-of-shorter-past""".split(): BUGS.pop(i, None)
W = "/tmp/seedwork"

def scratch(i):
    d = "%s/%s" % (W, i)
    subprocess.run(["rm", "-rf", d]); os.makedirs(d)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (d, d), shell=True, check=True)
    return d

def edit(d, b):
    for f, old, new in b["edits"]:
        p = os.path.join(d, f); s = open(p).read()
        assert s.count(old) == 1, "%s: %d matches in %s: %r" % (b["id"], s.count(old), f, old)
        open(p, "w").write(s.replace(old, new))

def gen(i):
    b = BUGS[i]; d = scratch(i); edit(d, b)
    o = "%s/seeded/%s" % (V, i)
    os.makedirs(o, exist_ok=True)
    diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    open(o + "/patch.diff", "w").write(diff)
    t = open(H + "/demo.sh.tmpl").read()
    asan = b.get("asan")
    if asan:
        src = 'SRC=$(ls small/*.c); for a in small/*_asan.c; do SRC=$(echo "$SRC" | grep -vx "${a%_asan.c}.c"); done'
    else:
        src = 'SRC=$(ls small/*.c | grep -v _asan.c)'
    if b.get("nolib"): src = "SRC="
    fl = b.get("flags", "-O1 -g") + (" -fsanitize=address" if asan else "")
    t = t.replace("@SRCS@", src).replace("@FLAGS@", fl).replace("@CFG@", "asan" if asan else "plain")
    open(o + "/demo.sh", "w").write(t); os.chmod(o + "/demo.sh", 0o755)
    open(o + "/demo.c", "w").write('#include "d.h"\n' + b["demo"].lstrip("\n"))
    for f in ["d.h"] + b.get("files", []):
        shutil.copy(H + "/" + f, o + "/" + f)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)

def build_test(d):
    sh = open("/opt/vp/build.sh").read().replace("/repo", d).replace("-j8", "-j4")
    open(d + "/.b.sh", "w").write(sh)
    r = subprocess.run(["bash", d + "/.b.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: return "BUILD FAILED " + r.stdout[-500:]
    ls = []
    for c in ("plain", "asan"):
        rep = d + "/_build/reports/" + c
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep + ".lines", "w") as f:
            subprocess.run(["python3", "/opt/vp/run_tests.py", c, d + "/_build/" + c, rep], stdout=f, stderr=subprocess.DEVNULL)
    subprocess.run(["python3", "/opt/vp/results.py", d + "/o.json", "lines:%s/_build/reports/*.lines" % d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    o = json.load(open(d + "/o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = sorted(set(st) - set(o["passed"]))
    return "TESTS FAIL %s" % miss[:4] if miss else ""

def demo(d, i):
    t = "/tmp/seedwork/demo-" + i
    subprocess.run(["rm", "-rf", t]); shutil.copytree("%s/seeded/%s" % (V, i), t)
    for x in ("patch.diff", "meta.json"): os.unlink(t + "/" + x)
    r = subprocess.run(["bash", t + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout[-300:]

def verify(i):
    d = scratch(i)
    out = []
    sh = open("/opt/vp/build.sh").read().replace("/repo", d).replace("-j8", "-j4")
    open(d + "/.b0.sh", "w").write(sh)
    subprocess.run(["bash", d + "/.b0.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    rc, t = demo(d, i)
    if rc: out.append("DEMO FAILS ON CLEAN rc=%d %s" % (rc, t))
    r = subprocess.run(["git", "-C", d, "apply", "%s/seeded/%s/patch.diff" % (V, i)], stderr=subprocess.PIPE, text=True)
    if r.returncode: return i, "PATCH " + r.stderr
    e = build_test(d)
    if e: out.append(e)
    rc, t = demo(d, i)
    if rc == 0: out.append("DEMO PASSES WITH PATCH")
    elif rc == 3: out.append("DEMO BUILD FAILS WITH PATCH " + t)
    subprocess.run(["rm", "-rf", d])
    return i, "; ".join(out) or "ok (rc=%d %s)" % (rc, t.strip().replace("\n", " | ")[-160:])

def checks(i):
    import time
    d = scratch(i)
    subprocess.run(["git", "-C", d, "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
    t0 = time.time()
    p = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    env = dict(os.environ, SMALL_REPO=d, SMALL_SIM_BUILD="/tmp/seedbuild", VERIF_SEED="1", SMALL_SIM_OUT="/tmp/seedout")
    r = subprocess.run(["python3", V + "/run.py", "check", p, "--tier=quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    subprocess.run(["rm", "-rf", d])
    m = re.search(r"^VIOLATION.*$", r.stdout, re.M)
    first = ([l for l in r.stdout.strip().split("\n") if not l.startswith("KNOWN-FINDING")] or [""])[0][:230]
    return i, "%s rc=%d %.0fs %s" % ("CAUGHT" if r.returncode == 1 and m else "MISSED", r.returncode, time.time() - t0, first)

def main():
    cmd = sys.argv[1]; ids = sys.argv[2:] or sorted(BUGS)
    if cmd == "gen":
        for i in ids: gen(i)
    else:
        with ThreadPoolExecutor(4 if cmd == "verify" else 1) as p:
            for i, r in p.map(verify if cmd == "verify" else checks, ids): print(i, r, flush=True)
if __name__ == "__main__": main()
