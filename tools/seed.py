#!/usr/bin/env python3
"""seed.py new ID PROP  < patch-making: run inside scratch copy (see below)
seed.py scratch            make /tmp/w, a scratch copy of /repo with its own build
seed.py take ID            take the diff of /tmp/w as seeded/ID/patch.diff
seed.py check ID...        validate: applies, builds, tests pass, demo 0 -> nonzero, our check
seed.py valid ID...        the same without our check
seed.py hunt ID...         only run the property's check against it (VERIF_REPO=/tmp/w)
"""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VALID = sys.argv[1:2] == ["valid"]
W = os.environ.get("W", "/tmp/w")


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def scratch():
    if not os.path.exists(W):
        subprocess.check_call("cp -a /repo %s && rm -rf %s/_build" % (W, W), shell=True)
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % W)
    for f in ("build.sh", "test.sh", "run_tests.py"):
        t = open("/opt/vp/" + f).read().replace("/repo", W).replace("/opt/vp/run_tests", W + "_vp/run_tests").replace("/opt/vp/build.sh", W + "_vp/build.sh")
        os.makedirs(W + "_vp", exist_ok=True)
        open(W + "_vp/" + f, "w").write(t)


def build():
    return sh("bash %s_vp/build.sh" % W).returncode == 0


def tests():
    sh("bash %s_vp/test.sh %s_vp/o.json" % (W, W))
    got = set(json.load(open(W + "_vp/o.json"))["passed"])
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(want - got)


def demo(d):
    shutil.rmtree(W + "_demo", ignore_errors=True)
    shutil.copytree(d, W + "_demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    try:
        r = sh("bash %s_demo/demo.sh" % W, cwd=W, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, r.stdout.decode(errors="replace")[-300:]


def check(i, only_hunt=False):
    d = V + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    if not only_hunt:
        scratch()
        assert build()
        rc, o = demo(d)
        if rc != 0:
            print(i, "BAD: demo on unchanged tree gives", rc, o)
            return
    else:
        scratch()
    r = sh("git apply %s/patch.diff" % d, cwd=W)
    if r.returncode:
        print(i, "BAD: does not apply", r.stdout.decode())
        return
    if not only_hunt:
        if not build():
            print(i, "BAD: does not build")
            return
        miss = tests()
        if miss:
            print(i, "BAD: tests fail", miss[:5])
            return
        rc, o = demo(d)
        if rc == 0:
            print(i, "BAD: demo passes with the change")
            return
        print(i, "ok; demo:", rc, o.strip()[-200:])
    if VALID:
        return
    t = time.time()
    env = dict(os.environ, VERIF_REPO=W, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
    r = sh("python3 check.py %s" % meta["property"], cwd=V, env=env)
    o = r.stdout.decode(errors="replace").strip().split("\n")
    print(i, meta["property"], "CAUGHT" if r.returncode == 1 else "MISSED (%d)" % r.returncode, "%.0fs" % (time.time() - t), [x for x in o if x][-2:])
    sh("git checkout -q -- .", cwd=W)


a = sys.argv[1:]
if a[0] == "scratch":
    scratch()
elif a[0] == "take":
    d = V + "/seeded/" + a[1]
    os.makedirs(d, exist_ok=True)
    p = sh("git diff", cwd=W).stdout
    open(d + "/patch.diff", "wb").write(p)
    for f in ("demo.h", "demo.sh"):
        if not os.path.exists(d + "/" + f):
            shutil.copy(V + "/tools/" + f, d)
    sh("git checkout -q -- .", cwd=W)
elif a[0] in ("check", "hunt", "valid"):
    ids = a[1:] or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        check(i, a[0] == "hunt")
        sys.stdout.flush()
