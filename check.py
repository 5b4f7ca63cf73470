#!/usr/bin/env python3
"""Build the simulator against /repo's working tree and decide one property.

  check.py setup            build only
  check.py C01              decide property C01 (VERIF_TIER, VERIF_SEED)
  check.py replay FILE      replay a recorded violation

exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed
"""
import glob, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CXX = "g++"
FLAGS = ["-std=c++14", "-O1", "-g", "-fwrapv", "-fno-delete-null-pointer-checks",
         "-fno-strict-aliasing", "-fno-pie", "-w", "-include", "cstring",
         "-D__error_t_defined=1", "-I" + REPO + "/source/lib_common", "-I/usr/include/SDL2"]
WRAP = ["fopen", "fopen64", "remove", "unlink", "rename", "exit", "read", "write"]

# runs of the quick and the thorough tier
RUNS = {
    "C01": (100000, 4000000), "C02": (100000, 4000000), "C03": (100000, 4000000),
    "C04": (120000, 5000000), "C05": (100000, 4000000), "C06": (80000, 3000000),
    "C07": (8000, 600000), "C09": (80000, 2500000), "C10": (80000, 2500000),
    "C11": (20000, 700000), "C12": (150000, 5000000), "C16": (100000, 4000000),
    "C18": (100000, 4000000),
}
DEFAULT_RUNS = (60000, 2500000)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(path):
    with open(path, "rb") as f:
        return f.read()


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])
        raise SystemExit(2)


def build(what):
    os.makedirs(BUILD, exist_ok=True)
    lib = sorted(glob.glob(REPO + "/source/lib_*/**/*.cpp", recursive=True))
    heads = sorted(glob.glob(REPO + "/source/**/*.h", recursive=True) +
                   glob.glob(REPO + "/source/**/*.hpp", recursive=True) +
                   glob.glob(REPO + "/source/**/*.inl", recursive=True))
    sim = sorted(glob.glob(HERE + "/sim/*.cpp"))
    simh = sorted(glob.glob(HERE + "/sim/*.h"))
    hr = sha(*[p for h in heads for p in (os.path.relpath(h, REPO), read(h))])
    hs = sha(*[p for h in simh for p in (os.path.basename(h), read(h))])
    jobs, objs = [], []
    items = [(f, [], hr) for f in lib] + [(f, [], hr + hs) for f in sim]
    # the command line programs, each only for the property about it
    for prop, d, entry in (("C17", "driver", "driver_main"), ("C22", "driver_sdl", "driver_sdl_main"),
                           ("C23", "comp", "comp_main")):
        if what == prop or what in ("setup", "replay"):
            items += [(f, ["-Dmain=" + entry], hr)
                      for f in sorted(glob.glob(REPO + "/source/" + d + "/*.cpp"))]
    for f, extra, deps in items:
        key = sha(f, read(f), deps, *(FLAGS + extra))[:24]
        o = os.path.join(BUILD, os.path.basename(f) + "." + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((f, extra, o))

    def one(job):
        f, extra, o = job
        t = "%s.%d.tmp" % (o, os.getpid())
        cmd = [CXX] + FLAGS + extra + ["-c", f, "-o", t]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return " ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:]
        os.replace(t, o)
        return None

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        bad = [e for e in ex.map(one, jobs) if e]
    if bad:
        sys.stderr.write("build failed\n" + "\n".join(bad))
        raise SystemExit(2)
    exe = os.path.join(BUILD, "nanosim." + sha(*objs)[:24])
    if not os.path.exists(exe):
        t = "%s.%d.tmp" % (exe, os.getpid())
        link = [CXX, "-no-pie", "-o", t] + objs + ["-Wl," + ",".join("--wrap=" + w for w in WRAP)]
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            # something of SDL that is not simulated
            run(link + ["-lSDL2"])
        os.replace(t, exe)
    # keep the cache small
    keep = set(objs + [exe])
    for f in glob.glob(BUILD + "/*"):
        if f not in keep and time.time() - os.path.getmtime(f) > 6 * 3600:
            try:
                os.remove(f)
            except OSError:
                pass
    return exe


def main():
    if len(sys.argv) < 2:
        sys.stderr.write(__doc__)
        return 2
    what = sys.argv[1]
    exe = build(what)
    if what == "setup":
        return 0
    if what == "replay":
        return subprocess.call([exe, "replay", sys.argv[2], "--v"])
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    quick, deep = RUNS.get(what, DEFAULT_RUNS)
    ev = os.path.join(HERE, "evidence", what + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    cmd = [exe, "run", "--prop=" + what, "--seed=%d" % seed, "--evidence=" + ev,
           "--replays=" + os.path.join(HERE, "replays"),
           "--workers=%d" % max(1, os.cpu_count() or 1)]
    if tier == "thorough":
        cmd += ["--thorough", "--runs=%d" % deep, "--time=3000", "--minimise=120"]
    else:
        cmd += ["--runs=%d" % quick, "--time=300", "--minimise=30"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE)
    out = r.stdout.decode(errors="replace")
    sys.stdout.write(out)
    sys.stdout.flush()
    if r.returncode == 0:
        return 0
    if r.returncode == 1 and ("VIOLATION property=%s " % what) in out:
        return 1
    sys.stderr.write("check of %s ended with status %d\n" % (what, r.returncode))
    return 2


if __name__ == "__main__":
    sys.exit(main())
