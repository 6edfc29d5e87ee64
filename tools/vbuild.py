#!/usr/bin/env python3
"""Builds the simulation binaries from /repo's current working tree.

Objects are reused only when the source, every header it read last time and the
flags have the same contents, so edits with unchanged timestamps are seen.
Everything is written under /verif/build.
"""
import hashlib, json, os, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
INC = ["include", "libs/include", "back-end/include", "back-end/Exu/include",
       "back-end/Lsu/include", "back-end/tools/include", "MemSubSystem/include",
       "diff/include", "front-end", "."]
BASE = ["-O2", "-std=c++2a", "-march=x86-64", "-mtune=generic", "-w", "-MMD", "-MP", "-g1"]


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


def fhash(path, memo):
    if path not in memo:
        try:
            with open(path, "rb") as f:
                memo[path] = sha(f.read())
        except OSError:
            memo[path] = "absent"
    return memo[path]


def deps_of(dfile):
    try:
        txt = open(dfile).read().replace("\\\n", " ")
    except OSError:
        return None
    first = txt.split("\n")[0]
    return first.split(":", 1)[1].split()


def repo_sources(root):
    def find(d):
        return sorted(glob.glob(os.path.join(root, d, "**", "*.cpp"), recursive=True))
    src = find("back-end") + find("front-end")
    src += [p for p in find("diff") if os.path.basename(p) != "ref.cpp"]
    ms = ["MemSubsystem", "PtwWalker", "PeripheralAxi", "RealDcache", "MSHR",
          "WriteBuffer", "DcacheConfig", "MemRouteBlock"]
    # The Makefile lists these by name; pick up anything added beside them too.
    src += sorted(set(find("MemSubSystem")) | {os.path.join(root, "MemSubSystem", m + ".cpp") for m in ms})
    src += sorted(glob.glob(os.path.join(root, "*.cpp")))
    return [s for s in src if os.path.exists(s)]


def overlay(profile):
    """Symlink farm of /repo with one of its own configuration profiles."""
    root = os.path.join(BUILD, "overlay-" + profile)
    shutil.rmtree(root, ignore_errors=True)
    for d, subs, files in os.walk(REPO):
        subs[:] = [s for s in subs if not s.startswith(".") and s not in ("build", "baremetal", "tools", "script", "doc")]
        rel = os.path.relpath(d, REPO)
        os.makedirs(os.path.join(root, rel), exist_ok=True)
        for f in files:
            if f.endswith((".cpp", ".h", ".hpp", ".a", ".inc", ".tpp")):
                os.symlink(os.path.join(d, f), os.path.join(root, rel, f))
    for dst in ("include/config.h", "front-end/config/frontend_feature_config.h"):
        s = os.path.join(REPO, dst + "." + profile)
        if os.path.exists(s):
            os.unlink(os.path.join(root, dst))
            os.symlink(s, os.path.join(root, dst))
    return root


OWN = ["axi_kit", "model", "refapi", "monitor", "gen", "vsim_main"]
TARGETS = {
    # name: (defines, profile or None, repo sources?, own sources)
    "vsim": dict(defs=["-DNDEBUG"], profile=None,
                 own=OWN),
    "vassert": dict(defs=["-UNDEBUG"], profile=None, own=OWN),
    # the sequential executor alone, in lockstep with the model
    "vref": dict(defs=["-DNDEBUG"], profile=None, sources=["diff/ref.cpp"], own=["model", "gen", "ref_main"]),
    # the repository's other configuration profiles
    "vmedium": dict(defs=["-DNDEBUG"], profile="medium", own=OWN),
    "vlarge": dict(defs=["-DNDEBUG"], profile="large", own=OWN),
    "vdefault": dict(defs=["-DNDEBUG"], profile="default", own=OWN),
    "vdebug": dict(defs=["-DNDEBUG", "-g", "-O1"], profile=None, own=OWN),
}


def build(name, quiet=True):
    t = TARGETS[name]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name)
    with open(os.path.join(BUILD, ".lock-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(name, t, out, quiet)


def _build(name, t, out, quiet):
    root = overlay(t["profile"]) if t.get("profile") else REPO
    odir = os.path.join(BUILD, "obj-" + name)
    os.makedirs(odir, exist_ok=True)
    inc = ["-I" + os.path.join(SIM, "kit"), "-I" + os.path.join(SIM, "refapi"), "-I" + os.path.join(SIM, "src")]
    inc += ["-I" + os.path.normpath(os.path.join(root, i)) for i in INC]
    flags = BASE + t["defs"] + inc
    memo = {}
    jobs = []
    if t.get("sources"):
        rsrc = [os.path.join(root, s) for s in t["sources"]]
    else:
        rsrc = repo_sources(root)
    srcs = [(s, os.path.relpath(s, root).replace("/", "__")[:-4]) for s in rsrc]
    srcs += [(os.path.join(SIM, "src", s + ".cpp"), "own__" + s) for s in t["own"]]
    objs = []
    for s, n in srcs:
        o = os.path.join(odir, n + ".o")
        objs.append(o)
        f = list(flags)
        if os.path.basename(s) == "main.cpp" and s.startswith(root):
            f += ["-Dmain=simulator_main"]
        d = deps_of(o[:-2] + ".d")
        key = None
        if d is not None and os.path.exists(o):
            key = sha(json.dumps([f, [fhash(x, memo) for x in d]]).encode())
            try:
                if open(o + ".key").read() == key:
                    continue
            except OSError:
                pass
        jobs.append((s, o, f))

    def comp(j):
        s, o, f = j
        r = subprocess.run(["g++", *f, "-c", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            return (s, r.stderr)
        d = deps_of(o[:-2] + ".d")
        k = sha(json.dumps([f, [fhash(x, memo) for x in d]]).encode())
        open(o + ".key", "w").write(k)
        return None
    # biggest first keeps the tail short
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        bad = [e for e in ex.map(comp, jobs) if e]
    if bad:
        raise BuildError("\n".join("%s:\n%s" % (s, e[:3000]) for s, e in bad[:4]))
    if jobs or not os.path.exists(out):
        libs = [os.path.join(REPO, "libs", "softfloat.a")]
        r = subprocess.run(["g++", "-o", out + ".tmp", *objs, *libs, "-lz"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[:6000])
        os.rename(out + ".tmp", out)
    if not quiet:
        print("built", name, "compiled", len(jobs), "of", len(srcs))
    return out


if __name__ == "__main__":
    try:
        for n in sys.argv[1:] or list(TARGETS):
            build(n, quiet=False)
    except BuildError as e:
        print("BUILD-ERROR\n" + str(e))
        sys.exit(2)
