"""Runs simulated executions in fresh processes and decides properties from them.

Everything a run does follows from its plan (a dict of key=value pairs, one of
them the seed). The engine fans plans out over worker processes, gates each
failure by running it again, minimises it, writes a replay file and the
evidence, and prints the verdict.
"""
import collections, hashlib, json, os, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

import vbuild

VERIF = vbuild.VERIF
REPLAYS = os.path.join(VERIF, "replays")
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(8, os.cpu_count() or 4))


class CheckError(Exception):
    pass


def binary(target):
    return os.path.join(vbuild.BUILD, target)


def run_plan(target, plan, env=None, wall=150):
    """One fresh process. Returns the result record."""
    fd, path = tempfile.mkstemp(prefix="vsim-", suffix=".json")
    os.close(fd)
    args = [binary(target)] + ["%s=%s" % kv for kv in plan.items() if kv[1] not in ("", None)]
    e = dict(os.environ)
    e.update(env or {})
    try:
        try:
            p = subprocess.run(args + ["result=" + path], env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=wall)
            rc, err = p.returncode, p.stderr[-400:].decode(errors="replace")
        except subprocess.TimeoutExpired:
            return {"status": "violation", "kind": "hang", "msg": "host time limit", "cycles": 0, "commits": 0, "cnt": {}, "hash": "hang"}
        try:
            with open(path) as f:
                d = json.load(f)
        except ValueError:
            d = None
        if d is None:
            if rc < 0:
                d = {"status": "violation", "kind": "crash", "msg": "died of signal %d %s" % (-rc, err), "cycles": 0,
                     "commits": 0, "cnt": {}, "hash": "sig%d" % -rc}
            else:
                d = {"status": "error", "kind": "no_result", "msg": "exit %d %s" % (rc, err), "cycles": 0, "commits": 0, "cnt": {}, "hash": ""}
        return d
    finally:
        os.unlink(path)


def fields(d, names):
    return {k: d.get(k) for k in names}


DET_FIELDS = ("status", "kind", "msg", "cycles", "commits", "exit", "hash", "timed_hash", "bus_hash", "txns", "cnt", "outsum")


def judge(job):
    """Runs a job; returns (record, extra records). The record's status is the verdict."""
    how = job.get("judge", "single")
    d = run_plan(job["target"], job["plan"])
    if d["status"] == "error":
        return d, []
    if how == "single":
        only = job.get("only")
        if d["status"] == "violation" and only and d["kind"] not in only:
            d = dict(d, status="other")
        return d, []
    if how == "twin":  # same plan, different process surroundings: everything must match
        e = run_plan(job["target"], job["plan"], env=job["env2"])
        if e["status"] == "error":
            return e, []
        a, b = fields(d, DET_FIELDS), fields(e, DET_FIELDS)
        if a != b:
            bad = [k for k in DET_FIELDS if a[k] != b[k]]
            k0 = bad[0]
            return dict(d, status="violation", kind="nondet", msg="two runs of one plan differ in %s (%s: %s / %s)" % (
                ",".join(bad), k0, str(a[k0])[:120], str(b[k0])[:120])), [e]
        return dict(d, status="ok"), [e]
    if how == "unchecked":  # with the simulator's own checker off nothing observable may change
        p = dict(job["plan"], opts=(job["plan"].get("opts", "") + " nodiff").strip())
        e = run_plan(job["target"], p)
        if e["status"] == "error" or d["status"] != "ok":
            return (e if e["status"] == "error" else d), []
        if e["status"] != "ok":
            return dict(e, kind="unchecked_" + e["kind"]), [e]
        for k in ("exit", "cycles", "bus_hash", "txns", "outsum"):
            if d.get(k) != e.get(k):
                return dict(d, status="violation", kind="unchecked", msg="%s differs once commit-time checking is off: %s / %s" % (
                    k, str(d.get(k))[:80], str(e.get(k))[:80])), [e]
        return d, [e]
    if how == "timing":  # same program, different bus timing: same retired history and memory
        others = []
        for env in job["others"]:
            e = run_plan(job["target"], dict(job["plan"], **env))
            others.append(e)
            if e["status"] == "error":
                return e, []
            if d["status"] == "violation":
                return d, others
            if e["status"] == "violation":
                return dict(e, kind="timing_" + e["kind"]), others
            for k in ("hash", "commits", "exit", "mem_hash", "console_hash"):
                if d.get(k) != e.get(k):
                    return dict(d, status="violation", kind="timing",
                                msg="%s differs between bus timings %s and %s: %s / %s" % (k, job["plan"].get("envseed"), env.get("envseed"), d.get(k), e.get(k))), others
        return d, others
    raise CheckError("unknown judge " + how)


def expand(s):
    out = set()
    for t in str(s).split(","):
        if not t:
            continue
        if "-" in t:
            a, b = t.split("-")
            out.update(range(int(a), int(b) + 1))
        else:
            out.add(int(t))
    return out


def compact(s):
    s = sorted(s)
    out, i = [], 0
    while i < len(s):
        j = i
        while j + 1 < len(s) and s[j + 1] == s[j] + 1:
            j += 1
        out.append(str(s[i]) if i == j else "%d-%d" % (s[i], s[j]))
        i = j + 1
    return ",".join(out)


def minimise(job, rec, deadline):
    """Greedy delta debugging over faults, program items and the timing profile."""
    kind = rec["kind"]
    best, brec, tried = job, rec, 0

    def attempt(plan):
        nonlocal best, brec, tried
        if time.time() > deadline:
            return False
        tried += 1
        j = dict(best, plan=plan)
        d, _ = judge(j)
        if d["status"] == "violation" and d["kind"] == kind:
            best, brec = j, d
            return True
        return False

    def attempt_many(plans):
        """Tries several candidate plans at once; keeps the first (in order) that still fails."""
        nonlocal best, brec, tried
        if time.time() > deadline or not plans:
            return -1
        tried += len(plans)
        with ThreadPoolExecutor(WORKERS) as ex:
            res = list(ex.map(lambda p: judge(dict(best, plan=p))[0], plans))
        for i, d in enumerate(res):
            if d["status"] == "violation" and d["kind"] == kind:
                best, brec = dict(best, plan=plans[i]), d
                return i
        return -1

    nf = rec.get("nfaults", 0)
    if best["plan"].get("env") == "faulty":
        if not attempt(dict(best["plan"], env="calm")):
            attempt(dict(best["plan"], fdrop=compact(range(nf))) if nf else dict(best["plan"], env="swarm"))
    for key, total in (("drop", rec.get("nitems", 0)), ("fdrop", nf if best["plan"].get("env") == "faulty" else 0)):
        if not total:
            continue
        chunk = max(1, total // 2)
        while chunk >= 1 and time.time() < deadline:
            gone = expand(best["plan"].get(key, ""))
            left = [i for i in range(total) if i not in gone]
            parts = [left[i:i + chunk] for i in range(0, len(left), chunk)]
            progress = False
            for w in range(0, len(parts), WORKERS):
                gone = expand(best["plan"].get(key, ""))
                cand = [dict(best["plan"], **{key: compact(gone | set(p))}) for p in parts[w:w + WORKERS]]
                if attempt_many(cand) >= 0:
                    progress = True
            if not progress:
                if chunk == 1:
                    break
                chunk = max(1, chunk // 2)
            elif chunk > 1 and len(left) <= chunk:
                chunk = max(1, chunk // 2)
    return best, brec, tried


def write_replay(pid, job, rec, orig, tried, why):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.json" % (pid, hashlib.sha256(json.dumps([job["target"], job["plan"]], sort_keys=True).encode()).hexdigest()[:10]))
    doc = {
        "property": pid, "job": {k: job[k] for k in job if k != "label"}, "expect": fields(rec, ("status", "kind", "msg", "hash", "cycles", "commits")),
        "seed": job["plan"].get("seed"), "original_plan": orig["plan"], "minimisation_runs": tried, "how": why,
        "program_items_kept": [n for i, n in enumerate(rec.get("items", [])) if i not in expand(job["plan"].get("drop", ""))],
        "faults_kept": [n for i, n in enumerate(rec.get("faults", [])) if i not in expand(job["plan"].get("fdrop", ""))] if job["plan"].get("env") == "faulty" else [],
        "last_retired": rec.get("tail", [])[-25:],
        "run_again": "python3 /verif/tools/replay.py " + path,
    }
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def known_findings():
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                out.append(json.loads(l))
    return out


def matches_finding(pid, job, rec, finds):
    for f in finds:
        if f["property"] != pid:
            continue
        m = f["match"]
        if all(str(job["plan"].get(k)) == str(v) for k, v in m.get("plan", {}).items()) and \
           all(str(rec.get(k)) == str(v) for k, v in m.get("record", {}).items()):
            return f
    return None


def run_jobs(jobs, budget, stop_after=4, heavy=False):
    """Runs jobs in order over the workers; yields (job, rec, extras) in job order."""
    t0 = time.time()
    out = []
    bad = 0
    workers = min(WORKERS, 4) if heavy else WORKERS
    with ThreadPoolExecutor(workers) as ex:
        it = iter(jobs)
        pend = {}
        done = False
        nxt = 0
        while True:
            while not done and len(pend) < workers:
                if time.time() - t0 > budget or bad >= stop_after:
                    done = True
                    break
                try:
                    j = next(it)
                except StopIteration:
                    done = True
                    break
                pend[ex.submit(judge, j)] = (nxt, j)
                nxt += 1
            if not pend:
                break
            for f in as_completed(list(pend)):
                i, j = pend.pop(f)
                d, extra = f.result()
                out.append((i, j, d, extra))
                if d["status"] == "violation":
                    bad += 1
                break
    out.sort(key=lambda x: x[0])
    return out, time.time() - t0


def decide(pid, spec):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    for t in spec["targets"]:
        try:
            vbuild.build(t)
        except vbuild.BuildError as e:
            print("build of %s failed\n%s" % (t, e))
            return 2
    t_build = time.time() - t0
    n = spec["quick"] if tier == "quick" else spec["thorough"]
    budget = spec.get("quick_s", 200) if tier == "quick" else spec.get("thorough_s", 600)
    jobs = spec["jobs"](seed, n)
    res, run_wall = run_jobs(jobs, budget, heavy=spec.get("heavy", False))
    errors = [(j, d) for _, j, d, _ in res if d["status"] == "error"]
    finds = known_findings()
    violations, listed = [], []
    for _, j, d, _ in res:
        if d["status"] == "violation":
            f = matches_finding(pid, j, d, finds)
            (listed if f else violations).append((j, d, f))
    status = 0
    shown = set()
    for j, d, f in listed:
        if f["what"] not in shown:
            shown.add(f["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    reported = []
    if violations:
        # gate: the same plan must fail the same way again in fresh processes
        flaky = []
        for j, d, _ in violations:
            d2, _ = judge(j)
            same = d2["status"] == "violation" and d2["kind"] == d["kind"] and (j.get("judge") == "twin" or d2.get("hash") == d.get("hash"))
            if not same:
                flaky.append((j, d, d2))
                continue
            deadline = time.time() + (0 if os.environ.get("VERIF_NOMIN") else 60 if tier == "quick" else 120)
            best, brec, tried = minimise(j, d, deadline)
            again, _ = judge(best)
            if not (again["status"] == "violation" and again["kind"] == brec["kind"] and (j.get("judge") == "twin" or again.get("hash") == brec.get("hash"))):
                best, brec = j, d
            path = write_replay(pid, best, brec, j, tried, "kind %s: %s" % (brec["kind"], brec["msg"]))
            print("seed %s target %s: %s: %s" % (j["plan"].get("seed"), j["target"], brec["kind"], brec["msg"]))
            print("  minimised to %d program items, %d faults (%d runs)" % (
                max(0, brec.get("nitems", 0) - len(expand(best["plan"].get("drop", "")))),
                max(0, brec.get("nfaults", 0) - len(expand(best["plan"].get("fdrop", "")))) if best["plan"].get("env") == "faulty" else 0, tried))
            for l in brec.get("tail", [])[-6:]:
                print("    " + l)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            reported.append(path)
            status = 1
            break
        for j, d, d2 in [] if reported else flaky:
            # Fails again and again but not bit for bit: the tree under test is itself nondeterministic.
            again = [d2] + [judge(j)[0] for _ in range(3)]
            if sum(e["status"] == "violation" for e in again) >= 2:
                path = write_replay(pid, j, d, j, 0, "kind %s: %s (fails on repetition, but not with one history: the code depends on something other than its inputs)" % (d["kind"], d["msg"]))
                print("seed %s target %s: %s: %s (not the same history each time)" % (j["plan"].get("seed"), j["target"], d["kind"], d["msg"]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                reported.append(path)
                status = 1
                break
        if not reported and flaky:
            j, d, d2 = flaky[0]
            print("not reproducible: plan %s gave %s/%s then %s/%s" % (j["plan"], d["kind"], d.get("hash"), d2["status"], d2.get("hash")))
            status = 2
    if errors and status == 0:
        j, d = errors[0]
        print("error: plan %s target %s: %s" % (j["plan"], j["target"], d["msg"]))
        status = 2
    write_evidence(pid, spec, tier, seed, res, run_wall, t_build, time.time() - t0, len(violations))
    ok = sum(1 for r in res if r[2]["status"] != "error")
    print("%s: %d executions, %.1fs run, %.1fs build, exit %d" % (pid, ok, run_wall, t_build, status))
    if status == 0 and ok < min(len(jobs), spec.get("min_runs", 8)):
        print("error: too few executions completed")
        status = 2
    return status


def write_evidence(pid, spec, tier, seed, res, run_wall, t_build, wall, nviol):
    recs = [d for _, _, d, _ in res] + [e for r in res for e in r[3]]
    cnt = collections.Counter()
    fired = collections.Counter()
    cycles = commits = 0
    for d in recs:
        cycles += d.get("cycles", 0) or 0
        commits += d.get("commits", 0) or 0
        for k, v in d.get("cnt", {}).items():
            cnt[k] += v
        for k, v in d.get("fired", {}).items():
            fired[k] += v
    need = spec.get("nontrivial", lambda d: d.get("commits", 0) > 20)
    inter = {d.get("timed_hash") or d.get("hash") for d in recs}
    nontriv = {(d.get("timed_hash"), d.get("hash"), d.get("detail")) for d in recs if d["status"] in ("ok", "violation", "other") and need(d)}
    labels = collections.Counter(j.get("label", j["plan"].get("scenario", "")) for _, j, _, _ in res)
    samples = []
    for _, j, d, _ in res[:2] + res[-1:]:
        samples.append({"target": j["target"], "plan": j["plan"], "status": d["status"], "cycles": d.get("cycles"), "retired": d.get("commits"),
                        "history_hash": d.get("hash"), "events": dict(sorted(d.get("cnt", {}).items())[:12]), "faults_fired": d.get("fired", {})})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": len(recs), "distinct_nontrivial": len(nontriv), "rule": spec["rule"], "samples": samples,
            "runs_by_kind": dict(labels), "seeds_per_hour": int(len(recs) / max(run_wall, 1e-3) * 3600),
            "simulated_cycles": cycles, "retired_instructions": commits,
            "distinct_interleavings": len(inter),
            "interleaving_measure": "hash of the (cycle, pc) sequence of retired instructions",
            "fault_counts": dict(fired), "events": dict(sorted(cnt.items())),
            "real": spec.get("real", REAL), "stub": spec.get("stub", STUB), "workers": WORKERS, "build_s": round(t_build, 1),
        },
        "assumptions": spec.get("assumptions", ASSUME), "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))


REAL = ["main program and command line", "front end, predictors, instruction cache", "decode, rename, dispatch, issue, execute, reorder buffer, CSRs",
        "load/store unit, address translation and page-table walker", "data cache, miss registers, write buffer, peripheral bridge, device models",
        "the simulator's own retired-state checker"]
STUB = ["interconnect and DRAM (seeded timing stand-in behind the published port interface)",
        "reference executor library (independent architectural model behind the published interface)"]
ASSUME = ["the stand-in interconnect keeps one response per accepted request, in order for equal ids",
          "peripheral ports accept at most one request per two processor cycles",
          "the independent architectural model is right for the generated programs",
          "sampled, not exhaustive: only the listed seeds were run"]
