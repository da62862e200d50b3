#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: build from /repo's working tree, explore, write evidence.

exit 0: the property held on everything explored; exit 1: violation (confirmed by replay)."""
import os, sys, json, time, subprocess, mmap, struct, re, tempfile, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.dont_write_bytecode = True
import build as B
import jobs as J

def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}

def replay_text(prop, job, v):
    t = ["# property %s" % prop, "# %s" % v["msg"].split("\n")[0][:300].replace("\r", " ")]
    t += ["flavour %s" % job["flavour"], "program %s" % job["prog"], "scenario %s" % job["scen"]]
    t += ["arg %s" % a for a in job["args"]]
    t += ["choice %d %d %d" % tuple(c) for c in v["path"]]
    return "\n".join(t) + "\n"

def run_replay(exe, job, path, wd=4, limit=240):
    out = path + ".out"
    cmd = [exe, "-s", job["scen"], "-wd", str(wd), "-out", out, "-replay", path]
    for a in job["args"]:
        cmd += ["-o", a]
    try:
        subprocess.run(cmd, timeout=limit, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=clean_env())
        r = json.load(open(out))
    except Exception as e:
        return None
    finally:
        if os.path.exists(out):
            os.unlink(out)
    return r["violations"][0]["msg"] if r["violations"] else None

def clean_env():
    e = dict(os.environ)
    for k in ("MC_POOL", "MC_DEADLINE", "MC_NOASLR"):
        e.pop(k, None)
    return e

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = J.PROPS[prop]
    jobs = [dict(j) for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    for j in jobs:
        if tier == "thorough" and "thorough" in j:
            j["args"] = J.merge_args(j["args"], j["thorough"])
    only = os.environ.get("VERIF_ONLY")
    if only:
        jobs = [j for j in jobs if re.search(only, j["scen"] + " " + " ".join(j["args"]))]
    t0 = time.time()
    kf = [k for k in known()["findings"] if k["status"] == "open" and k["property"] == prop]
    def listed(j, msg):
        for k in kf:
            if re.search(k["scenario"], j["scen"] + " " + " ".join(j["args"])) and re.search(k["match"], msg):
                return k
        return None
    exes = {}
    for j in jobs:
        k = (j["flavour"], j["prog"])
        if k not in exes:
            try:
                exes[k] = B.build(*k)
            except B.HarnessError as e:
                print("note: %s does not build against this tree, its scenarios are skipped: %s" % (k[1], str(e)[-600:]))
                exes[k] = None
    skipped = [j for j in jobs if exes[(j["flavour"], j["prog"])] is None]
    jobs = [j for j in jobs if exes[(j["flavour"], j["prog"])] is not None]
    if not jobs:
        print("no scenario could be built")
        return 2
    tb = time.time() - t0
    cap = float(os.environ.get("VERIF_CAP", spec.get("cap", 150) if tier == "quick" else spec.get("cap_thorough", 780)))
    ncpu = min(8, os.cpu_count() or 8)
    tmp = tempfile.mkdtemp(prefix="mcrun.")
    res = []
    try:
        pool = os.path.join(tmp, "pool")
        with open(pool, "wb") as f:
            f.write(struct.pack("i", ncpu) + b"\0" * 4092)
        env = clean_env()
        env["MC_POOL"] = pool
        env["MC_DEADLINE"] = "%.3f" % (time.clock_gettime(time.CLOCK_MONOTONIC) + cap)
        procs = []
        for i, j in enumerate(jobs):
            out = os.path.join(tmp, "r%d.json" % i)
            cmd = [exes[(j["flavour"], j["prog"])], "-s", j["scen"], "-out", out, "-v", "1" if any(a.startswith("known=") for a in j["args"]) else "4"]
            for a in j["args"]:
                cmd += ["-o", a]
            procs.append((j, out, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        stop = False
        pend = list(procs)
        while pend:
            time.sleep(0.02)
            for x in list(pend):
                j, out, p = x
                if p.poll() is None:
                    continue
                pend.remove(x)
                r = None
                if os.path.exists(out):
                    try: r = json.load(open(out))
                    except Exception: r = None
                if r is None:
                    if not stop:
                        print("note: job %s %s gave no result (exit %s)" % (j["scen"], j["args"], p.returncode))
                    continue
                r["job"] = j
                res.append(r)
                if any(not listed(j, v["msg"]) for v in r["violations"]) and not os.environ.get("VERIF_ALL"):
                    stop = True
            if stop:
                # let the others finish quickly: they are only needed for coverage
                for (_, _, p) in pend:
                    p.kill()
                for (_, _, p) in pend:
                    p.wait()
                for x in list(pend):
                    pend.remove(x)
        # ---- verdicts ------------------------------------------------------
        reported, kfound, unconfirmed = [], {}, 0
        rdir = os.path.join(VERIF, "replays")
        for r in res:
            j = r["job"]
            vs = sorted(r["violations"], key=lambda v: len(v["path"]))
            for v in vs[:4]:
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, "%s-%d.replay" % (prop, len(reported) + len(kfound)))
                with open(path, "w") as f:
                    f.write(replay_text(prop, j, v))
                msg = run_replay(exes[(j["flavour"], j["prog"])], j, path)
                if msg is None:
                    unconfirmed += 1
                    print("note: not reproduced on replay, not reported: %s" % v["msg"].split("\n")[0][:300])
                    os.unlink(path)
                    continue
                hit = listed(j, msg)
                if hit:
                    kfound[hit["id"]] = hit
                    os.unlink(path)
                    continue
                reported.append((path, msg, j))
                if len(reported) >= 3:
                    break
            if len(reported) >= 3:
                break
    finally:
        subprocess.run(["rm", "-rf", tmp])
    wall = time.time() - t0
    paths = sum(r["paths"] for r in res)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "evaluations": paths,
            "distinct_nontrivial": sum(r["outcomes"] for r in res),
            "rule": "every combination of choices inside the bounds of each scenario is executed on the real code by forking at the choice; distinct counts different outcome signatures (results, final state) over all executions",
            "samples": [s for r in res for s in r["samples"]][:12] or ["single deterministic execution"],
            "exhaustive": all(not r["timeout"] and not r["lost"] for r in res) and len(res) == len(jobs) and not skipped,
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(reported),
        "bounds": spec.get("bounds", ""),
        "build_s": round(tb, 2),
        "scenarios": [{"scenario": r["scenario"], "args": r["args"], "executions": r["paths"], "choice_points": r["choices"],
                       "distinct_outcomes": r["outcomes"], "oracle_evaluations": r["checks"], "scheduling_points": r["schedpoints"],
                       "conflicting_sync_variables": r["syncvars"], "fail_stops": r["failstops"], "pruned": r["pruned"],
                       "events": r["cover"], "exhausted": not r["timeout"] and not r["lost"], "wall_s": r["wall"]} for r in res],
        "known_findings": sorted(kfound),
        "unconfirmed": unconfirmed,
    }
    if spec["level"] == "model_checking":
        ev["coverage"]["states"] = sum(r["outcomes"] for r in res)
        ev["coverage"]["transitions"] = sum(r["choices"] + r["schedpoints"] for r in res)
        ev["coverage"]["traces_validated_against_impl"] = paths
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d distinct outcomes, %d oracle evaluations, exhaustive=%s, build %.1fs, total %.1fs" % (
        prop, tier, paths, ev["coverage"]["distinct_nontrivial"], sum(r["checks"] for r in res), ev["coverage"]["exhaustive"], tb, wall))
    if os.environ.get("VERIF_VERBOSE"):
        for r in sorted(res, key=lambda r: -r["wall"]):
            print("   %-14s %-70s paths=%d outc=%d choices=%d sched=%d sv=%d fs=%d pruned=%d to=%d lost=%d %.1fs" % (r["scenario"], " ".join(r["args"])[:70], r["paths"], r["outcomes"], r["choices"], r["schedpoints"], r["syncvars"], r["failstops"], r["pruned"], r["timeout"], r["lost"], r["wall"]))
    for k in sorted(kfound):
        print("KNOWN-FINDING: property=%s %s" % (prop, kfound[k]["what"]))
    if reported:
        for path, msg, j in reported:
            print("violated in scenario %s %s: %s" % (j["scen"], " ".join(j["args"]), msg.split("\n")[0][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, reported[0][0]))
        return 1
    return 0

if __name__ == "__main__":
    sys.exit(main())
