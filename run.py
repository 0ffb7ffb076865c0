#!/usr/bin/env python3-vt
"""
run.py ID [--tier quick|thorough] [--seed N] [--workers W] [--only TARGET] : checks a property on /repo's working tree
run.py --replay FILE                                                       : re-executes a replay file

Exit 0: the property held on everything explored. Exit 1 and "VIOLATION property=<id> replay=<path>": it is broken.
Any other exit: an error of the check itself.
"""
import argparse
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pbt import core  # noqa: E402

WORKERS = 8
OUT = os.environ.get("PBT_OUT", HERE)     # where evidence/ and replays/ are written (development only)


def known_findings():
    """(property, key) -> text of the recorded findings; 'fixed:' lines suppress nothing."""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: "):
                _, prop, key, text = line.rstrip("\n").split(" ", 3)
                out[(prop.split("=", 1)[1], key.split("=", 1)[1])] = text
    return out


def check(prop, tier, seed, workers, only):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pbt-")
    procs = []
    for i in range(workers):
        out = os.path.join(tmp, "%d.json" % i)
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = str(core.derived_seed(seed, prop, "hash", i) % 4294967295)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        cmd = [sys.executable, os.path.abspath(__file__), prop, "--tier", tier, "--seed", str(seed),
               "--worker", "%d/%d" % (i, workers), "--out", out]
        for o in only or []:
            cmd += ["--only", o]
        err = open(os.path.join(tmp, "%d.err" % i), "w+")
        procs.append((subprocess.Popen(cmd, env=env, cwd=HERE, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True),
                      out, err))
    results, errors = [], []
    deadline = None
    last = time.time() + (780 if tier == "quick" else 6 * 3600)    # a worker that gives no answer is an error of the check
    todo = list(enumerate(procs))
    while todo:
        rest = []
        for i, (p, out, err) in todo:
            if p.poll() is None:
                if time.time() > (deadline or last):
                    p.kill()
                    p.wait()
                    if deadline is None:
                        errors.append("worker %d did not end" % i)
                    continue
                rest.append((i, (p, out, err)))
                continue
            if os.path.exists(out):
                res = json.load(open(out))
                results.append((i, res))
                if any(r["failure"] for r in res) and deadline is None:
                    deadline = time.time() + 20   # the others may still find a smaller case
            else:
                err.seek(0)
                errors.append("worker %d exited with %s\n%s" % (i, p.returncode, err.read()[-3000:]))
        todo = rest
        if todo:
            time.sleep(0.05)
    for p, _, err in procs:
        err.close()
        try:
            os.killpg(p.pid, signal.SIGKILL)    # what the code under test left running (dot)
        except OSError:
            pass
    subprocess.call(["rm", "-rf", tmp])
    results.sort()

    targets = {}
    failures = []
    for i, res in results:
        for r in res:
            a = targets.setdefault(r["target"], {
                "evaluations": 0, "digests": set(), "labels": {}, "samples": [], "inconclusive": 0, "cpu_s": 0.0,
            })
            a["evaluations"] += r["evaluations"]
            a["digests"] |= set(r["digests"])
            a["inconclusive"] += bool(r["inconclusive"])
            a["cpu_s"] = round(a["cpu_s"] + r["cpu"], 2)
            for k, v in r["labels"].items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            if len(a["samples"]) < 3:
                a["samples"] += r["samples"][:1]
            if r["failure"]:
                failures.append((r["target"], r["failure"]))
    harness = [f for f in failures if f[1]["harness"]]
    failures = [f for f in failures if not f[1]["harness"]]
    known = known_findings()
    known_here = {k: v for (p, k), v in known.items() if p == prop}
    for k, v in sorted(known_here.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, v))
    failures = [f for f in failures if "%s:%s" % (f[0], core.canon(f[1]["case"])) not in known_here]
    if failures:
        failures.sort(key=lambda f: (not f[1]["shrunk"], len(core.canon(f[1]["case"]))))
        name, f = failures[0]
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%s.json" % (prop, name.replace(" ", "_")))
        with open(path, "w") as fd:
            json.dump({"property": prop, "target": name, "case": f["case"], "message": f["message"],
                       "where": f["where"], "shrunk": f["shrunk"], "seed": seed, "tier": tier}, fd, indent=1)
            fd.write("\n")
    loaded = {t.name: t for t in core.TARGETS.get(prop, [])}
    rules = []
    try:
        loaded = {t.name: t for t in core.load_property(prop)}
    except Exception:
        pass
    for n in targets:
        if n in loaded:
            rules.append("%s: %s" % (n, loaded[n].rule))
    samples = []
    for n, a in targets.items():
        for s in a["samples"][:2]:
            txt = core.canon(s)
            samples.append({"target": n, "case": s if len(txt) < 1500 else txt[:1500] + "..."})
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in targets.values()),
            "distinct_nontrivial": sum(len(a["digests"]) for a in targets.values()),
            "rule": " | ".join(rules) or "no target ran",
            "samples": samples,
            "targets": {
                n: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["digests"]), "cpu_s": a["cpu_s"],
                    "classes": dict(sorted(a["labels"].items())), "workers_out_of_budget": a["inconclusive"]}
                for n, a in targets.items()
            },
            "workers": workers,
        },
        "assumptions": [
            "Python 3.12; the code under test is imported from %s" % core.REPO_SRC,
            "exploration of generated inputs: absence of violations is not established beyond the cases counted",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    if not only:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as fd:
            json.dump(evidence, fd, indent=1)
            fd.write("\n")
    for n, a in targets.items():
        print("%s %-24s cases=%d distinct_nontrivial=%d cpu=%.1fs %s%s" % (
            prop, n, a["evaluations"], len(a["digests"]), a["cpu_s"], dict(sorted(a["labels"].items())),
            " OUT-OF-BUDGET=%d" % a["inconclusive"] if a["inconclusive"] else ""))
    print("%s tier=%s seed=%d wall=%.1fs" % (prop, tier, seed, time.time() - t0))
    if failures:
        print(failures[0][1]["message"])
        print("  at " + " < ".join(reversed(failures[0][1]["where"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if harness or errors:
        for n, f in harness:
            print("HARNESS ERROR in target %s: %s at %s\ncase=%s" % (n, f["message"], f["where"], core.canon(f["case"])[:2000]))
        for e in errors[:1]:
            print("HARNESS ERROR (%d workers): %s" % (len(errors), e[-1500:]))
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    core.install_limits()
    t = {t.name: t for t in core.load_property(d["property"])}[d["target"]]
    for _ in range(3):   # more than once, as a fault may need state kept from a previous call
        try:
            core.run_case(t, json.loads(json.dumps(d["case"])), core.Observer())
        except (Exception, core.CaseLimit) as e:
            f = core.Failure(d["case"], e)
            print(f.msg)
            print("  at " + " < ".join(reversed(f.where)))
            if f.harness:
                return 2
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
    print("no violation")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--workers", type=int, default=WORKERS)
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--worker")
    ap.add_argument("--out")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    if a.worker:
        i, w = map(int, a.worker.split("/"))
        core.worker_main(a.prop, a.tier, a.seed, i, w, a.out, a.only)
        return 0
    return check(a.prop, a.tier, a.seed, a.workers, a.only)


if __name__ == "__main__":
    sys.exit(main())
