#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] | run.py --replay FILE

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it does not.
Exit 2: the check itself failed."""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from zkv import boot

boot.ensure_interpreter([os.path.abspath(__file__)] + sys.argv[1:])


def known_findings(pid):
    """Lines 'KNOWN property=<id> replay=<regress file>  text' of KNOWN_FINDINGS.txt."""
    out = {}
    path = os.path.join(boot.HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                fields = line.split(None, 3)
                out[fields[2].split("=", 1)[1]] = fields[3].strip()
    return out


def replay_one(path):
    """Returns None or the message of the violation."""
    p = subprocess.run(boot.command("-m", "zkv.replay", path), cwd=boot.HERE,
                       env=boot.child_env(), capture_output=True, text=True)
    if p.returncode == 1:
        return p.stdout.strip() or "violation"
    if p.returncode < 0:
        return "the process died with signal %d" % -p.returncode
    if p.returncode != 0:
        print(p.stdout, p.stderr, file=sys.stderr)
        raise SystemExit(2)
    return None


def died(code, out, err):
    """Result of a worker that left none: a crash of the code under test is a violation by the running case."""
    res = {"subs": {}, "violation": None, "error": "worker died with %s\n%s" % (code, open(err).read()[-3000:])}
    if -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL) and os.path.exists(out + ".case"):
        sub, case = open(out + ".case").read().split("\n", 1)
        res["violation"] = {"sub": sub, "case": json.loads(case), "trace": "",
                            "message": "the process died with signal %d" % -code}
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true", help="check that everything can be imported")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--seconds", type=float)
    a = ap.parse_args()
    if a.selftest:
        return subprocess.run(boot.command("-m", "zkv.selftest"), cwd=boot.HERE, env=boot.child_env()).returncode
    if a.replay:
        pid = json.load(open(a.replay))["property"]
        msg = replay_one(os.path.abspath(a.replay))
        if msg:
            print(msg)
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("no violation")
        return 0
    pid, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    seconds = a.seconds or (300.0 if tier == "quick" else 3000.0)
    t0 = time.time()
    os.makedirs(os.path.join(boot.HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(boot.HERE, "evidence"), exist_ok=True)
    violation = None

    # Saved cases first.
    known = known_findings(pid)
    regress = sorted(glob.glob(os.path.join(boot.HERE, "regress", pid, "*.json")))
    if regress:
        p = subprocess.run(boot.command("-m", "zkv.replay", *regress), cwd=boot.HERE,
                           env=boot.child_env(), capture_output=True, text=True)
        lines = p.stdout.splitlines()
        if p.returncode < 0:
            # one of them ends the process
            lines = ["FAIL %s %s" % (f, m) for f, m in ((f, replay_one(f)) for f in regress) if m]
        elif p.returncode not in (0, 1):
            print(p.stdout, p.stderr, file=sys.stderr)
            return 2
        for line in lines:
            if line.startswith("FAIL "):
                _, path, msg = line.split(" ", 2)
                rel = os.path.relpath(path, boot.HERE)
                if rel in known:
                    print("KNOWN-FINDING: property=%s %s" % (pid, known[rel]))
                elif violation is None:
                    violation = (path, msg)

    results = []
    if violation is None:
        tmp = tempfile.mkdtemp(prefix="zkv-")
        procs = []
        for i in range(a.shards):
            out = os.path.join(tmp, "%d.json" % i)
            err = open(os.path.join(tmp, "%d.err" % i), "w")
            procs.append((subprocess.Popen(
                boot.command("-m", "zkv.worker", pid, tier, str(seed), str(i), str(a.shards),
                             str(seconds), out), cwd=boot.HERE, env=boot.child_env(),
                stdout=err, stderr=err), out, err.name))
        pending = list(procs)
        hard = time.time() + seconds + 200
        timed_out = False
        while pending:
            time.sleep(0.05)
            for item in list(pending):
                p, out, err = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                if os.path.exists(out):
                    results.append(json.load(open(out)))
                else:
                    results.append(died(p.returncode, out, err))
                if results[-1]["violation"]:
                    for q, _, _ in pending:
                        q.kill()
                    pending = []
                    break
            if time.time() > hard:
                timed_out = True
                for q, _, _ in pending:
                    q.kill()
                break
        for p, _, _ in procs:
            p.wait()
        shutil.rmtree(tmp)
        for r in results:
            if r["violation"] and violation is None:
                v = r["violation"]
                n = 1
                path = os.path.join(boot.HERE, "replays", "%s-%s.json" % (pid, v["sub"]))
                with open(path, "w") as f:
                    json.dump({"property": pid, "check": v["sub"], "case": v["case"],
                               "message": v["message"], "trace": v["trace"]}, f, indent=1)
                violation = (path, v["message"])
        errors = [r["error"] for r in results if r["error"]]
        if errors and violation is None:
            print(errors[0], file=sys.stderr)
            return 2

    # Evidence
    import importlib
    boot.import_paths()
    prop = importlib.import_module("zkv.props." + pid.lower()).PROP
    evaluations, keys, samples, classes, checks = 0, set(), [], {}, {}
    for sub in prop.subs:
        ev, ks = 0, set()
        cl = {}
        for r in results:
            st = r["subs"].get(sub.name)
            if not st:
                continue
            ev += st["evaluations"]
            ks |= set(st["keys"])
            if len([s for s in samples if s["check"] == sub.name]) < 2:
                samples.extend(st["samples"][:1])
            for k, v in st["classes"].items():
                cl[k] = cl.get(k, 0) + v
        evaluations += ev
        keys |= {sub.name + k for k in ks}
        checks[sub.name] = {"evaluations": ev, "distinct_nontrivial": len(ks), "rule": sub.rule,
                            "classes": dict(sorted(cl.items()))}
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": prop.rule,
            "samples": samples, "checks": checks, "saved_cases_replayed": len(regress),
            "inconclusive": sum(st.get("inconclusive", 0) + st.get("skipped", 0)
                                for r in results for st in r["subs"].values()),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(boot.HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print(violation[1])
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]))
        return 1
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (
        pid, evaluations, len(keys), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
