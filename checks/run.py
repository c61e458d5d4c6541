#!/usr/bin/env python3
"""checks/run.py <ID> [--tier quick|thorough]: builds from /repo's current tree, runs the exhaustive exploration that
decides property <ID>, writes evidence/<ID>.json; exit 0 = held on everything explored, 1 = VIOLATION, 2 = no answer."""
import json, os, sys, time, subprocess, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
from table import CHECKS
def known_findings():
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                d = dict(f.split("=", 1) for f in l[7:].split(" ", 2)[:2]); r.setdefault(d["property"], []).append((d["case"], l[7:].strip()))
    return r
def write_replay(pid, v):
    d = os.path.join(VERIF, "replay", pid); os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): 
        if os.path.isfile(os.path.join(d, f)): os.remove(os.path.join(d, f))
    det = v["detail"]
    for n, t in (det.get("files") or {}).items():
        with open(os.path.join(d, n), "w", errors="surrogateescape") as f: f.write(t)
    for n in ("metadata.json", "jobs.json"):
        if det.get(n) is not None:
            with open(os.path.join(d, n), "w") as f: json.dump(det[n], f, indent=1)
    with open(os.path.join(d, "violation.json"), "w") as f: json.dump(v, f, indent=1)
    return os.path.relpath(d, VERIF)
def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time(); c = CHECKS[pid]
    limit = 560 if tier == "quick" else float(os.environ.get("VERIF_LIMIT", "7200"))
    if c["runner"] == "py":
        import importlib; r = importlib.import_module(c["module"]).run(pid, tier, B)
    else:
        exe = B.build(c["runner"])
        p = subprocess.run([exe, pid, "--tier", tier, "--limit", str(limit)], capture_output=True, text=True, errors="surrogateescape", cwd="/", env=dict(os.environ, **B.env(c["runner"])))
        try: r = json.loads(p.stdout)
        except ValueError:
            sys.stderr.write(p.stdout[-3000:] + p.stderr[-3000:]); print("no answer: the checker ended with status %d" % p.returncode); return 2
    cov = dict(states=r["states"], transitions=r["transitions"], traces_validated_against_impl=r["execs"], evaluations=r["cases"],
               distinct_nontrivial=r["distinct_outcomes"], skipped_runs=r["skipped"], runs_with_reports=r["nontrivial"],
               rule=c["rule"], samples=r["samples"] or [{"note": "no run produced an entry"}], exhaustive=bool(r["complete"] and not r["errors"] and not r.get("violation")), explanation=c["bounds"])
    short = lambda x: x if len(json.dumps(x)) < 6000 else {"excerpt": json.dumps(x)[:1500]}
    cov["samples"] = [short(x) for x in cov["samples"]]
    cov.update(r.get("extra") or {})
    v = r.get("violation"); nviol = 0
    for case, text in known_findings().get(pid, []):
        print("KNOWN-FINDING: " + text)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", coverage=cov, assumptions=c["assumptions"], wall_s=0, violations=0)
    rc = 0
    if r["errors"] and not v: print("no answer:", "; ".join(r["errors"])); rc = 2
    if v:
        path = write_replay(pid, v); rc = 1; ev["violations"] = 1
        print(json.dumps(v["detail"].get("why"), indent=1)[:2000]); print("VIOLATION property=%s replay=%s" % (pid, path))
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if not rc: print("%s: held on %d cases, %d executions, %d reference states, %d distinct outcomes, %.1f s%s" % (pid, r["cases"], r["execs"], r["states"], r["distinct_outcomes"], ev["wall_s"], "" if cov["exhaustive"] else " (stopped at the time limit)"))
    return rc
if __name__ == "__main__":
    try: rc = main()
    except SystemExit as e: print("no answer:", e.code); rc = 2
    sys.exit(rc)
