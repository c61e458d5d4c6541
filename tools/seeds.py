#!/usr/bin/env python3
"""Plants the bugs of tools/seeds/*.py: writes seeded/<id>/, and with --verify confirms each one in a scratch copy:
the patch applies and touches lines of the original repository only, it builds, the stable tests pass, the demonstration
is quiet without it and fails with it; with --check also that the property's check reports it."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "379e5f9"; SCR = "/tmp/seed"
DEMO = r'''#!/bin/bash
# Runs the program on the zone files beside this script and compares its report with the expected one.
here=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/build/bin/groot
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cp -r "$here/zones" "$work/zones" && cd "$work" || exit 2
@PRE@
timeout 120 "$bin" zones @ARGS@ --output=out.json || exit 3
python3 "$here/compare.py" @OUT@ "$here/expected.json"
'''
COMPARE = '''import json, sys
def canon(x):
    if isinstance(x, dict): return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list): return sorted((canon(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
    return x
got, want = (canon(json.load(open(p))) for p in sys.argv[1:3])
if got != want:
    key = lambda v: json.dumps(v, sort_keys=True)
    print("missing:", [x for x in want if x not in got], "unexpected:", [x for x in got if x not in want], "counts:", len(want), len(got)); sys.exit(1)
'''
def load():
    r = {}
    for p in sorted(glob.glob(V + "/tools/seeds/*.py")):
        s = importlib.util.spec_from_file_location("s", p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for d in m.SEEDS: assert d["id"] not in r, d["id"]; r[d["id"]] = d
    return r
def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def scratch():
    if not os.path.exists(SCR + "/build"): sh("cp -a /repo %s" % SCR)
    # changed files get a new time, or ninja would keep the objects of the last patch
    sh("rsync -rlpc --delete /repo/src/ %s/src/; rsync -rlpc --delete /repo/bin/ %s/bin/; rsync -a --delete /repo/.git/ %s/.git/" % (SCR, SCR, SCR))
def inns(cmd): return sh(["unshare", "-rm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (SCR, cmd)])
def edit(d):
    for f, old, new in d["edits"]:
        p = os.path.join(SCR, f); t = open(p, encoding="utf-8").read(); assert t.count(old) == 1, (d["id"], f, t.count(old), old); open(p, "w", encoding="utf-8").write(t.replace(old, new))
def write(d):
    o = os.path.join(V, "seeded", d["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
    for n, t in (d.get("zones") or {}).items():
        q = os.path.join(o, "zones", n); os.makedirs(os.path.dirname(q), exist_ok=True); open(q, "w", newline="").write(t if isinstance(t, str) else json.dumps(t, indent=1))
    for n, t in (d.get("extra") or {}).items(): open(os.path.join(o, n), "w").write(t)
    if d.get("demo"): open(os.path.join(o, "demo.sh"), "w").write(d["demo"])
    else:
        args = d.get("args", "--jobs=zones/jobs.json" if "jobs.json" in d["zones"] else "")
        open(os.path.join(o, "demo.sh"), "w").write(DEMO.replace("@ARGS@", args).replace("@PRE@", d.get("pre", "")).replace("@OUT@", d.get("out", "out.json")))
        open(os.path.join(o, "compare.py"), "w").write(COMPARE)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    json.dump(dict(property=d["property"], needs=d["needs"], what_it_breaks=d["breaks"]), open(os.path.join(o, "meta.json"), "w"), indent=1)
    return o
def expected(d, o):
    if d.get("demo"): return
    w = tempfile.mkdtemp()
    shutil.copytree(o + "/zones", w + "/zones")
    r = sh("cd %s; %s timeout 120 /repo/build/bin/groot zones %s --output=out.json" % (w, d.get("pre", ":").replace("$here/zones", "zones") + ";", d.get("args", "--jobs=zones/jobs.json" if "jobs.json" in d["zones"] else "")))
    assert r.returncode == 0, (d["id"], r.stdout, r.stderr)
    s = json.load(open(w + "/" + d.get("out", "out.json"))); json.dump(s, open(o + "/expected.json", "w"), indent=1); shutil.rmtree(w)
def main():
    S = load(); ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(S); ok = True
    for i in ids:
        d = S[i]; scratch(); o = write(d); expected(d, o)
        try: edit(d)
        except AssertionError as e: print(i, "BAD: does not apply", e); ok = False; continue
        diff = sh("cd %s && git diff -- src bin" % SCR).stdout; open(o + "/patch.diff", "w").write(diff)
        msg = []
        # every removed line, and for pure additions the line before, must come from the original repository
        bl = {}
        for f in {e[0] for e in d["edits"]}:
            bl[f] = sh("cd /repo && git blame -s --abbrev=7 %s" % f).stdout.splitlines()
        for f, old, new in d["edits"]:
            lines = open("/repo/" + f, encoding="utf-8").read(); a = lines[:lines.index(old)].count("\n"); ol, nl = old.split("\n"), new.split("\n")
            k = [j for j, l in enumerate(ol) if l not in nl]
            if not any(BASE[:7] in bl[f][a + j].split()[0] for j in (k or range(len(ol)))): msg.append("not an original line: " + f)
        if "--verify" in sys.argv or "--check" in sys.argv:
            r = inns("bash /opt/vp/build.sh"); 
            if r.returncode: msg.append("does not build\n" + (r.stdout + r.stderr)[-1500:])
            else:
                r = inns("bash /opt/vp/test.sh /tmp/seed.tests.json")
                t = json.load(open("/tmp/seed.tests.json")); base = json.load(open("/opt/vp/BASELINE.json"))
                stable = base.get("stable") or base.get("passed") or base.get("tests")
                miss = [x for x in stable if x not in t["passed"]]
                if miss: msg.append("tests fail: %s" % miss)
                r = sh(["bash", o + "/demo.sh"], cwd="/repo")
                if r.returncode: msg.append("demo fails on the clean tree: " + r.stdout + r.stderr)
                r = inns("bash %s/demo.sh" % o)
                if not r.returncode: msg.append("demo passes with the patch")
                else: print("   demo:", (r.stdout + r.stderr).strip()[:300])
        if "--check" in sys.argv:
            e = dict(os.environ, VERIF_REPO=SCR)
            r = sh([sys.executable, V + "/checks/run.py", d["property"]], env=e, cwd=V)
            got = "VIOLATION property=%s" % d["property"] in r.stdout
            print("   check %s: rc %d %s" % (d["property"], r.returncode, "caught" if got and r.returncode == 1 else "MISSED " + r.stdout[-300:]))
        print(i, "OK" if not msg else "BAD: " + "; ".join(msg)); ok &= not msg; sys.stdout.flush()
    scratch(); inns("bash /opt/vp/build.sh") if "--verify" in sys.argv or "--check" in sys.argv else None
    return 0 if ok else 1
if __name__ == "__main__": sys.exit(main())
