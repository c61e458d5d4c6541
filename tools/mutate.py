#!/usr/bin/env python3
"""Measures what the checks see: small changes of /repo/src, one at a time, each judged by a fast suite of checks.
tools/mutate.py gen > muts.json; tools/mutate.py run muts.json out.jsonl [workers]; survivors are for reading.  No check uses this."""
import json, os, re, subprocess, sys, shutil, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); SRC = "/repo/src/"
FILES = "zone-graph label-graph interpretation-graph properties driver zone-file-parser utils equivalence-class resource-record ec-task structural-task node-label".split()
SUITE = [("ALL", 120), ("C02", 15), ("C05", 15), ("C06", 15), ("C07", 15), ("C03", 20), ("C01", 20), ("C25", 20), ("C34", 15), ("C29", 15), ("C04", 30), ("C35", 10)]
def gen():
    out = []
    for f in FILES:
        t = open(SRC + f + ".cpp", encoding="utf-8").read(); pos = 0; comment = False
        for n, l in enumerate(t.split("\n")):
            start = pos; pos += len(l) + 1; s = l.strip()
            if s.startswith("/*"): comment = True
            if comment:
                if "*/" in s: comment = False
                continue
            if not s or s.startswith("//") or s.startswith("#include") or "Logger" in s or "fmt::" in s: continue
            code = l.split("//")[0]
            def add(a, b, new, kind): out.append(dict(file=f + ".cpp", line=n + 1, at=start + a, old=l[a:b], new=new, kind=kind, text=s))
            for a, reps in ((" == ", [" != "]), (" != ", [" == "]), (" < ", [" <= ", " > "]), (" > ", [" >= ", " < "]), (" <= ", [" < "]), (" >= ", [" > "]), (" && ", [" || "]), (" || ", [" && "]), (" & ", [" | "]), (" ^ ", [" & "]), (" + 1", [""]), (" - 1", [""]), ("++", ["--"]), ("true", ["false"]), ("false", ["true"]), ("!", [""]), (" = 0;", [" = 1;"]), (" = 1;", [" = 0;"]), ("[0]", ["[0 * 0]"])):
                i = code.find(a)
                while i >= 0:
                    if not (a == "!" and code[i:i + 2] == "!=") and not (a == "[0]"):
                        for r in reps: add(i, i + len(a), r, a.strip() + "->" + r.strip())
                    i = code.find(a, i + len(a))
            m = re.match(r"^\s*(\} else )?(if|while) \((.*)\) \{$", code)
            if m and m.group(2) == "if":
                a, b = m.span(3); add(a, b, "true || (" + m.group(3) + ")", "if true"); add(a, b, "false && (" + m.group(3) + ")", "if false")
            for m in re.finditer(r"(?<![\w.])\d+(?![\w.])", code):
                v = int(m.group()); 
                if "uint" in code or "[" + m.group() + "]" in code and False: continue
                add(m.start(), m.end(), str(v + 1), "%d->%d" % (v, v + 1))
            if re.match(r"^\s*[\w:>().\[\]*-]+(\(.*\)| = .*|\+\+)?;$", code) and not re.match(r"^\s*(return .+|using .*|[\w:<>]+ [\w]+;|auto .*|int .*|bool .*|string .*|std::string .*|size_t .*)$", code) and not s.startswith("}"):
                a = len(code) - len(code.lstrip()); add(a, len(code.rstrip()), ";", "delete")
    for i, m in enumerate(out): m["id"] = i
    return out
def apply(root, m):
    p = root + "/src/" + m["file"]; t = open(SRC + m["file"], encoding="utf-8").read(); assert t[m["at"]:m["at"] + len(m["old"])] == m["old"], m
    open(p, "w", encoding="utf-8").write(t[:m["at"]] + m["new"] + t[m["at"] + len(m["old"]):])
def one(root, m, suite):
    apply(root, m); env = dict(os.environ, VERIF_REPO=root); r = dict(m); t0 = time.time()
    try:
        b = subprocess.run([sys.executable, V + "/lib/build.py", "plain"], capture_output=True, text=True, env=env)
        if b.returncode: r["result"] = "nobuild"; return r
        exe = b.stdout.strip(); r["result"] = "survived"; r["errors"] = []
        for c, lim in suite:
            try: p = subprocess.run(["nice", exe, c, "--tier", "quick", "--workers", "1", "--limit", str(lim)], capture_output=True, text=True, errors="replace", cwd="/", timeout=lim * 4 + 60)
            except subprocess.TimeoutExpired: r["result"] = "timeout " + c; return r
            try: j = json.loads(p.stdout)
            except ValueError: r["errors"].append(c); continue
            if j["violation"]: r["result"] = "killed"; r["by"] = c; return r
            if j["errors"]: r["errors"].append(c + ":" + j["errors"][0])
        return r
    finally:
        shutil.copy(SRC + m["file"], root + "/src/" + m["file"]); r["secs"] = round(time.time() - t0, 1)
        try: os.remove(exe)
        except Exception: pass
def main():
    if sys.argv[1] == "gen": json.dump(gen(), sys.stdout, indent=0); return
    muts = json.load(open(sys.argv[2])); done = set()
    if os.path.exists(sys.argv[3]): done = {json.loads(l)["id"] for l in open(sys.argv[3])}
    q = queue.Queue(); [q.put(m) for m in muts if m["id"] not in done]; lock = threading.Lock(); out = open(sys.argv[3], "a")
    def work(k):
        root = "/tmp/mt/w%d" % k; shutil.rmtree(root, ignore_errors=True); os.makedirs(root); shutil.copytree("/repo/src", root + "/src"); shutil.copytree("/repo/bin", root + "/bin")
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            try: r = one(root, m, SUITE)
            except Exception as e: r = dict(m, result="tool: %r" % e)
            with lock: out.write(json.dumps(r) + "\n"); out.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(sys.argv[4]) if len(sys.argv) > 4 else 8)]; [t.start() for t in ts]; [t.join() for t in ts]
main()
