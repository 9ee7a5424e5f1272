#!/usr/bin/env python3
"""refactor.py [-c C01,C02,...] [id...]: behaviour-preserving edits in scratch copies of /repo; every check must stay quiet."""
import os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = "ast/tokens.go"; A = "ast/ast.go"; S = "ast/ast_struct.go"; P = "ast/ast_print.go"; G = "ast/grammar.y"; W = "ast/fast_tolower/gowrap.go"
R = {}
exec(open(os.path.dirname(os.path.abspath(__file__)) + "/edits.py", encoding="utf-8").read())
sys.argv, args = sys.argv[:1], sys.argv[1:]
checks = ["C%02d" % i for i in range(1, 23)]
if args[:1] == ["-c"]:
    checks = args[1].split(","); args = args[2:]
env = dict(os.environ)
for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition("=")
    if k.startswith("GO") or k in ("PATH", "CGO_ENABLED"): env[k] = v
for name, edits in R.items():
    if args and name not in args: continue
    d = "/tmp/refwork/" + name
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs("/tmp/refwork", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    ok = True
    for f, old, new in edits:
        s = open(d + "/" + f, encoding="utf-8").read()
        if old is None: s = new
        elif s.count(old) != 1: print(name, "EDIT", f, s.count(old), repr(old[:70])); ok = False; break
        else: s = s.replace(old, new)
        open(d + "/" + f, "w", encoding="utf-8").write(s)
    if not ok: continue
    if any(f == G for f, _, _ in edits): subprocess.run(["bash", "/tmp/yy.sh", d])
    p = subprocess.run(["go", "test", "-vet=off", "-count=1", "./ast/..."], cwd=d, env=env, capture_output=True, text=True)
    q = subprocess.run("go test -vet=off -count=1 ./ast/... 2>&1 | grep -c '^ *--- FAIL'", shell=True, cwd="/repo", env=env, capture_output=True, text=True)
    print(name, "build/test", "ok" if p.returncode == 0 else "FAIL " + str((p.stdout + p.stderr).count("--- FAIL")) + " clean has " + q.stdout.strip() + (p.stdout + p.stderr)[:600] * ("build failed" in p.stdout + p.stderr), flush=True)
    for c in checks:
        if c == "C14":
            r = subprocess.run(["python3", "c14/check.py"], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick"), capture_output=True, text=True, errors="replace")
        else:
            r = subprocess.run(["bin/gosym", "check", "-prop", c, "-tier", "quick", "-repo", d], cwd=ROOT, capture_output=True, text=True, errors="replace")
        out = r.stdout + r.stderr
        note = [l[:300] for l in out.splitlines() if "VIOLATION" in l or "nsupported" in l or "witness" in l or "exhaust" in l or "mismatch" in l][:3]
        print(" ", c, "rc=%d" % r.returncode, note if note or r.returncode == 0 else out[-500:], flush=True)
    shutil.rmtree(d)
