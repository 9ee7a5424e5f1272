#!/usr/bin/env python3
"""seed.py SPEC.py [id...] : builds planted bugs from a spec, confirms them, writes /verif/seeded/<id>/, runs the property's check.
A spec is Python: BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, what)]. `demo` is the body of a Go test."""
import json, os, subprocess, sys, shutil, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ)
for l in subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env"], capture_output=True, text=True, errors="replace").stdout.splitlines():
    k, _, v = l.partition("=")
    if k.startswith("GO") or k in ("PATH", "CGO_ENABLED"):
        ENV[k] = v
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property holds on these inputs
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -c -vet=off -overlay "$t/o.json" -o "$t/demo.test" ./zzdemo/ && (cd "$t" && timeout 200 ./demo.test -test.timeout 100s)
rc=$?
rm -f "$t/o.json" "$t/demo.test"; rmdir "$t"
exit $rc
'''
PRE = '''package zzdemo

import (
	"testing"

	"github.com/LazarenkoA/1c-language-parser/ast"
%s)

func parse(t *testing.T, code string) *ast.AstNode {
	t.Helper()
	a := ast.NewAST(code)
	if err := a.Parse(); err != nil {
		t.Fatalf("%%q: %%v", code, err)
	}
	return a
}

var _ = parse

func TestDemo(t *testing.T) {
%s
}
'''
def sh(cmd, cwd, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", timeout=timeout, shell=isinstance(cmd, str))
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def stable_ok(d):
    rc, out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], d)
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except Exception: continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return sorted(STABLE - ok)
def main():
    ns = {}
    exec(open(sys.argv[1], encoding="utf-8").read(), ns)
    want = set(sys.argv[2:])
    nocheck = "-n" in want; want.discard("-n")
    for b in ns["BUGS"]:
        if want and b["id"] not in want: continue
        d = "/tmp/seedwork/" + b["id"]
        if os.path.isdir(d): shutil.rmtree(d)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        bad = None
        files = set()
        for f, old, new in b["edits"]:
            p = d + "/" + f
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, s.count(old), old[:60]); break
            open(p, "w", encoding="utf-8").write(s.replace(old, new)); files.add(f)
        if bad: print(b["id"], "EDIT", bad); continue
        if "ast/grammar.y" in files:
            rc, out = sh(["bash", "/tmp/yy.sh", d], d)
        rc, out = sh(["go", "build", "./..."], d)
        if rc: print(b["id"], "BUILD", out[:1500]); continue
        miss = stable_ok(d)
        if miss: print(b["id"], "TESTS FAIL", miss[:5]); continue
        sd = ROOT + "/seeded/" + b["id"]
        tmp = "/tmp/seedwork/" + b["id"] + ".d"
        os.makedirs(tmp, exist_ok=True)
        imports = "".join('\t"%s"\n' % i for i in b.get("imports", []))
        body = b["demo"]
        if b.get("raw"): src = body
        else: src = PRE % (imports, body)
        open(tmp + "/demo_test.go", "w").write(src)
        open(tmp + "/demo.sh", "w").write(DEMO_SH); os.chmod(tmp + "/demo.sh", 0o755)
        rc, out = sh(["bash", tmp + "/demo.sh"], "/repo")
        if rc: print(b["id"], "DEMO FAILS ON CLEAN", out[:1500]); continue
        rc, out = sh(["bash", tmp + "/demo.sh"], d)
        if rc == 0 or not ("FAIL" in out or "panic" in out or "fatal error" in out) or "build failed" in out: print(b["id"], "DEMO PASSES WITH BUG", out[:800]); continue
        dout = out
        patch = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, errors="replace").stdout
        os.makedirs(sd, exist_ok=True)
        for f in ("demo_test.go", "demo.sh"): shutil.copy2(tmp + "/" + f, sd + "/" + f)
        open(sd + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(sd + "/meta.json", "w"), ensure_ascii=False, indent=1)
        line = [l for l in dout.splitlines() if "demo_test" in l or "panic" in l or "fatal error" in l][:1]
        res = "confirmed"
        if not nocheck:
            for pid in [b["property"]] + b.get("also", []):
                if pid == "C14":
                    e2 = dict(ENV, VERIF_REPO=d, VERIF_TIER="quick")
                    p = subprocess.run(["python3", "c14/check.py"], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d, VERIF_TIER="quick"), capture_output=True, text=True, errors="replace")
                    rc, out = p.returncode, p.stdout + p.stderr
                else:
                    p = subprocess.run(["bin/gosym", "check", "-prop", pid, "-tier", "quick", "-repo", d], cwd=ROOT, capture_output=True, text=True, errors="replace")
                    rc, out = p.returncode, p.stdout + p.stderr
                v = [l for l in out.splitlines() if "VIOLATION" in l or "rror" in l][:2]
                res += " | %s rc=%d %s %s" % (pid, rc, "CAUGHT" if rc == 1 and any("VIOLATION property=" + pid in l for l in out.splitlines()) else "MISSED", v[:1])
                if rc not in (0, 1): res += out[-600:]
        print(b["id"], res, line, flush=True)
        shutil.rmtree(tmp)
        if not b.get("keep"): shutil.rmtree(d)
main()
