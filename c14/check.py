#!/usr/bin/env python3
"""C14: CBMC on the C function of the cgo preamble, gosym on the Go wrapper, native replay of every counterexample."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.join(ROOT, "c14")
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.23.12/bin/go"
PKG = os.path.join(REPO, "ast", "fast_tolower")
t0 = time.time()
tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "thorough" in sys.argv[1:] else "quick"
LENS = list(range(0, 37)) + [40, 48] if tier == "thorough" else list(range(0, 21)) + [24, 33]
WRAP = 2 if tier == "thorough" else 1
notes = []
os.environ["ASAN_OPTIONS"] = "detect_leaks=0"


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")


def extract(tmp):
    """target.c (the preamble) and call.h; returns the Go source without cgo, the C function's name and parameters."""
    for f in sorted(glob.glob(PKG + "/*.go")):
        if f.endswith("_test.go"):
            continue
        src = open(f).read()
        m = re.search(r'((?:/\*.*?\*/|(?://[^\n]*\n)+))\s*import\s+"C"', src, re.S)
        if not m:
            continue
        c = m.group(1)
        c = c[2:-2] if c.startswith("/*") else re.sub(r"(?m)^//", "", c)
        c = "\n".join("" if l.lstrip().startswith("#cgo") else l for l in c.split("\n"))
        go = src[:m.start()] + src[m.end():]
        code = re.sub(r"/\*.*?\*/|//[^\n]*", "", go, flags=re.S)
        cc = re.sub(r"/\*.*?\*/|//[^\n]*", "", c, flags=re.S)
        extra = "".join('#include "%s"\n' % x for x in sorted(glob.glob(PKG + "/*.c")))
        for x in glob.glob(PKG + "/*.c"):
            cc += re.sub(r"/\*.*?\*/|//[^\n]*", "", open(x).read(), flags=re.S)
        for name in dict.fromkeys(re.findall(r"\bC\.(\w+)\s*\(", code)):
            d = re.search(r"([\w \t*]+?[\s*])" + name + r"\s*\(([^)]*)\)\s*\{", cc)
            if not d:
                continue
            ret, params = d.group(1).strip(), [p.strip() for p in d.group(2).split(",")]
            if not params or "char" not in params[0] or len(params) > 2:
                continue
            call = "%s(r%s)" % (name, ", (n)" if len(params) == 2 else "")
            if "*" in ret:
                call = "(r = (char *)%s)" % call
            open(tmp + "/target.c", "w").write("/* from %s */\n%s\n%s" % (f, c, extra))
            open(tmp + "/call.h", "w").write("#define CALL(r, n) %s\n" % call)
            return f, code, name, params, ret
    return None


def cbmc(tmp, n, fn="harness", defs=(), timeout=600, trace=True, mul=1):
    cmd = ["cbmc", "-DCBMC", "-DN=%d" % n, *defs, "-I", tmp, "-I", PKG, "--c99", HERE + "/harness.c", "--function", fn, "--unwind", str(n * mul + 2 * mul if fn == "harness" else 200),
           "--unwinding-assertions", "--signed-overflow-check", "--no-malloc-may-fail", "--drop-unused-functions", "--sat-solver", "cadical", "--json-ui", "--verbosity", "8"]
    if trace:
        cmd.append("--trace")
    s = time.time()
    rc, out = run(cmd, timeout)
    res = {"n": n, "rc": rc, "secs": time.time() - s, "failed": [], "total": 0, "steps": 0, "vars": 0, "clauses": 0, "msg": ""}
    try:
        doc = json.loads(out)
    except ValueError:
        res["msg"] = "timeout" if rc is None else out[-400:]
        res["rc"] = None
        return res
    for d in doc:
        t = d.get("messageText", "")
        m = re.search(r"size of program expression: (\d+) steps", t)
        if m:
            res["steps"] = int(m.group(1))
        m = re.search(r"(\d+) variables, (\d+) clauses", t)
        if m:
            res["vars"], res["clauses"] = int(m.group(1)), int(m.group(2))
        if d.get("messageType") == "ERROR":
            res["msg"] += t + " "
        for r in d.get("result", []):
            res["total"] += 1
            if r["status"] == "FAILURE":
                b = {}
                for st in r.get("trace", []):
                    m = re.fullmatch(r"in\[(\d+)l*\]", st.get("lhs", "") or "")
                    if m and "value" in st:
                        b[int(m.group(1))] = int(st["value"]["data"]) & 255
                    if st.get("lhs") == "in" and "value" in st:
                        for e in st["value"].get("elements", []):
                            b[e["index"]] = int(e["value"]["data"]) & 255
                res["failed"].append((r.get("description", r.get("property")), bytes(b.get(i, 0) for i in range(n))))
    if rc not in (0, 10):
        res["rc"] = None
    if mul == 1 and fn == "harness" and any("unwinding" in d for d, _ in res["failed"]):
        more = cbmc(tmp, n, fn, defs, timeout, trace, 3)  # a loop needs more rounds, or has no end
        if more["rc"] is not None:
            return more
    return res


def native(tmp):
    exe = tmp + "/native"
    for san in (["-fsanitize=address,undefined", "-fno-sanitize-recover=all"], []):
        rc, out = run(["gcc", "-std=c99", "-O1", "-g", "-w", "-DN=4096", *san, "-I", tmp, "-I", PKG, "-o", exe, HERE + "/harness.c"], 120)
        if rc == 0:
            return exe
    notes.append("native build failed: " + out[-300:])
    return None


GOMAIN = '''package main

import (
	"encoding/hex"
	"fmt"
	"os"

	lw "github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"
)

func main() {
	b, _ := hex.DecodeString(os.Args[1])
	fmt.Printf("%x\\n", lw.FastToLower(string(b)))
}
'''


def gonative(tmp):
    """the real exported function, through cgo"""
    os.makedirs(tmp + "/gom", exist_ok=True)
    open(tmp + "/gom/main.go", "w").write(GOMAIN)
    ov = {"Replace": {REPO + "/zzverif14/main.go": tmp + "/gom/main.go"}}
    open(tmp + "/ov.json", "w").write(json.dumps(ov))
    env = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:" + os.environ["PATH"], GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", CGO_ENABLED="1", GOWORK="off")
    env.pop("GOROOT", None)
    for san in (["-asan"], []):
        rc, out = run([GO, "build", *san, "-overlay", tmp + "/ov.json", "-o", tmp + "/goexe", "./zzverif14"], 300, cwd=REPO, env=env)
        if rc == 0:
            return tmp + "/goexe"
    notes.append("cgo build failed: " + out[-300:])
    return None


def lower(b):
    s = b.decode("utf-8")
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" or "А" <= c <= "Я" else "ё" if c == "Ё" else c for c in s).encode()


def go_wrong(exe, b):
    rc, out = run([exe, b.hex()], 20)
    if rc is None:
        return "FastToLower does not finish"
    if rc != 0:
        return "FastToLower crashes: " + out[:300]
    try:
        want = lower(b)
    except UnicodeDecodeError:
        return None
    got = out.strip().split("\n")[-1]
    return None if got == want.hex() else "FastToLower(%r) = %s, expected %s" % (b.decode(), bytes.fromhex(got).decode("utf-8", "replace"), want.decode())


def c_wrong(exe, b):
    rc, out = run([exe, b.hex()], 20)
    if rc is None:
        return "the C function does not finish"
    return None if rc == 0 else "the C function: " + out[:300]


def violation(desc, b, native_msg):
    os.makedirs(ROOT + "/evidence/replay", exist_ok=True)
    p = ROOT + "/evidence/replay/C14.json"
    json.dump({"property": "C14", "kind": "c14", "message": desc, "input_hex": b.hex(), "native": native_msg,
               "how": "python3 /verif/c14/check.py replay " + p}, open(p, "w"), indent=1, ensure_ascii=False)
    print(desc, "| input", b, "|", native_msg)
    print("VIOLATION property=C14 replay=" + p)


def known():
    try:
        return [l for l in open(ROOT + "/known-findings.txt", encoding="utf-8") if l.startswith("known: property=C14 ")]
    except OSError:
        return []


def wrapper(tmp, code, name, params, ret):
    """the Go wrapper under gosym, with the C function replaced by its specification"""
    w = tmp + "/wroot"
    shutil.copytree(HERE + "/wrap", w + "/harness")
    for d in ("verif", "runner"):
        shutil.copytree(ROOT + "/harness/" + d, w + "/harness/" + d)
    code = re.sub(r"\bC\.(\w+)", r"C_\1", code)
    code = re.sub(r"(?m)^package \w+", "package lw", code, count=1)
    ps = "p *C_char" + (", n %s" % ("C_size_t" if "size_t" in params[1] else "C_int") if len(params) == 2 else "")
    code += "\nfunc C_%s(%s)%s {\n\tLower(use(p).b)\n\t%s\n}\n" % (name, ps, " *C_char" if "*" in ret else "", "return p" if "*" in ret else "")
    open(w + "/harness/lw/gowrap.go", "w").write(code)
    json.dump({"C14W": {"quick": [{"h": "Wrap", "params": {"n": WRAP}, "max_s": 120, "must": ["compared"]}], "bounds": "", "outside": "", "assumptions": []}}, open(w + "/checks.json", "w"))
    rc, out = run([ROOT + "/bin/gosym", "check", "-root", w, "-repo", REPO, "-prop", "C14W"], 400)
    try:
        ev = json.load(open(w + "/evidence/C14W.json"))
    except OSError:
        ev = None
    rp = None
    if rc == 1:
        rp = json.load(open(w + "/evidence/replay/C14W.json"))
    elif rc != 0:
        notes.append("wrapper not encoded: " + out[-400:])
    return rc, ev, rp




def main():
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        with tempfile.TemporaryDirectory() as tmp:
            b = bytes.fromhex(d["input_hex"])
            exe = gonative(tmp)
            bad = go_wrong(exe, b) if exe else None
            if not bad and extract(tmp):
                c = native(tmp)
                bad = c_wrong(c, b) if c else None
            print(bad or "ok")
            return 1 if bad else 0
    if not os.path.exists(ROOT + "/bin/gosym"):
        subprocess.run([ROOT + "/build.sh"], check=True)
    tmp = tempfile.mkdtemp(prefix="c14")
    try:
        return check(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


CASES = ["", "a", "A", "Z", "z", "@[`{", "ABCXYZ", "А", "Я", "а", "я", "Ё", "ё", "П", "Р", "ПРОЦЕДУРА", "КонецПроцедуры", "Если Тогда", "ЀЍѐ", "É", "日本", "Ж日a", "😀Q", "&НаКлиенте", "_1Б"]
RAW = [b"\x80", b"\xd0", b"\xd0A", b"\xff\xfe", b"\xe0\x80", b"\xd0\xd0\x90", b"A\xd0", b"\xf0A"]


def check(tmp):
    viol = []
    ext = extract(tmp)
    gexe = gonative(tmp)
    results, validated, samples = [], 0, []
    wev = None
    if not ext:
        notes.append("the C function could not be located: not encoded")
    else:
        f, code, name, params, ret = ext
        cexe = native(tmp)
        # the encoding against the natively compiled function
        cases = []
        for b in [c.encode() for c in CASES] + RAW:
            if cexe is None:
                break
            rc, out = run([cexe, b.hex(), "-"], 20)
            if rc == 0:
                cases.append((b, bytes.fromhex(out.strip())))
            elif b.hex():
                bad = c_wrong(cexe, b)
                if bad:
                    viol.append(("native run of a validation input", b, bad))
        if cases and not viol:
            L = max(len(a) for a, _ in cases) + 1
            arr = lambda b: "{" + ",".join(str(x) for x in b + bytes(L - len(b))) + "}"
            with open(tmp + "/validate.h", "w") as h:
                h.write("#define CASES %d\nstatic const struct { size_t n; unsigned char in[%d], out[%d]; } cases[] = {\n" % (len(cases), L, L))
                h.writelines("{%d, %s, %s},\n" % (len(a), arr(a), arr(o)) for a, o in cases)
                h.write("};\n")
            r = cbmc(tmp, L, "validate", ["-DVALIDATE"], 200, trace=False)
            if r["rc"] == 0:
                validated = len(cases)
                samples = [{"input": a.decode("utf-8", "backslashreplace"), "output": o.decode("utf-8", "backslashreplace")} for a, o in cases[10:18]]
            else:
                notes.append("encoding and native function disagree on concrete inputs: %s %s" % (r["failed"][:2], r["msg"]))
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(cbmc, tmp, n, timeout=1800 if tier == "thorough" else 360): n for n in reversed(LENS)}
            wit = ex.submit(cbmc, tmp, 3, "harness", ["-DWITNESS"], 200)
            for fu in cf.as_completed(futs):
                results.append(fu.result())
            wit = wit.result()
        results.sort(key=lambda r: r["n"])
        witness = any(d == "witness" for d, _ in wit["failed"])
        if not witness:
            notes.append("vacuity: the witness assertion was not reached")
        for r in results:
            if r["rc"] is None:
                notes.append("length %d: no verdict (%s)" % (r["n"], r["msg"][:200]))
            for desc, b in r["failed"]:
                if 0 in b:
                    b = b[:b.index(0)]
                bad = (gexe and go_wrong(gexe, b)) or (cexe and c_wrong(cexe, b))
                if bad:
                    viol.append((desc, b, bad))
                else:
                    notes.append("not reproduced natively (not reported): %s on %r" % (desc, b))
        rc, wev, rp = wrapper(tmp, code, name, params, ret)
        if rc == 1:
            m = re.search(r"input=([0-9a-f]*)", rp["message"])
            b = bytes.fromhex(m.group(1)) if m else b""
            bad = gexe and go_wrong(gexe, b)
            if bad:
                viol.append(("wrapper: " + rp["message"], b, bad))
            else:
                notes.append("wrapper counterexample not reproduced through cgo (not reported): " + rp["message"])
    # the real function end to end on the validation inputs
    ran = 0
    if gexe:
        for b in [c.encode() for c in CASES] + RAW + [("Ё" * 300 + "Q").encode()]:
            ran += 1
            bad = go_wrong(gexe, b)
            if bad:
                viol.append(("native run of a validation input", b, bad))
                break
    ok = [r for r in results if r["rc"] == 0]
    cov = {
        "states": sum(r["steps"] for r in results) + (wev["coverage"]["states"] if wev else 0),
        "transitions": sum(r["total"] for r in results) + (wev["coverage"]["transitions"] if wev else 0),
        "traces_validated_against_impl": validated + ran + (wev["coverage"]["traces_validated_against_impl"] if wev else 0),
        "samples": samples or [{"input": b.decode("utf-8", "backslashreplace")} for _, b, _ in viol[:1]] or ["none"],
        "exhaustive": len(ok) == len(LENS) and wev is not None,
        "functions_encoded": ["fastToLower (C, extracted from the cgo preamble)", "FastToLower (Go wrapper, C function replaced by its specification)"] if ext else [],
        "bounds": {"text_lengths_shown": [r["n"] for r in ok], "loop_unwinding": "n+2 (3n+6 where that is not enough), with unwinding assertions", "wrapper_characters": WRAP},
        "outside_bounds": "texts longer than the largest length shown; texts with NUL bytes; locales other than C",
        "queries": len(results) + 2, "sat_solver": "cadical in cbmc", "solver_time_s": sum(r["secs"] for r in results),
        "per_length": [{k: r[k] for k in ("n", "steps", "total", "vars", "clauses", "secs", "rc")} for r in results],
        "wrapper": wev["coverage"] if wev else None, "notes": notes,
        "explanation": "states = steps of the unwound program expressions plus symbolic paths of the wrapper; transitions = verification conditions decided plus symbolic branch decisions of the wrapper; traces = concrete inputs on which encoding and natively compiled function agree",
    }
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    json.dump({"property": "C14", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": cov,
               "assumptions": ["malloc does not fail", "tolower in the C locale (CBMC's library model)", "C.CString/C.GoString copy up to the first NUL (cgo contract)"],
               "wall_s": time.time() - t0, "violations": len(viol)}, open(ROOT + "/evidence/C14.json", "w"), indent=1, ensure_ascii=False)
    for n in notes:
        print("note:", n)
    for k in known():
        m = re.search(r"match=(.*?) ::\s*(.*)", k)
        hit = [v for v in viol if m and m.group(1) in v[2]]
        if hit:
            print("KNOWN-FINDING: property=C14 " + m.group(2))
            viol[:] = [v for v in viol if v not in hit]
    if viol:
        violation(*viol[0])
        return 1
    print("C14 held: text lengths %s, %d verification conditions, wrapper %s (%.1fs)" % ([r["n"] for r in ok], sum(r["total"] for r in results), "shown" if wev else "not encoded", time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
