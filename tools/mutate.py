#!/usr/bin/env python3
"""Mutation testing of the monitors (not a check; run by hand).

usage: mutate.py OUT.jsonl WORKERS [FILE-SUBSTRING [MAX]]
Works on copies of /repo and /verif/harness below /tmp/mut and removes them.
Each single-token mutant of the non-test code is compiled; the monitors of the
properties anchored in its file are run (checked build) until one reports a
violation. Lines of OUT: {file,line,old,new,verdict,by}.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue
REPO, H, W = "/repo", "/verif/harness", "/tmp/mut"
MAP = {
 "polynomial": "c01 c02 c03 c25 c28 c29 c30 c31 c26", "complex": "c04 c05 c06 c07 c08 c03 c28 c29 c30 c31",
 "conj": "c04 c09 c13", "algebra/ring": "c09 c03", "algebra/field": "c05 c09", "ops_with_ref": "c05 c09",
 "svector": "c10 c18 c17 c25 c28 c29 c30 c31", "smatrix": "c11 c17 c03 c25 c28 c29 c30 c31", "dvector": "c12 c15 c16 c17 c18 c19 c25 c28 c29 c30 c31",
 "dmatrix": "c13 c14 c16 c17 c18 c19 c12 c25 c28 c29 c30 c31", "functions/": "c09 c07 c08",
 "differential_evolution": "c20 c21 c22 c23 c25 c27 c31", "test_functions": "c24",
}
SWAPS = [(r"(?<![-+*/<>=&|!])\+(?![=+])", ["-", "*"]), (r"(?<![-+*/<>=(,&|] )(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["+", "/"]),
 (r"(?<=\s)/(?=\s)", ["*"]), (r"\+=", ["-="]), (r"-=(?!>)", ["+="]), (r"\*=", ["+="]), (r"(?<=\s)<(?=\s)", ["<=", ">"]), (r"(?<=\s)>(?=\s)", [">=", "<"]),
 (r"(?<=\s)>=(?=\s)", [">"]), (r"(?<=\s)<=(?=\s)", ["<"]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?=\s\w)", ["&&"]),
 (r"(?<![\w.])-(?=[\w(])", [""]), (r"(?<![\w.&])!(?=[\w(])", [""]),
 (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["1", "3"]), (r"\b4\b", ["3", "5"]), (r"\b(\d+\.\d+)", ["1.5"]),
 (r"\.re\b", [".im"]), (r"\.im\b", [".re"]), (r"\bnum_rows\b", ["num_cols"]), (r"\bnum_cols\b", ["num_rows"]),
 (r"\brow\b", ["col"]), (r"\bcol\b", ["row"]), (r"\bi\b", ["j", "(i+1)"]), (r"\bj\b", ["i", "(j+1)"]), (r"\brhs\b", ["self"]), (r"\bother\b", ["self"]), (r"\bself\b(?=[.\[ ])", ["rhs", "other"]),
 (r"\bsin\b(?=\()", ["cos", "sinh"]), (r"\bcos\b(?=\()", ["sin", "cosh"]), (r"\bsinh\b(?=\()", ["cosh"]), (r"\bcosh\b(?=\()", ["sinh"]), (r"\bexp\b(?=\()", ["sqrt"]), (r"\bsqrt\b(?=\()", ["abs"]), (r"\bln\b(?=\()", ["exp"]), (r"\btan\b(?=\()", ["sin"]),
 (r"\.conj\(\)", [""]), (r"\.rev\(\)", [""]), (r"\.skip\(1\)", [""]), (r"\bZero\b", ["One"]), (r"\bzero\(\)", ["one()"]), (r"\bone\(\)", ["zero()"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
 (r"\ba\b", ["b", "c"]), (r"\bb\b", ["a", "c"]), (r"\bc\b", ["b"]), (r"\br\b", ["i"]), (r"\bx\b", ["y"]), (r"\by\b", ["x"]), (r"\bm\b", ["n"]), (r"\bn\b", ["m"]), (r"\blo\b", ["hi"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"\.\.=", [".."]), (r"(?<=\w)\.\.(?=\w)", ["..="]), (r"\bSome\((\w+)\)", ["None"]),
]
def code_lines(text):
    out, intest = [], False
    for n, l in enumerate(text.split("\n")):
        if "#[cfg(test)]" in l: break
        if l.startswith("#[test]"): intest = True
        if intest:
            if l == "}": intest = False
            continue
        s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "where", "type ", "/**", "*/")): continue
        out.append((n, l))
    return out
def mutants(f, text):
    seen = set()
    for n, l in code_lines(text):
        head = l.split("//")[0]
        if re.match(r"\s*(pub )?(fn|trait|struct|enum)\b", head): continue
        for rx, reps in SWAPS:
            for m in re.finditer(rx, head):
                for rep in reps:
                    new = head[:m.start()] + rep + head[m.end():] + l[len(head):]
                    if new != l and (n, new) not in seen:
                        seen.add((n, new)); yield (f, n, l, new)
        s = head.strip()
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ")")) and "assert" not in s or s.startswith("assert") and s.endswith(";"):
            yield (f, n, l, "")
def sh(cmd, cwd, t):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_HANG_S="40", CARGO_BUILD_JOBS=JOBS, VERIF_THREADS=JOBS, VERIF_BUDGET_S="60", VERIF_SCALE=os.environ.get("MUT_SCALE", "25"), VERIF_OUT=cwd + "/out.json")
    try: p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return p.returncode, p.stdout + p.stderr
def work(k, q, out, lock):
    base = f"{W}/w{k}"
    os.makedirs(base, exist_ok=True)
    os.makedirs(base + "/repo", exist_ok=True)
    for x in ("src", "Cargo.toml", "Cargo.lock"):
        if os.path.exists(f"{REPO}/{x}"): subprocess.run(["cp", "-r", f"{REPO}/{x}", base + "/repo/"], check=True)
    os.makedirs(base + "/h", exist_ok=True)
    subprocess.run(["cp", "-r", H + "/src", H + "/Cargo.toml", H + "/Cargo.lock", base + "/h/"], check=True)
    shutil.copy("/verif/known_findings.txt", base + "/known_findings.txt")
    t = open(base + "/h/Cargo.toml").read().replace('"/repo"', f'"{base}/repo"').replace('"../../repo"', f'"{base}/repo"')
    assert base in t
    open(base + "/h/Cargo.toml", "w").write(t)
    while True:
        try: f, n, l, new = q.get_nowait()
        except queue.Empty: return
        p = f"{base}/repo/{f}"
        orig = open(f"{REPO}/{f}").read()
        lines = orig.split("\n"); lines[n] = new
        open(p, "w").write("\n".join(lines))
        verdict, by = "survived", ""
        rc, o = sh(["cargo", "check", "--offline", "--lib"], base + "/repo", 120)
        if rc: verdict = "nocompile"
        else:
            bins = next(v for kk, v in MAP.items() if kk in f).split()
            for b in bins:
                rc, o = sh(["cargo", "build", "--offline", "--bin", b], base + "/h", 400)
                if rc: verdict, by = "nobuild", b; continue
                os.environ["VERIF_KNOWN"] = base + "/known_findings.txt"
                rc, o = sh([f"{base}/h/target/debug/{b}"], base + "/h", 300)
                if rc == 1 or rc in (-6, -11, 124): verdict, by = "killed", b; break
                if rc: verdict, by = f"odd{rc}", b
        open(p, "w").write(orig)
        with lock:
            out.write(json.dumps(dict(file=f, line=n + 1, old=l.strip(), new=new.strip(), verdict=verdict, by=by, msg=o[-300:] if verdict[:3] in ("odd",) else "")) + "\n"); out.flush()
def main():
    global JOBS
    outp, nw = sys.argv[1], int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    mx = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
    JOBS = str(max(1, 8 // nw))
    ms = []
    for d, _, fs in os.walk(REPO + "/src"):
        for x in fs:
            f = os.path.relpath(os.path.join(d, x), REPO)
            if sub in f and any(kk in f for kk in MAP): ms += list(mutants(f, open(os.path.join(REPO, f)).read()))
    random.Random(7).shuffle(ms); ms = ms[:mx]
    print(len(ms), "mutants"); sys.stdout.flush()
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock(); out = open(outp, "w")
    ts = [threading.Thread(target=work, args=(k, q, out, lock)) for k in range(nw)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(W, ignore_errors=True)
if __name__ == "__main__": main()
