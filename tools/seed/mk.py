#!/usr/bin/env python3
"""mk.py NAME...: builds and confirms planted changes described in specs.py in a scratch copy (/tmp/w), and runs checks on them."""
import os, subprocess, sys, json, shutil, time
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); W = "/tmp/w"
sys.path.insert(0, H)
import specs
def sh(c, cwd=W, t=900, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, **k)
def main():
    args = sys.argv[1:]
    opts = [a for a in args if a.startswith("-")]; names = [a for a in args if not a.startswith("-")] or list(specs.S)
    if not os.path.exists(W): sh("cp -a /repo /tmp/w", cwd="/")
    head = sh("git rev-parse HEAD", cwd="/repo").stdout.strip()
    if sh("git rev-parse HEAD").stdout.strip() != head:
        sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD")
    for n in names:
        sp = specs.S[n]
        sh("git checkout -q -f -- .")
        d = os.path.join(V, "seeded", n)
        os.makedirs(d, exist_ok=True)
        for f, old, new in sp["edits"]:
            p = os.path.join(W, f); s = open(p).read()
            if s.count(old) != 1:
                print(n, "EDIT", f, "matches", s.count(old)); break
            open(p, "w").write(s.replace(old, new))
        else:
            open(d + "/patch.diff", "w").write(sh("git diff").stdout)
            if "demo_sh" in sp: open(d + "/demo.sh", "w").write(sp["demo_sh"])
            else:
                shutil.copy(H + "/demo.sh", d + "/demo.sh")
                open(d + "/main.rs", "w").write(sp["demo"] + ("\n" + open(H + "/xml.rs").read() if "check(" in sp["demo"] else ""))
            os.chmod(d + "/demo.sh", 0o755)
            for k, v in sp.get("files", {}).items(): open(os.path.join(d, k), "w").write(v)
            json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if "-n" not in opts:
                if "-c" not in opts:
                    t = sh("cargo test --workspace --all-features --offline 2>&1 | grep -E '^test result|FAILED|^error|failed' | grep -v '0 failed' | head -20")
                    print(n, "TESTS", "pass" if not t.stdout.strip() else "FAIL\n" + t.stdout)
                    bad = sh("bash %s/demo.sh" % d)
                    sh("git checkout -q -f -- .")
                    good = sh("bash %s/demo.sh" % d)
                    print(n, "DEMO with patch:", bad.returncode, "without:", good.returncode, "OK" if bad.returncode and not good.returncode else "BAD", (bad.stdout + bad.stderr)[-300:].strip() , "||", (good.stdout+good.stderr)[-200:].strip() if good.returncode else "")
                    sh("git apply %s/patch.diff" % d)
                for pid in [sp["prop"]] + sp.get("also", []):
                    t0 = time.time()
                    r = sh("ulimit -v 20000000; VERIF_REPO=/tmp/w python3 check.py %s" % pid, cwd=V)
                    print(n, "CHECK", pid, {0: "MISSED", 1: "caught"}.get(r.returncode, r.returncode), "%.0fs" % (time.time() - t0), r.stdout[:500] if r.returncode == 1 else r.stdout[-200:] + r.stderr[-300:])
            sys.stdout.flush()
    sh("git checkout -q -f -- .")
main()
