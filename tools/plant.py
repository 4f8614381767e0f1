#!/usr/bin/env python3
"""plant.py SPEC.py...: make /verif/seeded/<id>/ from a spec and confirm it in a scratch copy of /repo.

A spec defines: id, prop, needs, breaks, edits=[(file, old, new)], demo (Go source of package main,
exit status 0 on the right code).  Options: --check runs the check of the property against the bug.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
DEMO = '''#!/bin/bash
# fails on the code with the planted bug; run in the root of the repository
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t="$(mktemp -d)"; trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$repo" "$here" > "$t/o.json"
go build -overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 3
mkdir "$t/bin" && go build -o "$t/bin/" ./cmd/... || exit 3
mkdir "$t/run" && cp -r "$repo/data" "$t/run/" && cd "$t/run" && BIN="$t/bin" timeout 200 "$t/demo"
'''

def sh(cmd, cwd, env=None, ok=(0,), quiet=True):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout

def original_lines(d, f):
    out = subprocess.check_output(["git", "-C", d, "blame", "-l", "-s", "HEAD", "--", f], text=True).splitlines()
    return [l.lstrip("^").startswith(BASE[:38]) for l in out]

def stable(d):
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + d).replace("log=/opt/vp/test.log", "log=" + d + "/../test.log")
    o = d + "/../out.json"
    ov = open("/opt/vp/overlay.json").read().replace("/repo", d)
    open(d + "/../overlay.json", "w").write(ov)
    t = t.replace("/opt/vp/overlay.json", d + "/../overlay.json")
    sh(["bash", "-c", t, "x", o], d)
    b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(o))
    def s(x):
        for k in ("passed", "stable", "pass"):
            if k in x:
                v = x[k]
                return set(v if isinstance(v, list) else [t for t, q in v.items() if q])
    return sorted(s(b) - s(o))

def main():
    check = "--check" in sys.argv
    for fn in [a for a in sys.argv[1:] if not a.startswith("-")]:
        g = runpy.run_path(fn)
        tmp = tempfile.mkdtemp(prefix="plant.")
        try:
            d = tmp + "/repo"
            subprocess.check_call(["cp", "-a", "/repo", d])
            sh(["git", "checkout", "-q", "--", "."], d)
            touched = []
            for f, a, b in g["edits"]:
                s = open(d + "/" + f).read()
                if s.count(a) != 1:
                    sys.exit("%s: %d matches of %r in %s" % (g["id"], s.count(a), a, f))
                orig = original_lines(d, f)
                i = s[:s.index(a)].count("\n")
                touched += [(f, i + k) for k in range(a.count("\n") + 1) if not orig[i + k]]
                open(d + "/" + f, "w").write(s.replace(a, b))
            if touched:
                print("  warning: context lines that are not of the original:", touched)
            rc, out = sh(["git", "diff"], d)
            o = VERIF + "/seeded/" + g["id"]
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(out)
            # lines that the patch removes must be original ones
            bad = []
            f = n = None
            for l in out.splitlines():
                if l.startswith("--- a/"): f = l[6:]; orig = original_lines(d, f)
                elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
                elif l.startswith("-") and not l.startswith("---"):
                    if not orig[n]: bad.append((f, n + 1, l))
                    n += 1
                elif l.startswith(" "): n += 1
            if bad: print("  NOT ORIGINAL:", bad)
            if "demo" in g:
                open(o + "/main.go", "w").write(g["demo"])
                open(o + "/demo.sh", "w").write(g.get("sh", DEMO))
            os.chmod(o + "/demo.sh", 0o755)
            json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            rc, out = sh(["bash", "-c", ". /opt/vp/env.sh; go build ./..."], d)
            if rc: print(out)
            miss = stable(d)
            rcp, outp = sh(["bash", o + "/demo.sh"], d)
            diff = d + "/../p.diff"
            shutil.copy(o + "/patch.diff", diff)
            sh(["git", "checkout", "-q", "--", "."], d)
            rcc, outc = sh(["bash", o + "/demo.sh"], d)
            good = rc == 0 and not miss and rcp not in (0, 3) and rcc == 0 and not bad
            print("%s %s: build %d, tests missing %s, demo clean %d, demo patched %d" % (g["id"], "ok" if good else "BAD", rc, miss[:3], rcc, rcp))
            last = lambda t: "\n".join("    " + x[:200] for x in t.strip().splitlines()[-2:])
            if rcc: print(last(outc))
            print(last(outp))
            if check:
                sh(["git", "apply", diff], d)
                r, out = sh([VERIF + "/run.sh", g["prop"], "quick"], VERIF, dict(os.environ, REPO=d, VERIF_SEED="1"))
                v = [l for l in out.splitlines() if "VIOLATION" in l or "violation" in l][:1]
                print("  check %s: exit %d %s" % (g["prop"], r, v[0][:300] if v else ""))
        finally:
            shutil.rmtree(tmp)
main()
