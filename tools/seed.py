#!/usr/bin/env python3
"""seed.py [ID...]: builds seeded/<id>/ from tools/seeds/*.py after confirming, in a scratch copy of /repo, that the
change builds, passes the existing tests, and that its demonstration passes without it and fails with it."""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; non-zero: it does not. Run from the root of the repository.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
%s'''
PROG = '''cp "$D/main.go" "$T/" || exit 2
printf 'module demo\\ngo 1.12\\nrequire github.com/twuillemin/modes v0.0.0\\nreplace github.com/twuillemin/modes => %s\\n' "$R" >"$T/go.mod"
cd "$T" && go build -o demo . || exit 2
./demo
'''
RACE = PROG.replace("go build", "CGO_ENABLED=1 go build -race")
PRE = '''func h(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func want(ok bool, f string, a ...interface{}) {
	if !ok {
		fmt.Printf(f+"\\n", a...)
		os.Exit(1)
	}
}
'''
PK = "github.com/twuillemin/modes/pkg/"

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def baseline(cwd):
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd)
    return {(e["Package"], e["Test"]) for e in map(json.loads, filter(lambda l: l.startswith("{"), r.stdout.splitlines()))
            if e.get("Action") == "pass" and e.get("Test")}

def main():
    specs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "tools/seeds/*.py"))):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in specs, s["id"]
            specs[s["id"]] = s
    ids = sys.argv[1:] or [i for i in specs if not os.path.exists(os.path.join(HERE, "seeded", i))]
    base = baseline("/repo")
    bad = 0
    for i in ids:
        s = specs[i]
        W = tempfile.mkdtemp(prefix="seedw.", dir="/tmp")
        try:
            d = os.path.join(W, "bug"); os.mkdir(d)
            r = os.path.join(W, "repo")
            subprocess.check_call(["cp", "-a", "/repo", r])
            err = None
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p).read()
                if t.count(old) != s.get("count", 1):
                    err = f"{f}: {t.count(old)} matches of {old!r}"; break
                open(p, "w").write(t.replace(old, new))
            if err is None:
                g = sh(["gofmt", "-l", "."], r)
                v = sh(["go", "vet", "./..."], r)
                if "imported and not used" in v.stdout or "declared and not used" in v.stdout or "undefined" in v.stdout:
                    err = v.stdout
            if err is None:
                b = sh(["go", "build", "./..."], r)
                if b.returncode: err = b.stdout
            if err is None:
                miss = base - baseline(r)
                if miss: err = f"existing tests fail: {sorted(miss)}"
            patch = sh(["git", "diff"], r).stdout
            if err is None:
                if "demo" in s:
                    imp = {"encoding/hex", "fmt", "os"} | {x if "." in x or "/" not in x and not x.startswith("@") else x for x in s.get("imports", [])}
                    lines = "".join('\t"%s"\n' % x for x in sorted(x for x in imp if not x.startswith("@"))) + "".join('\t"%s%s"\n' % (PK, x[1:]) for x in sorted(imp) if x.startswith("@"))
                    src = "package main\n\nimport (\n%s)\n\n%s\nvar _ = h\n\n%s\nfunc main() {\n%s\n}\n" % (lines, PRE, s.get("decl", ""), s["demo"])
                    open(os.path.join(d, "main.go"), "w").write(src)
                    f = sh(["gofmt", "-w", os.path.join(d, "main.go")], d)
                    if f.returncode: err = f.stdout
                    body = RACE if s.get("race") else PROG
                else:
                    body = s["script"]
                open(os.path.join(d, "demo.sh"), "w").write(DEMO % body)
                os.chmod(os.path.join(d, "demo.sh"), 0o755)
                open(os.path.join(d, "patch.diff"), "w").write(patch)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            if err is None:
                a = sh(["bash", os.path.join(d, "demo.sh")], "/repo", timeout=250)
                c = sh(["bash", os.path.join(d, "demo.sh")], r, timeout=250)
                if a.returncode != 0: err = f"demo fails on the unchanged tree ({a.returncode}): {a.stdout[-800:]}"
                elif c.returncode == 0: err = "demo passes with the change"
                elif c.returncode == 2 and "demo" in s and "panic" not in c.stdout: err = f"demo does not build with the change: {c.stdout[-800:]}"
                ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], capture_output=True, text=True)
                if ap.returncode: err = ap.stderr
            if err:
                bad += 1
                print(f"{i}: REJECTED {err}")
            else:
                o = os.path.join(HERE, "seeded", i)
                shutil.rmtree(o, ignore_errors=True)
                shutil.copytree(d, o)
                print(f"{i}: ok ({c.stdout.strip().splitlines()[-1][:140] if c.stdout.strip() else c.returncode})")
        finally:
            shutil.rmtree(W)
    sys.exit(bad > 0)
main()
