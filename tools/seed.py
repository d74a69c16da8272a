"""seed.py SPEC.py: builds and confirms planted bugs. SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import sys, os, json, subprocess, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
R=$(pwd)
H=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
cp "$H/demo.go.txt" "$D/main.go"
printf 'module demo\\n\\ngo 1.17\\n\\nrequire github.com/greymass/go-eosio v0.0.0\\n\\nreplace github.com/greymass/go-eosio => %s\\n' "$R" > "$D/go.mod"
cd "$D" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build -o demo . || exit 2
ulimit -v 8000000
timeout 60 ./demo || exit 1
'''


def sh(cmd, cwd):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def main():
    spec = runpy.run_path(sys.argv[1])
    only = sys.argv[2:]
    bad = 0
    for s in spec["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = tempfile.mkdtemp(prefix="seed_")
        c = os.path.join(d, "repo")
        shutil.copytree("/repo", c)
        sh("git checkout -q -- .", c)
        out = os.path.join(V, "seeded", s["id"])
        try:
            for f, old, new in s["edits"]:
                t = open(os.path.join(c, f)).read()
                if t.count(old) != 1:
                    raise LookupError((s["id"], f, t.count(old), old))
                open(os.path.join(c, f), "w").write(t.replace(old, new))
            sh("gofmt -l pkg", c)
            rc, diff = sh("git diff", c)
            f0 = None
            for l in diff.splitlines():
                if l.startswith("--- a/"):
                    f0 = sh("git show ec086be:" + l[6:], "/repo")[1].splitlines()
                elif l.startswith("-") and f0 is not None and l[1:] not in f0:
                    print(s["id"], "NOTE: not an original line:", l)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO)
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.go.txt", "w").write(s["demo"])
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
            rc1, o1 = sh("go build ./... && go vet ./pkg/... && go test ./... 2>&1 && cd benchmarks && go test ./... 2>&1", c)
            rc2, o2 = sh("bash %s/demo.sh" % out, "/repo")
            rc3, o3 = sh("bash %s/demo.sh" % out, c)
            ok = rc1 == 0 and rc2 == 0 and rc3 != 0 and rc3 != 2
            print(s["id"], s["property"], "OK" if ok else "BAD", "tests", rc1, "clean", rc2, "bug", rc3)
            if not ok:
                bad = 1
                print(o1[-800:] if rc1 else "", o2[-800:] if rc2 else "", o3[-800:])
                shutil.rmtree(out)
        except LookupError as e:
            print("BAD", e)
            bad = 1
        finally:
            shutil.rmtree(d)
    return bad


sys.exit(main())
