"""behaviour-preserving rewrites of /repo's code (tools/refactors/*.py): the checks must stay quiet on each.
args: ids (substring) or nothing for all; -j N"""
import sys, os, re, subprocess, shutil, tempfile, time, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def load():
    out = []
    d = os.path.join(V, "tools", "refactors")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            s = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(s)
            s.loader.exec_module(m)
            out += m.REF
    return out


def apply(c, edits):
    for (f, old, new) in edits:
        p = os.path.join(c, "pkg", f)
        s = open(p).read()
        if old == "EOF":
            s += "\n" + new
        elif old.startswith("func ") and "\n" not in old:
            i = s.index(old)
            j = s.index("\n}\n", i) + 3
            s = s[:i] + new.strip("\n") + "\n" + s[j:]
        else:
            assert s.count(old) == 1, (f, old, s.count(old))
            s = s.replace(old, new)
        open(p, "w").write(s)


def one(r):
    rid, checks, edits = r
    d = tempfile.mkdtemp(prefix="rf_")
    c = os.path.join(d, "repo")
    out = []
    try:
        shutil.copytree(REPO, c)
        apply(c, edits)
        q = subprocess.run("gofmt -l pkg; go vet ./pkg/chain ./pkg/abi ./pkg/base58 ./pkg/ripemd160 2>&1 | grep -v ReadByte | grep -v WriteByte; go test ./... 2>&1 | grep -v '^ok' | grep -v 'no test files'", shell=True, cwd=c, capture_output=True, text=True)
        if "FAIL" in q.stdout:
            return [(rid, "-", "BAD REFACTOR", 0, q.stdout[-1500:])]
        for p in checks:
            t = time.time()
            r = subprocess.run(["python3-vt", "-m", "gv.check", p], cwd=V, env=dict(os.environ, VERIF_REPO=c, VERIF_SEED="1", VERIF_EVIDENCE=os.path.join(d, "ev")), capture_output=True, text=True)
            out.append((rid, p, r.returncode, time.time() - t, (r.stdout + r.stderr[-1500:])))
    except Exception as e:
        out.append((rid, "-", "ERROR", 0, repr(e)[:600]))
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    j = 3
    if "-j" in a:
        i = a.index("-j")
        j = int(a[i + 1])
        del a[i:i + 2]
    R = [r for r in load() if not a or any(x in r[0] for x in a)]
    with ThreadPoolExecutor(j) as ex:
        for res in ex.map(one, R):
            for rid, p, rc, t, o in res:
                print("%-22s %s rc=%s %.0fs" % (rid, p, rc, t))
                n = 9 if rc != 0 else 1
                for l in o.strip().split("\n")[-n:]:
                    print("      ", l[:300])
            sys.stdout.flush()
