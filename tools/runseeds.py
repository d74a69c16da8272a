"""runs the check of each planted bug's property against a scratch copy; args: seed ids (default all); --prop X overrides the property; --quiet-set DIR: patches that must stay quiet"""
import sys, os, json, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(patch, prop):
    d = tempfile.mkdtemp(prefix="rs_")
    c = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", c)
        r = subprocess.run(["git", "apply", patch], cwd=c, capture_output=True, text=True)
        if r.returncode:
            return None, "patch does not apply " + r.stderr, 0
        t = time.time()
        r = subprocess.run(["python3-vt", "-m", "gv.check", prop], cwd=V, env=dict(os.environ, VERIF_REPO=c, VERIF_SEED="1", VERIF_EVIDENCE=os.path.join(d, "ev")), capture_output=True, text=True)
        return r.returncode, (r.stdout + r.stderr[-1500:]), time.time() - t
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    prop = None
    if "--prop" in a:
        i = a.index("--prop")
        prop = a[i + 1]
        del a[i:i + 2]
    base = os.path.join(V, "seeded")
    for s in sorted(os.listdir(base)):
        if a and not any(x in s for x in a):
            continue
        m = json.load(open(os.path.join(base, s, "meta.json")))
        rc, out, t = one(os.path.join(base, s, "patch.diff"), prop or m["property"])
        print("%-22s %s rc=%s %.0fs" % (s, prop or m["property"], rc, t))
        for l in out.strip().split("\n")[-9:]:
            print("      ", l[:260])
        sys.stdout.flush()
