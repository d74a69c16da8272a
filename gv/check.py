"""check <property> [--thorough]: verify the property's contracts on /repo's current source, replay natively."""
import os, sys, json, time, subprocess, resource, shutil, tempfile, multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED
import z3
from . import ssa, contract
from .props import PROPS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
GOENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*", GOFLAGS_EXTRA="")
GOENV.setdefault("HOME", "/root")

_P = None


def _init(path):
    global _P
    from . import specs
    specs.load()
    _P = ssa.Prog(path)


def model_hints(m):
    """values of a counterexample: ints, byte strings"""
    ints, blobs = set(), []
    lens = {}
    arrs = []
    for d in m.decls():
        if d.arity() != 0:
            continue
        try:
            c = d()
            v = m.eval(c, model_completion=True)
            if z3.is_bv_value(v) or z3.is_int_value(v):
                n = v.as_long()
                ints.add(n)
                lens[d.name()] = n
            elif isinstance(c, z3.ArrayRef):
                arrs.append((d.name(), c))
        except z3.Z3Exception:
            pass
    for name, c in arrs[:8]:
        off, n = 0, 64
        if name == "IN":
            off = lens.get("pos0", 0)
            n = lens.get("N", 64) - off
        elif name.endswith("#a"):
            n = lens.get(name[:-2] + "#n", 64)
        n = max(0, min(n, 400))
        dom = c.domain()
        bs = []
        for i in range(n):
            k = z3.BitVecVal(off + i, dom.size()) if z3.is_bv_sort(dom) else z3.IntVal(off + i)
            try:
                bs.append(m.eval(c[k], model_completion=True).as_long() & 255)
            except (z3.Z3Exception, AttributeError):
                bs.append(0)
        blobs.append(bs)
    return sorted(ints)[:60], blobs


def job(cname, budget):
    c = contract.CONTRACTS[cname]
    t0 = time.time()
    R = contract.verify(_P, c, deadline=time.time() + budget)
    obs = []
    for o in R.obs:
        h = None
        if o.model is not None:
            try:
                h = model_hints(o.model)
            except Exception:
                h = None
        obs.append((o.name, o.status, o.backend, o.detail, h))
    return dict(contract=cname, short=c.short, doc=c.doc, obs=obs, unsupported=R.unsupported, used=R.used, inlined=sorted(R.inlined),
                models=sorted(R.models), loops={"%s#%d" % k: v for k, v in R.loops.items()},
                term={"%s#%d" % (contract.short(k[0]), k[1]): v for k, v in R.loops_term.items()}, time=time.time() - t0, solver=R.solver, by=R.by,
                paths=R.paths, trace=getattr(R, "trace", None), assumed=sorted(getattr(R, "assumed", [])))


def closure(path, roots, workers, total, prop):
    """verify roots and every contract they rely on"""
    done, pend = {}, {}
    seen = set()
    t0 = time.time()
    ctx = mp.get_context("fork")
    with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init, initargs=(path,)) as ex:
        def submit(n):
            if n not in seen and n in contract.CONTRACTS:
                seen.add(n)
                left = max(30, total - (time.time() - t0))
                pend[ex.submit(job, n, left)] = n
                for u in contract.CONTRACTS[n].parts:
                    submit(u)
        for r in roots:
            submit(r)
        while pend:
            fin, _ = wait(pend, return_when=FIRST_COMPLETED, timeout=5)
            for f in fin:
                n = pend.pop(f)
                try:
                    done[n] = f.result()
                except Exception as e:
                    done[n] = dict(contract=n, short=contract.CONTRACTS[n].short, doc="", obs=[], unsupported="verifier process: %r" % (e,), used={},
                                   inlined=[], models=[], loops={}, term={}, time=0, solver=0, by={}, paths=0, trace=None, assumed=[])
                for u in done[n]["used"]:
                    if contract.CONTRACTS[u].decided in (None, prop):
                        submit(u)
            if time.time() - t0 > total + 60:
                for f, n in pend.items():
                    done[n] = dict(contract=n, short=contract.CONTRACTS[n].short, doc="", obs=[], unsupported="time budget exhausted", used={}, inlined=[],
                                   models=[], loops={}, term={}, time=0, solver=0, by={}, paths=0, trace=None, assumed=[])
                for p in list(ex._processes.values()):
                    p.kill()
                break
    return done


# ---------------------------------------------------------------- native side

def build_replay(work):
    out = os.path.join(work, "replay")
    src = os.path.join(VERIF, "replay")
    d = os.path.join(work, "replaysrc")
    shutil.copytree(src, d)
    gm = open(os.path.join(d, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(os.path.join(d, "go.mod"), "w").write(gm)
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=d, env=GOENV, capture_output=True, text=True, errors="replace")
    if r.returncode != 0:
        return None, (r.stdout + r.stderr)[-3000:]
    return out, None


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.nice(5)


def native(bin_, work, prop, seed, dur, hints, procs):
    """-> (failure dict or None, counts)"""
    hf = os.path.join(work, "hints.json")
    json.dump(hints, open(hf, "w"))
    ps = []
    for i in range(procs):
        out = os.path.join(work, "fail%d.json" % i)
        if os.path.exists(out):
            os.unlink(out)
        cmd = [bin_, "-prop", prop, "-seed", str(seed * 1000 + i), "-dur", "%dms" % int(dur * 1000), "-hints", hf, "-out", out]
        ps.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits, cwd=work), out))
    counts, fail = {}, None
    for p, out in ps:
        try:
            so, se = p.communicate(timeout=dur + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
        if p.returncode == 0:
            for l in so.split("\n"):
                if l.startswith("OK "):
                    for k, v in json.loads(l[3:]).items():
                        counts[k] = counts.get(k, 0) + v
            continue
        if p.returncode == 4:
            continue
        if fail is not None:
            continue
        if os.path.exists(out):
            f = json.load(open(out))
        else:
            try:
                ln = open(out + ".cur").read()
                f = dict(property=prop, oracle=ln[:40].strip(), case=int(ln[40:].split()[0]), message="process died (status %s): %s" % (p.returncode, se[:1500]), input=[], hints=hints)
            except Exception:
                f = dict(property=prop, oracle="?", case=-1, message="process died (status %s): %s" % (p.returncode, se[:1500]), input=[], hints=hints)
        # confirm
        if f["case"] >= 0:
            r = rerun(bin_, work, f, hf)
            if r is None:
                continue
            f["confirmed"] = r
        fail = f
    return fail, counts


def rerun(bin_, work, f, hf):
    try:
        r = subprocess.run([bin_, "-prop", f["property"], "-oracle", f["oracle"], "-case", str(f["case"]), "-hints", hf, "-out", os.path.join(work, "re.json")],
                           capture_output=True, text=True, errors="replace", timeout=120, preexec_fn=limits, cwd=work)
        if r.returncode == 0:
            return None
        return (r.stdout + r.stderr)[:1500]
    except subprocess.TimeoutExpired:
        return "does not terminate"


# ---------------------------------------------------------------- main

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    verbose = "-v" in sys.argv
    p = PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="gv_%s_" % prop)
    try:
        rc = run(prop, p, tier, seed, work, t0, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(prop, p, tier, seed, work, t0, verbose):
    from . import specs
    specs.load()
    ssaf = os.path.join(work, "ssa.json")
    unsupported_all = None
    try:
        ssa.dump(REPO, ssaf, VERIF)
    except Exception as e:
        unsupported_all = "cannot load the source: %s" % (str(e)[-1500:],)
    bin_, err = build_replay(work)
    roots = [contract.full(r) for r in p.get("contracts", ())]
    res = {}
    hints = dict(ints=[], strs=[], blobs=[])
    procs = max(1, min(8, os.cpu_count() or 4))
    extra = []
    if unsupported_all is None:
        P = ssa.Prog(ssaf)
        ci, cs = P.constants()
        hints["ints"] = [str(x) for x in ci][:3000]
        hints["strs"] = [s.decode("latin-1") for s in cs][:1500]
        res = closure(ssaf, roots, procs, p.get("budget", 240) if tier == "quick" else 1800, prop)
        for f in p.get("lemmas", ()):
            extra += f(P)
    filt = p.get("filter")
    nob = ndis = 0
    bad, unrel, unsup = [], [], []
    by = {}
    for n, r in res.items():
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
        if r["unsupported"]:
            unsup.append((r["short"], r["unsupported"]))
        for (name, st, be, det, h) in r["obs"]:
            nob += 1
            if st == "proved":
                ndis += 1
            elif (filt is None or filt(r["short"], name)) and ("io.EOF exactly at the end" not in name or prop in ("C22", "C23", "C24")):
                bad.append((r["short"], name, st, det, h))
            else:
                unrel.append((r["short"], name, st))
    for name, st, be in extra:
        nob += 1
        by[be] = by.get(be, 0) + 1
        if st == "proved":
            ndis += 1
        else:
            bad.append(("lemma", name, st, None, None))
    for (sh, name, st, det, h) in bad:
        if h:
            hints["ints"] += [str(x) for x in h[0]] * 20
            hints["blobs"] += h[1]
            for b in h[1]:
                hints["strs"].append(bytes(b).decode("latin-1"))
                hints["strs"].append(bytes(b).split(b"\0")[0].decode("latin-1"))
    suspicious = bool(bad or unsup or unrel or unsupported_all)
    if tier == "thorough":
        dur = 120
    else:
        dur = p.get("dur", 6) if not suspicious else 45
    fail, counts = None, {}
    if bin_:
        fail, counts = native(bin_, work, prop, seed, dur, hints, 4 if not suspicious else 7)
    else:
        unsup.append(("native harness", "does not build against /repo: " + (err or "")))
    viol = 0
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    known = known_findings(prop)
    for x in known:
        if bin_ and x["match"].startswith("probe:"):        # a recorded input: does it still fail?
            r = subprocess.run([bin_, "-probe", x["match"][6:]], capture_output=True, text=True, errors="replace", timeout=60, preexec_fn=limits, cwd=work)
            if r.returncode == 0 and r.stdout.strip() == "fails":
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    if fail is not None:
        k = [x for x in known if x["match"] in fail["message"] or x["match"] in json.dumps(fail.get("input", []))]
        if k:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
        else:
            viol = 1
            rp = os.path.join(rdir, prop + ".json")
            fail["how_to_replay"] = "cd /verif/replay && GOFLAGS=-mod=mod go run . -prop %s -oracle %r -case %d -hints %s" % (prop, fail["oracle"], fail["case"], rp)
            fail["obligations"] = [dict(function=s, obligation=n, status=st, detail=d) for s, n, st, d, _ in bad[:20]]
            json.dump(fail, open(rp, "w"), indent=1)
            lines.append("# %s: %s" % (fail["oracle"], fail["message"].split("\n")[0][:300]))
            for i in fail.get("input", [])[:6]:
                lines.append("#   %s" % i[:300])
            lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    elif bad:
        viol = 1
        rp = os.path.join(rdir, prop + ".json")
        json.dump(dict(property=prop, no_failing_input_found=True,
                       obligations=[dict(function=s, obligation=n, status=st, detail=d, counterexample=dict(ints=h[0], blobs=h[1]) if h else None) for s, n, st, d, h in bad[:40]]),
                  open(rp, "w"), indent=1)
        for s, n, st, d, _ in bad[:6]:
            lines.append("# failed obligation: %s: %s (%s)" % (s, n, st))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    fns = sorted(r["short"] for r in res.values() if not r["unsupported"])
    proved = bool(res or extra) and not bad and not unsup and not unrel and nob == ndis and not p.get("bounded")
    elsewhere = sorted({"contract of %s (decided by %s)" % (contract.CONTRACTS[u].short, contract.CONTRACTS[u].decided) for r in res.values() for u in r["used"]
                        if contract.CONTRACTS[u].decided not in (None, prop)})
    inl = sorted({contract.short(x) for r in res.values() for x in r["inlined"]})
    mods = sorted({x for r in res.values() for x in r["models"]})
    term = {}
    for r in res.values():
        for k, v in r["term"].items():
            term[k] = term.get(k, True) and v
    ev = dict(property=prop, tier=tier, seed=seed, level=p["level"] if (proved or p["level"] != "proof") else "exploration",
              coverage=dict(obligations=nob, discharged=ndis,
                            checker_cmd="python3-vt -m gv.check %s (symbolic execution of the SSA of /repo, obligations by z3 %s, cvc5 as fallback)" % (prop, z3.get_version_string()),
                            trusted_base=TRUSTED + ["model of " + m for m in mods] + elsewhere,
                            functions_under_contract=fns, functions_inlined=inl,
                            not_verified=[dict(function=a, reason=b) for a, b in unsup],
                            bounded_stand_in=p.get("bounded", "") or ("native search only for the functions in not_verified" if unsup else ""),
                            unrelated_failed_obligations=[dict(function=a, obligation=b, status=c) for a, b, c in unrel[:20]],
                            loop_invariants=sum(len(r["loops"]) for r in res.values()), backends=by,
                            loops_proved_to_end=sum(term.values()), loops_not_proved_to_end=sorted(k for k, v in term.items() if not v),
                            solver_s=round(sum(r["solver"] for r in res.values()), 2),
                            paths=sum(r["paths"] for r in res.values()),
                            evaluations=sum(counts.values()), distinct_nontrivial=sum(counts.values()),
                            rule="native validation: random structured cases against independent oracles, each case has its own seed; all generated cases execute the code under test",
                            samples=[counts], verdict="proved" if proved else "violated" if viol else "bounded"),
              assumptions=ASSUME + p.get("assumes", []), wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    if unsupported_all:
        lines.append("# " + unsupported_all)
    print("%s: %d contracts, %d/%d obligations discharged, %d unsupported, %d native cases, %.1fs" % (prop, len(res), ndis, nob, len(unsup), sum(counts.values()), time.time() - t0))
    for a, b in unsup[:20]:
        print("# not verified: %s: %s" % (a, b[:400]))
    for a, b, c in unrel[:10]:
        print("# obligation outside this property: %s: %s (%s)" % (a, b, c))
    if verbose:
        for n, r in sorted(res.items(), key=lambda x: -x[1]["time"]):
            print("   %6.2fs %-50s %d obs %s" % (r["time"], r["short"], len(r["obs"]), r["unsupported"] or ""))
            if r["trace"]:
                print(r["trace"])
            for (name, st, be, det, h) in r["obs"]:
                if st != "proved":
                    print("       ", st, name, (det or "")[:500])
    for l in lines:
        print(l)
    return 1 if viol else 0


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                m, _, what = rest.partition(" :: ")
                out.append(dict(match=m, what=what))
    return out


TRUSTED = ["gossa: golang.org/x/tools/go/ssa construction of /repo's packages and of the inlined standard library functions",
           "gv: the symbolic executor, loop summariser (inferred invariants are re-proved) and specification library in /verif/gv",
           "z3, cvc5"]
ASSUME = ["pointer parameters are non-nil and do not alias each other; receivers are not shared between goroutines",
          "int is 64 bits; slices and strings are shorter than 2^40; input streams are shorter than 2^32 bytes",
          "loops in loops_not_proved_to_end, recursion and dependencies are assumed to terminate (native runs have a 40 s watchdog); the other summarised loops are proved to end",
          "readers obey io.Reader: a read returns at most len(p) bytes and an error when it returns none; writers obey io.Writer",
          "models listed in trusted_base are assumed contracts on dependencies; native runs exercise the real ones"]

if __name__ == "__main__":
    main()
