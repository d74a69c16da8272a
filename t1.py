import sys,time,os
from gv import ssa, contract, specs
specs.load()
f="/tmp/ssa_t1.json"
if not os.path.exists(f) or "-r" in sys.argv: ssa.dump(os.environ.get("VERIF_REPO","/repo"),f,"/verif")
P=ssa.Prog(f)
pat=[x for x in sys.argv[1:] if x!="-r"]
for n,c in contract.CONTRACTS.items():
    if pat and not any(p in n for p in pat): continue
    R=contract.verify(P,c,deadline=time.time()+300)
    if os.environ.get("PROF"): pass
    bad=[o for o in R.obs if o.status!="proved"]
    print("%-40s obs=%d bad=%d unsup=%s t=%.2f solver=%.2f paths=%s %s"%(c.short,len(R.obs),len(bad),R.unsupported,R.time,R.solver,R.paths,R.by))
    for o in bad[:5]: print("   ",o.status,o.name,(o.detail or "")[:300])
    if hasattr(R,"trace"): print(R.trace)
