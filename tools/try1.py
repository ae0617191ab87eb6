import sys, time
from p_num import *
import specs
# try1.py fn types std secs
fn, types, std, secs = sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4])
for t in types:
    ty = TYL[t]
    for f in fn.split(","):
        for jb in spec_jobs(f, t):
            cons = [contract_text(c, ty) for c in specs.S.values() if c.name != f and not c.part and c.ref]
            t0 = time.time()
            for j in run_engine(std, [jb.text(jb.id)], cons, secs):
                j.pop("used"); print(t, "%.1fs" % (time.time() - t0), j, flush=True)
