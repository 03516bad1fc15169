#!/usr/bin/env python3
"""explore.py VARIANT HARNESS MODE N [SEED] [BASE]: ad-hoc run, prints violations (development aid)."""
import sys, os, time, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib
v, h, mode, n = sys.argv[1:5]; seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
os.makedirs("/tmp/vpx", exist_ok=True)
t = time.time()
r = vplib.Runner(os.environ.get("PROP", mode), "quick", seed, "/tmp/vpx")
r.run([vplib.Job(v, h, mode, int(n), int(n), cpu=int(os.environ.get("CPU","3")), base=int(sys.argv[6]) if len(sys.argv) > 6 else 0)])
c = collections.Counter(x.key for x in r.viol)
for x in sorted(r.viol, key=lambda x: x.case)[:int(os.environ.get("SHOW", "12"))]: print(x.case, x.key, x.what[:200], x.path)
print(c.most_common(12)); print({k: r.stats[k] for k in sorted(r.stats)}); print(r.errors[:3], r.notes[:3], "incon", r.incon, "distinct", len(r.hashes), "%.1fs" % (time.time() - t))
r.close()
