#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   run one property's check against /repo's working tree
   check.py --setup                     build every harness the quick checks use
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 3: no answer (build or
harness error), never used for a verdict."""
import sys, os, json, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib, build as B
from props import PROPS

def main():
    if sys.argv[1] == "--setup":
        need = sorted({(j.variant, j.harness) for p in PROPS.values() for j in p["jobs"] if j.quick > 0})
        for v, h in need: B.build(v, h)
        print("built %d binaries" % len(need)); return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]; t0 = time.time()
    rdir = os.path.join(vplib.EVID, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir, exist_ok=True)
    r = vplib.Runner(prop, tier, seed, rdir)
    try: r.run(P["jobs"])
    finally: r.close()
    known = vplib.load_known(prop); seen = {}; new = []
    for v in r.viol:
        k = next((w for rx, w in known if rx.match(v.key)), None)
        if k: seen[k] = seen.get(k, 0) + 1
        else: new.append(v)
    wall = time.time() - t0
    cov = {"evaluations": r.stats.get("cases", 0), "distinct_nontrivial": len(r.hashes), "rule": P["rule"], "samples": r.samples,
           "planned": r.nplan, "finished": r.ndone, "inconclusive_timeouts": r.incon,
           "skipped_resource_limit": r.stats.get("skipped_resource", 0),
           "jobs": ["%s/%s x%d" % (j.variant, j.mode, j.thorough if tier == "thorough" else j.quick) for j in P["jobs"]],
           "observed": {k: r.stats[k] for k in sorted(r.stats) if k not in ("cases", "distinct_local", "skipped_resource")},
           "notes": r.notes}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"), "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": P.get("assumptions", []), "violations": [{"key": v.key, "what": v.what, "variant": v.variant, "mode": v.mode, "case": v.case, "replay": v.path} for v in new[:50]],
          }
    if seen: cov["known_findings_seen"] = seen
    os.makedirs(vplib.EVID, exist_ok=True)
    with open(os.path.join(vplib.EVID, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted(seen): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    done = set()
    for v in new:
        if v.key in done: continue
        done.add(v.key)
        print("VIOLATION property=%s replay=%s" % (prop, v.path))
        print("  %s [%s/%s case %d] %s" % (v.key, v.variant, v.mode, v.case, v.what[:300]))
        if len(done) >= 10: break
    print("%s %s seed=%d: %d cases, %d distinct, %d violations, %d known, %d inconclusive, %.0fs" % (prop, tier, seed, cov["evaluations"], len(r.hashes), len(new), sum(seen.values()), r.incon, wall))
    if new: return 1
    if r.errors:
        for e in r.errors[:5]: print("ERROR " + e)
        return 3
    if r.ndone < 0.9 * r.nplan or not r.hashes or cov["evaluations"] == 0:
        print("ERROR too little was observed (%d of %d cases)" % (r.ndone, r.nplan)); return 3
    for k, n in P.get("need", {}).items():
        if r.stats.get(k, 0) < n: print("ERROR workload did not reach %s (%d < %d)" % (k, r.stats.get(k, 0), n)); return 3
    return 0

if __name__ == "__main__": sys.exit(main())
