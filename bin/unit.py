#!/usr/bin/env python3
"""unit.py NAME [VARIANT]: verify one unit (development aid)."""
import sys, os, json, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, registry
import concurrent.futures as cf
b = engine.Builder()
try:
    b.compile_repo()
    u = registry.U[sys.argv[1]]
    vs = [v for v in u.variants if len(sys.argv) < 3 or v[0] == sys.argv[2]]
    def job(v):
        r = b.verify(u, v[0], v[1])
        out = ["%s[%s]: %s oblig=%s probes=%s wall=%.1f solver=%.1f" % (u.name, v[0], r["status"], r.get("obligations"), r.get("probes"), r["wall"], r.get("solver", 0))]
        if r.get("detail"): out.append(r["detail"][-500:])
        for p in r.get("failed", [])[:20]:
            out.append("   %s %s %s:%s" % (p["property"], p["description"], p["file"], p["line"]))
        if r["status"] == "failed" and os.environ.get("CEX"):
            vals, tr = b.counterexample(u, r, r["failed"][0]["property"])
            out.append(str(vals)); out.append(str(tr))
            n = b.native(u, v[0], v[1])
            f = os.path.join(b.dir, "in.txt"); open(f, "w").write("\n".join(map(str, vals or [])))
            rc, o, e = engine.run([n, "replay", f], timeout=20, env=engine.NENV, limit_gb=0)
            out.append("native rc %s %s %s" % (rc, o[-400:], e[-800:]))
        if os.environ.get("FUZZ"):
            n = b.native(u, v[0], v[1])
            f = os.path.join(b.dir, "fz.txt")
            rc, o, e = engine.run([n, "fuzz", "1", os.environ["FUZZ"], f], timeout=60, env=engine.NENV, limit_gb=0)
            out.append("fuzz rc %s %s" % (rc, o))
            if rc == 1:
                rc, o, e = engine.run([n, "replay", f], timeout=20, env=engine.NENV, limit_gb=0)
                out.append("native rc %s %s %s" % (rc, o[-400:], e[-800:]))
        return "\n".join(out)
    t = time.time()
    with cf.ThreadPoolExecutor(engine.JOBS) as ex:
        for o in ex.map(job, vs): print(o, flush=True)
    print("total %.1f" % (time.time() - t))
finally:
    (None if os.environ.get("KEEP") else b.close())
