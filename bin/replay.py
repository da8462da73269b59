#!/usr/bin/env python3
"""replay.py FILE: runs the recorded inputs of a failed obligation on a native
(gcc, sanitized) build of /repo's current sources."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine, registry
d = json.load(open(sys.argv[1]))
if "unit" not in d:
    print(json.dumps(d, indent=1)); sys.exit(0)
print("obligation:", d["obligation"])
if d["inputs"] is None:
    print(d["output"]); sys.exit(0)
u = registry.U[d["unit"]]
b = engine.Builder()
try:
    n = b.native(u, d["variant"], dict(u.variants)[d["variant"]])
    f = os.path.join(b.dir, "in.txt")
    open(f, "w").write("\n".join(map(str, d["inputs"])))
    rc, o, e = engine.run([n, "replay", f], timeout=60, env=engine.NENV, limit_gb=0)
    print("exit", rc); print(o); print(e)
    sys.exit(1 if rc not in (0, 77) else 0)
finally:
    b.close()
