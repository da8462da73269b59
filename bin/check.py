#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Rebuilds /repo's sources with goto-cc and discharges every obligation of the
units that decide PROPERTY.  exit 0: held; exit 1: VIOLATION line."""
import sys, os, json, time, re, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import engine, registry, scenario
import concurrent.futures as cf

TOTAL = 780          # seconds a check may take (limit 900)


def load_known():
    """known: property=P unit=U variant=V obligation=TEXT | what fails"""
    out = []
    f = os.path.join(engine.VERIF, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) unit=(\S+) variant=(\S*) obligation=(.*?) \| (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out


def crashed(rc):
    return rc is not None and rc not in (0, 77, 99)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations, self.known, self.open = [], [], []
        self.notes = []
        self.rdir = os.path.join(engine.VERIF, "evidence", "replay")
        os.makedirs(self.rdir, exist_ok=True)

    def left(self):
        return TOTAL - (time.time() - self.t0)

    def replay_file(self, r, obligation, inputs, text):
        name = "%s-%s-%s" % (self.prop, r["unit"], re.sub(r"\W", "_", r.get("variant", "") or "all"))
        path = os.path.join(self.rdir, name + ".json")
        json.dump({"property": self.prop, "unit": r["unit"], "variant": r.get("variant", ""),
                   "obligation": obligation, "inputs": inputs, "output": text,
                   "verifier": r.get("cmd"), "failed": r.get("failed"),
                   "how": "python3 bin/replay.py evidence/replay/%s.json" % name}, open(path, "w"), indent=1)
        return os.path.relpath(path, engine.VERIF)

    def violation(self, path, found):
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if found else " no-failing-input-found"), flush=True)

    # ------------------------------------------------------------- fuzzing
    def fuzz(self, u, r, defs, secs):
        """-> (inputs, output) or None"""
        if not u.native:
            return None
        try:
            n = self.b.native(u, r["variant"], defs)
        except engine.BuildError as e:
            self.notes.append("%s: native build: %s" % (u.name, str(e)[-300:]))
            return None
        f = os.path.join(self.b.dir, "fz_%s_%s" % (u.name, re.sub(r"\W", "_", r["variant"])))
        rc, o, e = engine.run([n, "fuzz", str(self.seed), str(secs), f], timeout=secs + 30, env=engine.NENV, limit_gb=0)
        if rc == 1 and os.path.exists(f):
            rc2, o2, e2 = engine.run([n, "replay", f], timeout=20, env=engine.NENV, limit_gb=0)
            if rc2 is None or crashed(rc2):
                return [int(x) for x in open(f).read().split()], "exit %s\n%s\n%s" % (rc2, o2[-2000:], e2[-4000:])
        return None

    def triage(self, u, r, defs):
        """a unit that was not proved -> violation, known finding or open"""
        st = r["status"]
        bad = [p for p in r.get("failed", []) if "unwinding assertion" not in p["description"]
               and "recursion unwinding" not in p["description"]]
        for k in self.kn:
            if k[0] == self.prop and k[1] == u.name and k[2] == r["variant"]:
                hit = [p for p in bad if k[3] in p["description"]]
                if hit:
                    bad = [p for p in bad if k[3] not in p["description"]]
                    r["obligations"] -= len(hit)
                    r["failed"] = [p for p in r["failed"] if k[3] not in p["description"]]
                    r["known"] = k[4]
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k[4]), flush=True)
                    self.known.append(k[4])
        if st == "failed" and r.get("known") and not r["failed"]:
            r["status"] = "proved"
            return
        if st == "failed" and bad:
            found = None
            names = "; ".join(sorted(set("%s (%s:%s)" % (p["description"], os.path.basename(p["file"]), p["line"]) for p in bad)))
            for p in bad[:2]:
                if self.left() < 60:
                    break
                vals, tr = self.b.counterexample(u, r, p["property"], min(u.timeout, max(30, self.left() - 60)))
                if vals is None or not u.native:
                    continue
                try:
                    n = self.b.native(u, r["variant"], defs)
                except engine.BuildError as e:
                    self.notes.append("%s: native build: %s" % (u.name, str(e)[-300:]))
                    break
                f = os.path.join(self.b.dir, "in_%s_%s" % (u.name, re.sub(r"\W", "_", r["variant"])))
                open(f, "w").write("\n".join(map(str, vals)))
                rc, o, e = engine.run([n, "replay", f], timeout=20, env=engine.NENV, limit_gb=0)
                if rc is None or crashed(rc):
                    found = (vals, "exit %s\n%s\n%s" % (rc, o[-2000:], e[-4000:]))
                    break
                r["replay_result"] = "exit %s %s" % (rc, o[-300:])
            if not found and self.left() > 30:
                found = self.fuzz(u, r, defs, min(u.fuzz, 15))
            path = self.replay_file(r, names, found[0] if found else None,
                                    found[1] if found else json.dumps(r.get("failed"), indent=1)[:20000])
            print("  failed obligation: %s[%s]: %s" % (u.name, r["variant"], names[:600]))
            self.violation(path, bool(found))
            return
        # no verdict: the unit could not be attached, ran out of time or unwinding, or is vacuous
        r["open"] = True
        self.open.append("%s[%s]: %s %s" % (u.name, r["variant"], st, str(r.get("detail", r.get("failed", "")))[-400:]))
        if u.native and self.left() > 40:
            found = self.fuzz(u, r, defs, 20 if self.left() > 200 else 8)
            if found:
                path = self.replay_file(r, "no proof (%s); failing input found by search" % st, found[0], found[1])
                self.violation(path, True)

    def run(self):
        self.kn = load_known()
        self.b = engine.Builder()
        results = []
        try:
            names = registry.PROPS.get(self.prop, [])
            jobs = []
            built = True
            try:
                self.b.compile_repo()
            except engine.BuildError as e:
                self.open.append("build: " + str(e)[-500:])
                built = False
            if built:
                for n in names:
                    u = registry.U[n]
                    if u.tier == "thorough" and self.tier != "thorough":
                        continue
                    for v in u.variants:
                        jobs.append((u, v))
                jobs.sort(key=lambda j: -j[0].cost)

                def one(j):
                    u, v = j
                    if self.left() < 20:
                        return {"unit": u.name, "variant": v[0], "status": "timeout", "wall": 0, "functions": list(u.functions),
                                "bounded": u.bounded, "detail": "time budget of the check used up"}
                    return self.b.verify(u, v[0], v[1], timeout=min(u.timeout, max(20, self.left() - 40)))
                with cf.ThreadPoolExecutor(engine.JOBS) as ex:
                    results = list(ex.map(one, jobs))
                for (u, v), r in zip(jobs, results):
                    if r["status"] != "proved":
                        self.triage(u, r, v[1])
                    if len(self.violations) >= 4:
                        break
            # scenario runs of the real program: only a stand-in when a proof is missing
            ran = None
            if (self.open and not self.violations) or self.tier == "thorough":
                ran = scenario.run(self.prop, self.seed, max(10, min(120, self.left() - 20)))
                for s in ran["failed"]:
                    path = os.path.join(self.rdir, "%s-scenario.json" % self.prop)
                    json.dump(s, open(path, "w"), indent=1)
                    print("  scenario failed: %s" % str(s)[:600])
                    self.violation(os.path.relpath(path, engine.VERIF), True)
                    break
            self.evidence(results, ran)
        finally:
            self.b.close()
        return 1 if self.violations else 0

    def evidence(self, results, ran):
        us = {}
        trusted, assumptions = set(), []
        for r in results:
            u = registry.U[r["unit"]]
            e = us.setdefault(r["unit"], {"functions": list(u.functions), "bounded": u.bounded, "obligations": 0,
                                          "discharged": 0, "solver_s": 0.0, "wall_s": 0.0, "variants": 0, "statuses": {},
                                          "probes_reached": 0, "stubs": list(u.stubs)})
            e["obligations"] += r.get("obligations", 0) or 0
            e["discharged"] += r.get("discharged", 0) or 0
            e["probes_reached"] += (r.get("probes", 0) or 0) - len(r.get("probes_dead", []) or [])
            e["solver_s"] = round(e["solver_s"] + (r.get("solver", 0) or 0), 2)
            e["wall_s"] = round(e["wall_s"] + r["wall"], 2)
            e["variants"] += 1
            e["statuses"][r["status"]] = e["statuses"].get(r["status"], 0) + 1
            for a in u.assumes:
                assumptions.append("%s: %s" % (u.name, a))
            for s in u.stubs:
                trusted.add(s)
        proofs = [e for e in us.values() if not e["bounded"]]
        nob = sum(e["obligations"] for e in proofs)
        nok = sum(e["discharged"] for e in proofs)
        bnd = [e for e in us.values() if e["bounded"]]
        own = set(f for e in us.values() for f in e["functions"])
        allf = set(f for n in registry.U for f in registry.U[n].functions)
        trusted = sorted(trusted)
        cov = {
            "obligations": nob, "discharged": nok,
            "checker_cmd": "python3 bin/check.py %s --tier %s  (goto-cc, goto-instrument, cbmc 6.11 --sat-solver cadical per unit)" % (self.prop, self.tier),
            "trusted_base": ["CBMC 6.11.0 (C front end, symbolic execution, bit-blasting) with CaDiCaL",
                             "x86-64 data model (64 bit long), gcc compiles the sources as CBMC reads them",
                             "character class functions: executable model of the C locale (lib/libc_model.c)",
                             "stdio, malloc, setjmp/longjmp: modelled in the units"],
            "functions_under_contract": sorted(own),
            "callees_by_contract_verified_elsewhere": [f for f in trusted if f in allf],
            "callees_by_assumed_contract": [f for f in trusted if f not in allf],
            "units": us, "backend": {"cbmc+cadical": {"obligations": nob, "discharged": nok,
                                                      "solver_s": round(sum(e["solver_s"] for e in us.values()), 2)}},
            "bounded_units": {"obligations": sum(e["obligations"] for e in bnd), "discharged": sum(e["discharged"] for e in bnd),
                              "bounds": {n: e["bounded"] for n, e in us.items() if e["bounded"]}},
            "open": self.open, "notes": self.notes, "known_findings": self.known,
        }
        if ran is not None:
            cov["scenarios"] = {"label": "bounded stand-in, not counted as proof", "run": ran["run"], "failed": len(ran["failed"])}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "proof", "coverage": cov,
              "assumptions": sorted(set(assumptions)) + ["machine arithmetic is bit-precise; signed overflow wraps (the build is checked without -ftrapv)"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(engine.VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(engine.VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s: %d units, obligations %d discharged %d, bounded %d/%d, open %d, %.0f s" % (
            self.prop, len(us), nob, nok, cov["bounded_units"]["discharged"], cov["bounded_units"]["obligations"], len(self.open),
            time.time() - self.t0))
        for o in self.open:
            print("  open: " + o[:500])


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(Check(prop, tier, seed).run())
