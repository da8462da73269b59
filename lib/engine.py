"""engine.py: compiles /repo's sources with goto-cc, verifies units with CBMC,
replays counterexamples with a gcc build of the same unit."""
import concurrent.futures as cf
import threading
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
LIB = os.path.join(VERIF, "lib")
UNITS = os.path.join(VERIF, "units")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 8
DEFAULT_FLAGS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
                 "--div-by-zero-check", "--no-malloc-may-fail"]
SOLVER = ["--sat-solver", "cadical"]


# linked first: they define the arrays other files declare without a size (the
# linker keeps the type it saw first, and CBMC needs the complete one)
DEFINERS = ("output", "stdvocabulary", "cpulist")


class BuildError(Exception):
    pass


def run(cmd, timeout=None, cwd=None, env=None, limit_gb=12):
    """(rc, stdout, stderr); rc None on timeout. The whole process group is ended."""
    import resource, signal

    def pre():
        os.setsid()
        lim = int(limit_gb * (1 << 30))
        if limit_gb:
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=pre, text=True, errors="replace", stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout"


def must(cmd, **kw):
    rc, o, e = run(cmd, **kw)
    if rc != 0:
        raise BuildError("%s\n%s\n%s" % (" ".join(cmd), o[-2000:], e[-4000:]))
    return o


class Unit:
    """One registered unit.
    file      units/FILE
    stubs     functions whose body is replaced by the contract in the harness
    variants  list of (name, {define: value}) shards
    unwind    default unwinding bound (unwinding assertions are always on)
    unwindset list of "loop:bound"
    checks    extra / other property generating flags
    ignore    regexps over "property description" left out of the obligations
              (each one is reported in the evidence as an assumption)
    loops     loop contracts file content (dict) or None
    bounded   text if the unit is a bounded stand-in, not a proof
    functions functions under contract in this unit"""
    def __init__(self, name, file, functions, stubs=(), variants=None, unwind=None, unwindset=(),
                 flags=(), ignore=(), loops=None, bounded=None, timeout=500, defines=None,
                 native=True, exclude=(), fuzz=4, assumes=(), dfcc=None, models=("libc_model.c",),
                 replace_calls=(), cost=1, rename=None, tier="quick", limit_gb=6, solver=None, fs=300, objbits=12, cuts=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.variants = variants or [("", {})]


def sources():
    return sorted(f[:-2] for f in os.listdir(SRC) if f.endswith(".c"))


class Builder:
    """Everything built for one run of one check; lives in .work/ and is removed."""
    def __init__(self):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run", dir=base)
        self.gb = {}
        self.obj = None
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile_repo(self):
        def one(s):
            out = os.path.join(self.dir, s + ".gb")
            must(["goto-cc", "-D__NO_CTYPE", "-include", os.path.join(LIB, "prelude.h"), "-I", SRC, "-c", os.path.join(SRC, s + ".c"), "-o", out], timeout=120)
            return s, out
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for s, o in ex.map(one, sources()):
                self.gb[s] = o

    def compile_native(self):
        d = os.path.join(self.dir, "native")
        os.makedirs(d, exist_ok=True)

        def one(s):
            out = os.path.join(d, s + ".o")
            must(["gcc", "-g", "-O0", "-fno-inline", "-fwrapv", "-w", "-Dmain=crasm_main", "-I", SRC,
                  "-fsanitize=address,bounds,null,integer-divide-by-zero", "-fno-sanitize-recover=all",
                  "-c", os.path.join(SRC, s + ".c"), "-o", out], timeout=120, limit_gb=0)
            return s, out
        with cf.ThreadPoolExecutor(JOBS) as ex:
            self.obj = dict(ex.map(one, sources()))

    # ------------------------------------------------------------- CBMC side
    def local_name(self, src, pattern):
        """name of a file local function, found by a predicate over the call graph"""
        rc, o, e = run(["goto-instrument", "--show-symbol-table", "--json-ui", self.gb[src]])
        return o

    def goto(self, unit, vname, defs, native=False):
        d = os.path.join(self.dir, "%s_%s" % (unit.name, re.sub(r"\W", "_", vname) or "all"))
        os.makedirs(d, exist_ok=True)
        gbs = dict(self.gb)
        for s, h in (unit.cuts or {}).items():
            gbs[s] = os.path.join(d, s + "_cut.gb")
            must(["goto-cc", "-D__NO_CTYPE", "-DCRASM_VERIFY", "-include", os.path.join(LIB, "prelude.h"), "-include", os.path.join(UNITS, h),
                  "-I", SRC, "-c", os.path.join(SRC, s + ".c"), "-o", gbs[s]], timeout=120)
        srcs = [gbs[s] for s in sorted(self.gb, key=lambda s: (s not in DEFINERS, s)) if s not in unit.exclude]
        allgb = os.path.join(d, "repo.gb")
        must(["goto-cc"] + srcs + ["-o", allgb], timeout=120)
        known = functions_of(allgb)
        if unit.replace_calls:
            # the functions named here have to exist, else the contract cannot be attached
            for a, b in unit.replace_calls:
                if a not in known:
                    raise BuildError("no function %s to attach the contract to" % a)
        cmd = ["goto-instrument"]
        for s in unit.stubs:
            if s in known:
                cmd += ["--remove-function-body", s]
        if len(cmd) > 1:
            must(cmd + [allgb, allgb], timeout=120)
        D = ["-D%s=%s" % kv if kv[1] is not None else "-D%s" % kv[0]
             for kv in dict(unit.defines or {}, **defs).items()]
        out = os.path.join(d, "u.gb")
        models = [os.path.join(LIB, m) for m in unit.models]
        must(["goto-cc", "-D__NO_CTYPE", "-I", SRC, "-I", LIB, "-I", UNITS] + D +
             ["--function", "harness", os.path.join(UNITS, unit.file)] + models + [allgb, "-o", out], timeout=120)
        for a, b in unit.replace_calls:
            must(["goto-instrument", "--replace-calls", "%s:%s" % (a, b), out, out], timeout=120)
        if unit.loops:
            must(["goto-instrument", "--drop-unused-functions", out, out], timeout=120)
            lc = os.path.join(d, "loops.json")
            with open(lc, "w") as fh:
                json.dump(unit.loops, fh)
            must(["goto-instrument", "--loop-contracts-file", lc, "--apply-loop-contracts", out, out], timeout=60)
        if unit.dfcc:
            cmd = ["goto-instrument", "--dfcc", "harness"] + list(unit.dfcc)
            if unit.loops:
                raise BuildError("dfcc with loop contracts is not used")
            must(cmd + [out, out], timeout=300)
        must(["goto-instrument", "--drop-unused-functions", "--slice-global-inits", out, out], timeout=120)
        return d, out

    def cbmc_cmd(self, unit, gb):
        cmd = ["cbmc", gb] + DEFAULT_FLAGS + ["--object-bits", str(unit.objbits), "--max-field-sensitivity-array-size", str(unit.fs)] + (unit.solver or SOLVER) + list(unit.flags)
        if unit.unwind:
            cmd += ["--unwind", str(unit.unwind)]
        if unit.unwindset:
            cmd += ["--unwindset", ",".join(unit.unwindset)]
        return cmd + ["--unwinding-assertions", "--verbosity", "8"]

    def verify(self, unit, vname, defs, timeout=None):
        """-> dict(status, props, failed, probes_dead, time...)"""
        t0 = time.time()
        r = {"unit": unit.name, "variant": vname, "functions": list(unit.functions), "bounded": unit.bounded}
        try:
            d, gb = self.goto(unit, vname, defs)
        except BuildError as e:
            r.update(status="build", detail=str(e), wall=time.time() - t0)
            return r
        cmd = self.cbmc_cmd(unit, gb) + ["--json-ui"]
        r["cmd"] = " ".join(x if not x.startswith(self.dir) else os.path.basename(x) for x in cmd)
        timeout = timeout or unit.timeout
        rc, o, e = run(cmd, timeout=timeout, limit_gb=unit.limit_gb)
        r["wall"] = time.time() - t0
        if rc is None:
            r.update(status="timeout", detail="no verdict within %d s" % timeout)
            return r
        res, solver, msgs = parse_json(o)
        if res is None:
            r.update(status="tool", detail=(o[-1500:] + e[-1500:]))
            return r
        ok, bad, ignored, unknown, pr = 0, [], 0, 0, {}
        for p in res:
            desc = p.get("description", "")
            if desc.startswith("PROBE "):
                pr.setdefault(desc[6:], []).append(p["status"] == "FAILURE")
                continue
            if any(re.search(x, p["property"] + " " + desc) for x in unit.ignore):
                ignored += 1
                continue
            if p["status"] == "SUCCESS":
                ok += 1
            elif p["status"] != "FAILURE":
                unknown += 1          # behind a failure
                if os.environ.get("VDEBUG"):
                    print("UNKNOWN", p["property"], desc, p.get("sourceLocation", {}).get("line"))
            else:
                loc = p.get("sourceLocation", {})
                bad.append({"property": p["property"], "description": desc, "status": p["status"],
                            "file": loc.get("file", ""), "line": loc.get("line", ""),
                            "function": loc.get("function", "")})
        probes, dead = len(pr), [n for n, l in pr.items() if not any(l)]
        r.update(obligations=ok + len(bad) + unknown, discharged=ok, failed=bad, probes=probes, probes_dead=dead,
                 ignored=ignored, solver=solver, dir=d, gb=gb)
        if bad:
            r["status"] = "failed"
        elif unknown:
            r["status"] = "tool"
            r["detail"] = "%d obligations without an answer" % unknown
        elif dead:
            r["status"] = "vacuous"
            r["detail"] = "unreachable probes: " + ", ".join(dead)
        elif ok == 0:
            r["status"] = "vacuous"
            r["detail"] = "no obligations"
        else:
            r["status"] = "proved"
        return r

    def counterexample(self, unit, r, prop, timeout=None):
        cmd = self.cbmc_cmd(unit, r["gb"]) + ["--json-ui", "--trace", "--property", prop]
        rc, o, e = run(cmd, timeout=timeout or unit.timeout)
        if rc is None:
            return None, "no trace within the time limit"
        try:
            data = json.loads(o)
        except ValueError:
            return None, "trace not readable"
        for m in data:
            for p in m.get("result", []) if isinstance(m, dict) else []:
                if p.get("property") == prop and "trace" in p:
                    vals = []
                    for s in p["trace"]:
                        if s.get("stepType") == "input" and s.get("inputID") == "in":
                            v = s["values"][0]
                            vals.append(to_int(v))
                    return vals, summarise_trace(p["trace"])
        return None, "no trace"

    # ----------------------------------------------------------- native side
    def native(self, unit, vname, defs):
        with self.lock:
            if self.obj is None:
                self.compile_native()
        d = os.path.join(self.dir, "%s_%s_n" % (unit.name, re.sub(r"\W", "_", vname) or "all"))
        os.makedirs(d, exist_ok=True)
        objs = []
        for s, o in self.obj.items():
            if s in unit.exclude:
                continue
            t = os.path.join(d, s + ".o")
            cmd = ["objcopy"]
            for f in unit.stubs:
                cmd += ["--weaken-symbol=" + f]
            for a, b in (unit.rename or {}).items():
                cmd += ["--redefine-sym", "%s=%s" % (a, b)]
            must(cmd + [o, t], timeout=60)
            objs.append(t)
        D = ["-D%s=%s" % kv if kv[1] is not None else "-D%s" % kv[0]
             for kv in dict(unit.defines or {}, **defs).items()]
        out = os.path.join(d, "unit")
        must(["gcc", "-g", "-O0", "-w", "-fwrapv", "-DVNATIVE", "-I", SRC, "-I", LIB, "-I", UNITS] + D +
             ["-fsanitize=address,bounds,null,integer-divide-by-zero", "-fno-sanitize-recover=all",
              os.path.join(UNITS, unit.file), os.path.join(LIB, "native.c")] + objs + ["-lm", "-o", out],
             timeout=120, limit_gb=0)
        return out


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=86:detect_stack_use_after_return=0",
            UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=87", LC_ALL="C")


def to_int(v):
    d = v.get("data", "0")
    try:
        return int(re.sub(r"[uUlL]+$", "", str(d)), 0)
    except ValueError:
        pass
    b = v.get("binary")
    if b:
        n = int(b, 2)
        if "unsigned" not in v.get("type", "") and b[0] == "1" and len(b) > 8:
            n -= 1 << len(b)
        return n
    if str(d) in ("TRUE", "true"):
        return 1
    return 0


def summarise_trace(tr):
    out = []
    for s in tr[-400:]:
        if s.get("stepType") == "assignment" and not s.get("hidden"):
            lhs = s.get("lhs", "")
            if lhs.startswith("__CPROVER"):
                continue
            out.append("%s=%s" % (lhs, s.get("value", {}).get("data", "?")))
        elif s.get("stepType") == "failure":
            out.append("FAILURE " + s.get("reason", ""))
    return out[-60:]


def functions_of(gb):
    rc, o, e = run(["goto-instrument", "--list-goto-functions", gb], timeout=60)
    return set(m.group(1) for m in re.finditer(r"^([A-Za-z_]\w*)\b", o, re.M))


def parse_json(o):
    try:
        data = json.loads(o)
    except ValueError:
        return None, 0.0, []
    res, solver, msgs = None, 0.0, []
    for m in data:
        if not isinstance(m, dict):
            continue
        if "result" in m:
            res = m["result"]
        t = m.get("messageText", "")
        if m.get("messageType") in ("ERROR",):
            msgs.append(t)
        g = re.match(r"Runtime Solver: ([0-9.e+-]+)s", t)
        if g:
            solver += float(g.group(1))
    return res, solver, msgs
