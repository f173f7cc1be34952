#!/usr/bin/env python3
"""Decides one property of libcyaml by symbolic execution of its real code.

  run.py PROPERTY [quick|thorough]     exit 0 held / 1 violation / 2 no verdict
  run.py --setup                       builds the engine

Every run compiles /repo's current sources to LLVM bitcode, links them with the
property's harnesses (harness/) and lets engine/vse explore every path of the
result; each counterexample is replayed natively against the real code.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
REPLAY = os.path.join(EVID, "replay")
CORES = int(os.environ.get("VERIF_CORES", "8"))
T0 = time.time()
DEADLINE = {"quick": 780, "thorough": 14400}

VERS = "-DVERSION_MAJOR=2 -DVERSION_MINOR=0 -DVERSION_PATCH=0 -DVERSION_DEVEL=1".split()
BASE = f"-std=c11 -D_GNU_SOURCE -w -Wno-error=incompatible-function-pointer-types -Wno-error=int-conversion -Wno-error=implicit-function-declaration -Wno-error=implicit-int -g -I{H} -I{REPO}/include".split()
BC = "-O0 -Xclang -disable-O0-optnone -emit-llvm -c -fno-builtin -ffp-contract=off".split()
UB = "-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,bounds,unreachable,return,float-cast-overflow,bool,vla-bound"
REDIR = ["-include", f"{H}/redirect.h"]

class NoVerdict(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode:
        raise NoVerdict("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def setup():
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(HERE, "engine", f) for f in ("vse.cpp", "expr.cpp", "expr.h", "Makefile")]
    key = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs)).hexdigest()
    out = os.path.join(BUILD, key[:16])
    exe = os.path.join(out, "vse")
    if not os.path.exists(exe):
        tmp = tempfile.mkdtemp(prefix="bld", dir=BUILD)
        sh(["make", "-s", "-j2", "-C", os.path.join(HERE, "engine"), "OUT=" + tmp])
        try: os.rename(tmp, out)
        except OSError: shutil.rmtree(tmp)
        for d in os.listdir(BUILD):
            if d != key[:16] and not d.startswith("bld"): shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    return exe

class Run:
    def __init__(self, prop, tier, only=None, keep=False):
        import checks
        self.prop, self.tier = prop, tier
        self.spec = checks.PROPS[prop]
        self.jobs = self.spec["quick"] if tier == "quick" else self.spec["thorough"]
        if only: self.jobs = [j for j in self.jobs if re.search(only, j["name"])]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.dir = tempfile.mkdtemp(prefix="vse_%s_" % prop)
        self.lock = threading.Condition()
        self.free = CORES
        self.keep = keep

    # ---- building
    def repo_srcs(self):
        return sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".c"))
    def build_repo(self):
        d = self.dir
        cmds = []
        self.repo_bc, self.repo_obj, self.repo_msan = [], [], []
        for s in self.repo_srcs():
            b = os.path.basename(s)[:-2]
            self.repo_bc.append(f"{d}/r_{b}.bc"); self.repo_obj.append(f"{d}/r_{b}.o"); self.repo_msan.append(f"{d}/m_{b}.o")
            cmds.append(["clang"] + BASE + VERS + BC + [UB, "-fsanitize-trap=all"] + REDIR + [s, "-o", f"{d}/r_{b}.bc"])
            cmds.append(["clang"] + BASE + VERS + ["-O0", "-c", "-fsanitize=address", UB, "-fno-sanitize-recover=all"] + REDIR + [s, "-o", f"{d}/r_{b}.o"])
        cmds.append(["clang"] + BASE + BC + [f"{H}/libc_models.c", "-o", f"{d}/h_models.bc"])
        cmds.append(["clang"] + BASE + ["-c", "-O0", "-fsanitize=address", f"{H}/native.c", "-o", f"{d}/h_native.o"])
        with ThreadPoolExecutor(CORES) as ex: list(ex.map(sh, cmds))
    def build_job(self, j):
        d = self.dir; n = j["name"]
        D = ["-D" + x for x in j["defs"]]
        inc = [f"-I{REPO}/src"]
        for c in (j["harness"], "env.c"):
            sh(["clang"] + BASE + inc + BC + D + [f"{H}/{c}", "-o", f"{d}/{n}.{c}.bc"])
        sh(["llvm-link"] + self.repo_bc + [f"{d}/h_models.bc", f"{d}/{n}.{j['harness']}.bc", f"{d}/{n}.env.c.bc", "-o", f"{d}/{n}.l.bc"])
        sh(["opt", "-passes=" + j.get("passes", "mem2reg"), f"{d}/{n}.l.bc", "-o", f"{d}/{n}.bc"])
    def native(self, j, kind="asan"):
        """native replay binary of a job"""
        d = self.dir; n = j["name"]
        exe = f"{d}/{n}.{kind}"
        if os.path.exists(exe): return exe
        D = ["-D" + x for x in j["defs"]] + ["-DVSE_NATIVE"]
        inc = [f"-I{REPO}/src"]
        if kind == "asan":
            sh(["clang"] + BASE + inc + ["-O0", "-fsanitize=address", UB] + D + [f"{H}/{j['harness']}", f"{H}/env.c", f"{d}/h_native.o"] + self.repo_obj + ["-lm", "-o", exe])
        else:
            sh(["clang"] + BASE + VERS + inc + ["-O0", "-fsanitize=memory", "-fno-sanitize-recover=all"] + D + REDIR + [f"{H}/{j['harness']}", "-DENV_NATIVE_MSAN", f"{H}/env.c", f"{H}/native.c"] + self.repo_srcs() + ["-lm", "-o", exe])
        return exe
    def exec_native(self, exe, inputs, fill=None, tmo=20, fmt=False):
        env = dict(os.environ, VSE_INPUTS=inputs, LC_ALL="C", **({"VSE_TRACEFMT": "1"} if fmt else {}),
                   ASAN_OPTIONS="exitcode=98:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1", MSAN_OPTIONS="exit_code=98")
        if fill is not None: env["VSE_FILL"] = str(fill)
        try:
            r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo, cwd=self.dir)
            return r.returncode, r.stdout.decode("utf8", "replace"), r.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            return "timeout", "", ""

    # ---- one job
    def run_job(self, j):
        want = min(j.get("jobs", 1), CORES)
        with self.lock:
            while self.free < want: self.lock.wait()
            self.free -= want
        try: return self._run_job(j, want)
        finally:
            with self.lock:
                self.free += want
                self.lock.notify_all()
    def _run_job(self, j, cores):
        d = self.dir; n = j["name"]; t0 = time.time()
        self.build_job(j)
        left = DEADLINE[self.tier] - (time.time() - T0)
        tmo = max(5, min(j.get("time", 300 if self.tier == "quick" else 3600), left - 40))
        cmd = [self.exe, "--out", f"{d}/{n}.res", "--time", str(int(tmo)), "--seed", str(self.seed), "--samples", str(j.get("samples", 16 if self.tier == "quick" else 64)),
               "--max-viol", str(j.get("max_viol", 8)), "--steps", str(j.get("steps", 4000000))]
        if cores > 1: cmd += ["--jobs", str(cores), "--split", str(j.get("split", 1500))]
        try: r = subprocess.run(cmd + [f"{d}/{n}.bc"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tmo + 60)
        except subprocess.TimeoutExpired: raise NoVerdict(f"engine did not stop in time on {n}")
        if r.returncode != 0:
            raise NoVerdict(f"engine failed on {n}: exit {r.returncode}\n{r.stdout[-2000:]}")
        parts = [json.load(open(f"{d}/{n}.res.json"))]
        k = 0
        for k in range(64):
            f = f"{d}/{n}.res.part{k}.json"
            if os.path.exists(f): parts.append(json.load(open(f)))
        res = dict(name=n, log=r.stdout[-1500:])
        for key in ("paths", "killed", "instructions", "forks", "queries", "sat", "unsat", "cache_hits", "unknown", "solver_s", "checks", "checks_solver", "violating_paths", "incomplete"):
            res[key] = sum(p[key] for p in parts)
        for key in ("reached", "check_hits", "check_symbolic", "stopped"):
            m = {}
            for p in parts:
                for a, b in p[key].items(): m[a] = m.get(a, 0) + b
            res[key] = m
        res["functions"] = sorted(set(f for p in parts for f in p["functions"]))
        res["violations"] = [v for p in parts for v in p["violations"]]
        res["samples"] = [x for p in parts for x in p["samples"]]
        res["wall_s"] = time.time() - t0
        res["missing"] = [t for t in j.get("reach", []) if not res["reached"].get(t)]
        return res

    def validate(self, j, res):
        """re-runs sampled paths natively and compares every observation"""
        if not res["samples"]: return 0, []
        exe = self.native(j)
        bad = []; ok = 0
        for i, s in enumerate(res["samples"]):
            f = f"{self.dir}/{j['name']}.s{i}"
            open(f, "w").write(s["inputs"])
            rc, out, err = self.exec_native(exe, f)
            if rc == 0 and out.split() == s["obs"].split(): ok += 1
            else: bad.append(dict(job=j["name"], rc=rc, engine=s["obs"], native=out[-600:], err=err[-600:], inputs=s["inputs"][-3000:]))
        return ok, bad

    def confirm(self, j, v):
        """replays a counterexample natively; returns a description or None"""
        tries = [("asan", None), ("asan", 0), ("asan", 255), ("asan", 65), ("asan", 1)]
        if v["kind"].startswith("undef"): tries.insert(0, ("msan", None))
        for kind, fill in tries:
            try: exe = self.native(j, kind)
            except NoVerdict as e: print("note: %s" % str(e)[:800]); continue
            rc, out, err = self.exec_native(exe, v["inputs"], fill, fmt=v["kind"] == "format")
            if rc == 0 and v["kind"] == "format":
                m = re.search(r"'(.*)'", v["msg"])
                if m and "FMT: " + m.group(1) in out: return dict(how="log call reached natively", fill=None, why=v["msg"], stderr="")
            if rc in (0, 96, 97): continue
            if rc == "timeout": why = "does not terminate"
            elif rc == 99: why = [l for l in out.splitlines() if "CHECK FAILED" in l][-1]
            else:
                m = re.search(r"(ERROR: AddressSanitizer: .*|runtime error: .*|WARNING: MemorySanitizer: .*)", err)
                why = m.group(1)[:200] if m else "exit/signal %s" % rc
            return dict(how=kind, fill=fill, why=why, stderr=err[-3000:])
        return None

    def main(self):
        self.exe = setup()
        self.build_repo()
        known = json.load(open(os.path.join(HERE, "known_findings.json")))["known"]
        rep = os.path.join(REPLAY, self.prop)
        shutil.rmtree(rep, ignore_errors=True)
        order = sorted(self.jobs, key=lambda j: (-j.get("jobs", 1), -j.get("est", 1)))
        results, errors = {}, []
        def one(j):
            try:
                r = self.run_job(j)
                if not r["violations"]: r["validated"], r["mismatch"] = self.validate(j, r)
                else: r["validated"], r["mismatch"] = 0, []
                results[j["name"]] = r
                if os.environ.get("VERIF_VERBOSE"):
                    print(f"  {j['name']}: paths {r['paths']} inst {r['instructions']} q {r['queries']} checks {r['checks']}/{r['checks_solver']} wall {r['wall_s']:.1f}s incomplete {r['incomplete']} {r['stopped'] or ''} viol {len(r['violations'])} validated {r['validated']} {r['reached']}", flush=True)
            except NoVerdict as e: errors.append(str(e))
        with ThreadPoolExecutor(CORES) as ex: list(ex.map(one, order))
        viols, unconfirmed, seen, knownhit = [], [], {}, set()
        for j in self.jobs:
            r = results.get(j["name"])
            if not r: continue
            for v in r["violations"]:
                key = (j["harness"], v["kind"], v["msg"], v["loc"])
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 2 or len(viols) >= 12: continue
                c = self.confirm(j, v)
                if not c: unconfirmed.append((j, v)); continue
                k = next((k for k in known if k["property"] == self.prop and k["job"] == j["name"] and re.search(k["match"], v["msg"] + " @ " + v["loc"])), None)
                if k: knownhit.add(k["what"]); continue
                viols.append(self.save_replay(rep, j, v, c, len(viols)))
        mism = [m for r in results.values() for m in r["mismatch"]]
        missing = [(n, r["missing"]) for n, r in results.items() if r["missing"]]
        incomplete = [(n, r["stopped"]) for n, r in results.items() if r["incomplete"]]
        self.evidence(results, viols, unconfirmed, mism, missing, incomplete, errors)
        for k in sorted(knownhit): print(f"KNOWN-FINDING: property={self.prop} {k}")
        rc = 0
        for e in errors: print("ERROR:", e); rc = 2
        for j, v in unconfirmed[:5]: print(f"UNCONFIRMED: {j['name']}: {v['kind']}: {v['msg']} at {v['loc']} (inputs {open(v['inputs']).read()[:1500]!r})"); rc = 2
        for m in mism[:3]: print("MODEL-MISMATCH:", json.dumps(m)[:3000]); rc = 2
        # a query the solver gives up on leaves one side of a branch unexplored, or one assertion undecided on one path: a bound like any other, unless it is most of them
        hard = [(n, s) for n, s in incomplete if set(s) - {"time-budget", "solver-unknown"} or 2 * results[n]["unknown"] > results[n]["queries"]]
        for n, s in hard: print(f"INCOMPLETE: {n}: {s}\n{results[n]['log']}"); rc = 2
        for n, s in incomplete:
            if (n, s) not in hard: print(f"BOUND-NOT-EXHAUSTED: {n}: " + ("stopped at the time budget; " if "time-budget" in s else "") + (f"{s['solver-unknown']} queries undecided by the solver; " if "solver-unknown" in s else "") + "the verdict covers the paths explored")
        if not viols:
            for n, m in missing:
                print(f"VACUOUS: {n}: never reached {m}")
                if not any(n == a for a, _ in incomplete): rc = 2
        for v in viols:
            print(f"  {v['job']}: {v['kind']}: {v['msg']} at {v['loc']}: {v['native']}")
        for v in viols: print(f"VIOLATION property={self.prop} replay={v['path']}")
        if viols: rc = 1
        tot = lambda k: sum(r[k] for r in results.values())
        print(f"{self.prop} {self.tier}: {len(results)} jobs, {tot('paths')} paths, {tot('checks')} assertions ({tot('checks_solver')} by solver), {tot('queries')} queries, {sum(r['validated'] for r in results.values())} traces validated natively, {time.time()-T0:.1f}s, exit {rc}")
        return rc

    def save_replay(self, rep, j, v, c, i):
        os.makedirs(rep, exist_ok=True)
        p = os.path.join(rep, f"{j['name']}.{i}")
        shutil.copy(v["inputs"], p + ".inputs")
        json.dump(dict(property=self.prop, job=j["name"], harness=j["harness"], defs=j["defs"], kind=v["kind"], msg=v["msg"], loc=v["loc"], stack=v["stack"], inputs=p + ".inputs",
                       native=c, rerun=f"python3 {HERE}/run.py --replay {p}.json"), open(p + ".json", "w"), indent=1)
        return dict(job=j["name"], kind=v["kind"], msg=v["msg"], loc=v["loc"], path=p + ".json", native=c["why"])

    def evidence(self, results, viols, unconfirmed, mism, missing, incomplete, errors):
        tot = lambda k: sum(r[k] for r in results.values())
        sp = self.spec
        hits = {}; sym = {}; reach = {}
        for r in results.values():
            for src, dst in (("check_hits", hits), ("check_symbolic", sym), ("reached", reach)):
                for k, v in r[src].items(): dst[k] = dst.get(k, 0) + v
        samples = []
        for r in results.values():
            for s in r["samples"][:2]:
                samples.append(dict(job=r["name"], inputs=s["inputs"][:400], observations=s["obs"][:200]))
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", wall_s=round(time.time() - T0, 2),
            coverage=dict(
                states=tot("forks") + len(results), transitions=tot("instructions"), traces_validated_against_impl=sum(r["validated"] for r in results.values()),
                samples=samples[:24],
                explanation="bounded symbolic execution of /repo's LLVM bitcode; 'states' counts explored fork points, 'transitions' executed instructions; every path within the bounds is explored and every assertion is decided over all values of its path by Z3",
                exhaustive=not incomplete and not errors,
                paths=tot("paths"), infeasible_or_assumed_away=tot("killed"),
                assertions=tot("checks"), assertions_decided_by_solver=tot("checks_solver"),
                queries=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), cache_hits=tot("cache_hits"), unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2),
                functions_encoded=sorted(set(f for r in results.values() for f in r["functions"] if f.startswith("cyaml"))),
                assertion_hits=hits, assertion_hits_symbolic=sym, reached=reach,
                bounds=sp["bounds"], outside_bounds=sp["outside"],
                jobs=[dict(name=n, paths=r["paths"], instructions=r["instructions"], queries=r["queries"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall_s"], 1), incomplete=r["incomplete"], bounds=next(j for j in self.jobs if j["name"] == n).get("bounds", "")) for n, r in sorted(results.items())],
                not_reached=missing, bounds_not_exhausted=incomplete, errors=errors, model_mismatches=len(mism), unconfirmed=len(unconfirmed)),
            assumptions=sp.get("assumptions", []) + COMMON_ASSUMPTIONS,
            violations=len(viols))
        ev["coverage"]["violation_list"] = [dict(job=v["job"], kind=v["kind"], msg=v["msg"], loc=v["loc"], replay=v["path"], native=v["native"]) for v in viols]
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, f".{self.prop}.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(EVID, self.prop + ".json"))
    def cleanup(self):
        if self.keep: print("kept", self.dir)
        else: shutil.rmtree(self.dir, ignore_errors=True)

COMMON_ASSUMPTIONS = [
    "libyaml behaves as documented: the parser yields any grammatical event stream (harness grammar) or fails, the emitter takes ownership of events (model in harness/env.c)",
    "the C library's strtoll/strtoull/sprintf/str* behave as the C standard says (models in harness/libc_models.c and engine/vse.cpp); sampled paths are re-executed with the real C library",
    "x86-64 little-endian data layout, clang -O0 code generation",
]

def replay(path):
    rp = json.load(open(path))
    r = Run(rp["property"], "quick")
    try:
        r.build_repo()
        j = dict(name=rp["job"], harness=rp["harness"], defs=rp["defs"])
        c = r.confirm(j, dict(kind=rp["kind"], inputs=rp["inputs"]))
        print(json.dumps(c, indent=1) if c else "not reproduced on this tree")
        return 1 if c else 0
    finally: r.cleanup()

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        print(setup()); sys.exit(0)
    if a[:1] == ["--replay"]: sys.exit(replay(a[1]))
    keep = "--keep" in a; a = [x for x in a if x != "--keep"]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    run = Run(a[0], tier, a[2] if len(a) > 2 else None, keep)
    try: rc = run.main()
    except NoVerdict as e: print("ERROR:", e); rc = 2
    finally: run.cleanup()
    sys.exit(rc)
