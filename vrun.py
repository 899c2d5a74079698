#!/usr/bin/env python3
"""Runs the contract checks of /verif against the current working tree of /repo.

  vrun.py setup                 build the verification condition generator
  vrun.py check ID [--tier T]   decide one property (exit 0 / 1 as MANIFEST asks)
  vrun.py drv MODULE DRIVER     development: run one driver verbosely
  vrun.py list                  drivers per property
"""
import signal, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
sys.path.insert(0, V)
from checks import MODULES, PROPS, TRUSTED  # noqa: E402

INC = ["include", "libs/include", "back-end/include", "back-end/Exu/include", "back-end/Lsu/include",
       "back-end/tools/include", "MemSubSystem/include", "diff/include", "GenSimpoint/include/api",
       "legacy/mmu/include", "front-end"]
CXX = "clang++-18"
BASE = ["-std=c++2a", "-DNDEBUG", "-fwrapv", "-fno-access-control", "-Wno-everything"]
IRFL = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-exceptions", "-fno-threadsafe-statics", "-emit-llvm", "-c"]
NATFL = ["-O1", "-g", "-DVC_NATIVE", "-fsanitize=address,bounds,integer-divide-by-zero,shift-exponent", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


class Err(Exception):
    pass


def sh(cmd, timeout=None, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return subprocess.CompletedProcess(cmd, p.returncode, out)


def cadical():
    for p in ["/app/toolchains/lean-4.33.0-linux/bin/cadical", shutil.which("cadical")]:
        if p and os.path.exists(p):
            return p
    import glob
    for p in glob.glob("/app/toolchains/*/bin/cadical") + glob.glob("/root/.elan/toolchains/*/bin/cadical"):
        return p
    raise Err("no cadical binary found")


def engine():
    h = hashlib.sha256()
    for f in sorted(os.listdir(V + "/engine")):
        h.update(open(V + "/engine/" + f, "rb").read())
    out = os.path.join(B, "vcg-" + h.hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(B, exist_ok=True)
        r = sh(["bash", V + "/engine/build.sh", out], timeout=600)
        if r.returncode or not os.path.exists(out):
            raise Err("engine build failed:\n" + r.stdout[-3000:])
    return out


def incs(m):
    return ["-I" + V + "/specs"] + ["-I" + os.path.join(V, d) for d in m.get("shim", [])] + ["-I" + os.path.join(REPO, d) for d in INC]


def sources(m):
    return [os.path.join(V, "specs", s) for s in [m["spec"]] + m.get("env", [])] + [os.path.join(REPO, s) for s in m.get("srcs", [])]


def compile_ir(name, tmp, pool):
    m = MODULES[name]
    d = os.path.join(tmp, name)
    os.makedirs(d, exist_ok=True)
    futs = []
    for i, s in enumerate(sources(m)):
        o = os.path.join(d, "%d.bc" % i)
        cmd = [CXX] + BASE + IRFL + m.get("flags", []) + incs(m) + [s, "-o", o]
        futs.append((s, o, pool.submit(sh, cmd, 300)))
    objs = []
    for s, o, f in futs:
        r = f.result()
        if r.returncode:
            raise Err("cannot compile %s:\n%s" % (s, r.stdout[-3000:]))
        objs.append(o)
    r = sh(["llvm-link-18"] + objs + ["-o", d + "/l.bc"], 120)
    if r.returncode:
        raise Err("llvm-link: " + r.stdout[-2000:])
    r = sh(["opt-18", "-passes=function(sroa,loop-simplify,lcssa)", d + "/l.bc", "-o", d + "/m.bc"], 120)
    if r.returncode:
        raise Err("opt: " + r.stdout[-2000:])
    return d + "/m.bc"


def build_native(name, tmp):
    m = MODULES[name]
    d = os.path.join(tmp, name + ".nat")
    if os.path.exists(d + "/replay"):
        return d + "/replay"
    os.makedirs(d, exist_ok=True)
    ps, objs = [], []
    for i, s in enumerate(sources(m) + [V + "/runtime/native.cpp"]):
        o = os.path.join(d, "%d.o" % i)
        objs.append(o)
        ps.append(subprocess.Popen([CXX] + BASE + NATFL + ([] if s.endswith("runtime/native.cpp") else m.get("flags", [])) + incs(m) + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    outs = [p.communicate()[0] for p in ps]
    if any(p.returncode for p in ps):
        raise Err("native build failed: " + "\n".join(outs)[-3000:])
    r = sh([CXX] + NATFL + objs + [os.path.join(REPO, l) for l in m.get("libs", [])] + m.get("ldflags", []) + ["-rdynamic", "-ldl", "-o", d + "/replay"], 300)
    if r.returncode:
        raise Err("native link failed: " + r.stdout[-3000:])
    return d + "/replay"


def tokens():
    """pipe with one token per processor, shared by all generators"""
    r, w = os.pipe()
    os.write(w, b"x" * max(2, os.cpu_count() or 8))
    return r, w


def run_driver(eng, bc, drv, tmp, timeout, jobs, cross, verbose=False):
    out = os.path.join(tmp, "o-" + os.path.basename(os.path.dirname(bc)) + "-" + drv)
    os.makedirs(out, exist_ok=True)
    cmd = [eng, bc, "--driver", drv, "--out", out, "--timeout", str(timeout), "--tokens", "%d,%d" % jobs, "--cadical", cadical()]
    if cross:
        cmd.append("--cross")
    if verbose:
        cmd.append("-v")
    try:
        r = sh(cmd, timeout=timeout * 3, pass_fds=jobs)
    except subprocess.TimeoutExpired:
        raise Err("driver %s: timed out" % drv)
    if verbose:
        print(r.stdout[-8000:])
    if r.returncode or not os.path.exists(out + "/done"):
        raise Err("driver %s: generator failed (exit %d): %s" % (drv, r.returncode, r.stdout[-1500:]))
    n = int(open(out + "/done").read())
    ps = [json.load(open("%s/part%d.json" % (out, i))) for i in range(n)]
    res = {"driver": drv}
    for k in ("exec_s", "solve_s"):
        res[k] = max(p[k] for p in ps)
    for k in ("instructions", "trivial_side_conditions"):
        res[k] = sum(p[k] for p in ps)
    for k in ("covers", "obligations"):
        res[k] = sum((p[k] for p in ps), [])
    for k in ("functions", "replaced", "externals", "notes"):
        res[k] = sorted({x for p in ps for x in p[k]})
    res["out"] = out
    return res


def replay(name, drv, model, tmp):
    """returns (reproduced, text)"""
    try:
        exe = build_native(name, tmp)
        r = sh([exe, drv, model], timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=1", UBSAN_OPTIONS="print_stacktrace=1"))
    except (Err, subprocess.TimeoutExpired) as e:
        return False, "replay not possible: %s" % e
    bad = r.returncode == 1 and "REPLAY-FAIL" in r.stdout or "runtime error:" in r.stdout or "ERROR: AddressSanitizer" in r.stdout
    if r.returncode not in (0, 1, 2, 77, 78) and not bad and "REPLAY: assumption" not in r.stdout:
        bad = r.returncode < 0
    return bool(bad), r.stdout[-6000:]


def check(pid, tier, verbose=False):
    t0 = time.time()
    p = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=B)
    errors, results, fails, findings = [], [], [], []
    try:
        eng = engine()
        drivers = [tuple(d) for d in p["drivers"]] + ([tuple(d) for d in p.get("thorough", [])] if tier == "thorough" else [])
        known = [k for k in json.load(open(V + "/known_findings.json")).get("findings", []) if k["property"] == pid]
        kdrv = [(k["module"], k["driver"]) for k in known]
        mods = sorted({m for m, _ in drivers + kdrv})
        with cf.ThreadPoolExecutor(8) as pool:
            bcs = {m: compile_ir(m, tmp, pool) for m in mods}
        tmo = p.get("timeout", 250) * (3 if tier == "thorough" else 1)
        jobs = tokens()
        with cf.ThreadPoolExecutor(8) as ex:
            futs = [(m, d, False, ex.submit(run_driver, eng, bcs[m], d, tmp, tmo, jobs, tier == "thorough", verbose)) for m, d in drivers]
            futs += [(m, d, True, ex.submit(run_driver, eng, bcs[m], d, tmp, tmo, jobs, False, verbose)) for m, d in kdrv]
            for m, d, isk, f in futs:
                try:
                    r = f.result()
                except Err as e:
                    errors.append(str(e))
                    continue
                bad = [o for o in r["obligations"] if o["status"] in ("sat", "disagree")]
                if isk:
                    findings.append((m, d, r, bad))
                    continue
                results.append((m, d, r))
                for c in r["covers"]:
                    if c["status"] != "sat":
                        errors.append("driver %s: precondition not reachable (%s: %s)" % (d, c["name"], c["status"]))
                if not r["covers"]:
                    errors.append("driver %s: no reachability point" % d)
                if not r["obligations"]:
                    errors.append("driver %s: no obligation generated" % d)
                for o in r["obligations"]:
                    if o["status"] == "unknown":
                        errors.append("driver %s: undecided obligation %s at %s" % (d, o["name"], o["loc"]))
                    if o["status"] == "disagree":
                        errors.append("driver %s: back ends disagree on %s" % (d, o["name"]))
                for o in bad:
                    if o["status"] == "sat":
                        fails.append((m, d, r, o))
        # replay counterexamples: a few per driver, distinct obligations first
        viol = None
        if fails:
            order, seen = [], {}
            for f in fails:
                k = (f[1], f[3]["name"])
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 3:
                    order.append((seen[k], f))
            order.sort(key=lambda x: x[0])
            tried = []
            for _, (m, d, r, o) in order[:24]:
                model = "%s/q%d.model" % (r["out"], o["q"])
                ok, txt = replay(m, d, model, tmp) if os.path.exists(model) else (False, "no model")
                tried.append((ok, m, d, o, model, txt))
                if ok:
                    break
            best = [t for t in tried if t[0]] or tried[:1]
            ok, m, d, o, model, txt = best[0]
            path = "%s/evidence/%s.replay.txt" % (V, pid)
            with open(path, "w") as f:
                f.write("property: %s\nfailed obligation: %s (%s)\nlocation: %s\ndriver: %s (module %s), case [%s]\nback end: %s\nreproduced on the real code: %s\n\n" % (pid, o["name"], o["kind"], o["loc"], d, m, o.get("case", ""), o["backend"], ok))
                f.write("all failed obligations:\n" + "".join("  %s: %s at %s [%s]\n" % (x[1], x[3]["name"], x[3]["loc"], x[3].get("case", "")) for x in fails[:60]))
                f.write("\nnative replay output:\n%s\n\nsolver model:\n%s" % (txt, open(model).read() if os.path.exists(model) else ""))
            viol = "VIOLATION property=%s replay=%s%s" % (pid, path, "" if ok else " no-failing-input-found")
        for m, d, r, bad in findings:
            k = [k for k in known if k["driver"] == d][0]
            if bad:
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        bnd = p.get("bounded", [])
        isb = lambda d: bnd == "all" or d in bnd
        count = lambda b: (sum(len(r["obligations"]) for _, d, r in results if isb(d) == b), sum(1 for _, d, r in results if isb(d) == b for o in r["obligations"] if o["status"] == "unsat"))
        (nob, dis), (bob, bdis) = count(False), count(True)
        be = {}
        for _, _, r in results:
            for o in r["obligations"]:
                be[o["backend"]] = be.get(o["backend"], 0) + 1
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "other" if bnd == "all" else "proof",
            "coverage": {
                **({"explanation": "bounded: every obligation of the contracts was discharged, but only for the sampled ring positions, queue orders and array sets stated under assumptions; not counted as proved"} if bnd == "all" else {"obligations": nob, "discharged": dis}),
                **({"bounded_obligations": bob, "bounded_discharged": bdis, "bounded_drivers": [d for _, d, _ in results if isb(d)]} if bob else {}), "checker_cmd": "python3 /verif/vrun.py check %s --tier %s" % (pid, tier),
                "trusted_base": TRUSTED + p.get("trusted", []),
                "backends": be,
                "drivers": {d: {"obligations": len(r["obligations"]), "covers": len(r["covers"]), "exec_s": r["exec_s"], "solve_s": r["solve_s"], "instructions": r["instructions"], "side_conditions_folded": r["trivial_side_conditions"]} for _, d, r in results},
                "functions_under_contract": sorted({f for _, _, r in results for f in r["functions"]}),
                "callees_by_contract": sorted({f for _, _, r in results for f in r["replaced"]}),
                "external_functions_modelled": sorted({f for _, _, r in results for f in r["externals"]}),
                "solver_s": round(sum(o["t"] for _, _, r in results for o in r["obligations"]), 2),
            },
            "assumptions": p.get("assumptions", []) + sorted({n for _, _, r in results for n in r["notes"]}),
            "wall_s": round(time.time() - t0, 2), "violations": len(fails),
        }
        json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
        print("%s: %d obligations, %d discharged, %d failed, %.1fs%s" % (pid, nob + bob, dis + bdis, len(fails), time.time() - t0, " (%d of them bounded)" % bob if bob else ""))
        if viol:
            for x in fails[:8]:
                print("  failed: %s: %s [%s]" % (x[1], x[3]["name"], x[3].get("case", "")))
            for e in errors:
                print("note: " + e)
            print(viol)
            return 1
        if errors:
            for e in errors:
                print("ERROR: " + e)
            return 2
        return 0
    except Err as e:
        print("ERROR: %s" % e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        try:
            print(engine())
            return 0
        except Err as e:
            print(e)
            return 2
    if a[0] == "list":
        for k, v in PROPS.items():
            print(k, v["drivers"])
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier, "-v" in a)
    if a[0] == "drv":
        os.makedirs(B, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="dev-", dir=B)
        try:
            eng = engine()
            with cf.ThreadPoolExecutor(8) as pool:
                bc = compile_ir(a[1], tmp, pool)
            ds = a[2].split(",") if len(a) > 2 and a[2] != "all" else sh([eng, bc, "--list"]).stdout.split()
            for d in ds:
                try:
                    r = run_driver(eng, bc, d, tmp, int(os.environ.get("T", "100")), tokens(), "--cross" in a, True)
                except Err as e:
                    print(e)
                    continue
                bad = [o for o in r["obligations"] if o["status"] == "sat"]
                if bad and "--noreplay" not in a:
                    seen = set()
                    for o in bad:
                        if o["name"] in seen:
                            continue
                        seen.add(o["name"])
                        ok, txt = replay(a[1], d, "%s/q%d.model" % (r["out"], o["q"]), tmp)
                        print("replay of '%s': %s\n%s" % (o["name"], "REPRODUCED" if ok else "not reproduced", txt if "--show" in a else txt[-1200:]))
                        if "--model" in a:
                            print(open("%s/q%d.model" % (r["out"], o["q"])).read()[:6000])
        except Err as e:
            print("ERROR:", e)
            return 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
