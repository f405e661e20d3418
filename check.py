#!/usr/bin/env python3-vt
"""check.py <PROPERTY> : decide one property for /repo's current working tree.

1. compile the property's drivers (which call the real headers of /repo) to LLVM IR, generate and discharge every
   proof obligation of its contract tasks (irv);
2. run the property's bounded native contract harness (compiled against the same headers with ASan/UBSan): it supplies the
   concrete failing input when something is broken, and stands in (labelled bounded) for functions without contract proof;
3. write evidence/<id>.json; print VIOLATION / KNOWN-FINDING lines; exit 0 / 1.
"""
import sys, os, json, time, subprocess, multiprocessing, importlib, tempfile, shutil, re, signal, traceback
sys.setrecursionlimit(100000)
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
from irv import run, ir, registry
REPO = run.REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or 1); TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
MODS = {}
NCPU = max(2, min(8, os.cpu_count() or 4))
BUDGET = 780

CLASSES = []
def one(a):
    idx, dl = a
    t = CLASSES[idx]()
    if t.driver not in MODS:
        return dict(task=t.name, status="error", error="driver %s did not compile" % t.driver, failed=[], obligations=0, discharged=0, functions=[], wall=0)
    if isinstance(MODS[t.driver], str):
        return dict(task=t.name, status="extraction", error=MODS[t.driver], failed=[], obligations=0, discharged=0, functions=[], wall=0)
    return run.prove_task(MODS[t.driver], t, deadline_s=dl)

def compile_one(a):
    drv, wd = a
    try: return drv, run.compile_driver(drv, wd), None
    except Exception as e: return drv, None, str(e)

NATFLAGS = ["-std=c++11", "-O1", "-g1", "-w", "-fopenmp", "-DHIF_THROW", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,pointer-overflow", "-I", REPO + "/src", "-I", REPO + "/libhifir/include", "-I", V + "/native"]
ENV = dict(os.environ, ASAN_OPTIONS="max_malloc_fill_size=100000:malloc_fill_byte=203:detect_leaks=1:detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=1", OMP_NUM_THREADS="3", LC_ALL="C")

def main():
    pid = sys.argv[1]; t0 = time.time()
    prop = registry.PROPS[pid]
    wd = tempfile.mkdtemp(prefix="vchk_%s_" % pid)
    rp = os.path.join(V, "replays", pid); shutil.rmtree(rp, ignore_errors=True); os.makedirs(rp, exist_ok=True)
    try: rc = decide(pid, prop, wd, rp, t0)
    finally: shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def start_native(pid, prop, wd):
    """compile all native harnesses in the background"""
    jobs = []
    for nm in prop.get("native", ()):
        src = os.path.join(V, "native", nm["src"]); exe = os.path.join(wd, nm["src"].replace(".cpp", "") + nm.get("tag", ""))
        cmd = ["g++"] + NATFLAGS + list(nm.get("flags", ())) + [src, "-o", exe] + [x.replace("$REPO", REPO) for x in nm.get("libs", ())]
        log = open(exe + ".log", "w")
        jobs.append(dict(nm=nm, exe=exe, cmd=cmd, log=exe + ".log", p=subprocess.Popen(cmd, stdout=log, stderr=log)))
    return jobs

def run_native(jobs, wd, rp, pid, known):
    """returns dict(status, runs, cases, distinct, samples, fails)"""
    out = dict(cases=0, distinct=0, samples=[], fails=[], broken=[], harnesses=[])
    procs = []
    for j in jobs:
        rc = j["p"].wait()
        if rc:
            out["broken"].append("harness %s does not compile against the current tree: %s" % (j["nm"]["src"], open(j["log"]).read()[-1500:])); continue
        nm = j["nm"]; par = nm.get("par", NCPU)
        lim = nm.get("limit", 25) * (6 if TIER == "thorough" else 1)
        for k in range(par):
            seed = SEED * 1000 + k
            fo = j["exe"] + ".%d.out" % k; fe = j["exe"] + ".%d.err" % k
            cmd = [j["exe"], "--seed", str(seed), "--cases", str(nm.get("cases", 20000) * (8 if TIER == "thorough" else 1)), "--limit", str(lim)]
            cwd = tempfile.mkdtemp(prefix="scratch_", dir=wd)
            procs.append((subprocess.Popen(cmd, stdout=open(fo, "w"), stderr=open(fe, "w"), env=ENV, cwd=cwd), j, fo, fe, cmd, lim))
    names = {}
    for p, j, fo, fe, cmd, lim in procs:
        try: rc = p.wait(timeout=lim + 300)
        except subprocess.TimeoutExpired: p.kill(); p.wait(); out["broken"].append("harness %s did not stop" % j["nm"]["src"]); continue
        o = open(fo, errors="replace").read(); e = open(fe, errors="replace").read()
        m = re.search(r"CASES (\d+) DISTINCT (\d+)\nSAMPLE (.*)", o)
        if m:
            out["cases"] += int(m.group(1)); out["distinct"] += int(m.group(2))
            if m.group(3) and len(out["samples"]) < 4: out["samples"].append("%s: %s" % (j["nm"]["src"], m.group(3)[:500]))
        if rc != 0:
            what = re.search(r"FAIL: (.*)", o); what = what.group(1) if what else "crash, exit status %s" % rc
            f = os.path.join(rp, "%s_%d.txt" % (os.path.basename(j["exe"]), len(out["fails"])))
            cs = re.search(r"case=(\d+)", o)
            cmdline = "cd %s && g++ %s" % (V, " ".join(j["cmd"][1:-2 - len(j["nm"].get("libs", ()))] if False else [c if wd not in c else "/tmp/replay_" + os.path.basename(c) for c in j["cmd"][1:]]))
            with open(f, "w") as h:
                h.write("property %s violated: concrete failing input found on the real code of %s\n%s\n\nreplay:\n  %s\n  %s --seed %s %s\n\n== harness output ==\n%s\n== stderr ==\n%s\n" % (
                    pid, REPO, what, cmdline, "/tmp/replay_" + os.path.basename(j["exe"]), cmd[2], "--only " + cs.group(1) if cs else "", o[-30000:], e[-12000:]))
            out["fails"].append(dict(what=what, file=f, harness=j["nm"]["src"]))
        names.setdefault(j["nm"]["src"], j["nm"].get("about", ""))
    out["harnesses"] = ["%s: %s" % kv for kv in names.items()]
    return out

def decide(pid, prop, wd, rp, t0):
    lines = []
    jobs = start_native(pid, prop, wd)
    classes = registry.tasks(pid, TIER)
    CLASSES[:] = classes; drivers = sorted(set(c.driver for c in classes))
    with multiprocessing.Pool(NCPU) as pool:
        for drv, path, err in pool.imap_unordered(compile_one, [(d, wd) for d in drivers]):
            if err: MODS[drv] = err
            else:
                try: MODS[drv] = ir.parse_module(open(path).read())
                except Exception as e: MODS[drv] = "extraction: %s: %s" % (drv, e)
    nat = None
    results = []
    if classes:
        per = (BUDGET - 260) if TIER == "quick" else 3000
        with multiprocessing.Pool(NCPU) as pool:
            order = sorted(range(len(classes)), key=lambda i: -getattr(classes[i], "cost", 1))
            for r in pool.imap_unordered(one, [(i, getattr(classes[i], "deadline", 240 if TIER == "quick" else 900)) for i in order]):
                results.append(r)
                print("  task %-28s %-11s obligations %4d discharged %4d  %.1fs %s" % (r["task"], r["status"], r["obligations"], r["discharged"], r["wall"], r.get("error", "")[:200].replace("\n", " ")), flush=True)
    nat = run_native(jobs, wd, rp, pid, None)
    results.sort(key=lambda r: r["task"])
    failed = [r for r in results if r["status"] == "failed"]
    reach = [r for r in results if r["status"] not in ("failed", "proved")]   # unsupported / timeout / extraction / error
    viol = []
    for f in nat["fails"]:
        viol.append("VIOLATION property=%s replay=%s" % (pid, f["file"])); print("  bounded harness %s: %s" % (f["harness"], f["what"]))
        break
    for r in failed:
        for f in r["failed"][:6]: print("  FAILED OBLIGATION %s: %s @ %s" % (r["task"], f["obligation"], f["at"]))
    if failed:
        f = os.path.join(rp, "obligations.txt")
        with open(f, "w") as h:
            h.write("property %s: proof obligations generated from the current source of %s that the verifier does not accept\n" % (pid, REPO))
            for r in failed:
                h.write("\n== contract %s (driver %s) ==\n" % (r["task"], r.get("driver", "")))
                for x in r["failed"]: h.write("obligation: %s\n  at: %s\n  path: %s\n  formula: %s\n  solver: not discharged\n" % (x["obligation"], x["at"], x["path"], x["formula"]))
            h.write("\nre-run: cd %s && python3-vt -m irv.cli <module> %s -v -n\n" % (V, failed[0]["task"]))
            if nat["fails"]: h.write("\nconcrete failing input: see %s\n" % nat["fails"][0]["file"])
        if not viol: viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, f))
    for r in reach:
        print("  OUT OF REACH on this tree: contract %s (%s: %s); decided by the bounded harness only, labelled bounded" % (r["task"], r["status"], r.get("error", "")[:300].replace("\n", " ")))
    for b in nat["broken"]: print("  HARNESS BROKEN: " + b[:600])
    for k in registry.known(pid): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    write_evidence(pid, prop, results, nat, viol, t0)
    for v in viol: print(v)
    if viol: return 1
    if nat["broken"] or (reach and not jobs): return 2
    print("property %s held: %d/%d obligations discharged in %d contracts; bounded harness %d cases (%.0fs)" % (pid, sum(r["discharged"] for r in results), sum(r["obligations"] for r in results), len(results), nat["cases"], time.time() - t0))
    return 0

def write_evidence(pid, prop, results, nat, viol, t0):
    lvl = prop["level"]
    ob = sum(r["obligations"] for r in results); di = sum(r["discharged"] for r in results)
    fns = sorted(set(f for r in results if r["status"] == "proved" for f in r.get("functions", ()) if not f.startswith("drv_")))
    kinds = {}
    for r in results:
        for k, n in (r.get("kinds") or {}).items(): kinds[k] = kinds.get(k, 0) + n
    cov = dict(obligations=ob, discharged=di, checker_cmd="VERIF_TIER=%s VERIF_SEED=%d python3-vt /verif/check.py %s   (irv: LLVM IR of the drivers + /repo headers -> verification conditions -> z3 %s)" % (TIER, SEED, pid, run.z3_version()),
               trusted_base=registry.TRUSTED + list(prop.get("trusted", ())),
               explanation=prop["note"], contracts=[dict(contract=r["task"], status=r["status"], obligations=r["obligations"], discharged=r["discharged"], solver_queries=r.get("queries", 0), solver_s=r.get("solver_s", 0), wall_s=r["wall"], error=r.get("error", "")[:300]) for r in results],
               functions_under_contract=fns, obligations_by_kind=kinds, back_end="z3 (SMT)", solver_s=round(sum(r.get("solver_s", 0) for r in results), 2), solver_queries=sum(r.get("queries", 0) for r in results),
               bounded_stand_ins=nat["harnesses"], bounded_only=list(prop.get("bounded", ())),
               evaluations=nat["cases"], distinct_nontrivial=nat["distinct"], rule=prop.get("rule", "random cases per harness, sizes and densities drawn from the seed; a case is distinct by the hash of its input and non-trivial when the matrix/vector involved is non-empty"),
               samples=nat["samples"] or ["(no bounded harness)"], exhaustive=False)
    ev = dict(property=pid, tier=TIER, seed=SEED, level=lvl, coverage=cov, assumptions=registry.ASSUME + list(prop.get("assume", ())), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)

if __name__ == "__main__": main()
