"""Compile drivers against /repo's current headers and discharge the obligations of tasks."""
import os, sys, subprocess, time, json, traceback, hashlib, tempfile
from . import ir, sym
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("IRV_REPO", "/repo")
CLANG = ["clang++-18", "-std=c++11", "-fexceptions", "-fcxx-exceptions", "-fignore-exceptions", "-O1", "-g1", "-gno-column-info", "-ffp-contract=off", "-fno-math-errno", "-fcx-limited-range",
         "-w", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", "-I", REPO + "/src", "-I", VERIF + "/drivers"]
PASSES = "function(sroa,early-cse,simplifycfg,loop-simplify)"

def compile_driver(driver, workdir, extra=()):
    src = os.path.join(VERIF, "drivers", driver)
    base = os.path.join(workdir, driver.replace(".cpp", ""))
    CL = list(CLANG)
    for ln in open(src):
        if ln.startswith("// irv-exceptions"): CL.remove("-fignore-exceptions")
        if ln.startswith("// irv-libhifir"): CL += ["-I", REPO + "/libhifir/src", "-I", REPO + "/libhifir/include"]
    r = subprocess.run(CL + list(extra) + [src, "-o", base + ".ll"], capture_output=True, text=True)
    if r.returncode:
        r2 = subprocess.run([c for c in CL if c != "-fcx-limited-range"] + list(extra) + [src, "-o", base + ".ll"], capture_output=True, text=True)
        if r2.returncode: raise RuntimeError("extraction: clang failed on %s:\n%s" % (driver, r.stderr[-4000:]))
    r = subprocess.run(["opt-18", "-S", "-passes=" + PASSES, base + ".ll", "-o", base + ".o.ll"], capture_output=True, text=True)
    if r.returncode: raise RuntimeError("extraction: opt failed on %s:\n%s" % (driver, r.stderr[-2000:]))
    return base + ".o.ll"

def z3_version():
    import z3
    return z3.get_version_string()

HINTS = os.path.join(VERIF, "irv", "hints")
def load_hints(name):
    try: return json.load(open(os.path.join(HINTS, name + ".json")))
    except Exception: return None
def save_hints(name, h):
    os.makedirs(HINTS, exist_ok=True)
    json.dump(h, open(os.path.join(HINTS, name + ".json"), "w"), indent=0, sort_keys=True)

def run_exec(mod, task, hints, deadline, log=None):
    ex = sym.Runner(mod, task, task.opts); ex.hints = hints; ex.deadline = deadline
    # phase 1: houdini (skipped with hints: survivors are checked directly)
    if hints is None:
        for it in range(200):
            done = ex.run_pass("houdini")
            if log: log("  houdini pass %d: cands=%s changed=%s restart=%s q=%d %.1fs" % (it, {k.split(">")[-1]: len(v) for k, v in ex.cands.items()}, ex.changed, ex.restart, ex.nq, time.time() - ex.time0))
            if done: break
            if ex.restart: ex.cands = {}    # modified sets grew: start again
    else:
        # first find out what every loop modifies (no obligation is evaluated), then check once
        ex.explore = True
        for it in range(40):
            ex.run_pass("houdini"); ex.cands = {}
            if not ex.restart: break
        ex.explore = False
    for it in range(40):
        ok = ex.run_pass("final")
        if not ex.restart: break
        if hints is not None: ex.cands = {}
    return ex

def prove_task(mod, task, use_hints=True, deadline_s=240, log=None, save=False):
    t0 = time.time(); res = dict(task=task.name, status="error", obligations=0, discharged=0, failed=[], functions=[], assumed=[], wall=0, used_hints=False)
    ex = None
    try:
        h = load_hints(task.name) if use_hints else None
        done = False
        if h is not None:
            try:
                ex = run_exec(mod, task, h, t0 + deadline_s, log)
                done = good(ex); res["used_hints"] = done
            except (sym.Unsupported, ir.IRError, KeyError, TimeoutError) as e:
                if log: log("hints run: %s" % e)
        if not done:
            ex = run_exec(mod, task, None, t0 + deadline_s, log)
            if save and good(ex): save_hints(task.name, {k: sorted(v) for k, v in ex.cands.items()})
        fill(res, ex, task)
    except (sym.Unsupported, ir.IRError) as e:
        res["status"] = "unsupported"; res["error"] = str(e)
        if log: log(traceback.format_exc())
    except TimeoutError as e:
        res["status"] = "timeout"; res["error"] = str(e)
    except Exception as e:
        res["status"] = "error"; res["error"] = "%s: %s" % (type(e).__name__, e); res["trace"] = traceback.format_exc()
        if log: log(traceback.format_exc())
    res["wall"] = round(time.time() - t0, 2)
    return res

def good(ex): 
    return bool(ex.obl) and all(o.status == "proved" for o in ex.obl) and not missing_cover(ex)
def missing_cover(ex):
    miss = [t for t in ex.task.must_cover if ("cov", t) not in ex.covers]
    if ex.ends == 0: miss.append("no path reaches the end")
    return miss
def fill(res, ex, task):
    res["obligations"] = len(ex.obl); res["discharged"] = sum(o.status == "proved" for o in ex.obl)
    fl = {}
    for k, l, f, tr in ex.errors: fl.setdefault((k, l), (f, tr))
    res["failed"] = [dict(obligation=k, at=l, formula=f, path=tr) for (k, l), (f, tr) in fl.items()]
    for m in missing_cover(ex): res["failed"].append(dict(obligation="vacuity: ensure point %s reachable" % (m,), at=task.name, formula="", path=""))
    kinds = {}
    for o in ex.obl:
        kk = o.kind.split("|")[0].split(" (")[0]; kinds[kk] = kinds.get(kk, 0) + 1
    res["kinds"] = kinds
    res["functions"] = sorted(set(ex.funcs_seen.values())); res["paths"] = ex.npaths; res["queries"] = ex.nq; res["solver_s"] = round(ex.solver_time, 2)
    res["loops"] = {k.split(">")[-1]: len(v) for k, v in ex.cands.items()}
    res["status"] = "proved" if good(ex) else "failed"
    if res["status"] == "failed" and ex.incon and not missing_cover(ex):
        # the solver ran out of time on a needed obligation or invariant: no verdict
        res["status"] = "inconclusive"; res["error"] = "; ".join(ex.incon[:3])
    res["vacuity"] = {str(k): v for k, v in ex.covers.items() if isinstance(k, tuple) and k[0] == "cov"}
