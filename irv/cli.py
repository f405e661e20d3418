import sys, time, importlib, tempfile, shutil, multiprocessing as mp
sys.setrecursionlimit(100000)
from . import run, ir
A = sys.argv[1:]
def one(a):
    modn, i, path = a
    tm = importlib.import_module("irv.tasks." + modn); t = tm.TASKS[i]()
    mod = ir.parse_module(open(path).read())
    return run.prove_task(mod, t, use_hints="-n" not in A, log=print if "-v" in A else None, save="-s" in A, deadline_s=1500)
def main():
    modn = A[0]; only = [a for a in A[1:] if not a.startswith("-")]
    tm = importlib.import_module("irv.tasks." + modn)
    wd = tempfile.mkdtemp(prefix="irv_"); paths = {}; jobs = []
    for i, tc in enumerate(tm.TASKS):
        if only and not any(o == tc.name or (o.endswith("*") and tc.name.startswith(o[:-1])) for o in only): continue
        if tc.driver not in paths: paths[tc.driver] = run.compile_driver(tc.driver, wd)
        jobs.append((modn, i, paths[tc.driver]))
    with mp.Pool(min(8, len(jobs)), maxtasksperchild=1) as p:
        ok = 0
        for r in p.imap(one, jobs, chunksize=1):
            if r["status"] == "proved": ok += 1
            if r["status"] == "proved" and "-q" in A: continue
            print(r["task"], r["status"], "obl", r["obligations"], "disch", r["discharged"], "wall", r["wall"], "q", r.get("queries"), "hints", r["used_hints"], r.get("error", ""), r.get("loops") if "-l" in A or r["status"] != "proved" else "", flush=True)
            for f in r["failed"][:12]: print("   FAIL", f["obligation"], "@", f["at"], "\n        ", f["formula"][:600 if "-f" in A else 160].replace("\n", " "), "\n        ", f["path"][-300:])
            if "-v" in A: print(r.get("functions"), r.get("kinds"), r.get("vacuity"), r.get("trace"))
            if r["status"] == "error": print(r.get("trace"))
        print("%d/%d proved" % (ok, len(jobs)))
    shutil.rmtree(wd)
main()
