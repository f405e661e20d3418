"""mkseed.py SPEC.py : SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (c++ source), NEEDS, BREAKS, optional FLAGS. Writes /verif/seeded/<ID>/."""
import sys, os, json, subprocess, tempfile, shutil, runpy
S = runpy.run_path(sys.argv[1])
for k in [S] if "ID" in S else S["SEEDS"]:
    d = "/verif/seeded/" + k["ID"]; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_"); subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
    subprocess.check_call("git -C /repo archive HEAD src libhifir | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b" % (w, w), shell=True)
    for f, o, n in k["EDITS"]:
        t = open(w + "/" + f).read(); assert t.count(o) == 1, (k["ID"], f, t.count(o), o)
        open(w + "/" + f, "w").write(t.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    shutil.rmtree(w)
    open(d + "/demo.cpp", "w").write(k["DEMO"])
    open(d + "/demo.sh", "w").write("#!/bin/bash\n# cwd: /repo, after build.sh\nset -e\nD=$(cd \"$(dirname \"$0\")\" && pwd)\nW=$(mktemp -d)\ntrap 'rm -rf \"$W\"' EXIT\nif ! g++ -std=c++11 -O1 -w -DHIF_THROW -fopenmp %s -I src -I libhifir/include \"$D/demo.cpp\" -o \"$W/demo\" -llapack -lblas; then echo 'demo does not compile' >&2; exit 3; fi\ncd \"$W\" && timeout 120 ./demo\n" % k.get("FLAGS", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=k["PROP"], needs=k["NEEDS"], what_it_breaks=k["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    print(k["ID"])
