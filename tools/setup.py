#!/usr/bin/env python3-vt
"""offline self test of the machinery: tools present, properties and manifest readable"""
import json, os, shutil, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
for t in ("clang++-18", "opt-18", "llvm-cxxfilt-18", "g++"):
    if not shutil.which(t): sys.exit("missing tool " + t)
import z3
from irv import registry
json.load(open(V + "/MANIFEST.json"))
for p in registry.PROPS: registry.tasks(p)
os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
print("setup ok: z3", z3.get_version_string())
