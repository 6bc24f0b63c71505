#!/usr/bin/env python3
"""Replay a recorded counterexample against the current /repo tree: replay.py FILE"""
import sys, json, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as K
r = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix="vp-replay-")
ok, how, out = K.confirm(w, r["harness"], r["entry"], r["params"], {"msg": r["message"], "model": r["input"]}, 0, r.get("variant", ""))
print(out); print("reproduced by " + how if ok else "NOT reproduced: " + how)
sys.exit(1 if ok else 0)
