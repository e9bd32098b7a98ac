#!/usr/bin/env python3
"""Replays a counterexample written by vrun.py against the current /repo: natively under MPI, and in the engine with every input fixed."""
import json, os, subprocess, sys
r = json.load(open(sys.argv[1])); j = r['job']
sys.argv = [sys.argv[0], r['property'], '--job', '^' + j['name'] + '$']
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vrun
k = vrun.key(j); vrun.extraDone[k].set()
try: exe = vrun.buildNative(k, r['violation']['kind'] == 'memory')
finally: pass
res, out = vrun.runNative(exe, j, r['violation']['assignment'], 90)
print(out[-4000:]); print('native outcome:', res, '| recorded:', r['violation']['kind'], r['violation']['label'], '| confirmed by', r['confirmed_by'])
import shutil; shutil.rmtree(vrun.SCR, ignore_errors=True)
sys.exit(0 if res in ('ok', 'skipped') else 1)
