#!/usr/bin/env python3-vt
"""replay.py <violation.json>: rebuild the harness natively from /repo and run the counterexample; exit 1 if it reproduces."""
import sys, os, json, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.path.insert(0, HERE + '/vx')
import build, check
d = json.load(open(sys.argv[1])); w = tempfile.mkdtemp(prefix='vxr_', dir='/var/tmp')
try:
    exe = build.native([d['harness']] + d['tus'], w, 'n', san=d['kind'] != 'assert')
    ok, out = check.replay(exe, d['entry'], d['inputs'], d, w)
    print(out); print('REPRODUCED' if ok else 'not reproduced')
finally: shutil.rmtree(w, ignore_errors=True)
sys.exit(1 if ok else 0)
