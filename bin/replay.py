#!/usr/bin/env python3
"""replay.py SCRIPT: record one script against /repo and show what TLC rejects"""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
sys.dont_write_bytecode = True
import run
out = tempfile.mkdtemp(prefix="m4x_replay_")
try:
    run.build(out)
    run.record(out, sys.argv[1], out + "/t.nd")
    ev, rej, st = run.validate(out, out + "/t.nd", "t")
    ls = open(out + "/t.nd").read().splitlines()
    print("%d events, %d rejected" % (ev, len(rej)))
    for r in rej:
        print(r)
        for l in ls:
            if l.startswith('{"h":%d,"s":%d,' % (r["h"], r["s"])):
                print("  " + l[:2000])
    sys.exit(1 if rej else 0)
finally:
    shutil.rmtree(out, ignore_errors=True)
