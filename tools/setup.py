#!/usr/bin/env python3-vt
"""setup_cmd: builds the extractor, the extracted programs and the oracle binaries once (the checks rebuild what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
build.prepare()
t = [os.path.join(build.WORK, 'h', f[:-4]) for f in sorted(os.listdir(os.path.join(build.VERIF, 'harness'))) if f.endswith('.cpp') and not f.startswith('empty')]
t += [os.path.join(build.WORK, 'x', f[:-4] + '.json') for f in sorted(os.listdir(os.path.join(build.VERIF, 'drivers'))) if f.endswith('.cpp')]
ok, out = build.ninja(t, timeout=1700)
if not ok: print(out)
sys.exit(0 if ok else 1)
