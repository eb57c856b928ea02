#!/usr/bin/env python3
"""Nothing persists between checks; this only makes sure that the tools work
here: the driver builds and TLC parses the specifications."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
sys.dont_write_bytecode = True
import core
c = core.Check('setup', 'quick', 1)
try:
    c.build()
    for f in sorted(os.listdir(V + '/spec')):
        if f.endswith('.tla'):
            rc, out, err = core.sh(['java', '-cp', core.TLA, 'tla2sany.SANY', f], 200, cwd=V + '/spec')
            if rc != 0:
                print(out, err)
                sys.exit(1)
    print('setup: ok')
finally:
    c.close()
