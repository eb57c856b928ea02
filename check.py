#!/usr/bin/env python3
"""check.py PROPERTY: decides one property (VERIF_TIER, VERIF_SEED)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import core, generator, readers, registry, simple, tracker



def both(c):
    exe = c.build()
    c.parallel([lambda: tracker.body(c, exe), lambda: generator.body(c, 'C10', exe), lambda: simple.missed(c, exe)])


BODIES = {p: tracker.body for p in tracker.MODELS}
BODIES.update({p: generator.body for p in ('C14', 'C16', 'C21', 'C22')})
BODIES['C10'] = both
BODIES['C15'] = registry.body
BODIES['C17'] = readers.body
BODIES['C08'] = simple.values
BODIES['C12'] = simple.codec
BODIES['C13'] = simple.decoders
BODIES['C18'] = simple.settings
BODIES['C20'] = simple.randoms
BODIES['C23'] = simple.imports
BODIES['C24'] = simple.routes
BODIES['C25'] = simple.props

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid not in BODIES:
        print('no check for', pid)
        sys.exit(2)
    sys.exit(core.run(pid, BODIES[pid]))
