#!/usr/bin/env python3
"""Record the fingerprints of the functions each Verus unit was written for (run on the unchanged tree)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import scratch, verusrun, vex
from props import PROPS
out = {}
for u in sorted({u for p in PROPS.values() for u in p.get('verus', [])}):
    x = vex.Unit(scratch.REPO, os.path.join(scratch.VERIF, 'verus', u + '.rs'))
    x.run()
    out[u] = verusrun.fingerprint(x)
json.dump(out, open(verusrun.BASE, 'w'), indent=1, sort_keys=True)
