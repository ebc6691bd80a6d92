#!/bin/bash
# Every check builds what it needs itself; this only makes sure that the tools are there.
set -e
for t in cargo rustc cargo-kani verus z3 python3; do command -v "$t" >/dev/null || { echo "missing: $t"; exit 1; }; done
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, 'vx')
import check, props, verusrun, kani, native, scratch
for p, q in props.PROPS.items():
    for c in q.get('contracts', []):
        scratch.Harness(c)
print('ok:', ' '.join(sorted(props.PROPS)))
P
