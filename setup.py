#!/usr/bin/env python3
"""Builds the monitors once, so that the checks only rebuild what changed."""
import sys
from checks import CHECKS
import run

done = set()
for p, spec in CHECKS.items():
    if spec.get('kind') in ('node', 'cpp'):
        continue
    for flavour in ('stable', 'tsan') if spec.get('kind') == 'both' else (spec.get('flavour', 'stable'),):
        key = (spec.get('crate'), flavour, tuple(spec.get('tools', [])))
        if key in done:
            continue
        done.add(key)
        try:
            run.build(dict(spec, flavour=flavour))
        except run.Inconclusive as e:
            print('setup: %s: %s' % (p, e))
            sys.exit(1)
print('setup: %d builds' % len(done))
