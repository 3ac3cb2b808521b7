#!/usr/bin/env python3
"""Builds the checkers of every claimed property once (the checks rebuild what changed)."""
import sys,json
sys.path.insert(0,'/verif')
import build,run_map
done=set()
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    h=run_map.H[c['property']]
    if h[0] in done: continue
    done.add(h[0]); print(build.build(h[0],h[1]),flush=True)
