#!/bin/bash
# every check, in parallel
cd "$(dirname "$0")"
T=${VERIF_TIER:-quick}
python3 -c "import json; print('\n'.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" | VERIF_TIER=$T xargs -P 7 -I{} sh -c 'o=$(/usr/bin/python3 -W ignore check.py {} 2>&1); echo "rc=$? $o" | cut -c1-${W:-200} | head -${L:-6}'
