#!/bin/bash
# Builds every variant of vctrs that the checks use.
set -e
ROOT=$(cd "$(dirname "$0")/.." && pwd)
for v in $(python3 -c "
import json; c=json.load(open('$ROOT/lib/config.json'))
print(' '.join(sorted({'plain'} | {x.get('variant','plain') for x in c.values()})))"); do
  bash "$ROOT/bin/build.sh" "$v"
done
