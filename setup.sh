#!/bin/bash
# Parses every specification; nothing has to be built.
set -e
cd "$(dirname "$0")/spec"
for f in *.tla; do
  tla-sany "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
  if grep -q "Semantic errors\|Parse Error\|Fatal errors" /tmp/sany.$$; then cat /tmp/sany.$$; exit 1; fi
done
rm -f /tmp/sany.$$
. /opt/vp/env.sh
python -B -c "import cadquery, shapely, pyclipper; import cq_cam; print('ok')"
