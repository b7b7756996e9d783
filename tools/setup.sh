#!/bin/bash
# checks that the specifications parse and that the code under test can be imported
cd "$(dirname "$0")/.." || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
CP=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec && for f in T_*.tla MC_*.tla; do
  [ -f "$f" ] || continue
  java -cp $CP tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; rm -f /tmp/sany.$$; exit 1; }
done
rm -f /tmp/sany.$$
cd .. && "${PY:-/opt/venv/bin/python}" -c "import sys; sys.dont_write_bytecode=True; sys.argv=['x']; sys.path.insert(0,'/repo'); import pylbm"
