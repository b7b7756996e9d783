#!/bin/bash
# mkseed.sh ID: takes the changes made in the scratch clone /tmp/sw as the patch of seeded/ID, runs the demo with and without it
. /opt/vp/env.sh
D=/verif/seeded/$1
git -C /tmp/sw diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo no change; exit 1; }
cat > $D/demo.sh <<'X'
#!/bin/bash
. /opt/vp/env.sh
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export PYLBM_ROOT=$(pwd) PYTHONPATH=$(pwd)
cp "$(dirname "$0")"/*.py "$W"/ && cd "$W" || exit 3
$PY -c "exec(compile(open('demo.py').read(), 'demo.py', 'exec')); print('DEMO-OK')" | tee out
grep -q DEMO-OK out   # (pylbm may exit with status 0)
X
(cd /tmp/sw && bash $D/demo.sh > /tmp/demo_with.txt 2>&1); a=$?
(cd /repo && bash $D/demo.sh > /tmp/demo_without.txt 2>&1); b=$?
echo "$1 with patch: $a, without: $b"; [ $a != 0 ] && [ $b = 0 ] && git -C /tmp/sw checkout -q -- . || { tail -n 5 /tmp/demo_with.txt; tail -n 5 /tmp/demo_without.txt; }
