#!/bin/bash
# tryseed.sh <id> : with the bug applied to /repo, builds, runs the stable tests, the demonstration
# and the property's check; then undoes the change.
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
if [ -z "$NODEMO" ]; then bash "$d/demo.sh" >/tmp/demo.out 2>&1; echo "demo on the unchanged tree: $?"; fi
git apply "$d/patch.diff" || exit 2
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh >/tmp/build.out 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/test.json >/tmp/test.out 2>&1; echo "tests: $?"
bash "$d/demo.sh" >/tmp/demo.out 2>&1; echo "demo with the bug: $?"; tail -3 /tmp/demo.out
fi
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd "$root"; python3 bin/check.py "$p" 2>&1 | cut -c1-400 | tail -6
cd /repo; git checkout -q -- .
[ -z "$NODEMO" ] && bash /opt/vp/build.sh >/tmp/build.out 2>&1
git status --porcelain
