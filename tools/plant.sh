#!/bin/bash
# plant.sh ID PROPERTY "needs" "what": the change is /repo's working tree, files of the demonstration in /tmp/seeds/ID
set -e
id=$1; prop=$2; needs=$3; what=$4
cd /repo
git diff --quiet && { echo "no change"; exit 1; }
git diff > /tmp/plant.diff
trap 'git -C /repo checkout -q -- .' EXIT
(cd macroslib && CARGO_TARGET_DIR=/tmp/tt cargo test --offline 2>&1 | grep -aE "^test .*FAILED|panicked|^error|test result: F" | head -20) > /tmp/plant.tests || true
if ! bash /opt/vp/build.sh > /tmp/plant.build 2>&1; then echo "BUILD FAILS"; tail -5 /tmp/plant.build; exit 1; fi
[ -s /tmp/plant.tests ] && { echo "TESTS FAIL"; cat /tmp/plant.tests; exit 1; }
if (bash /tmp/seeds/$id/demo.sh) > /tmp/plant.out 2>&1; then echo "DEMO DOES NOT FAIL"; tail -5 /tmp/plant.out; exit 1; fi
echo "demo fails as it should: $(tail -2 /tmp/plant.out | tr '\n' ' ')"
python3 /verif/tools/mkseed.py "$id" "$prop" /tmp/seeds/$id "$needs" "$what"
git checkout -q -- .
if ! (bash /tmp/seeds/$id/demo.sh) > /tmp/plant.out 2>&1; then echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/plant.out; rm -r /verif/seeded/$id; exit 1; fi
echo "planted $id"
