#!/bin/bash
# usage: seedcheck.sh <id>...: confirm seeds (apply, build, tests, demo with and without), then run the property's check on it.
for id in "$@"; do
d=/verif/seeded/$id; cd /repo
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git diff --quiet || { echo "repo dirty"; exit 1; }
if grep -q 'want.txt' "$d/demo.sh" && [ ! -f "$d/want.txt" ]; then
  touch "$d/want.txt"; bash "$d/demo.sh" 2>&1 | sed -n 's/^< //p' > /tmp/want.$$; cp /tmp/want.$$ "$d/want.txt"; echo "--- want"; cat "$d/want.txt"; fi
bash "$d/demo.sh" >/tmp/demo.out 2>&1; a=$?
if ! git apply --check "$d/patch.diff" 2>/dev/null; then echo "$id: PATCH DOES NOT APPLY"; continue; fi
git apply "$d/patch.diff"
bash /opt/vp/build.sh >/tmp/build.out 2>&1; b=$?
bash "$d/demo.sh" >/tmp/demo2.out 2>&1; c=$?
m=$(bash /tmp/p/rt.sh 2>/dev/null)
r=-; if [ -d /verif/harness/${prop,,} ]; then /verif/check.sh $prop quick >/tmp/chk.$id.out 2>&1; r=$?; fi
git checkout -q -- .
echo "$id [$prop]: demo clean=$a patched=$c build=$b missing-tests=$m check=$r $(grep -m1 -h VIOLATION /tmp/chk.$id.out)"
done
