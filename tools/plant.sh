#!/bin/bash
# usage: plant.sh ID [PID...]   confirm the planted bug seeded/ID in a scratch copy of /repo:
# demo passes without it, fails with it, the stable tests still pass; then run the checks.
id=$1; shift
d=/verif/seeded/$id
s=/tmp/plant.$id; rm -rf "$s"; cp -a /repo "$s" || exit 2
cd "$s" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
pd=/tmp/plantdemo.$id; rm -rf "$pd"; mkdir "$pd"; cp "$d"/* "$pd"/; rm -f "$pd"/*.diff "$pd"/meta.json
bash "$pd/demo.sh" >/tmp/plant.$id.log 2>&1; echo "demo unchanged: $? (want 0)"
git apply "$d/patch.diff" || { echo "patch does not apply"; exit 2; }
timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/plant.$id.test 2>&1
grep -E "^test result|FAILED|panicked|^error" /tmp/plant.$id.test | sort | uniq -c | cut -c1-150
bash "$pd/demo.sh" >>/tmp/plant.$id.log 2>&1; echo "demo patched: $? (want nonzero)"
tail -n 4 /tmp/plant.$id.log | cut -c1-200
for p in "$@"; do
  (ulimit -v 12000000; SA_REPO="$s" SA_EVIDENCE=/tmp/plantev.$id timeout 900 python3 /verif/sa/check.py $p 2>&1 | tail -n 4 | cut -c1-300); 
done
rm -rf "$s" "$pd" /tmp/plantev.$id
