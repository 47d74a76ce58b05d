#!/bin/bash
# plant.sh ID...: confirms a planted bug in a scratch copy (applies, builds, passes stable tests, demo 0/nonzero).
SC=/tmp/sc
[ -d $SC ] || cp -a /repo $SC
git -C $SC fetch -q /repo && git -C $SC checkout -q -f FETCH_HEAD
. /opt/vp/env.sh
export INSTA_WORKSPACE_ROOT=$SC
build() { (cd $SC && cargo test --workspace --all-features --no-run --offline --locked && cargo build --workspace --all-targets --all-features --offline --locked) >/tmp/sc.log 2>&1; }
demo() { (cd $SC && timeout 300 bash /verif/seeded/$1/demo.sh >/tmp/sc.demo 2>&1); }
for id in "$@"; do
  git -C $SC checkout -q -f . ; build || { echo "$id: base build fails"; exit 1; }
  demo $id; a=$?
  git -C $SC apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  if ! build; then echo "$id: does not build"; grep -E '^error' -A5 /tmp/sc.log | head -20; git -C $SC checkout -q -f .; continue; fi
  (cd $SC; cargo test --workspace --all-features --no-fail-fast --offline --locked -- --test-threads 8 > $SC/target/vp-test.log 2>&1; python3 /opt/vp/results.py /tmp/sc.json "cargo:$SC/target/vp-test.log" >/dev/null 2>&1)
  t=$(python3 -c "
import json;d=json.load(open('/tmp/sc.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable'];print(len([x for x in b if x not in d['passed']]))")
  demo $id; b=$?
  git -C $SC checkout -q -f .
  echo "$id: stable tests missing $t; demo clean=$a patched=$b $([ $t = 0 ] && [ $a = 0 ] && [ $b != 0 ] && echo OK || echo BAD: $(tail -3 /tmp/sc.demo))"
done
