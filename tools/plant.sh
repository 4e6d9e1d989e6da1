#!/bin/bash
# Development tool: plant.sh <id> [test|demo|check|all]  tries seeded/<id> in the scratch copy /tmp/plant (never in /repo).
# /tmp/plant/repo: clone of /repo; /tmp/plant/tws: shadow workspace of its tests (with the type-erased parser, for speed);
# /tmp/plant/vws: copy of /verif/ws over it.
. /verif/env.sh
id=$1 what=${2:-all} P=/tmp/plant S=/verif/seeded/$1
cd $P/repo && git checkout -q -- . && git clean -qfd && git fetch -q /repo main && git reset -q --hard FETCH_HEAD || exit 3
git apply --check "$S/patch.diff" || { echo "DOES NOT APPLY"; exit 3; }
if [ $what = demo ] || [ $what = all ]; then
  bash "$S/demo.sh" >/tmp/plant/demo0.log 2>&1; echo "demo unchanged: $?"
fi
git apply "$S/patch.diff"
if [ $what = demo ] || [ $what = all ]; then
  bash "$S/demo.sh" >/tmp/plant/demo1.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/plant/demo1.log
fi
if [ $what = test ] || [ $what = all ]; then
  ( cd $P/tws && CARGO_TARGET_DIR=$P/ttarget CARGO_PROFILE_DEV_DEBUG=line-tables-only INSTA_UPDATE=no INSTA_WORKSPACE_ROOT=$P/tws RUST_MIN_STACK=33554432 \
    cargo test --workspace --no-fail-fast --offline --features cairo-m-compiler-parser/type-erased-parser -- --test-threads 8 >$P/test.log 2>&1 )
  echo "tests: $(grep -c '^test .* ok$' $P/test.log) ok, $(grep -c '^test .*FAILED' $P/test.log) failed"; grep '^test .*FAILED' $P/test.log | head -5; grep -m3 '^error' $P/test.log
fi
if [ $what = check ] || [ $what = all ]; then
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  crate=$(python3 -c "import json;print([c['quick_cmd'].split()[1] for c in json.load(open('/verif/MANIFEST.json'))['checks'] if c['property']=='$prop'][0])")
  mkdir -p $P/vws; rsync -a --exclude target --exclude crates /verif/ws/ $P/vws/ws/; ln -sfn $P/repo/crates $P/vws/ws/crates; cp /verif/check.sh /verif/env.sh /verif/known-findings.txt $P/vws/; mkdir -p $P/vws/evidence $P/vws/out
  for s in ${SEEDS:-1 2}; do VERIF_SEED=$s VERIF_TIER=quick $P/vws/check.sh $crate $prop >$P/check.log 2>&1; echo "check $prop seed $s: $?"; grep -m2 VIOLATION $P/check.log; done
fi
git checkout -q -- . && git clean -qfd
