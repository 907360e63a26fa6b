#!/bin/bash
# seedtest.sh ID...: build, tests and demo of planted bugs in a scratch copy (development helper)
set -u
S=${SEEDT:-/tmp/seedt}; mkdir -p $S
. /opt/vp/env.sh
for id in "$@"; do
  d=/verif/seeded/$id
  (cd /repo && mkdir -p $S/repo && git archive HEAD | tar x -C $S/repo)
  (cd $S/repo && git init -q . 2>/dev/null; git apply $d/patch.diff) || { echo "$id: patch does not apply"; continue; }
  (cd $S/repo && export CARGO_TARGET_DIR=$S/target && cargo test --offline -q > $S/$id.test 2>&1 && cargo test --offline -q -F whitebox_testing --test test_list_collisions >> $S/$id.test 2>&1 && cargo test --offline -q -F flush_aggregation --test test_flush_agg >> $S/$id.test 2>&1); t=$?
  mkdir -p $S/demo/$id; cp $d/* $S/demo/$id/ 
  (cd $S/repo && bash $S/demo/$id/demo.sh > $S/$id.bad 2>&1); b=$?
  (cd /repo && bash $S/demo/$id/demo.sh > $S/$id.good 2>&1); g=$?
  echo "$id: tests=$t demo patched=$b (want !=0) unchanged=$g (want 0) $(tail -2 $S/$id.bad | head -1 | cut -c1-140)"
done
