#!/bin/bash
# plant.sh new           scratch copy of /repo in /tmp/plant/repo
# plant.sh save ID       stores the change made there as seeded/ID/patch.diff, and restores the copy
# plant.sh demo ID       runs the demonstration of seeded/ID without and with its patch, in the scratch copy
set -e
W=/tmp/plant/repo
case "$1" in
new) rm -rf /tmp/plant/repo; mkdir -p /tmp/plant; cp -a /repo $W; git -C $W checkout -q -- .;;
save) mkdir -p /verif/seeded/$2; git -C $W diff > /verif/seeded/$2/patch.diff; git -C $W checkout -q -- .;;
demo) D=/tmp/plant/demo-$2; rm -rf $D; mkdir -p $D; cp -a /verif/seeded/$2/. $D/; rm -f $D/*.diff $D/meta.json
  git -C $W checkout -q -- .
  . /verif/env.sh; export GOFLAGS=-mod=readonly
  (cd $W && timeout 300 bash $D/demo.sh > /tmp/plant/$2.clean.log 2>&1) && echo "$2 clean: ok" || echo "$2 clean: FAILS ($?)"
  git -C $W apply /verif/seeded/$2/patch.diff
  (cd $W && go build ./... ) || echo "$2 does not build"
  (cd $W && timeout 300 bash $D/demo.sh > /tmp/plant/$2.bug.log 2>&1) && echo "$2 patched: NOT SHOWN" || echo "$2 patched: shown ($?)"
  git -C $W checkout -q -- .;;
esac
