#!/bin/bash
# Development aid: runs checks against a patched copy of /repo, never against /repo itself.
# usage: mutate.sh SLOT PATCH CHECK...   (PATCH "-" for none, "base" for the original commit)
# The copy lives in /tmp/mut/SLOT and is kept, with its build, for the next use of the slot.
set -e
slot=$1 patch=$2; shift 2
M=/tmp/mut/$slot
mkdir -p $M/repo $M/verif
find $M/repo -mindepth 1 -maxdepth 1 ! -name target -exec rm -r {} +
find $M/verif -mindepth 1 -maxdepth 1 ! -name .build -exec rm -r {} +
rev=HEAD; [ "$patch" = base ] && rev=c9c848f
(cd /repo && git archive $rev) | tar xm -C $M/repo
if [ "$patch" != - ] && [ "$patch" != base ]; then (cd $M/repo && patch -sp1 < $patch); fi
(cd /verif && tar c --exclude ./.build --exclude ./evidence --exclude ./.git --exclude ./seeded --exclude target --exclude __pycache__ .) | tar x -C $M/verif
grep -rlE '/repo' $M/verif/sim $M/verif/sim10 --include Cargo.toml --include '*.rs' | xargs sed -i -E "s#(\"|')/repo#\1$M/repo#"
for c in "$@"; do
  (cd $M/verif && timeout 1500 python3 run.py check $c 2>&1 | cut -c1-${WIDTH:-300}) || true
done
