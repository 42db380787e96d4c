#!/bin/bash
# trybug.sh <patch> [-R] [props...]: in a scratch copy, apply a patch to the crate and say which properties report a violation
P="$(readlink -f "$1")"; shift
R=""; [ "$1" = "-R" ] && { R="-R"; shift; }
V="$(dirname "$(dirname "$(readlink -f "$0")")")"
W=/tmp/trybug
mkdir -p $W
rsync -a --delete --exclude target --exclude .git /repo/ $W/repo/ 2>/dev/null || { rm -rf /tmp/trybug/repo; mkdir -p $W/repo; (cd /repo && tar cf - --exclude target --exclude .git .) | tar xf - -C $W/repo; }
mkdir -p $W/harness; cp -r $V/harness/src $V/harness/Cargo.lock $W/harness/
sed "s#/repo#$W/repo#" $V/harness/Cargo.toml > $W/harness/Cargo.toml
cd $W/repo || exit 3
git apply $R "$P" || { echo "does not apply"; exit 2; }
touch src/lib.rs
cd $W/harness; find src -name '*.rs' -newer /tmp/trybug/stamp >/dev/null 2>&1
CARGO_TARGET_DIR=$W/target cargo build --offline --release >$W/log 2>&1 || { grep -A6 '^error' $W/log | head -30; echo BUILDFAIL; exit 3; }
cp $V/known-findings.txt $W/ 2>/dev/null
PROPS="$*"; [ -z "$PROPS" ] && PROPS="$($W/target/release/harness list)"
for p in $PROPS; do
  VERIF_DIR=$W $W/target/release/harness check $p ${SCALE:+--scale $SCALE} > $W/out 2>&1; rc=$?
  [ $rc != 0 ] && { echo "$p rc=$rc $(sed -n 2p $W/out | cut -c1-${W2:-160})"; }
done
