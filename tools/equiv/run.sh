#!/bin/bash
# run.sh NAME [ID...]: every check (or those named) on a copy of /repo with NAME.diff applied, an edit
# that keeps the behaviour; none may raise an alarm. Works below /tmp/eqv only.
here=$(cd "$(dirname "$0")" && pwd); verif=$here/../..
name=$1; shift
w=/tmp/eqv/$name; mkdir -p $w/root $w/verif
[ -d $w/repo ] || cp -a /repo $w/repo
cd $w/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply $here/$name.diff || exit 2
(cd $verif && tar cf - --exclude target harness vendor KNOWN_FINDINGS.json) | (cd $w/verif && tar xf -)
cp $verif/KNOWN_FINDINGS.json $w/root/
sed -i "s#\"/repo\"#\"$w/repo\"#" $w/verif/harness/Cargo.toml
export RUSTFLAGS="-C target-cpu=x86-64" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable MC_ROOT=$w/root
cd $w/verif/harness && cargo build --offline -q 2>&1 | grep -A7 ^error
for id in ${@:-$(./target/debug/mc list | cut -d' ' -f1)}; do
  out=$(timeout 900 ./target/debug/mc run $id ${TIER:-quick} 2>&1); rc=$?
  echo "$name $id rc=$rc $(echo "$out" | tail -1 | cut -c1-150)"
  [ $rc = 0 ] || echo "$out" | head -6 | cut -c1-400
done
