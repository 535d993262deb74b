#!/bin/bash
# refrun.sh ID...: in a namespace where /repo, /verif and /opt/vp are scratch copies, apply each
# behaviour-keeping edit, run the tests and the checks it may touch; all have to stay quiet.
# ONLY="C01 C02" restricts the checks; NOTEST=1 skips the tests
T=${SLOT:-/tmp/refslot}; mkdir -p $T
[ -d $T/repo ] || cp -a /repo $T/repo
[ -d $T/verif ] || cp -a /verif $T/verif
[ -d $T/vp ] || cp -a /opt/vp $T/vp
git -C $T/repo fetch -q /repo HEAD && git -C $T/repo checkout -qf FETCH_HEAD && git -C $T/repo checkout -q -- .
find $T/repo/contracts $T/repo/packages -name "*.rs" -exec touch {} +
for d in check tools harness engine/src engine/Cargo.toml engine/Cargo.lock engine/wrap.sh KNOWN_FINDINGS properties.jsonl; do rm -rf $T/verif/$d; cp -a /verif/$d $T/verif/$d; done
exec unshare -m bash -c '
mount --bind '$T'/repo /repo; mount --bind '$T'/verif /verif; mount --bind '$T'/vp /opt/vp
cd /repo
for id in "$@"; do
  C=$(python3 /verif/tools/mkref.py /repo $id) || { echo "$id EDIT-FAILS"; git checkout -q -- .; continue; }
  out="$id:"
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/tmp/build.$id.log 2>&1 || out="$out BUILD-FAILS"
    bash /opt/vp/test.sh /tmp/tests.$id.json >/dev/null 2>&1
    out="$out $(python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);t=set(json.load(open(\"/tmp/tests.$id.json\"))[\"passed\"])
print(\"tests-ok\" if b<=t else \"TESTS-FAIL:\"+str(sorted(b-t)[:3]))")"
  fi
  for P in ${ONLY:-$C}; do
    VERIF_SEED=1 VERIF_TIER=quick /verif/check $P quick >/tmp/ref.$id.$P.log 2>&1; rc=$?; [ $rc = 1 ] && ! grep -q "^VIOLATION property=$P " /tmp/ref.$id.$P.log && rc=CRASH
    out="$out $P=$rc($(grep -o "wall=.*" /tmp/ref.$id.$P.log))"
  done
  git checkout -q -- .
  touch contracts/*/src/*.rs packages/*/src/*.rs
  echo "$out"
done' x "$@"
