#!/bin/bash
# seedrun.sh [check args]: in a namespace where /repo, /verif and /opt/vp are scratch copies,
# verify each seed: tests pass with it, its demo tells, its check tells.
# usage: seedrun.sh ID...   (NOTEST=1 skips the tests)
T=${SLOT:-/tmp/seedslot}; mkdir -p $T
[ -d $T/repo ] || cp -a /repo $T/repo
[ -d $T/verif ] || cp -a /verif $T/verif
[ -d $T/vp ] || cp -a /opt/vp $T/vp
rsync -a --delete --exclude target --exclude .git /repo/ $T/repo/ 2>/dev/null || { (cd /repo && tar c --exclude=./target --exclude=./.git .) | tar x -C $T/repo; }
find $T/repo/contracts $T/repo/packages $T/repo/integration-tests -name "*.rs" -exec touch {} + 2>/dev/null
for d in check tools harness engine/src engine/Cargo.toml engine/Cargo.lock engine/wrap.sh KNOWN_FINDINGS properties.jsonl seeded; do rm -rf $T/verif/$d; cp -a /verif/$d $T/verif/$d; done
exec unshare -m bash -c '
mount --bind '$T'/repo /repo; mount --bind '$T'/verif /verif; mount --bind '$T'/vp /opt/vp
cd /repo
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
  out="$id $P:"
  if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/demo0.$id.log 2>&1 && out="$out demo-clean-ok" || out="$out DEMO-CLEAN-FAILS"; fi
  patch -p1 -s < $S/patch.diff || { echo "$out PATCH-FAILS"; continue; }
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/build.sh >/tmp/build.$id.log 2>&1 || out="$out BUILD-FAILS"
    bash /opt/vp/test.sh /tmp/tests.$id.json >/dev/null 2>&1
    out="$out $(python3 -c "
import json
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]);t=set(json.load(open(\"/tmp/tests.$id.json\"))[\"passed\"])
print(\"tests-ok\" if b<=t else \"TESTS-FAIL:\"+str(sorted(b-t)[:3]))")"
  fi
  if [ -z "$NODEMO" ]; then bash $S/demo.sh >/tmp/demo1.$id.log 2>&1 && out="$out DEMO-MISSES" || out="$out demo-tells"; fi
  if [ -z "$NOCHECK" ]; then /verif/check $P >/tmp/check.$id.log 2>&1; rc=$?
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$P" /tmp/check.$id.log; then out="$out CAUGHT($(grep -o "wall=.*" /tmp/check.$id.log))"; else out="$out MISSED rc=$rc"; fi; fi
  patch -R -p1 -s < $S/patch.diff
  echo "$out"
done' x "$@"
