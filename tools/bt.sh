# where the engine spends its time: bt.sh ENTRY [secs]
cd /verif; (timeout 100 bash tools/exp.sh u $1 LIM=60 > /tmp/u.sum ) & sleep ${2:-12}; P=$(pgrep -f target/release/mirsym | head -1); for i in 1 2 3 4; do gdb -p $P -batch -ex "thread apply all bt" 2>/dev/null | grep -E "^#[0-9]+ .*mirsym::" | sed 's/0x[0-9a-f]* in//' | cut -c1-80 | grep -v "catch_unw\|rustc_public\|report::\|main::" |head -20; echo; sleep 2; done; pkill mirsym; wait; cat /tmp/u.sum
