#!/bin/bash
# develop: run several entries in parallel, brief summary
cd /verif; [ -n "$NOMK" ] || bash tools/mk.sh >/tmp/mk.log 2>&1; if grep -qE "^error" /tmp/mk.log; then grep -E "^error" -A8 /tmp/mk.log | head -60; exit 1; fi
for t in "$@"; do
  ( bash tools/run1.sh $t ${LIM:-200} 2>/tmp/err.$t; python3 - $t <<'P'
import json,sys
d=json.load(open(f'/tmp/out.{sys.argv[1]}.json'))
if 'paths' not in d: print(d); sys.exit()
s=d['solver']
print(f"== {d['entry']} paths {d['paths']} forks {d['forks']} steps {d['steps']} wall {d['wall_s']:.1f} feas {s['feasibility_queries']}/{s['feasibility_unknown']}? {s['t_feas_s']:.1f}s decide {s['deciding_queries']} {s['t_final_s']:.1f}s {s['by']} fixed {d['fixed']}")
for k,c in d['checks'].items(): print('   ',k,'q',c['queries'],'folded',c['folded'],'unsat',c['unsat'],'VIOL' if c['violated'] else '',c['violated'],'UNK' if c['unknown'] else '',c['unknown'])
print('    reach',d['reach'])
for e in d['errors'][:4]: print('    ERR',e[:600])
for e in d['unknowns'][:6]: print('    UNK',e[:300])
for v in d['violations'][:4]: print('    VIOL',v['label'],v['model'],v['panics'][-1:])
P
 ) > /tmp/sum.$t &
done; wait; for t in "$@"; do cat /tmp/sum.$t; grep -A1 panicked /tmp/err.$t|head -4; done
