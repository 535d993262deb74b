# experiment: exp.sh TAG ENTRY FIX [env...]; prints the summary
T=$1; E=$2; shift 2; export "$@" 
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib MIRSYM_ENTRY=$E MIRSYM_OUT=/tmp/out.$T.json MIRSYM_DIR=/tmp/ms.$T MIRSYM_LIMIT=${LIM:-600} RUST_MIN_STACK=2000000000
mapfile -d '' A < /verif/build/args
cd $(cat /verif/build/args.cwd); mkdir -p $MIRSYM_DIR
/verif/engine/target/release/mirsym "${A[@]}" 2>/tmp/err.$T >/dev/null
python3 - $T <<'P'
import json,sys
d=json.load(open(f'/tmp/out.{sys.argv[1]}.json'))
if 'paths' not in d: print(d); sys.exit()
s=d['solver']
print(f"== {sys.argv[1]} {d['entry']} paths {d['paths']}+{d['dead_paths']} wall {d['wall_s']:.1f} feas {s['feasible_by_search']}+{s['feasibility_queries']}/{s['feasibility_unknown']}? {s['t_feas_s']:.1f}s decide {s['deciding_queries']} {s['t_final_s']:.1f}s {s['by']}")
for k,c in d['checks'].items(): print('   ',k,{a:b for a,b in c.items() if b})
for e in d['errors'][:4]: print('    ERR',e[:600])
for e in d['unknowns'][:6]: print('    UNK',e[:300])
for v in d['violations'][:4]: print('    VIOL',v['label'],v['model'],v['panics'][-1:])
P
