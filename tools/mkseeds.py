#!/usr/bin/env python3
"""(Re)generate /verif/seeded from the specifications in tools/seeds/*.py."""
import difflib, glob, json, os, shutil, subprocess, sys
V = '/verif'
KIT = V + '/tools/seedkit'
SEEDS = {}

def seed(id, prop, needs, breaks, edits, demo):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

P = 'contracts/halo-pair/src/contract.rs'
F = 'contracts/halo-factory/src/contract.rs'
FS = 'contracts/halo-factory/src/state.rs'
R = 'contracts/halo-router/src/contract.rs'
RO = 'contracts/halo-router/src/operations.rs'
T = 'contracts/halo-token/src/contract.rs'
TM = 'packages/haloswap/src/token.rs'
A = 'packages/haloswap/src/asset.rs'
Q = 'packages/haloswap/src/querier.rs'
B = 'packages/bignumber/src/math.rs'

for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'))

only = sys.argv[1:]
for id, s in SEEDS.items():
    if only and id not in only:
        continue
    d = f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = {}
    for path, old, new in s['edits']:
        cur = files.get(path)
        if cur is None:
            cur = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + path], stdout=subprocess.PIPE, text=True, check=True).stdout
        n = cur.count(old)
        assert n == 1, (id, path, n, old)
        files[path] = cur.replace(old, new)
    out = ''
    for path, new in files.items():
        base = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + path], stdout=subprocess.PIPE, text=True, check=True).stdout
        out += f'diff --git a/{path} b/{path}\n'
        out += ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in difflib.unified_diff(base.splitlines(True), new.splitlines(True), 'a/' + path, 'b/' + path))
    open(d + '/patch.diff', 'w').write(out)
    for f in ('Cargo.toml', 'world.rs', 'demo.sh'):
        shutil.copy(f'{KIT}/{f}', d)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write('mod world;\nuse world::*;\n#[allow(unused_mut, unused_variables)]\nfn main() {\n    let mut w = W::new();\n' + s['demo'].strip('\n') + '\n    println!("fine");\n}\n')
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
print(len(SEEDS), 'seeds')
