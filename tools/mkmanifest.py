import json, sys
sys.path.insert(0, '/verif/tools')
from spec import SPEC
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in SPEC:
        s = SPEC[i]
        m['checks'].append(dict(
            property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
            technique='symbolic execution of the contracts\' MIR, SMT (z3/cvc5) deciding every assertion, native replay',
            level='model_checking',
            level_note=f"Bounds: {s['bounds']}. " + (f"Outside: {s['outside']}. " if s['outside'] else '') +
                       'Trusts rustc MIR, the models of library functions listed in DESIGN.md (every path model is re-run natively), the chain model of the harness and the SMT solvers.'))
    else:
        m['not_applicable'].append(dict(property=i, reason='no check built yet'))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', [x['property'] for x in m['not_applicable']])
