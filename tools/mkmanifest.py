import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {'C28': 'A liveness property of two threads that share plain fields: contracts over single calls say nothing about interleavings, and the sequential verifier built here has no permission or memory model for them.',
      'C29': 'Depends on infinities and not-a-number values of float under -ffast-math, which the reals used by the contracts do not have (and which the compiler flag itself declares absent); no contract within reach can express it.'}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
notes = json.load(open(os.path.join(H, 'tools', 'levels.json')))
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    n = notes.get(i, {})
    checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                   'technique': n.get('technique', 'contract-based deductive verification (weakest preconditions over the real functions, SMT back end)'), 'level': n.get('level', 'exploration'),
                   'level_note': n.get('note', 'contracts under construction; the bounded native stand-in decides')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
