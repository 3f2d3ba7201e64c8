#!/usr/bin/env python3
"""Writes MANIFEST.json from configs.py and properties.jsonl."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / 'tools'))
import configs
NA = {
}
NA.update(getattr(configs, 'NA', {}))
props = [json.loads(l) for l in (ROOT / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in configs.CONFIGS and pid not in NA:
        c = configs.CONFIGS[pid]
        tech = configs.TECH.get(pid, 'symbolic execution of the LLVM IR of the real headers, assertions and memory safety decided by z3 (bounded)') if hasattr(configs, 'TECH') else 'symbolic execution of the LLVM IR of the real headers, assertions and memory safety decided by z3 (bounded)'
        note = f"Bounded: holds for every value of the symbolic inputs and choices within the bounds of the {len(c)} configurations (tools/configs.py, listed in the evidence). Outside: {configs.OUTSIDE.get(pid, 'larger bounds')}. Trusts clang's lowering to IR, the engine (/verif/engine; sampled paths are replayed natively on every run) and z3."
        checks.append({'property': pid, 'quick_cmd': f'python3 tools/check.py {pid}', 'thorough_cmd': f'python3 tools/check.py {pid} --tier=thorough', 'technique': tech, 'level': configs.LEVEL.get(pid, 'model_checking'), 'level_note': note})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md.'}
if hasattr(configs, 'HOOKS'): m['hooks'] = configs.HOOKS
(ROOT / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
