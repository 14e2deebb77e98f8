"""writes MANIFEST.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {}
TECH = 'contract-based deductive verification of the compiled code (postconditions and loop invariants on exported MIR, discharged by z3)'
NOTE = ('Every successful run of the instructions named in the property, from every account content, argument and clock value, is shown to satisfy the postconditions; loops by checked invariants, no bound. '
    'Trusted: MIR export, the obligation generator, z3, contracts assumed for solana-program, borsh, bytemuck, spl-token and the sokoban tree (listed per run in the evidence). '
    'Units outside reach of the verifier after a change are reported as bounded native runs, never as proved.')
EXTRA = {i: ' The JavaScript source (types erased) is executed symbolically by engine/jsx.py under contracts assumed for @metaplex-foundation/umi; the Rust client by its exported MIR.' for i in ('C32', 'C33', 'C34')}
EXTRA['C35'] = ' Failing paths are kept: each refusal is shown to imply the condition its code stands for, and each single violation to be refused with its code.'
EXTRA |= {i: ' Total correctness: no path from a state meeting the stated conditions fails, loops end; the conditions are met by a concrete state; the compute budget is out of scope.' for i in ('C29', 'C30')}
m = dict(version=1, setup_cmd='true', checks=[dict(property=i, quick_cmd=f'bash check.sh {i} quick', thorough_cmd=f'bash check.sh {i} thorough', technique=TECH, level='proof', level_note=NOTE + EXTRA.get(i, '')) for i in ids if i not in NA],
    not_applicable=[dict(property=i, reason=r) for i, r in NA.items()])
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
