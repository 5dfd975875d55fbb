"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

CALLS = 'TLA+/TLC: exploration of the query state machine, generated and random call histories validated against it'
TECHNIQUES = {
    'C01': 'TLA+/TLC: totality and termination of the model; recorded outcomes of parsing validated against it',
    'C02': 'TLA+/TLC: grammar model over all short lines, every such line parsed and validated against it',
    'C10': 'TLA+/TLC: resolver model in all orders with liveness; exhaustive and random documents validated against it',
    'C19': 'TLA+/TLC: lookup model; every position of generated documents validated against it',
    'C20': 'TLA+/TLC: message model of all locales; reports in three locales validated against it and each other',
    'C21': 'TLA+/TLC: purity of the query state machine; views, histories and disturbed documents validated against it',
}
for n in (3, 4, 5, 6, 7):
    TECHNIQUES[f'C{n:02}'] = 'TLA+/TLC: analyzer model with invariants; generated, exhaustive and random documents validated against it'
for n in (8, 9):
    TECHNIQUES[f'C{n:02}'] = 'TLA+/TLC: resolver model in all orders; exhaustive and random documents validated against it'
for n in (11, 12, 13, 14, 15, 22, 23, 24):
    TECHNIQUES[f'C{n:02}'] = CALLS
for n in (16, 17, 18):
    TECHNIQUES[f'C{n:02}'] = 'TLA+/TLC: report model with invariants; reports of rejected documents and call histories validated against it'

NOTE = ('The specification is model checked within small bounds (documents of 3 to 6 lines, histories of 2 to 3 calls), and the '
        'implementation is bound to it by trace validation: every recorded document or history is replayed action by action '
        'in TLC and judged clause by clause. The bounded spaces are covered completely, larger inputs by seeded random '
        'generation only. Trusted: TLC, the recorder in harness/, and that the specification says what the property means.')

properties = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f'python3 check.py {p["id"]}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p["id"]}',
        'technique': TECHNIQUES[p['id']],
        'level': 'model_checking',
        'level_note': NOTE,
    } for p in properties],
    'not_applicable': [],
    'notes': 'No hooks: only the public interface of enolib is used. See DESIGN.md.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent=1)
    file.write('\n')
