"""Writes MANIFEST.json and known_findings.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
IDS = [json.loads(l)['id'] for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
LEVEL = {}
exec(open(os.path.join(HERE, 'levels.py')).read()) if os.path.exists(os.path.join(HERE, 'levels.py')) else None
checks = []
for i in IDS:
    lv, note = LEVEL.get(i, ('exploration', 'executable contracts on the running code (bounded)'))
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                   'technique': 'contract-based deductive verification (SMT) of the functions in /repo, with executable contracts for replay and bounded stand-ins',
                   'level': lv, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "print(1)"', 'checks': checks, 'not_applicable': [],
           'notes': 'no hooks in /repo; fix: commits only (known_findings.json)'}, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
FIXED = [
 ('C11', '94ae742', 'pair classifications accumulated over score thresholds: at a later, higher threshold a datum stayed positive'),
 ('C09', '8e4f4b8', 'accuracy under a datum filter was divided by the number of all datums'),
 ('C12', '10f23f1', 'three overlapping masks: a pixel of a partially overlapped mask was not added to the accumulated mask and could be counted twice'),
 ('C12', '79be97c', 'two masks of the same label in one datum: the second overwrote the pixel counts of the first'),
 ('C10', '562c23a', 'ROCAUC lost the first curve segment when the first ranked scores of a label contain negatives and the curve starts at a score of 0'),
 ('C02', '7f82649', 'label ids compared with np.isclose: ids above 1e5 were conflated with their neighbours (also C05, C08, C11)'),
 ('C19', '9338742', 'context recall of a ground truth without statements divided by zero'),
 ('C20', 'e87f51a', 'a verdict that is a list or dict raised TypeError instead of being rejected as invalid response'),
 ('C16', '2fc399a', 'limit=0 returned every datum'),
 ('C14', 'e782d25', 'in-memory cache: a table written after buffered rows came out before them'),
 ('C04', '0634f55', 'recall points binned with floor(recall * 100): 29 of 100 ground truths recalled gave a curve of 29 instead of 30 points'),
 ('C15', 'a882cee', 'sorting a file cache of several tables into a memory cache returned no rows'),
 ('C14', 'cf7de24', 'a file cache whose path contains wildcard characters, such as data[1], kept only the rows of its last file'),
 ('C18', 'b53b981', 'an evaluator loaded from disk could not be filtered when a metadata field has a parametrised type, such as a timestamp with a time zone'),
]
json.dump({'findings': [], 'fixed': [f'fixed: property={p} {c} {w}' for p, c, w in FIXED]}, open(os.path.join(HERE, '..', 'known_findings.json'), 'w'), indent=1)
