"""Writes properties.jsonl and MANIFEST.json (kept in step with each other)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'sciencebeam_trainer_grobid_tools/'

PROPERTIES = []
CHECKS = []


def prop(
    id_, title, statement, over, quantifier, why, files, mechanism, technique, level_note,
    observe_at=()
):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, statement
    PROPERTIES.append({
        'id': id_,
        'title': title,
        'statement': statement,
        'quantifier': {'over': over, 'text': quantifier},
        'why_tests_cant': why,
        'anchors': {
            'files': [P + f for f in files],
            'mechanism': [{'name': n, 'where': P + w} for n, w in mechanism],
            'observe_at': list(observe_at),
            'hook_needed': None
        }
    })
    CHECKS.append({
        'property': id_,
        'quick_cmd': './check.sh %s quick' % id_,
        'thorough_cmd': './check.sh %s thorough' % id_,
        'evidence_file': 'evidence/%s.json' % id_,
        'technique': technique,
        'level': 'model_checking',
        'level_note': level_note
    })


ENUM_CLI = (
    'explicit enumeration of all documents up to a bound, run through the real command line tools, '
    'compared with a reference model'
)
ENUM_API = (
    'explicit enumeration of all inputs up to a bound, run through the real code, compared with a '
    'reference model'
)
BOUNDED = (
    'Exhaustive within the bounds written to the evidence file, on the real code of the working '
    'tree. '
)

with open(os.path.join(VERIF, 'tools', 'properties_source.py')) as fp:
    exec(fp.read())  # pylint: disable=exec-used

PROPERTIES.sort(key=lambda p: p['id'])
CHECKS.sort(key=lambda p: p['property'])
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fp:
    for p in PROPERTIES:
        fp.write(json.dumps(p) + '\n')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fp:
    json.dump({
        'version': 1,
        'setup_cmd': 'true',
        'checks': CHECKS,
        'not_applicable': NOT_APPLICABLE,
        'notes': (
            'No hooks in /repo: the scheduler and the fault injector work from outside (tracing, '
            'replaced os/builtins functions). ./check.sh <ID> replay <file> replays a violation. '
            'VERIF_REPO selects another tree, VERIF_BUDGET (s) limits a thorough run.'
        )
    }, fp, indent=1)
    fp.write('\n')
