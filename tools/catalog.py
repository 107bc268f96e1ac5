"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/catalog.py`."""

import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(pid, title, statement, text, why, files, mechanism, technique, note, observe=(),
         over=('inputs',), state=()):
    assert len(title) <= 80, title
    PROPS.append({
        'row': {
            'id': pid, 'title': title, 'statement': ' '.join(statement.split()),
            'quantifier': {'over': list(over), 'text': ' '.join(text.split())},
            'why_tests_cant': ' '.join(why.split()),
            'anchors': {
                'files': list(files),
                'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                'observe_at': list(observe), 'hook_needed': None}},
        'technique': technique, 'note': ' '.join(note.split())})


exec(open(os.path.join(VERIF, 'tools', 'catalog_data.py')).read())


def main():
    checks = []
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            fh.write(json.dumps(p['row']) + '\n')
    for p in PROPS:
        pid = p['row']['id']
        found = glob.glob(os.path.join(VERIF, 'checks', f'{pid.lower()}_*.py'))
        if not found:
            raise SystemExit(f'no check for {pid}')
        rel = os.path.relpath(found[0], VERIF)
        checks.append({
            'property': pid,
            'quick_cmd': f'python3 {rel} --tier quick',
            'thorough_cmd': f'python3 {rel} --tier thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    manifest = {
        'version': 1, 'setup_cmd': 'python3 -m vplib.build', 'checks': checks,
        'not_applicable': NOT_APPLICABLE,
        'notes': 'No hooks: every check drives the public Python interface of code built from '
                 '/repo\'s working tree (sources are copied and compiled below /verif/.build).'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
        json.dump(manifest, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
