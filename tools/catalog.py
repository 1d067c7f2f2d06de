"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/catalog.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = 'deterministic simulation with fault injection'

P = []          # (id, title, statement, over, text, why, files, mechanism, observe, level_note)
NA = []         # (id, ..., reason)


def prop(id, title, statement, over, text, why, files, mech, observe, note,
         hook=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': hook}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        NOTES[id] = note


NOTES = {}
SCHED = ('every interleaving of sends and deliveries (any number of frames in '
         'flight, in order), every number of connections and reconnections, every '
         'configuration of the codec, and every sequence of header sets')
EXISTING = ('no existing test runs a codec end to end: they cover the bit buckets, '
            'the Huffman tables and the LRU list with fixed data; shared codec '
            'state only goes wrong after long histories, evictions, lag between '
            'encoder and decoder, or at particular sizes')
DOMAIN = (' Header names are non-empty lower-case tokens (or the pseudo-headers '
          'the HAR reader makes); values have no leading or trailing blanks and may '
          'hold several items separated by NUL.')

exec(open(os.path.join(ROOT, 'tools', 'catalog_entries.py')).read())


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in P:
        if p['id'] not in NOTES:
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': '%s -B sim/check.py %s' % (PY, p['id']),
            'thorough_cmd': '%s -B sim/check.py %s --tier thorough' % (PY, p['id']),
            'technique': TECH + TECHNIQUE.get(p['id'], ''),
            'level': 'exploration',
            'level_note': NOTES[p['id']]})
    doc = {'version': 1,
           'setup_cmd': 'true',
           'hooks': {'guard': 'none (no hooks were needed)',
                     'enable': 'nothing to enable: every seam used exists in the '
                               'code or is patched at run time by the simulator',
                     'source_commits': []},
           'checks': checks, 'not_applicable': NA,
           'notes': 'Run from /verif. VERIF_SEED decides every run; VERIF_TIER or '
                    '--tier decides how many runs are made. '
                    'sim/check.py ID --replay FILE replays a violation.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'checks', len(NA), 'n/a')


main()
