"""Regenerates known-findings.json (fixed entries) and MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [
 ('7d0d58a', ['C13', 'C03'], 'nodal results of complex cases were stored and returned with only half of their components'),
 ('8974f03', ['C10'], 'iterating a File raised TypeError'),
 ('2dd954c', ['C10'], 'repr of a File with more than one data object raised or listed one object'),
 ('b4a9499', ['C09'], 'close_all_files raised "set changed size during iteration"'),
 ('4519511', ['C15', 'C10'], 'lower-level data objects were not given their top-level object, so coordinates could not be transformed'),
 ('35ff6dc', ['C06'], 'element types of previously converted files were used for elements of later files'),
 ('b33cd16', ['C02'], 'supported record names missing from the allowed list were not recognised as headers when skipping'),
 ('0080547', ['C22'], 'write_record raised / wrote lines without their record name'),
 ('caec7b0', ['C22'], 'blank line written after a string following a partly filled line'),
 ('a32fef6', ['C22', 'C01'], 'last digit lost when the last line has no newline'),
 ('4d6ed76', ['C04'], 'WDRESREF records without a reference type had ranges of a previous record'),
 ('6ee9c9a', ['C20'], 'VtuWriter modified the connectivity and result arrays of the caller'),
 ('5a98fc8', ['C20'], 'VtuWriter wrote big-endian arrays under a little-endian declaration'),
 ('5397e4e', ['C19'], 'names with quotes, & or < made malformed XML'),
 ('7313ad3', ['C08'], 'lower case file names were rejected or gave other group names'),
 ('af23e6c', ['C02'], 'skipping TEXT/DATE records whose lines do not start with blanks'),
 ('dcc64e9', ['C02'], 'skipping the final IEND record read past the end of the file'),
 ('d7b11e5', ['C03', 'C02'], 'section records without optional fields delivered values of the next record'),
 ('f2ef204', ['C13'], 'disconnected node results when some nodes are not used by elements'),
 ('e8ba366', ['C19'], 'new_piece with unusable arrays left XML elements open'),
 ('fad0699', ['C02'], 'TSLAYER records were not skipped with their text lines'),
 ('c93e506', ['C15'], 'numpy integers as hierarchy level scaled the coordinates'),
 ('1bed657', ['C15'], 'transformation to level one of superelements that do not exist'),
 ('da70015', ['C08'], 'names that only start like interface file names were accepted'),
 ('b42e191', ['C09'], 'closed data objects reported unknown result types instead of being closed'),
 ('d86fd6d', ['C17'], 'results of body number zero were those of all bodies'),
]
NOTE = {}


def main():
    out = []
    for c, ps, what in FIX:
        for p in ps:
            out.append({'property': p, 'status': 'fixed', 'commit': c,
                        'what': what,
                        'entry': 'fixed: property=%s %s %s' % (p, c, what)})
    with open(os.path.join(HERE, 'known-findings.json'), 'w') as f:
        json.dump({'findings': out}, f, indent=1)
        f.write('\n')
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      'properties.jsonl'))]
    from importlib import import_module
    import sys
    sys.path.insert(0, HERE)
    try:
        notes = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
    except OSError:
        notes = {}
    checks = []
    for p in props:
        i = p['id']
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': './run.py %s quick' % i,
            'thorough_cmd': './run.py %s thorough' % i,
            'technique': n.get('technique', 'contract-based deductive '
                               'verification of the real Python code '
                               '(z3), with bounded stand-ins'),
            'level': n.get('level', 'exploration'),
            'level_note': n.get('note', 'bounded check on generated files '
                                'against an independent oracle')})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py',
         'checks': checks, 'not_applicable': [],
         'hooks': {'guard': 'FREESIF_VERIF (unused: no hooks were needed)',
                   'enable': 'nothing to enable', 'source_commits': []},
         'notes': 'See DESIGN.md. run.py <ID> [quick|thorough] is the only '
         'entry point; known-findings.json lists the repaired defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
