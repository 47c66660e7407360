"""Rewrites MANIFEST.json: a check for each property that has a module in checks/."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
ORACLE = {
    'C01': 'independent scalar reference of nearest crossings',
    'C02': 'invariants over the recorded tree, reconstruction of each child from its parent, and tree/no-tree differential',
    'C03': 'energy balance recomputed from the recorded rays and the hit surface',
    'C04': 'metamorphic: rigid motion of scene and rays',
    'C05': 'metamorphic: permutation, partition, repetition, truncation of traces',
    'C06': 'stateful model of the frame tree over operation histories',
    'C07': 'independent scalar reference of crossings',
    'C08': 'independent scalar reference of crossings and apertures',
    'C09': 'independent scalar gradients',
    'C10': 'vector law of reflection, focus and retro-reflection relations',
    'C11': 'scalar Snell and Fresnel reference, reversibility',
    'C12': 'exact support plus distribution-free statistical bounds with error below 1e-9',
    'C13': 'exact support plus statistical bounds with error below 1e-9',
    'C14': 'stateful model: list of records',
    'C15': 'rotation axioms and independent axis-angle reference',
    'C16': 'point-on-surface and covering oracles',
    'C17': 'stateful model of the hit log over trace/reset/move histories, and differential histograms',
    'C18': 'reference scene built from the stated dimensions, traced by the scalar reference',
    'C19': 'geometric aiming relation over aiming histories, reference layout',
    'C20': 'scalar lens geometry, inside/outside index invariant, paraxial focus',
    'C21': 'scalar ray/triangle reference',
    'C22': 'scalar membership reference',
    'C23': 'reference trace with generated culling declarations',
    'C24': 'closed formula',
    'C25': 'expected segment multiset from the recorded tree, over scene histories',
    'C26': 'stateful model of what is shown, over scene histories',
    'C27': 'stateful model of the items and tags, over widget histories',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(here, 'checks', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': './run_check.sh %s quick' % i,
            'thorough_cmd': './run_check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'property-based testing with generated inputs and shrinking; oracle: ' + ORACLE.get(i, 'reference model'),
            'level': 'exploration',
            'level_note': 'Generated-input search: the property held on every generated case within the bounds stated in the '
                          'evidence file; it is not a proof. Trusts the reference oracle in /verif/vt, the Python 2 to 3 '
                          'translation of the tree (the same as the build uses) and the NumPy of the sandbox.',
        })
    else:
        na.append({'property': i, 'reason': 'not built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. fix: commits are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
