"""Regenerate MANIFEST.json from the checks present in sa/checks."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, 'sa'), os.path.join(HERE, 'sa', 'checks')]
NA = {
    'C50': 'Bounds the error of an adaptive numerical integrator over runtime trajectories; no static argument over '
           'this source bounds floating-point integration error (the wiring into the integrator is decided in C31).',
    'C51': 'Statistical convergence of an iterative nonlinear fit on noisy data; depends on runtime data (the model, '
           'Jacobian and statistics formulas are decided in C20).',
    'C52': 'Existence and convergence of a numerical root search at run time inside a third-party human model (frames, '
           'targets and symmetry are decided in C13).',
    'C53': 'Floating-point accuracy of a LAPACK decomposition and resolution of a numeric sweep; runtime quantities '
           'outside the source (pairing is decided in C27 and ordering in C28).',
    'C54': 'Floating-point to text rounding is a runtime quantity (the grammar on both sides is decided in C22).',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sa', 'checks', i + '.py')):
        m = importlib.import_module(i)
        checks.append({
            'property': i,
            'quick_cmd': 'python3 sa/run.py --property %s --tier quick' % i,
            'thorough_cmd': 'python3 sa/run.py --property %s --tier thorough' % i,
            'technique': getattr(m, 'TECHNIQUE', 'static analysis: abstract interpretation (value-graph dataflow) of the '
                                 'current source, compared in algebraic normal form with the specification'),
            'level': 'other',
            'level_note': ' '.join((m.__doc__ or '').split())[:900] + ' Assumes: ' + '; '.join(
                getattr(m, 'ASSUMPTIONS', ['library contracts as modelled'])) + '.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Check not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Pure static analysis in Python 3 (standard library only); see DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
