"""python3 sa/run.py --property C01 [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))
VERIF = os.path.dirname(HERE)

import an  # noqa: E402
from project import AnalysisBroken  # noqa: E402


def known_findings():
    """Known findings: 'known: property=<id> key=<rule>|<construct> :: <text>'."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known:'):
                head, _, text = line[len('known:'):].partition('::')
                fields = dict(x.split('=', 1) for x in head.strip().split(' ', 1) if '=' in x)
                out.append((fields['property'], fields['key'].strip(), text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = a.property
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evp = os.path.join(VERIF, 'evidence', prop + '.json')
    try:
        ctx = an.Ctx(prop, a.tier, seed)
        mod = importlib.import_module(prop)
        mod.check(ctx)
    except AnalysisBroken as e:
        print('ANALYSIS BROKEN property=%s: %s' % (prop, e))
        return 2
    except (Exception, RecursionError) as e:
        # a construct outside the modelled language ends the check: what follows is undecided
        if os.environ.get('SA_DEBUG'):
            import traceback
            traceback.print_exc()
        ctx.obs.append(an.Obligation('followed', 'rest of the check', an.UNK, ('%s: %s' % (type(e).__name__, e))[:300], ''))
    import ring
    held = [o for o in ctx.obs if o.verdict == an.EQ]
    bad = [o for o in ctx.obs if o.verdict == an.DIFF]
    unk = [o for o in ctx.obs if o.verdict == an.UNK]
    known = {k: t for p, k, t in known_findings() if p == prop}
    listed = [o for o in bad if o.key() in known]
    fresh = [o for o in bad if o.key() not in known]
    funcs = set()
    sites = set()
    lines = set()
    steps = 0
    for x in ctx.analyses:
        funcs |= x.I.funcs_seen
        sites |= x.I.callsites
        lines |= x.I.visited
        steps += x.I.steps
    funcs |= set(ctx.extra_funcs)
    sites |= ctx.extra_sites
    lines |= ctx.extra_lines
    ev = {
        'property': prop, 'tier': a.tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': (mod.__doc__ or '').strip(),
            'rules': sorted({o.rule for o in ctx.obs}),
            'obligations': len(ctx.obs), 'discharged': len(held),
            'undecided': len(unk), 'violated': len(bad), 'known_findings': len(listed),
            'functions_analysed': sorted('%s.%s' % f for f in funcs),
            'call_sites': len(sites), 'statements_visited': len(lines),
            'abstract_steps': steps,
            'undecided_list': [{'rule': o.rule, 'construct': o.construct, 'why': o.detail} for o in unk],
            'samples': [{'rule': o.rule, 'construct': o.construct, 'verdict': o.verdict,
                         'detail': an.clip(o.detail, 300), 'where': o.where}
                        for o in (bad + held)[:12]],
            'modules': {m.name: m.digest[:16] for m in ctx.project.modules.values()},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + ctx.assume,
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d hold, %d violated, %d undecided (%d functions, %d call sites, %.1f s)'
          % (prop, len(ctx.obs), len(held), len(bad), len(unk), len(funcs), len(sites), ev['wall_s']))
    for o in unk:
        print('UNDECIDED %s [%s] %s: %s' % (prop, o.rule, o.construct, o.detail))
    if a.verbose:
        for o in held:
            print('  ok [%s] %s: %s' % (o.rule, o.construct, an.clip(o.detail, 150)))
    for o in listed:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o.construct, known[o.key()]))
    if fresh:
        rp = os.path.join(VERIF, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as f:
            for o in fresh:
                t = '[%s] %s\n  at %s\n  %s\n' % (o.rule, o.construct, o.where, o.detail)
                f.write(t)
                print('VIOLATED ' + t.rstrip())
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    minimum = getattr(mod, 'MINIMUM', 1)
    if len(held) + len(listed) == 0:
        print('ANALYSIS BROKEN property=%s: nothing could be decided' % prop)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
