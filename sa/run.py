"""Command line: python3 -m sa.run Cxx [--tier quick|thorough] [--root /repo]

Decides one property of the sources below the root by static analysis.
Exit 0: every decided obligation holds (or is a listed known finding);
exit 1: a violation was found; exit 2: nothing could be decided.
"""

import argparse
import importlib
import json
import os
import sys
import time
import traceback

from . import core


def known_findings():
    path = os.path.join(core.VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if not line or line.startswith('#') or line.startswith('fixed:'):
                    continue
                # KNOWN-FINDING: property=<id> key=<key> <text>
                parts = line.split(None, 3)
                if len(parts) < 3 or parts[0] != 'KNOWN-FINDING:':
                    continue
                prop = parts[1].split('=', 1)[1]
                key = parts[2].split('=', 1)[1]
                out[(prop, key)] = parts[3] if len(parts) > 3 else ''
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--only')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(40000)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    c = core.Check(a.prop, tier, a.root)
    m = importlib.import_module('sa.checks.' + a.prop.lower())
    core.watch()
    for g in m.GROUPS:
        if a.only and a.only not in g.__name__:
            continue
        c.group = g.__name__
        core.arm()
        try:
            g(c)
        except core.Missing as e:
            c.missing.append(str(e))
        except core.TimeUp:
            c.errors.append('%s: time used up' % g.__name__)
        except (core.Dead, RecursionError) as e:
            c.errors.append('%s: %s' % (g.__name__, type(e).__name__))
        except Exception as e:
            c.errors.append('%s: %s: %s' % (g.__name__, type(e).__name__, str(e)[:200]))
            if a.verbose:
                print(traceback.format_exc()[-900:])
    core.signal.setitimer(core.signal.ITIMER_REAL, 0)
    c.rounding()
    known = known_findings()
    bad, listed = [], []
    for v in c.violations:
        k = (a.prop, v['key'])
        (listed if k in known else bad).append(v)
    wall = time.time() - t0
    dec = [o for o in c.obligations if o[2] is not None]
    ok = [o for o in dec if o[2]]
    und = [o for o in c.obligations if o[2] is None]
    rules = {}
    for o in c.obligations:
        r = rules.setdefault(o[0], {'held': 0, 'violated': 0, 'undecided': 0})
        r['held' if o[2] else 'undecided' if o[2] is None else 'violated'] += 1
    if a.verbose:
        for o in c.obligations:
            print('  %-9s %s  %s  %s' % ({True: 'ok', False: 'VIOLATED', None: 'undecided'}[o[2]], o[0], o[1], str(o[3])[:600] if o[2] is not True else ''))
        for n in c.notes:
            print('  note', n[:300])
    for n in c.missing:
        print('  not found', n)
    for n in c.errors:
        print('  analysis error', n)
    for v in listed:
        print('KNOWN-FINDING: property=%s key=%s %s' % (a.prop, v['key'], known[(a.prop, v['key'])]))
    ev = {
        'property': a.prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': getattr(m, 'LEVEL', 'other'),
        'coverage': {
            'explanation': 'Static analysis of the current sources (digest %s): %s' % (c.program.digest, (m.__doc__ or '').strip()),
            'obligations': len(c.obligations),
            'discharged': len(ok),
            'undecided': len(und),
            'rules': rules,
            'rule': '; '.join(sorted(rules)),
            'functions_analysed': sorted(x for x in c.functions if not x.startswith('ref.')),
            'effect_events_examined': c.events,
            'not_found': c.missing,
            'unsupported_constructs': c.notes[:40],
            'analysis_errors': c.errors,
            'undecided_obligations': ['%s at %s: %s' % (o[0], o[1], str(o[3])[:300]) for o in und][:40],
            'samples': ['%s at %s' % (o[0], o[1]) for o in ok][:40],
            'known_findings_seen': [v['key'] for v in listed],
        },
        'assumptions': list(getattr(m, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS,
        'wall_s': round(wall, 3),
        'violations': len(bad),
    }
    if not a.no_evidence:
        d = os.path.join(core.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, a.prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
            fp.write('\n')
    code = 0
    for v in bad:
        rep = '-'
        if not a.no_evidence:
            d = os.path.join(core.VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            rep = os.path.join(d, '%s-%d.json' % (a.prop, len(os.listdir(d))))
            with open(rep, 'w') as fp:
                json.dump(dict(v, property=a.prop, source_digest=c.program.digest), fp, indent=1)
                fp.write('\n')
        print('VIOLATION property=%s replay=%s' % (a.prop, rep))
        print('  rule %s at %s' % (v['rule'], v['where']))
        print('  %s' % v['detail'][:600])
        code = 1
    if not code and not dec:
        print('%s: nothing could be decided (%s)' % (a.prop, '; '.join(c.missing + c.errors) or 'no obligations'))
        code = 2 if not c.obligations else 0
    print('%s: %d obligations, %d hold, %d undecided, %d violated (%d listed), %.1f s' % (
        a.prop, len(c.obligations), len(ok), len(und), len(dec) - len(ok), len(listed), wall))
    return code


BASE_ASSUMPTIONS = [
    'documented behaviour of Python built-ins, numpy, click and os is as modelled in sa/models*.py',
    'real arithmetic: rounding, overflow and text formatting of floating point values are not modelled beyond the format strings',
    'obligations counted as undecided are not claimed',
]

if __name__ == '__main__':
    sys.exit(main())
