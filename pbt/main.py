import argparse
import importlib
import json
import logging
import os
import pickle
import sys

from pbt import core

ASSUMPTIONS = [
    "Inputs outside the stated generators (sizes, alphabets) are not explored; absence of a violation is not a proof.",
    "Each run imports /repo's working tree with empty cache folders, in 4 interpreters with 4 hash seeds.",
]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--facet', action='append')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=float(os.environ.get('PBT_SCALE', '1')))
    ap.add_argument('--group', type=int)
    ap.add_argument('--out')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')

    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('pbt.props.' + a.prop.lower())
    import ieml
    here = os.path.realpath(os.path.dirname(ieml.__file__))
    if here != os.path.realpath(os.path.join(core.REPO, 'ieml')):
        print('harness error: ieml imported from %s' % here)
        return 2

    if a.replay:
        with open(a.replay) as fp:
            r = json.load(fp)
        h = r.get('hash_seed')
        if h is not None and h != os.environ.get('PYTHONHASHSEED'):
            os.environ['PYTHONHASHSEED'] = h
            os.execv(sys.executable, [sys.executable, '-m', 'pbt.main'] + sys.argv[1:])

    if a.group is None and not a.replay:
        argv = [a.prop, '--tier', tier, '--scale', str(a.scale)] + [x for n in a.facet or [] for x in ('--facet', n)]
        return report(a, mod, tier, seed, *core.run_groups(a.prop, tier, seed, argv, a.facet, a.scale))

    # build the parser tables once, before the workers fork
    from ieml.dictionary.script import script
    script('U:')
    from ieml.usl.parser import IEMLParser
    IEMLParser().parse('(S:)(B:)')

    if a.replay:
        f = [f for f in core.REGISTRY[a.prop] if f.name == r['facet']][0]
        try:
            core._run_case(f, r['case'], core.Ctx())
        except core.Violation as e:
            print(str(e))
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        print('replay: no violation')
        return 0

    results = core.run_property(a.prop, tier, seed, a.group, a.facet, a.scale)
    with open(a.out + '.tmp', 'wb') as fp:
        pickle.dump(results, fp)
    os.rename(a.out + '.tmp', a.out)
    return 0


def report(a, mod, tier, seed, facets, results, wall):
    errors = [r for r in results if r['error']]
    viols = [r for r in results if r['violation']]
    known = getattr(mod, 'known_findings', lambda: [])()
    core.write_evidence(a.prop, tier, seed, facets, results, wall, len(viols), known, ASSUMPTIONS +
                        list(getattr(mod, 'ASSUMPTIONS', [])))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    for r in viols:
        path = core.write_replay(a.prop, r['facet'], r['violation'])
        print('--- facet %s' % r['facet'])
        print('case: ' + json.dumps(r['violation']['case'], default=str)[:2000])
        print(r['violation']['message'][:4000])
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
    if viols:
        return 1
    if errors:
        for r in errors:
            print('harness error in facet %s shard %s:\n%s' % (r['facet'], r['shard'], r['error'][-3000:]))
        return 2
    ev = sum(r['evaluations'] for r in results)
    cut = sum(1 for r in results if r['truncated'])
    print('ok property=%s tier=%s seed=%d evaluations=%d wall=%.1fs%s' %
          (a.prop, tier, seed, ev, wall, ' (%d shards cut by the time budget)' % cut if cut else ''))
    return 0


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
