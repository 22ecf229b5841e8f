"""Try planted bugs: python3 tools/plant.py ID... : patch applies, builds, stable tests pass, demo 0/nonzero, and which
checks report it (the property's own by default; --all runs every check; --no-tests skips build and tests).
Works on /repo and restores it; with --no-tests, on a copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **kw)


def stable():
    b = BASE
    for k in ('stable', 'passed', 'tests', 'pass'):
        if isinstance(b, dict) and k in b:
            return set(b[k])
    return set(b)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = {a for a in sys.argv[1:] if a.startswith('--')}
    ids = args or sorted(os.listdir(SEED))
    assert sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout == '', '/repo is not clean'
    repo, env = '/repo', dict(os.environ)
    if '--no-tests' in opts:
        repo = tempfile.mkdtemp(prefix='plant-') + '/repo'
        sh(['cp', '-a', '/repo', repo])
        env['IEML_REPO'] = repo
    for i in ids:
        d = os.path.join(SEED, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        out = []
        if '--no-tests' not in opts:
            r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', timeout=300)
            out.append('demo-clean=%d' % r.returncode)
            if r.returncode:
                print(r.stdout[-1500:], r.stderr[-1500:])
        r = sh(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')])
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr)
            continue
        try:
            if '--no-tests' not in opts:
                r = sh(['bash', '/opt/vp/build.sh'])
                out.append('build=%d' % r.returncode)
                with tempfile.TemporaryDirectory() as t:
                    sh(['bash', '/opt/vp/test.sh', t + '/o.json'])
                    got = set(json.load(open(t + '/o.json'))['passed'])
                lost = stable() - got
                out.append('tests=%s' % ('ok' if not lost else 'LOST %r' % sorted(lost)[:3]))
                r = sh(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', timeout=300)
                out.append('demo-bug=%d' % r.returncode)
            checks = [meta['property']]
            if '--all' in opts:
                checks = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
            if '--no-check' in opts:
                checks = []
            for c in checks:
                r = sh(['bash', 'check.sh', c, '--tier', 'quick'], cwd=HERE, timeout=900, env=env)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                out.append('%s=%s' % (c, 'CAUGHT' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else 'rc%d' % r.returncode))
        finally:
            sh(['git', '-C', repo, 'checkout', '--', '.'])
        print(i, *out, flush=True)
    if repo != '/repo':
        shutil.rmtree(os.path.dirname(repo))


main()
