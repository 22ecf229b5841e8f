"""Runner shared by every check: generated cases, shrinking, replay files, evidence.

A property module registers facets with @facet(...).  A facet is a Hypothesis strategy producing a
JSON-serialisable case, plus a function check(case, ctx) that drives the real code and raises Violation
when the oracle disagrees.  Every random choice lives in the strategy, so a case is replayed
(`check.sh ID --replay FILE`) without Hypothesis.
"""
import hashlib
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')   # hypothesis lives there
REPO = os.environ.get('IEML_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get('IEML_PBT_WORK') or tempfile.mkdtemp(prefix='ieml-pbt.')
SCRATCH = os.path.join(WORK, 'scratch')
os.makedirs(SCRATCH, exist_ok=True)

import hypothesis                                                          # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings                 # noqa: E402
from hypothesis import strategies as st                                    # noqa: E402,F401

SHRINK_BUDGET_S = 40.0


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    """The machinery itself is broken: never a verdict about the code."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_eq(got, want, what):
    if got != want:
        raise Violation("%s: got %s, expected %s" % (what, _short(got), _short(want)))


def _short(x, n=700):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...(%d chars)' % len(s)


class Ctx:
    """Measured coverage of one worker."""
    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.distinct = set()
        self.samples = []
        self.discards = 0
        self._case = None
        self._key = None

    def begin(self, case):
        self.evaluations += 1
        self._case = case
        self._key = None

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, key=None):
        """Mark the current case non-trivial (counted once per distinct case)."""
        if key is None:
            key = json.dumps(self._case, sort_keys=True, ensure_ascii=True, default=str)
        h = hashlib.blake2b(str(key).encode('utf8', 'surrogatepass'), digest_size=8).digest()
        if h not in self.distinct:
            self.distinct.add(h)
            if len(self.samples) < 3 or (len(self.samples) < 6 and len(self.distinct) % 97 == 0):
                txt = json.dumps(self._case, ensure_ascii=True, default=str)
                if len(txt) < 1500:
                    self.samples.append(self._case)


class Facet:
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, shards=None, corpus=()):
        self.prop, self.name, self.strategy, self.check = prop, name, strategy, check
        self.quick, self.thorough, self.rule, self.shards = quick, thorough, rule, shards
        self.corpus = list(corpus)


REGISTRY = {}


def facet(prop, name, strategy, quick, thorough, rule, shards=None, corpus=()):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            Facet(prop, name, strategy, fn, quick, thorough, rule, shards, corpus))
        return fn
    return deco


def scratch_dir(prefix='case'):
    return tempfile.mkdtemp(prefix=prefix + '-', dir=SCRATCH)


class scratch:
    """with scratch() as d: a directory that is removed afterwards."""
    def __init__(self, prefix='case'):
        self.prefix = prefix

    def __enter__(self):
        self.d = scratch_dir(self.prefix)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        return False


class Hang(BaseException):
    pass


CASE_LIMIT_S = int(os.environ.get('PBT_CASE_LIMIT_S', '200'))
# how many times the base number of cases the quick tier of the cheap properties explores
QUICK_SCALE = {'C01': 4, 'C02': 6, 'C03': 5, 'C04': 12, 'C05': 10, 'C10': 6, 'C11': 8, 'C12': 6, 'C08': 2}

_INFRA = (ImportError, MemoryError, SyntaxError, NotImplementedError)


def _run_case(f, case, ctx):
    """Run one case, turning everything the code under test does wrong into a Violation."""
    ctx.begin(case)

    def hung(*_):
        raise Hang('the case was still running after %d s' % CASE_LIMIT_S)
    old = signal.signal(signal.SIGALRM, hung)
    signal.alarm(CASE_LIMIT_S)
    try:
        try:
            f.check(case, ctx)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    except Hang as e:
        # a case takes about a second at most: two orders of magnitude more is a loop
        raise Violation('%s\n%s' % (e, traceback.format_exc(limit=-6)))
    except (Violation, HarnessError):
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except _INFRA as e:
        frames = traceback.extract_tb(e.__traceback__)
        if frames and frames[-1].filename.startswith(os.path.join(REPO, 'ieml')) and not isinstance(e, MemoryError):
            raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
        raise HarnessError(traceback.format_exc())
    except OSError as e:
        if e.errno in (28, 24, 12):          # disk full, fds, memory: not a verdict
            raise HarnessError(traceback.format_exc())
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))
    except Exception as e:
        raise Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)))


def _seed_for(f, shard, seed):
    return zlib.crc32(('%s/%s/%d/%d' % (f.prop, f.name, shard, seed)).encode()) + (seed << 32)


def _worker(f, shard, nshards, n, seed, deadline, tier, out):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    os.environ['PBT_SHARD'] = str(shard)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2) if not os.environ.get('PBT_DEBUG') else None
    os.dup2(devnull, 1) if not os.environ.get('PBT_DEBUG') else None
    ctx = Ctx()
    res = {'facet': f.name, 'shard': shard, 'violation': None, 'error': None, 'truncated': False}
    state = {'first_fail': None, 'failing': {}, 'last': None, 'msg': None}

    def body(case):
        key = json.dumps(case, sort_keys=True, default=str)
        now = time.time()
        if state['first_fail'] is not None and now - state['first_fail'] > SHRINK_BUDGET_S \
                and key not in state['failing']:
            return                                    # shrink budget spent: keep the best case found
        if state['first_fail'] is None and now > deadline:
            res['truncated'] = True                   # time is never a verdict: the rest is unexplored
            return
        try:
            _run_case(f, case, ctx)
        except Violation as e:
            if state['first_fail'] is None:
                state['first_fail'] = now
            state['failing'][key] = str(e)
            if state['last'] is None or len(key) <= len(json.dumps(state['last'], sort_keys=True, default=str)):
                state['last'], state['msg'] = case, str(e)
            raise

    try:
        if shard == 0:
            for case in f.corpus:                     # fixed seeds of the corpus first
                body(case)
        if n > 0:
            strat = f.strategy(tier) if callable(f.strategy) else f.strategy
            test = given(strat)(body)
            test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                            report_multiple_bugs=False, derandomize=False,
                            phases=(Phase.generate, Phase.shrink),
                            suppress_health_check=list(HealthCheck))(test)
            test = hypothesis.seed(_seed_for(f, shard, seed))(test)
            test()
    except Violation as e:
        res['violation'] = {'case': state['last'], 'message': state['msg'] or str(e)}
    except HarnessError as e:
        res['error'] = str(e)
    except BaseException as e:
        if state['last'] is not None:
            # the failure was observed but Hypothesis could not reproduce it (state carried between calls)
            res['violation'] = {'case': state['last'], 'message': (state['msg'] or '') +
                                '\n[observed; not reproduced in isolation: %s]' % type(e).__name__}
        else:
            res['error'] = traceback.format_exc()
    res.update(evaluations=ctx.evaluations, labels=ctx.labels, distinct=ctx.distinct, samples=ctx.samples)
    tmp = out + '.tmp'
    with open(tmp, 'wb') as fp:
        pickle.dump(res, fp)
    os.rename(tmp, out)
    os._exit(0)


GROUPS = 4


def hash_seed(seed, group):
    """The hash seed of a group of workers: the order of sets of texts is part of what is explored."""
    return str(((seed - 1) * GROUPS + group) % 4294967296)


def tasks_of(prop, tier, only, scale):
    """[(facet, shard, number of shards, cases, group)], the heaviest interleaved first."""
    tasks = []
    for i, f in enumerate(f for f in REGISTRY[prop] if only is None or f.name in only):
        n = int((f.quick * QUICK_SCALE.get(prop, 1) if tier == 'quick' else f.thorough) * scale)
        ns = f.shards or (4 if tier == 'quick' and prop not in QUICK_SCALE else 8)
        ns = max(1, min(ns, n))
        for sh in range(ns):
            tasks.append((f, sh, ns, max(1, n // ns), (i + sh) % GROUPS))
    tasks.sort(key=lambda t: (t[1], t[0].name))
    return tasks


def run_groups(prop, tier, seed, argv, only=None, scale=1.0):
    """Run every group of workers in an interpreter of its own, with its own hash seed and its own folders."""
    t0 = time.time()
    outdir = tempfile.mkdtemp(prefix='groups-', dir=WORK)
    jobs = int(os.environ.get('PBT_JOBS', '0')) or os.cpu_count() or 4
    procs = {}
    for g in sorted({t[4] for t in tasks_of(prop, tier, only, scale)}):
        d = os.path.join(WORK, 'g%d' % g)
        out = os.path.join(outdir, '%d.pkl' % g)
        env = dict(os.environ, PYTHONHASHSEED=hash_seed(seed, g), IEML_PBT_WORK=d, PBT_JOBS=str(max(1, jobs // GROUPS)),
                   PBT_T0=repr(t0))
        for k, n in (('XDG_CACHE_HOME', 'cache'), ('XDG_DATA_HOME', 'data'), ('HOME', 'home')):
            env[k] = os.path.join(d, n)
            os.makedirs(env[k])
        log = open(os.path.join(outdir, '%d.log' % g), 'wb')
        procs[g] = (subprocess.Popen([sys.executable, '-m', 'pbt.main'] + argv + ['--group', str(g), '--out', out],
                                     env=env, cwd=VERIF, stdout=log, stderr=log, start_new_session=True), out, log)
    results, alive = [], dict(procs)

    def end(p):
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()

    def stop_all(*_):
        for p, _, _ in procs.values():
            end(p)
        os._exit(2)
    signal.signal(signal.SIGTERM, stop_all)
    signal.signal(signal.SIGINT, stop_all)
    while alive:
        time.sleep(0.02)
        for g in list(alive):
            p, out, log = alive[g]
            if p.poll() is None:
                continue
            del alive[g]
            if os.path.exists(out):
                with open(out, 'rb') as fp:
                    rs = pickle.load(fp)
            else:
                with open(log.name, 'rb') as fp:
                    tail = fp.read()[-3000:].decode('utf8', 'replace')
                rs = [{'facet': None, 'shard': None, 'violation': None, 'truncated': False, 'evaluations': 0, 'labels': {},
                       'distinct': set(), 'samples': [], 'error': 'group %d died (exit code %s)\n%s' % (g, p.returncode, tail)}]
            results += rs
            if any(r['violation'] for r in rs):
                for p, _, _ in alive.values():      # one shrunk counterexample is enough
                    end(p)
                alive = {}
                break
    facets = [f for f in REGISTRY[prop] if only is None or f.name in only]
    return facets, results, time.time() - t0


def run_property(prop, tier, seed, group, only=None, scale=1.0, jobs=None):
    t0 = float(os.environ.get('PBT_T0') or time.time())
    jobs = jobs or int(os.environ.get('PBT_JOBS', '0')) or os.cpu_count() or 4
    budget = float(os.environ.get('PBT_BUDGET_S', '420' if tier == 'quick' else '3000'))
    deadline = t0 + budget
    hard = deadline + SHRINK_BUDGET_S * 2 + 60
    tasks = [t[:4] for t in tasks_of(prop, tier, only, scale) if t[4] == group]
    mp = multiprocessing.get_context('fork')
    pending, running, results = list(tasks), {}, []
    outdir = tempfile.mkdtemp(prefix='res-', dir=WORK)
    k = 0
    stop = False
    while (pending and not stop) or running:
        while pending and len(running) < jobs and not stop:
            f, sh, ns, n = pending.pop(0)
            out = os.path.join(outdir, '%d.pkl' % k)
            k += 1
            p = mp.Process(target=_worker, args=(f, sh, ns, n, seed, deadline, tier, out))
            p.start()
            running[p] = (f, sh, out)
        time.sleep(0.02)
        for p in list(running):
            f, sh, out = running[p]
            if not p.is_alive():
                p.join()
                del running[p]
                if os.path.exists(out):
                    with open(out, 'rb') as fp:
                        r = pickle.load(fp)
                else:
                    r = {'facet': f.name, 'shard': sh, 'violation': None, 'truncated': False,
                         'error': 'worker died (exit code %s)' % p.exitcode, 'evaluations': 0, 'labels': {},
                         'distinct': set(), 'samples': []}
                results.append(r)
                if r['violation']:
                    stop = True                      # one shrunk counterexample is enough
            elif time.time() > hard or stop:
                grace = running[p]
                if time.time() > hard or not os.environ.get('PBT_KEEP'):
                    try:
                        os.kill(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.join()
                    del running[p]
                    results.append({'facet': f.name, 'shard': sh, 'violation': None, 'error': None, 'truncated': True,
                                    'evaluations': 0, 'labels': {}, 'distinct': set(), 'samples': []})
    for r in results:
        if r['violation']:
            r['violation']['hash_seed'] = os.environ.get('PYTHONHASHSEED')
    return results


def write_replay(prop, facet_name, v):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(v['case'], sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (prop, facet_name, h))
    with open(path, 'w') as fp:
        json.dump({'property': prop, 'facet': facet_name, 'case': v['case'], 'message': v['message'],
                   'hash_seed': v.get('hash_seed'),
                   'replay_cmd': 'bash check.sh %s --replay %s' % (prop, path)}, fp, indent=1, default=str)
    return path


def write_evidence(prop, tier, seed, facets, results, wall, violations, known, assumptions):
    per, labels, samples, distinct, trunc = {}, {}, [], set(), 0
    for f in facets:
        rs = [r for r in results if r['facet'] == f.name]
        ds = set().union(*[r['distinct'] for r in rs]) if rs else set()
        distinct |= {(f.name, d) for d in ds}
        lab = {}
        for r in rs:
            for k, v in r['labels'].items():
                lab[k] = lab.get(k, 0) + v
        per[f.name] = {'evaluations': sum(r['evaluations'] for r in rs), 'distinct_nontrivial': len(ds),
                       'rule': f.rule, 'labels': dict(sorted(lab.items())),
                       'shards_cut_by_time_budget': sum(1 for r in rs if r['truncated'])}
        for r in rs:
            for s in r['samples'][:2]:
                if len([x for x in samples if x['facet'] == f.name]) < 3:
                    samples.append({'facet': f.name, 'case': s})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(p['evaluations'] for p in per.values()),
            'distinct_nontrivial': len(distinct),
            'rule': ' || '.join('%s: %s' % (k, v['rule']) for k, v in per.items()),
            'samples': samples,
            'facets': per,
        },
        'assumptions': assumptions,
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    if known:
        ev['coverage']['known_findings'] = known
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1, default=str)
        fp.write('\n')
