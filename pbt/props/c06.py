"""C06 — Reading is total and pure: any text gives one USL or CannotParse, whatever was read before, by whom, and whatever
happened to the parser cache."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

from pbt.core import facet, expect, expect_eq, scratch, st, REPO, Violation
from pbt import gen_db as D
from pbt import ref_dict as RD
from pbt import gen_dict as GD

from ieml.dictionary.script import Script, script
from ieml.exceptions import CannotParse, TooManySingularSequences
from ieml.usl import USL
from ieml.usl.decoration.instance import InstancedUSL
from ieml.usl.decoration.parser.parser import PathParser
from ieml.usl.decoration.path import UslPath
from ieml.usl.parser import IEMLParser
from ieml.usl.usl import usl

TOK = ['E:', 'U:', 'M:', 'O:', 's.', 'b.', 'wo.', 'E:A:.', 'E:S:.', 'E:U:.', 'E:.b.-', 'E:.n.-', 'E:.b.E:S:.-', '(', ')', '()',
       '[', ']', '!', '>', 'm1(', 'm2(', 'm0(', 'm11(', '[> "x"]', '[>content "x"]', '[>flexion>b. "x"]',
       '[>content>constant>s. "a\\"b"]', '[>role>! E:A:.>content "q"]', '[>group_0>S: "k"]', '[>constant>s. "k"]', '+', '&', '-',
       '.', ':', '\u2019', "'", ',', '_', ';', ' ', '\n', '#x#', '"', 'm', 'm1', '1', '\u00e9', 'I:', 'F:', 'E:+U:', 'E:.-',
       "wo.y.-'", 'm1(E:)', 'I:I:I:.I:I:I:.-', '[E:A:.', 'E:.wa.-', 'E:.f.-', 'E:S:U:.']
PTOK = ['>', 'role', 'content', 'flexion', 'constant', 'group_0', 'group_1', 'group_2', 'group_3', ' 1', ' 2', '! ', '!', 'E:A:.',
        'E:S:. ', 'S:', 'b.', 's.', ' ', 'E:.b.-', 'agent', 'process', "wo.y.-'", '(', '\u00e9', '1', 'group_', 'E:+U:']


@st.composite
def mutated(draw):
    toks = draw(D.keys())['text'].replace('(', ' ( ').replace(')', ' ) ').split()
    for _ in range(draw(st.integers(1, 3))):
        if not toks:
            break
        i = draw(st.integers(0, len(toks) - 1))
        h = draw(st.integers(0, 3))
        if h == 0:
            del toks[i]
        elif h == 1:
            toks.insert(i, draw(st.sampled_from(TOK)))
        elif h == 2:
            toks[i] = draw(st.sampled_from(TOK))
        else:
            j = draw(st.integers(0, len(toks) - 1))
            toks[i], toks[j] = toks[j], toks[i]
    return ' '.join(toks)


@st.composite
def scrambled(draw):
    t = draw(D.keys())['text']
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(t)))
        h = draw(st.integers(0, 2))
        if h == 0:
            t = t[:i] + t[i + 1:]
        elif h == 1:
            t = t[:i] + draw(st.sampled_from(TOK)) + t[i:]
        else:
            t = t[:i] + draw(st.characters(codec='utf-8')) + t[i + 1:]
    return t


soup = st.lists(st.sampled_from(TOK), max_size=14)
texts = st.one_of(soup.map(' '.join), soup.map(''.join), mutated(), mutated(), scrambled(),
                  st.text(st.characters(codec='utf-8'), max_size=30))


def outcome(f, t):
    """What reading gives: the kind and text of the object, or the error."""
    try:
        r = f(t)
    except CannotParse:
        return 'CannotParse', None
    except TooManySingularSequences:
        return 'TooManySingularSequences', None
    return r.__class__.__name__, str(r), r


SHARED = []


def parser():
    if not SHARED:
        SHARED.append(IEMLParser())
    return SHARED[0]


@facet('C06', 'total', lambda tier: texts, 4000, 300000,
       'arbitrary texts: token sequences, mutated USL texts of every kind, random characters; non-trivial: at least three '
       'tokens of the language')
def total(t, ctx):
    if sum(1 for x in t.replace('(', ' ( ').split() if any(c in x for c in ':.()[]>!')) >= 3:
        ctx.nontrivial()
    P = parser()
    a = outcome(P.parse, t)
    ctx.label(a[0])
    expect_eq(outcome(P.parse, t)[:2], a[:2], 'second reading of %r' % t)
    expect_eq(outcome(usl, t)[:2], a[:2], 'usl(%r)' % t)
    if a[1] is None:
        return
    expect(isinstance(a[2], (Script, USL)), 'reading %r gives a %s', t, a[0])
    if not isinstance(a[2], InstancedUSL):
        for path, v in (a[2].iter_structure_path() if not isinstance(a[2], Script) else []):
            expect(v.get_literal() is None, 'a literal %r at %s of %r, which has no decoration', v.get_literal(), path, t)
        if a[1]:
            b = outcome(P.parse, a[1])
            expect_eq(b[1], a[1], 'canonical text of %r read again' % t)
    if not isinstance(a[2], Script):
        try:
            a[2].check()
            ctx.label('valid')
        except ValueError:
            pass


@facet('C06', 'scripts', lambda tier: st.one_of(st.lists(st.sampled_from(TOK), max_size=8).map(''.join),
                                                 D.morpheme_keys().map(lambda k: k['spell']).flatmap(
    lambda t: st.tuples(st.integers(0, len(t)), st.sampled_from(TOK), st.integers(0, 2)).map(
        lambda x: t[:x[0]] + (x[1] if x[2] else '') + t[x[0] + (x[2] != 1):]))), 2400, 100000,
       'arbitrary texts read as a morpheme; non-trivial: at least two layer marks')
def scripts(t, ctx):
    if sum(t.count(c) for c in ":.-',_;") > 1:
        ctx.nontrivial()
    a = outcome(script, t)
    ctx.label(a[0])
    expect_eq(outcome(script, t)[:2], a[:2], 'second reading of %r' % t)
    if a[1] is not None:
        expect(isinstance(a[2], Script), 'script(%r) is a %s', t, a[0])
        expect_eq(outcome(script, a[1])[1], a[1], 'canonical text of %r read again' % t)


@st.composite
def path_text(draw):
    t = ''
    if draw(st.booleans()):
        t += '>role>' + draw(st.sampled_from(['', '! '])) + ' '.join(draw(st.lists(st.sampled_from(ROLES), min_size=1, max_size=3)))
    if draw(st.booleans()):
        t += '>content' if draw(st.booleans()) else '>flexion'
    t += draw(st.sampled_from(['', '', '>constant', '>group_0 1', '>group_1 2', '>group_2 1']))
    if draw(st.booleans()):
        t += '>' + draw(st.sampled_from(['S:', 'E:A:.', 'b.', "wo.y.-'"]))
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        i = draw(st.integers(0, len(t)))
        t = t[:i] + draw(st.sampled_from(PTOK + [''])) + t[i + draw(st.integers(0, 3)):]
    return t or '>'


ROLES = ['E:A:.', 'E:S:.', 'E:.b.-', 'wo.', 'E:.n.-']


@facet('C06', 'paths', lambda tier: st.one_of(path_text(), path_text(), path_text(),
                                              st.lists(st.sampled_from(PTOK), max_size=10).map(''.join)), 2400, 100000,
       'arbitrary texts read as a path; non-trivial: a separator and a keyword')
def paths(t, ctx):
    if '>' in t and any(k in t for k in ('role', 'content', 'flexion', 'constant', 'group')):
        ctx.nontrivial()
    if not SHARED[1:]:
        parser()
        SHARED.append(PathParser())
    a = outcome(SHARED[1].parse, t)
    ctx.label(a[0])
    expect_eq(outcome(SHARED[1].parse, t)[:2], a[:2], 'second reading of %r' % t)
    if a[1] is not None:
        expect(isinstance(a[2], UslPath), 'a path is a %s', a[0])


# ---- sequences: what was read before changes nothing ----
@st.composite
def good(draw):
    k = draw(D.keys())
    return [k['spell'], k['text'], '"' in k['text']]


@st.composite
def sequences(draw, lo=3, hi=6):
    items = draw(st.lists(good(), min_size=lo, max_size=hi))
    bad = [[g[0] + draw(st.sampled_from(['(', ')', ' [', '!', ' [>content>constant>s.U:U:.- "x"]', ' >'])), None, False]
           for g in items[:draw(st.integers(0, 3))]]
    order = draw(st.lists(st.integers(0, len(items + bad) - 1), min_size=4, max_size=12))
    return {'items': items + bad, 'order': order}


def literals(u):
    if isinstance(u, Script):
        return []
    return [str(p) for p, v in u.iter_structure_path() if v.get_literal() is not None]


@facet('C06', 'sequence', lambda tier: sequences(), 1200, 40000,
       'sequences of readings, valid (decorated or not) and invalid, with one parser; non-trivial: an error or a decorated '
       'text is followed by a valid one')
def sequence(c, ctx):
    seq = [c['items'][i] for i in c['order']]
    if any((a[1] is None or a[2]) and b[1] is not None for a, b in zip(seq, seq[1:])):
        ctx.nontrivial()
    P = parser()
    kept = []
    for t, want, deco in seq:
        try:
            u = P.parse(t)
        except CannotParse:
            expect(want is None, '%r cannot be parsed after %r', t, [s[0] for s in seq])
            ctx.label('error')
            continue
        expect(want is not None, '%r was read as %r', t, str(u))
        expect_eq(str(u), want, 'reading of %r' % t)
        expect(isinstance(u, InstancedUSL) == deco, '%r is a %s', t, u.__class__.__name__)
        expect_eq(literals(u), [], 'literals left in %r after reading it' % t)
        kept.append((u, want))
    for u, want in kept:
        expect_eq(str(u), want, 'an USL after other readings')
        expect_eq(literals(u), [], 'literals of %r after other readings' % want)


@st.composite
def concurrent(draw):
    """What each of 2-4 threads reads, with which reader."""
    from pbt.gen_script import spellings, text_of
    sums = draw(st.lists(spellings(max_layer=3, cap=20).map(text_of), min_size=1, max_size=2))
    sums += draw(st.lists(st.sampled_from(['s.-+b.-', 'S:.-+B:.-+S:B:.-', 'wa.+we.', 'S:S:.-+S:B:.-']), max_size=2))
    ops = []
    for _ in range(draw(st.integers(2, 4))):
        mine = draw(st.lists(good(), min_size=1, max_size=3).map(lambda l: [['usl'] + g for g in l]))
        if draw(st.booleans()):
            mine.append(['usl', mine[0][1] + draw(st.sampled_from(['(', ' [', '!'])), None, False])
        flag = draw(st.booleans())
        mine += [['fact', t, flag] for t in draw(st.lists(st.sampled_from(sums), max_size=2))]
        mine += [['script', k['spell'], k['text']] for k in draw(st.lists(D.morpheme_keys(), max_size=2))]
        mine += [['path', t] for t in draw(st.lists(path_text(), max_size=2))]
        ops.append(draw(st.permutations(mine)))
    return {'ops': ops, 'shared': draw(st.booleans())}


@facet('C06', 'threads', lambda tier: concurrent(), 240, 8000,
       'readings by 2-4 threads at once, of USLs (factorised or not), morphemes and paths, with one parser or one each; '
       'non-trivial: always', shards=8)
def threads(c, ctx):
    ctx.nontrivial()
    ctx.label('shared' if c['shared'] else 'own')
    P, PP = IEMLParser(), PathParser()
    own = [(P, PP) if c['shared'] else (IEMLParser(), PathParser()) for _ in c['ops']]
    errors, later = [], []
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    start = threading.Barrier(len(own))

    def work(P, PP, ops):
        try:
            start.wait()
            for _ in range(3):
                for op in ops:
                    if op[0] == 'usl':
                        t, want, deco = op[1:]
                        try:
                            u = P.parse(t)
                        except CannotParse as e:
                            expect(want is None, '%r cannot be parsed by a thread: %s', t, e)
                            continue
                        expect(want is not None, '%r was read as %r by a thread', t, str(u))
                        expect_eq(str(u), want, 'reading of %r by a thread' % t)
                    elif op[0] == 'script':
                        expect_eq(str(script(op[1])), op[2], 'reading of the morpheme %r by a thread' % op[1])
                    elif op[0] == 'fact':
                        later.append((op, outcome(lambda t: P.parse(t, factorize_script=op[2]), op[1])[:2]))
                    else:
                        later.append((op, outcome(PP.parse, op[1])[:2]))
        except BaseException as e:
            errors.append(e)
    ts = [threading.Thread(target=work, args=(*x, y)) for x, y in zip(own, c['ops'])]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if errors:
        raise Violation('%d threads of %d: %s: %s' % (len(errors), len(ts), type(errors[0]).__name__, errors[0]))
    want = {}
    for op, got in later:
        k = str(op)
        if k not in want:
            want[k] = outcome((lambda t: P.parse(t, factorize_script=op[2])) if op[0] == 'fact' else PP.parse, op[1])[:2]
        expect_eq(got, want[k], 'reading of %s by a thread' % op)


# ---- the cache of the parser tables ----
CHILD = """
import sys, json, logging
logging.disable(logging.CRITICAL)
sys.path.insert(0, %r)
from ieml.usl.parser import IEMLParser
from ieml.exceptions import CannotParse
P = IEMLParser()
out = []
for t in json.load(sys.stdin):
    try:
        out.append(str(P.parse(t)))
    except CannotParse:
        out.append(None)
sys.stdout.write(json.dumps(out))
"""
WARM = []
FILES = ['ieml_parser.pickle', 'morpheme_parser.pickle', 'path_parser.pickle']


def reader(cache, texts_):
    env = dict(os.environ, XDG_CACHE_HOME=cache, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.Popen([sys.executable, '-c', CHILD % REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env, cwd=cache)
    p.stdin.write(json.dumps(texts_).encode())
    p.stdin.close()
    p.stdin = None
    return p


def harm(cache, f, how, at):
    for p in glob.glob(os.path.join(cache, '**', f), recursive=True):
        n = os.path.getsize(p)
        if how == 'cut':
            os.truncate(p, n * at // 1000)
        elif how == 'empty':
            os.truncate(p, 0)
        elif how == 'remove':
            os.remove(p)
        elif how == 'last':
            os.truncate(p, n - 1)
        elif how == 'text':
            with open(p, 'w') as fp:
                fp.write('not a table')
        else:
            with open(p, 'wb') as fp:
                fp.write(b'\x80\x04\x95garbage')


@facet('C06', 'cachefile', lambda tier: st.fixed_dictionaries({
    'items': st.lists(good(), min_size=1, max_size=4),
    'warm': st.sampled_from([True, True, True, False]),
    'harm': st.lists(st.tuples(st.sampled_from(FILES), st.sampled_from(['cut', 'cut', 'empty', 'remove', 'last', 'text', 'garbage']),
                               st.integers(0, 999)), max_size=3),
    'readers': st.integers(1, 3)}), 24, 1200,
       '1-3 processes start together while the cache of the parser tables is absent, complete, or damaged (truncated, empty, '
       'garbage); non-trivial: damaged or absent', shards=8)
def cachefile(c, ctx):
    if c['harm'] or not c['warm']:
        ctx.nontrivial()
    ts = [g[0] for g in c['items']] + ['(', '(E:S:.)(s.) [>content "x"]']
    want = [g[1] for g in c['items']] + [None, '(E:S:.)(s.) [>content "x"]']
    with scratch('cache') as d:
        if c['warm']:
            if not WARM:                                     # a complete cache, made once per process
                WARM.append(tempfile.mkdtemp(prefix='warm-', dir=os.path.dirname(d)))
                reader(WARM[0], ts).communicate()
            shutil.copytree(WARM[0], d, dirs_exist_ok=True)
            for f, how, at in c['harm']:
                harm(d, f, how, at)
                ctx.label(how)
        for rnd in range(2):
            ps = [reader(d, ts) for _ in range(c['readers'])]
            for p in ps:
                out, err = p.communicate(timeout=120)
                expect(p.returncode == 0, 'start %d with a cache %r fails: %s', rnd, c['harm'] if c['warm'] else 'absent',
                       err.decode('utf8', 'replace')[-600:])
                expect_eq(json.loads(out.decode()), want, 'readings with a cache %r' % (c['harm'],))


# ---- a parser bound to a dictionary ----
@st.composite
def bound(draw):
    d = draw(GD.dictionaries(max_roots=3, max_subs=3, layers=(0, 1, 1, 2)))
    toks = draw(st.lists(st.sampled_from(['S:', 'B:', 'T:', 'U:', 'A:', 's.', 'b.', 'wo.', 'E:', 'n.', 'E:S:.']), max_size=3))
    from pbt import ref_script as R
    for r in d['roots']:
        ws = sorted(R.sem(R.read(r[0])))
        for w in draw(st.lists(st.sampled_from(ws), max_size=3)):
            toks.append(R.render(R.from_word(w, R.layer(R.read(r[0])))))
    par = [x[0] for x in d['roots'] + d['subs']]
    t = st.sampled_from(list(dict.fromkeys(toks + ['S:', 'B:', 'T:', 'E:', 'U:', 'A:'])))
    pm = st.lists(t, min_size=1, max_size=3, unique=True).map(' '.join)
    shape = draw(st.sampled_from(['m', 'pm', 'pm', 'group', 'lex', 'par']))
    if shape == 'm':
        text = [draw(t)]
    elif shape == 'par':
        text = [draw(st.sampled_from(par))]
    elif shape == 'pm':
        text = draw(st.lists(t, min_size=2, max_size=5, unique=True))
    elif shape == 'group':
        text = ['m1('] + draw(st.lists(t, min_size=2, max_size=4, unique=True)) + [')']
    else:
        text = ['('] + draw(pm).split() + [')', '('] + draw(pm).split() + [')']
    return {'dic': d, 'text': text}


@facet('C06', 'bound', lambda tier: bound(), 480, 12000,
       'readings by a parser bound to a generated dictionary; non-trivial: some morphemes are known and some are not, or all '
       'of several are')
def bound_(c, ctx):
    dic = RD.build(c['dic'])
    known = {str(s) for s in dic.scripts}
    ms = [t for t in c['text'] if t not in '()m1(']
    t = ' '.join(c['text'])
    ok = all(m in known for m in ms)
    if 0 < sum(m in known for m in ms) and len(ms) > 1:
        ctx.nontrivial()
    ctx.label('known' if ok else 'unknown')
    free = str(IEMLParser().parse(t))
    a = outcome(IEMLParser(dictionary=dic).parse, t)
    if ok:
        expect_eq(a[1], free, 'reading of %r with its dictionary' % t)
    else:
        expect_eq(a[0], 'CannotParse', 'reading of %r with a dictionary that does not know %r' % (t, [m for m in ms if m not in known]))
