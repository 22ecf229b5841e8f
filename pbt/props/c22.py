"""C22 — A USL passes its check exactly when it is well formed, wherever the fault is."""
from pbt.core import facet, expect, expect_eq, st
from pbt import ref_script as R
from pbt import ref_usl as U
from pbt import gen_usl as G
from pbt.real_usl import parse, build, build_pm, build_word

from ieml.dictionary.script import Script, script
from ieml.usl import PolyMorpheme, Lexeme, Word, check_polymorpheme
from ieml.usl.decoration.instance import InstancedUSL

PARADIGMS = ['O:', 'M:', 'S:+B:', 'O:M:.', 'F:.', 'a.+b.', 'E:+S:', 'wo.+y.', "E:M:.-d.u.-'", 'S:O:U:.', 'I:', 'E:F:M:.']
EMPTIES = ['E:', 'E:.', 'E:.-']


@st.composite
def broken_pm(draw, pm):
    """A polymorpheme that may break one rule."""
    c, g = list(pm['c']), [[list(x), m] for x, m in pm['g']]
    k = draw(st.sampled_from(['mult', 'mult', 'mult', 'dup', 'dup', 'two', 'two', 'paradigm', 'paradigm', 'empty', 'newgroup']))
    if k in ('mult', 'two') and not g or k == 'newgroup':
        x = draw(st.sampled_from([['B:'], ['wo.', 'S:'], ['a.', 'b.', 'y.'], ['E:'], []]))
        if len(g) < 3:
            g.append([list(x), 1])
    if k == 'mult' and g:
        x = draw(st.sampled_from(g))
        x[1] = draw(st.sampled_from([-1, 0, 2, 3, 4, 5, len(x[0]), len(x[0]) + 1]))
    elif k == 'dup':
        ms = c + [m for x, _ in g for m in x] or ['S:']
        m = draw(st.sampled_from(ms))
        c.insert(draw(st.integers(0, len(c))), m)
    elif k == 'two' and g:
        ms = c + [m for x, _ in g for m in x] or ['S:']
        draw(st.sampled_from(g))[0].append(draw(st.sampled_from(ms)))
    elif k in ('paradigm', 'empty'):
        m = draw(st.sampled_from(PARADIGMS if k == 'paradigm' else EMPTIES))
        where = draw(st.sampled_from([c] + [x for x, _ in g]))
        where.insert(draw(st.integers(0, len(where))), m)
    return {'c': c, 'g': g}


def pm_valid(pm):
    """Distinct singular morphemes; as many as 1 to 3 taken from each group, and no more than it has."""
    gs = [[m for m in g if not U.is_empty_text(m)] for g, _ in pm['g']]
    ms = [m for m in pm['c'] if not U.is_empty_text(m)] + [m for g in gs for m in g]
    if len(set(ms)) != len(ms) or any(R.card(R.read(m)) != 1 for m in ms):
        return False
    return all(not g or 1 <= k <= min(3, len(g)) for g, (_, k) in zip(gs, pm['g']))


def parts(kind, m):
    """The polymorphemes."""
    if kind == 'pm':
        return [m]
    if kind == 'lexeme':
        return [m['f'], m['c']]
    return [p for _, x in m['e'] for p in (x['f'], x['c'])]


SMALL = st.sampled_from([{'f': {'c': [], 'g': []}, 'c': {'c': [x], 'g': []}} for x in ('S:', 'B:', 'T:', 'a.', 'wo.')])


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['pm', 'lexeme', 'word', 'word']))
    if kind == 'pm':
        m = draw(G.pms())
    elif kind == 'lexeme':
        m = draw(G.lexemes())
    else:
        m = draw(G.words(leaf=SMALL, depth=3)) if draw(st.integers(0, 2)) else draw(G.words())
        m = {'e': [[r, {'f': dict(x['f']), 'c': dict(x['c'])}] for r, x in m['e']], 'focus': m['focus']}
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        if kind == 'pm':
            m = draw(broken_pm(m))
        else:
            x = m if kind == 'lexeme' else m['e'][draw(st.integers(0, len(m['e']) - 1))][1]
            s = draw(st.sampled_from(['f', 'c']))
            x[s] = draw(broken_pm(x[s]))
    return {'kind': kind, 'm': m, 'read': draw(st.booleans()), 'decorate': draw(st.booleans())}


def accepted(u):
    try:
        u.check()
        return True
    except ValueError:
        return False


@facet('C22', 'check', lambda tier: cases(), 6000, 120000,
       'polymorphemes, lexemes and words with 0-2 faults (a morpheme twice, a paradigm, a multiplicity out of its bounds) in '
       'any of their polymorphemes, built or read, decorated or not; non-trivial: not well formed, in a lexeme or a word', shards=8)
def check(c, ctx):
    kind, m = c['kind'], c['m']
    u = build(kind, m)
    text = str(u)
    bad = [p for p in parts(kind, m) if not pm_valid(p)]
    ctx.label(kind + ('_invalid' if bad else '_valid'))
    if bad and kind != 'pm':
        ctx.nontrivial()
    expect_eq(accepted(u), not bad, 'validity of %r (%s)' % (text, bad))
    expect_eq(accepted(u), not bad, 'validity of %r, checked again' % text)
    expect_eq(str(u), text, 'text after the check')
    for p in parts(kind, m):
        expect_eq(accepted(build_pm(p)), pm_valid(p), 'validity of the polymorpheme %r' % U.pm_text(p))
    if c['read'] and text and not any(k < 0 for p in parts(kind, m) for _, k in p['g']):
        try:
            v = parse(text)
        except Exception:
            v = None
            expect(bool(bad), 'the valid %r can not be read', text)
        if v is not None:
            expect_eq(str(v), text, 'text read back')
            if not isinstance(v, Script):
                expect_eq(accepted(v), not bad, 'validity of %r, read' % text)
    if c['decorate']:
        expect_eq(accepted(InstancedUSL(u, [])), not bad, 'validity of %r as an instance' % text)
    if not bad and sum(len(p['g']) for p in parts(kind, m)) < 3:
        for s in u.singular_sequences:
            expect(accepted(s), 'the singular sequence %r of the valid %r is refused', str(s), text)


# ---- structural checks ----
PLURAL = ['O:', 'M:', 'O:S:.', 'M:M:.', "E:.-O:O:.-t.o.-'", 'a.+b.', 'S:+T:']


@st.composite
def raw_pms(draw):
    """Arbitrary lists: overlaps, plural morphemes, wrong multiplicities, empty morphemes."""
    pool = st.one_of(st.sampled_from(['S:', 'B:', 'T:', 'a.', 'b.a.-', 'E:']), st.sampled_from(G.POOL),
                     st.sampled_from(PLURAL) if draw(st.integers(0, 3)) == 0 else st.nothing())
    uniq = draw(st.integers(0, 2)) > 0
    c = draw(st.lists(pool, max_size=4, unique=uniq))
    used = set(c)
    g = []
    for _ in range(draw(st.integers(0, 3))):
        ms = draw(st.lists(pool, min_size=1, max_size=4, unique=uniq))
        if uniq:
            ms = [m for m in ms if m not in used]
            used |= set(ms)
        if ms:
            g.append([ms, draw(st.sampled_from([1, 1, 1, 2, 3, 0, 4, -1] if draw(st.booleans()) else [1]))])
    return {'c': c, 'g': g}


def well_formed(pm):
    c = [t for t in pm['c'] if not U.is_empty_text(t)]
    gs = [([t for t in g if not U.is_empty_text(t)], m) for g, m in pm['g']]
    every = c + [t for g, _ in gs for t in g]
    return len(set(every)) == len(every) and all(R.card(U._read(t)) == 1 for t in every) and \
        all(not g or 1 <= m <= min(3, len(g)) for g, m in gs)


@facet('C22', 'polymorpheme_check', lambda tier: raw_pms(), 900, 40000,
       'polymorphemes made from arbitrary morpheme lists: check() raises ValueError exactly when a morpheme is repeated or '
       'plural or a multiplicity is outside 1..min(3, size); non-trivial: ill-formed')
def polymorpheme_check(pm, ctx):
    ok = well_formed(pm)
    ctx.label('ok' if ok else 'ill_formed')
    if not ok:
        ctx.nontrivial()
    u = build_pm(pm)
    for f in (u.check, lambda: check_polymorpheme(u)):
        try:
            f()
            got = True
        except ValueError:
            got = False
        expect_eq(got, ok, 'check() of %r accepts it' % str(u))
    # a lexeme of a word is checked with the word
    w = Word_of(u)
    try:
        w.check()
        got = True
    except ValueError:
        got = False
    expect_eq(got, ok, 'check() of a word whose content is %r accepts it' % str(u))


def Word_of(pm):
    from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
    r = [script('E:A:.')]
    ctx, sfun = SyntagmaticFunction.from_list([(r, Lexeme(PolyMorpheme(), pm))])
    return Word(sfun, role=SyntagmaticRole(r), context_type=ctx)


@st.composite
def word_check_cases(draw):
    w = draw(G.words(leaf=G.small_lexemes()))
    bad = draw(st.sampled_from([None, None, 'dup', 'plural', 'mult']))
    return {'w': w, 'bad': bad, 'at': draw(st.integers(0, len(w['e']) - 1)), 'part': draw(st.sampled_from('fc'))}


@facet('C22', 'word_check', lambda tier: word_check_cases(), 500, 20000,
       'well-formed words pass check(); the same word with one ill-formed polymorpheme placed at any role and part does '
       'not; non-trivial: ill-formed')
def word_check(c, ctx):
    w = {'e': [[r, dict(x)] for r, x in c['w']['e']], 'focus': c['w']['focus']}
    if c['bad']:
        ctx.nontrivial()
        ctx.label(c['bad'])
        w['e'][c['at']][1][c['part']] = {'dup': {'c': ['S:', 'S:'], 'g': []}, 'plural': {'c': ['O:'], 'g': []},
                                         'mult': {'c': [], 'g': [[['S:', 'B:'], 3]]}}[c['bad']]
    u = build_word(w)
    try:
        u.check()
        got = True
    except ValueError:
        got = False
    expect_eq(got, c['bad'] is None, 'check() of %r accepts it' % str(u))
