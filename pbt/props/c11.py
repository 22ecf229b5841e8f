"""C11 — The singular sequences of polymorphemes, lexemes and words are exactly the balanced choices of their groups."""
from pbt.core import facet, expect, expect_eq, st
from pbt import ref_usl as U
from pbt import gen_usl as G
from pbt.real_usl import parse, build_pm, build_lexeme, build_word

from ieml.usl import PolyMorpheme, Lexeme, Word


def common(u, want, what, cls):
    """want: list of the texts expected."""
    ss = list(u.singular_sequences)
    texts = [str(x) for x in ss]
    expect_eq(sorted(texts), sorted(want), 'singular sequences of %r' % what)
    expect_eq(u.cardinal, len(want), 'cardinal of %r' % what)
    expect_eq(len(u), len(want), 'len of %r' % what)
    expect_eq(u.is_singular, len(want) == 1, 'is_singular of %r' % what)
    expect_eq({str(x) for x in u.singular_sequences_set}, set(want), 'set of singular sequences of %r' % what)
    expect_eq([str(x) for x in u.singular_sequences], texts, 'second reading of the singular sequences of %r' % what)
    for x in ss[:12] + ss[-3:]:
        expect(isinstance(x, cls), 'a singular sequence of %r is a %s', what, type(x).__name__)
        expect(x.is_singular, 'the singular sequence %r of %r is not singular', str(x), what)
        expect_eq([str(y) for y in x.singular_sequences], [str(x)], 'singular sequences of the singular %r' % str(x))
        expect(x in u, '%r does not contain its singular sequence %r', what, str(x))
        expect((u in x) == (len(want) == 1), '%r is contained in one of its singular sequences', what)
    expect(u in u, '%r does not contain itself', what)
    return ss


def trimmed(pm):
    """Without a constant the size limit of the real code also counts an empty morpheme: a choice of exactly the size
    limit is left unspecified; such polymorphemes are cut to fewer groups."""
    pm = {'c': list(pm['c']), 'g': [[list(g), m] for g, m in pm['g']]}
    while not pm['c'] and pm['g'] and any(len(p) == U.SIZE_LIMIT for p in U.pm_choices(pm)):
        pm['g'].pop()
    return pm


@st.composite
def pm_cases(draw):
    pm = draw(G.pms(min_total=1, max_const=5, max_group=5))
    return trimmed(pm)


@facet('C11', 'polymorpheme', lambda tier: pm_cases(), 900, 40000,
       'polymorphemes with 0-5 constants and 0-3 groups of 1-5 morphemes, multiplicities 1-3; non-trivial: more than '
       'one singular sequence')
def polymorpheme(pm, ctx):
    want = U.pm_ss(pm)
    if len(want) > 1:
        ctx.nontrivial()
    ctx.label('groups_%d' % len(pm['g']))
    if not want:
        ctx.label('no_singular_sequence')
    u = build_pm(pm)
    ss = common(u, want, U.pm_text(pm), PolyMorpheme)
    if pm['g']:
        text = U.pm_text(pm)
        expect_eq(sorted(str(x) for x in parse(text).singular_sequences), sorted(want), 'singular sequences of the text %r' % text)
    for x in ss[:10]:
        got = {str(m) for m in x.constant if not m.empty}
        expect(set(pm['c']) <= got, 'the singular sequence %r of %r lost a constant', str(x), U.pm_text(pm))
        expect(not x.groups, 'the singular sequence %r of %r has a group', str(x), U.pm_text(pm))


def bounded_lexeme():
    return G.lexemes(size=2).map(lambda l: {'f': trimmed(l['f']), 'c': trimmed(l['c'])})


@facet('C11', 'lexeme', lambda tier: bounded_lexeme(), 500, 20000,
       'lexemes with groups in flexion and content; non-trivial: more than one singular sequence')
def lexeme(lx, ctx):
    want = [U.lexeme_text(x) for x in U.lexeme_ss(lx)]
    if len(want) > 1:
        ctx.nontrivial()
    if len(want) > 1 and len(U.pm_ss(lx['f'])) > 1 and len(U.pm_ss(lx['c'])) > 1:
        ctx.label('both_parts_vary')
    u = build_lexeme(lx)
    common(u, want, U.lexeme_text(lx), Lexeme)


@st.composite
def word_cases(draw):
    leaf = G.group_lexeme().map(lambda l: {'f': trimmed(l['f']), 'c': trimmed(l['c'])})
    w = draw(G.words(leaf=leaf, max_actants=2))
    # bound the product: fix the groups of the last roles
    total = 1
    for e in w['e']:
        n = len(U.lexeme_ss(e[1]))
        if total * max(n, 1) > 120:
            e[1] = U.lexeme_ss(e[1])[0]
        else:
            total *= max(n, 1)
    return w


@facet('C11', 'word', lambda tier: word_cases(), 400, 15000,
       'words whose lexemes have groups (at most 120 singular sequences), nested qualities and junctions; non-trivial: '
       'more than one singular sequence')
def word(w, ctx):
    want = [U.word_text(x) for x in U.word_ss(w)]
    if len(want) > 1:
        ctx.nontrivial()
    if any(x in U.INDEXES for r, _ in w['e'] for x in r):
        ctx.label('junction')
    u = build_word(w)
    ss = common(u, want, U.word_text(w), Word)
    for x in ss[:8]:
        expect_eq(str(x.role), str(u.role), 'focus of the singular sequence %r' % str(x))
        expect_eq(str(x.grammatical_class), str(u.grammatical_class), 'class of the singular sequence %r' % str(x))


@st.composite
def contain_cases(draw):
    """Two polymorphemes, the second made from the first by dropping or adding members."""
    pm = draw(pm_cases())
    q = {'c': list(pm['c']), 'g': [[list(g), m] for g, m in pm['g']]}
    for _ in range(draw(st.integers(0, 2))):
        k = draw(st.integers(0, 3))
        if k == 0 and q['g']:
            g = q['g'][draw(st.integers(0, len(q['g']) - 1))]
            if len(g[0]) > 1:
                g[0].pop(draw(st.integers(0, len(g[0]) - 1)))
                g[1] = min(g[1], len(g[0]))
        elif k == 1 and q['g']:
            g = q['g'][draw(st.integers(0, len(q['g']) - 1))]
            g[1] = draw(st.integers(1, min(3, len(g[0]))))
        elif k == 2 and q['g']:
            g, m = q['g'].pop(draw(st.integers(0, len(q['g']) - 1)))
            q['c'] += g[:1]
        else:
            m = draw(G.morpheme())
            if m not in q['c'] and all(m not in g for g, _ in q['g']):
                q['c'].append(m)
    if not q['c'] and not q['g']:
        q['c'] = ['S:']
    return [pm, trimmed(q)]


@facet('C11', 'containment', lambda tier: contain_cases(), 500, 20000,
       'pairs of polymorphemes derived from one another: `in` is inclusion of the reference singular sequences; '
       'non-trivial: the two differ and share a singular sequence')
def containment(c, ctx):
    a, b = c
    sa, sb = set(U.pm_ss(a)), set(U.pm_ss(b))
    if U.pm_text(a) != U.pm_text(b) and sa & sb:
        ctx.nontrivial()
    ra, rb = build_pm(a), build_pm(b)
    expect_eq(rb in ra, sb <= sa, '%r in %r' % (U.pm_text(b), U.pm_text(a)))
    expect_eq(ra in rb, sa <= sb, '%r in %r' % (U.pm_text(a), U.pm_text(b)))
