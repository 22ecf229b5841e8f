"""C10 — USL text is canonical: writing and reading polymorphemes, lexemes and words are inverse."""
from pbt.core import facet, expect, expect_eq, st
from pbt import ref_script as R
from pbt import ref_usl as U
from pbt import gen_usl as G
from pbt.real_usl import parse, build_pm, build_lexeme, build_word

from ieml.dictionary.script import Script
from ieml.exceptions import CannotParse, TooManySingularSequences
from ieml.usl import PolyMorpheme, Lexeme, Word


def shuffled_pm_text(draw, pm):
    c = list(draw(st.permutations(pm['c']))) if len(pm['c']) > 1 else list(pm['c'])
    gs = []
    for g, m in (draw(st.permutations(pm['g'])) if len(pm['g']) > 1 else pm['g']):
        gs.append('m%d(%s)' % (m, ' '.join(draw(st.permutations(g)) if len(g) > 1 else g)))
    sp = draw(st.sampled_from([' ', ' ', '  ', '\n']))
    return sp.join(c + gs)


def same(a, b, what):
    if isinstance(a, Script) != isinstance(b, Script):
        # the text of a one-morpheme polymorpheme is that of the morpheme itself, and is read as the morpheme
        expect_eq(str(a), str(b), what)
        return
    expect(a == b and b == a and hash(a) == hash(b) and str(a) == str(b), '%s: %r and %r are not equal', what, str(a), str(b))


def reread(u, what):
    again = parse(str(u))
    expect_eq(str(again), str(u), 'reading back the text of %s' % what)
    same(again, u, what)
    return again


@st.composite
def pm_cases(draw):
    pm = draw(G.pms(min_total=1, max_const=draw(st.sampled_from([4, 4, 4, 8]))))
    padded = None
    if draw(st.integers(0, 2)) == 0:
        # empty morphemes among the others say nothing
        padded = {'c': list(pm['c']), 'g': [[list(g), k] for g, k in pm['g']]}
        for _ in range(draw(st.integers(1, 2))):
            at = draw(st.sampled_from([padded['c']] + [g for g, _ in padded['g']] * 2))
            at.insert(draw(st.integers(0, len(at))), draw(st.sampled_from(['E:', 'E:', 'E:.', 'E:.-', "E:.-'"])))
    return {'pm': pm, 'padded': padded, 'text': shuffled_pm_text(draw, padded or pm)}


@facet('C10', 'polymorpheme', lambda tier: pm_cases(), 900, 40000,
       'valid polymorphemes (0-4 constants, 0-3 groups of 1-4 morphemes) written in arbitrary order; non-trivial: '
       'a group, or two constants')
def polymorpheme(c, ctx):
    pm = c['pm']
    if pm['g'] or len(pm['c']) > 1:
        ctx.nontrivial()
    ctx.label('groups_%d' % len(pm['g']))
    want = U.pm_text(pm)
    b = build_pm(pm)
    expect_eq(str(b), want, 'text of a polymorpheme')
    b.check()
    same_structure(b, 'pm', pm)
    if c['padded']:
        ctx.label('empty_morphemes')
        e = build_pm(c['padded'])
        expect_eq(str(e), want, 'text of a polymorpheme with empty morphemes')
        same(e, b, 'polymorphemes with and without empty morphemes')
        e.check()
    p = parse(c['text'])
    expect_eq(str(p), want, 'text after reading %r' % c['text'])
    expect(isinstance(p, PolyMorpheme) or (isinstance(p, Script) and not pm['g'] and len(pm['c']) == 1),
           'reading %r gave a %s', c['text'], type(p).__name__)
    same(p, b, 'read and built polymorpheme')
    reread(p, 'a polymorpheme')
    if isinstance(p, PolyMorpheme):
        n = U.norm_pm(pm)
        expect_eq([str(m) for m in p.constant if not m.empty], n['c'], 'constants of %r' % want)
        expect_eq([[[str(m) for m in g], k] for g, k in p.groups], n['g'], 'groups of %r' % want)
        expect_eq([str(m) for m in p.morphemes if not m.empty],
                  sorted(set(n['c'] + [m for g, _ in n['g'] for m in g]), key=U.mkey), 'morphemes of %r' % want)
        expect_eq(p.empty, False, 'emptiness of %r' % want)
        expect_eq(p.grammatical_class, pm_class(pm), 'grammatical class of %r' % want)
    expect_eq(b.grammatical_class, pm_class(pm), 'grammatical class of the built %r' % want)


def structure(kind, m):
    """The components, as iter_structure lists them (the empty morpheme apart)."""
    if kind == 'pm':
        return U.pm_morphemes(m)
    if kind == 'lexeme':
        return [U.pm_text(m['f']), U.pm_text(m['c'])] + structure('pm', m['f']) + structure('pm', m['c'])
    return [t for _, x in m['e'] for t in [U.lexeme_text(x)] + structure('lexeme', x)]


def same_structure(u, kind, m):
    expect_eq(sorted(str(x) for x in u.iter_structure() if str(x) != 'E:'), sorted(structure(kind, m)),
              'components of %r' % str(u))


def pm_class(pm):
    return max((R.script_class(R.read(t)) for t in pm['c']), default=0)


@st.composite
def lexeme_cases(draw):
    lx = draw(G.lexemes())
    f, c = shuffled_pm_text(draw, lx['f']), shuffled_pm_text(draw, lx['c'])
    if U.pm_empty(lx['c']):
        t = '(%s)' % f
    else:
        t = '(%s)%s(%s)' % (f, draw(st.sampled_from(['', ' '])), c)
    three = None
    if f and draw(st.booleans()):
        # the flexion in two places
        k, j = draw(st.integers(0, len(lx['f']['c']))), draw(st.integers(0, len(lx['f']['g'])))
        one = shuffled_pm_text(draw, {'c': lx['f']['c'][k:], 'g': lx['f']['g'][j:]})
        two = shuffled_pm_text(draw, {'c': lx['f']['c'][:k], 'g': lx['f']['g'][:j]})
        if two and (c or not one):
            three = '(%s)(%s)(%s)' % (one, c, two)
    return {'lx': lx, 'text': t, 'three': three}


@facet('C10', 'lexeme', lambda tier: lexeme_cases(), 600, 25000,
       'lexemes with empty or filled flexion and content, written in arbitrary order, and the three-part spelling; '
       'non-trivial: flexion and content both filled')
def lexeme(c, ctx):
    lx = c['lx']
    if not U.pm_empty(lx['f']) and not U.pm_empty(lx['c']):
        ctx.nontrivial()
    want = U.lexeme_text(lx)
    b = build_lexeme(lx)
    expect_eq(str(b), want, 'text of a lexeme')
    same_structure(b, 'lexeme', lx)
    p = parse(c['text'])
    expect(isinstance(p, Lexeme), 'reading %r gave a %s', c['text'], type(p).__name__)
    expect_eq(str(p), want, 'text after reading %r' % c['text'])
    same(p, b, 'read and built lexeme')
    reread(p, 'a lexeme')
    expect_eq((str(p.pm_flexion), str(p.pm_content)), (U.pm_text(lx['f']), U.pm_text(lx['c'])), 'parts of %r' % want)
    expect_eq(p.empty, U.pm_empty(lx['f']) and U.pm_empty(lx['c']), 'emptiness of %r' % want)
    expect_eq(p.grammatical_class, pm_class(lx['c']), 'grammatical class of %r' % want)
    if c['three']:
        ctx.label('three_parts')
        expect_eq(str(parse(c['three'])), want, 'text after reading %r' % c['three'])


@st.composite
def word_cases(draw):
    w = draw(G.words())
    order = list(range(len(w['e'])))
    if len(order) > 1:
        order = list(draw(st.permutations(order)))
    parts = []
    for i in order:
        r, lx = w['e'][i]
        parts.append(('! ' if i == w['focus'] else '') + ' '.join(r) + ' ' + U.lexeme_text(lx))
    mark = draw(st.sampled_from(['', '', 'E:.b.E:S:.- ', 'E:.b.E:B:.- ', 'E:.b.E:T:.- ']))
    return {'w': w, 'text': '[' + mark + ' > '.join(parts) + ']'}


def word_class(w):
    r = w['e'][w['focus']][0]
    if any(x in U.VALENCES for x in r):
        return 'E:.b.E:S:.-'
    return 'E:.b.E:T:.-' if U.INDEP in r else 'E:.b.E:B:.-'


@facet('C10', 'word', lambda tier: word_cases(), 600, 25000,
       'words of the three kinds, with nested qualities and junctions, roles written in arbitrary order; non-trivial: '
       'two or more roles')
def word(c, ctx):
    w = c['w']
    ctx.label(G.kind_of(w))
    if any(x in U.INDEXES for r, _ in w['e'] for x in r):
        ctx.label('junction')
    if len(w['e']) > 1:
        ctx.nontrivial()
    want = U.word_text(w)
    b = build_word(w)
    expect_eq(str(b), want, 'text of a word')
    p = parse(c['text'])
    expect(isinstance(p, Word), 'reading %r gave a %s', c['text'], type(p).__name__)
    expect_eq(str(p), want, 'text after reading %r' % c['text'])
    same(p, b, 'read and built word')
    reread(p, 'a word')
    same_structure(p, 'word', w)
    p.check()
    expect_eq(' '.join(map(str, p.role.constant)), ' '.join(w['e'][w['focus']][0]), 'focus of %r' % want)
    got = sorted((' '.join(map(str, r)), str(x)) for r, x in p.syntagmatic_fun.as_list(p.context_type))
    expect_eq(got, sorted((' '.join(r), U.lexeme_text(x)) for r, x in w['e']), 'roles of %r' % want)
    expect_eq(str(p.grammatical_class), word_class(w), 'grammatical class of %r' % want)
    ms = {m for _, lx in w['e'] for pm in (lx['f'], lx['c']) for m in pm['c'] + [x for g, _ in pm['g'] for x in g]}
    expect_eq([str(m) for m in p.morphemes if not m.empty], sorted(ms, key=U.mkey), 'morphemes of %r' % want)
    expect_eq(bool(p), True, 'truth value of %r' % want)


def junction_prefixes(es):
    """The roles that are junctions: each, with the entries at the head of its branches."""
    roles = [tuple(r) for r, _ in es]
    out = {}
    for r in roles:
        for k in range(1, len(r)):
            if r[k] in U.JUNCTIONS:
                out.setdefault(r[:k], None)
    for pre in out:
        heads = []
        for i, r in enumerate(roles):
            rest = r[len(pre):]
            if r[:len(pre)] == pre and rest and all(
                    x in (U.INDEXES if n % 2 else U.JUNCTIONS) for n, x in enumerate(rest)) and len(rest) % 2 == 0:
                heads.append(i)
        out[pre] = heads
    return out


@st.composite
def junction_focus_cases(draw):
    w = draw(G.words(leaf=st.sampled_from([{'f': {'c': [], 'g': []}, 'c': {'c': [x], 'g': []}} for x in
                                           ('S:', 'B:', 'T:', 'a.', 'wo.')]), depth=3))
    ps = sorted(junction_prefixes(w['e']))
    if not ps:
        link = draw(st.sampled_from(U.JUNCTIONS))
        lf = w['e'][0][1]
        w = {'e': [[[U.DEP, link, U.INDEXES[i]], lf] for i in range(draw(st.integers(2, 12)))], 'focus': 0}
        ps = [(U.DEP,)]
    return {'w': w, 'role': list(draw(st.sampled_from(ps)))}


@facet('C10', 'junction_focus', lambda tier: junction_focus_cases(), 400, 15000,
       'words built with a whole junction as focus: the mark is on the head of each branch and nowhere else; non-trivial: '
       'three or more branches, or nested junctions')
def junction_focus(c, ctx):
    es, role = c['w']['e'], tuple(c['role'])
    heads = junction_prefixes(es)[role]
    if len(heads) > 2 or any(len(es[i][0]) > len(role) + 2 for i in heads):
        ctx.nontrivial()
    w = build_word(c['w'], role=role)
    plain = U.word_text(dict(c['w'], focus=None))
    order = sorted(range(len(es)), key=lambda i: U.role_key(es[i][0]))
    parts = plain[1:-1].split(' > ')
    want = '[' + ' > '.join(('! ' if i in heads else '') + t for i, t in zip(order, parts)) + ']'
    expect_eq(str(w), want, 'text of a word whose focus is %r' % ' '.join(role))
    expect_eq(' '.join(map(str, w.role.constant)), ' '.join(role), 'focus')
    # the marks, not their order in the text, are what is read
    p = parse(want)
    expect(tuple(map(str, p.role.constant)) in {tuple(es[i][0]) for i in heads}, 'focus read from %r', want)


@st.composite
def broken_words(draw):
    """Role lists that may or may not make sense: dropped heads, duplicated roles, foreign roles, gaps in junctions."""
    w = draw(G.words(leaf=st.sampled_from([{'f': {'c': [], 'g': []}, 'c': {'c': [x], 'g': []}} for x in
                                           ('S:', 'B:', 'T:', 'a.', 'wo.')])))
    es = [[list(r), x] for r, x in w['e']]
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(es) - 1))
        k = draw(st.integers(0, 5))
        if k == 0 and len(es) > 1:
            es.pop(i)
        elif k == 1:
            es.insert(draw(st.integers(0, len(es))), [list(es[i][0]), es[i][1]])
        elif k == 2:
            es[i][0] = es[i][0] + [draw(st.sampled_from(U.ROLES))]
        elif k == 3:
            j = draw(st.integers(0, len(es[i][0]) - 1))
            es[i][0][j] = draw(st.sampled_from([U.DEP, U.INDEP, U.JUNCTIONS[0], U.JUNCTIONS[4], U.INDEXES[0],
                                                U.INDEXES[1], U.INDEXES[2], U.INDEXES[11], 'E:S:.', 'E:.n.-', 'S:']))
        elif k == 4 and len(es[i][0]) > 1:
            es[i][0].pop(draw(st.integers(0, len(es[i][0]) - 1)))
        else:
            j = draw(st.integers(0, len(es) - 1))
            es[i], es[j] = es[j], es[i]
    return {'e': es, 'focus': draw(st.integers(0, len(es) - 1))}


def legal(es, kind=None):
    """Reference grammar of role lists."""
    roles = [tuple(r) for r, _ in es]
    if len(set(roles)) != len(roles) or not roles or any(not r for r in roles):
        return False
    heads = {r[0] for r in roles}
    if heads == {U.INDEP}:
        return legal_indep([r[1:] for r in roles])
    if heads == {U.DEP}:
        return legal_dep([r[1:] for r in roles])
    vals = [r for r in roles if r[0] in U.VALENCES]
    if len(vals) != 1 or len(vals[0]) != 1:
        return False
    rest = [r for r in roles if r[0] not in U.VALENCES]
    if any(r[0] not in U.ACTANTS for r in rest):
        return False
    return all(legal_dep([r[1:] for r in rest if r[0] == a]) for a in {r[0] for r in rest})


def legal_junction(rs, sub):
    if any(len(r) < 2 for r in rs) or len({r[0] for r in rs}) != 1 or rs[0][0] not in U.JUNCTIONS:
        return False
    idx = {r[1] for r in rs}
    if not idx <= set(U.INDEXES) or idx != set(U.INDEXES[:len(idx)]):
        return False
    return all(sub([r[2:] for r in rs if r[1] == i]) for i in idx)


def legal_indep(rs):
    return rs == [()] or legal_junction(rs, legal_indep)


def legal_dep(rs):
    if () not in rs:
        return legal_junction(rs, legal_dep)
    rest = [r for r in rs if r]
    if not all(r[0] in (U.DEP, U.INDEP) for r in rest) or len(rest) != len(rs) - 1:
        return False
    d, i = [r[1:] for r in rest if r[0] == U.DEP], [r[1:] for r in rest if r[0] == U.INDEP]
    return (not d or legal_dep(d)) and (not i or legal_indep(i))


@facet('C10', 'word_roles', lambda tier: broken_words(), 900, 40000,
       'role lists altered by dropping, duplicating, extending, replacing or cutting roles: legal ones are read exactly, '
       'illegal ones refused; non-trivial: the role list is illegal')
def word_roles(c, ctx):
    text = '[' + ' > '.join(('! ' if i == c['focus'] else '') + ' '.join(r) + ' ' + U.lexeme_text(x)
                            for i, (r, x) in enumerate(c['e'])) + ']'
    ok = legal(c['e'])
    ctx.label('legal' if ok else 'illegal')
    if not ok:
        ctx.nontrivial()
    try:
        p = parse(text)
    except CannotParse:
        expect(not ok, 'a legal word was refused: %r', text)
        return
    got = sorted((' '.join(map(str, r)), str(x)) for r, x in p.syntagmatic_fun.as_list(p.context_type))
    expect_eq(got, sorted((' '.join(r), U.lexeme_text(x)) for r, x in c['e']), 'roles read from %r' % text)
    expect_eq(str(parse(str(p))), str(p), 'reading back the text of the word %r' % text)
    expect(ok, 'an illegal list of roles was read as a word: %r', text)
