"""C12 — USLs are totally ordered, consistently with equality."""
import functools
import itertools

from pbt.core import facet, expect, expect_eq, st
from pbt import ref_usl as U
from pbt import gen_usl as G
from pbt.real_usl import build as build_usl

from ieml.usl.decoration.instance import InstancedUSL, Decoration
from ieml.usl.decoration.path import UslPath


def word_cmp(a, b):
    strip = {'process': 0, 'dep': 1, 'indep': 1}

    def key(w):
        k = strip[G.kind_of(w)]
        return sorted(([U.role_key(r)[k:], x] for r, x in w['e']), key=lambda e: e[0])
    for (ra, xa), (rb, xb) in zip(key(a), key(b)):
        if ra != rb:
            return -1 if ra < rb else 1
        c = U.lexeme_cmp(xa, xb)
        if c:
            return c
    ka, kb = len(a['e']), len(b['e'])
    if ka != kb:
        return -1 if ka < kb else 1
    fa, fb = U.role_key(a['e'][a['focus']][0]), U.role_key(b['e'][b['focus']][0])
    return (fa > fb) - (fa < fb)


LEVEL = {'pm': 0, 'lexeme': 1, 'word': 2, 'decorated': 3}
CMP = {'pm': U.pm_cmp, 'lexeme': U.lexeme_cmp, 'word': word_cmp}
TEXT = {'pm': U.pm_text, 'lexeme': U.lexeme_text, 'word': U.word_text}


def text(x):
    return text(x[1]) + ' [> "%s"]' % x[2] if x[0] == 'decorated' else TEXT[x[0]](x[1])


def build(x):
    return InstancedUSL(build(x[1]), [Decoration(UslPath(), x[2])]) if x[0] == 'decorated' else build_usl(*x)


def ref_cmp(a, b):
    if a[0] != b[0]:
        return -1 if LEVEL[a[0]] < LEVEL[b[0]] else 1
    if text(a) == text(b):
        return 0
    if a[0] == 'decorated':
        return ref_cmp(a[1], b[1]) or (-1 if text(a) < text(b) else 1)
    return CMP[a[0]](a[1], b[1])


small_pms, small_lexemes = G.small_pms, G.small_lexemes


@st.composite
def near_words(draw):
    """Words close to one another: same tree, one lexeme or the focus changed."""
    w = draw(G.words(leaf=small_lexemes(), depth=2, max_actants=2))
    out = [w]
    for _ in range(2):
        v = {'e': [[list(r), x] for r, x in w['e']], 'focus': w['focus']}
        for _ in range(draw(st.integers(0, 1)) + 1):
            if draw(st.booleans()):
                v['focus'] = draw(st.integers(0, len(v['e']) - 1))
            else:
                v['e'][draw(st.integers(0, len(v['e']) - 1))][1] = draw(small_lexemes())
        out.append(v)
    return [['word', x] for x in out]


@st.composite
def near_lexemes(draw):
    """Lexemes close to one another: most of their morphemes, in the same places, are the same."""
    base = {k: draw(st.one_of(G.pms(), small_pms())) for k in 'fc'}
    out = [base]
    for _ in range(2):
        v = {k: {'c': list(p['c']), 'g': [[list(g), n] for g, n in p['g']]} for k, p in draw(st.sampled_from(out)).items()}
        for _ in range(draw(st.integers(1, 2))):
            p = v[draw(st.sampled_from('fc'))]
            used = p['c'] + [m for g, _ in p['g'] for m in g]
            new = draw(st.sampled_from(G.POOL).filter(lambda m: m not in used))
            at = draw(st.sampled_from([p['c']] + [g for g, _ in p['g']]))
            if at and draw(st.booleans()):
                at[draw(st.integers(0, len(at) - 1))] = new
            elif p['g'] and draw(st.booleans()):
                x = draw(st.sampled_from(p['g']))
                x[1] = draw(st.integers(1, min(3, len(x[0]))))
            else:
                at.append(new)
        out.append(v)
    return [['lexeme', x] for x in out]


@st.composite
def triples(draw):
    pm = st.one_of(small_pms(), G.pms(min_total=1)).map(lambda x: ['pm', x])
    lx = st.one_of(small_lexemes(), G.lexemes()).map(lambda x: ['lexeme', x])
    w = G.words().map(lambda x: ['word', x])
    tr = lambda s: st.lists(s, min_size=3, max_size=3)
    ms = draw(st.one_of(tr(pm), tr(lx), near_words(), near_words(), near_lexemes(), near_lexemes(), tr(w), tr(st.one_of(pm, lx, w))))
    if draw(st.integers(0, 3)) == 0:
        ms[2] = list(draw(st.sampled_from(ms[:2]))) if draw(st.booleans()) else ms[2]
        ms = [['decorated', m, draw(st.sampled_from('xyz'))] if draw(st.integers(0, 3)) else m for m in ms]
    return ms


@facet('C12', 'order', lambda tier: triples(), 900, 40000,
       'triples of USLs (close ones, decorated ones, and of mixed kinds): < agrees with the reference order on every pair, == with text; '
       'non-trivial: at least two of the three differ and are of the same kind')
def order(ms, ctx):
    us = [build(m) for m in ms]
    texts = [text(m) for m in ms]
    if len({(m[0], t) for m, t in zip(ms, texts)}) > len({m[0] for m in ms}):
        ctx.nontrivial()
    ctx.label('/'.join(sorted({m[0] for m in ms})))
    for (i, a), (j, b) in itertools.product(enumerate(us), repeat=2):
        c = ref_cmp(ms[i], ms[j])
        if ms[i][0] == ms[j][0]:
            expect_eq(a == b, c == 0, '%r == %r' % (texts[i], texts[j]))
            expect_eq(a != b, c != 0, '%r != %r' % (texts[i], texts[j]))
            if c == 0 and ms[i][0] != 'decorated':
                expect_eq(hash(a), hash(b), 'hash of equal USLs %r' % texts[i])
        expect_eq(bool(a < b), c < 0, '%r < %r' % (texts[i], texts[j]))
        expect_eq(bool(a > b), c > 0, '%r > %r' % (texts[i], texts[j]))
    want = [text(m) for m in sorted(ms, key=functools.cmp_to_key(ref_cmp))]
    for p in itertools.permutations(us):
        expect_eq([str(x) for x in sorted(p)], want, 'sorted %r' % (texts,))
