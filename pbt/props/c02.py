"""C02 — the singular sequences of a script are exactly those its expression denotes."""
from pbt.core import facet, expect, expect_eq, st
from pbt import ref_script as R
from pbt.gen_script import spellings, respell, text_of, _node

from ieml.dictionary.script import script
from ieml.exceptions import TooManySingularSequences


def word(s):
    """The word of primitives denoted by a singular script, read back from its text by the reference reader."""
    w = R.sem(R.read(str(s)))
    expect(len(w) == 1, 'singular sequence %r denotes %d sequences', str(s), len(w))
    return next(iter(w))


@facet('C02', 'denotation', lambda tier: spellings(), 1200, 50000,
       'scripts of layers 0-6 with up to 360 singular sequences, compared with the set of primitive words the '
       'expression denotes; non-trivial: at least two singular sequences')
def denotation(c, ctx):
    n = R.norm(c[1], c[0])
    want = R.sem(n)
    s = script(text_of(c))
    ss = s.singular_sequences
    ov = R.overlapping(n)
    if len(want) > 1:
        ctx.nontrivial()
    ctx.label('overlap' if ov else 'disjoint')
    ctx.label('card_>=100' if len(want) >= 100 else 'card_10-99' if len(want) >= 10 else 'card_2-9'
              if len(want) > 1 else 'card_1')
    words = [word(x) for x in ss]
    expect_eq(set(words), set(want), 'singular sequences of %r' % str(s))
    texts = {str(x) for x in ss}
    expect_eq(texts, {R.render(R.from_word(w, c[0])) for w in want}, 'texts of the singular sequences of %r' % str(s))
    expect_eq({str(x) for x in s.singular_sequences_set}, texts, 'set of singular sequences of %r' % str(s))
    if not ov:
        expect_eq(len(ss), len(want), 'number of singular sequences of %r' % str(s))
        expect_eq(s.cardinal, len(want), 'cardinal of %r' % str(s))
        expect_eq(len(s), len(want), 'len of %r' % str(s))
        expect_eq(bool(s.is_singular), len(want) == 1, 'singularity of %r' % str(s))
        expect_eq(bool(s.paradigm), len(want) > 1, 'paradigm flag of %r' % str(s))
    for a, b in zip(ss, ss[1:]):
        expect(R.cmp(R.read(str(a)), R.read(str(b))) <= 0, 'singular sequences of %r out of order: %r %r',
               str(s), str(a), str(b))
    for x in ss[:40]:
        expect(x.is_singular and x.cardinal == 1 and not x.paradigm and x.layer == c[0],
               'singular sequence %r of %r is not a singular script of layer %d', str(x), str(s), c[0])
        expect_eq([str(y) for y in x.singular_sequences], [str(x)], 'singular sequences of a singular sequence')
        expect(x in s, 'singular sequence %r is not contained in %r', str(x), str(s))


@st.composite
def big(draw):
    """A script whose size may exceed the limit."""
    L = draw(st.integers(1, 4))
    cap = draw(st.sampled_from([300, 360, 400, 700, 1500, 5000]))
    if draw(st.booleans()):
        return [L, draw(_node(L, cap, 0, True))]
    # products and sums around the limit
    inner = lambda: [draw(st.sampled_from(['I', 'F', 'M', 'O', 'U', 'T']))]
    if draw(st.booleans()):
        node = [[inner(), inner(), inner()]]
        node += [[inner(), inner(), inner()] for _ in range(draw(st.integers(0, 3)))]
        return [1, node]
    a = lambda: [[inner(), inner()]]
    return [2, [[a(), a(), a()][:draw(st.integers(1, 3))]]]


@facet('C02', 'size_limit', lambda tier: big(), 500, 15000,
       'scripts around the 360 singular sequence limit; non-trivial: more than 180 singular sequences')
def size_limit(c, ctx):
    n = R.norm(c[1], c[0])
    ok = R.fits(n)
    if R.card(n) > 180:
        ctx.nontrivial()
    ctx.label('accepted' if ok else 'refused')
    if R.card(n) == 360:
        ctx.label('exactly_360')
    try:
        s = script(text_of(c))
    except TooManySingularSequences:
        expect(not ok, 'refused a script of %d singular sequences: %r', R.card(n), text_of(c))
        return
    expect(ok, 'accepted a script of %d singular sequences: %r', R.card(n), text_of(c))
    expect_eq(len({str(x) for x in s.singular_sequences}), len(R.sem(n)), 'number of singular sequences')


@st.composite
def pairs(draw):
    L, node = draw(spellings(max_layer=4, cap=120))
    k = draw(st.integers(0, 7))
    if k == 0:
        return {'a': [L, node], 'b': draw(spellings(max_layer=4, cap=120))}
    if k >= 6:      # the same set written as a sum of smaller products, possibly less one of them
        b = node
        for _ in range(draw(st.integers(1, 3))):
            b = draw(distribute(L, b))
        if len(b) > 1 and draw(st.integers(0, 2)) == 0:
            i = draw(st.integers(0, len(b) - 1))
            b = b[:i] + b[i + 1:]
        if draw(st.booleans()):
            node = draw(distribute(L, node))
        return {'a': [L, node], 'b': [L, b]}
    if k == 1:
        return {'a': [L, node], 'b': [L, draw(_node(L, 60, 0, True))]}
    if k == 2:      # drop terms
        sub = [t for t in node if draw(st.booleans())] or node[:1]
        return {'a': [L, node], 'b': [L, sub]}
    return {'a': [L, node], 'b': [L, draw(narrow(L, node))]}


@st.composite
def narrow(draw, L, node):
    """Keep some terms, replace letters by one of their values: a subset of the script (or close to one)."""
    out = []
    for t in node:
        if len(node) > 1 and draw(st.integers(0, 2)) == 0 and (out or t is not node[-1]):
            continue
        if isinstance(t, str):
            if L == 0 and t in R.SUMS and draw(st.booleans()):
                out.append(draw(st.sampled_from(list(R.SUMS[t]))))
            else:
                out.append(t)
        else:
            out.append([draw(narrow(L - 1, c)) for c in t])
    return out or node


@st.composite
def distribute(draw, L, node):
    """One product becomes the sum of the products for each term of one of its parts."""
    if L == 0:
        return [x for t in node for x in (R.SUMS[t] if t in R.SUMS else t)]
    i = draw(st.integers(0, len(node) - 1))
    t = node[i]
    if isinstance(t, str):
        return node
    js = [j for j, c in enumerate(t) if len(c) > 1 or (L == 1 and c[0] in R.SUMS) or L > 1]
    if not js:
        return node
    j = draw(st.sampled_from(js))
    c = draw(distribute(L - 1, t[j])) if L == 1 or len(t[j]) < 2 else t[j]
    if len(c) > 12:
        return node
    return node[:i] + [t[:j] + [[x]] + t[j + 1:] for x in c] + node[i + 1:]


@facet('C02', 'containment', lambda tier: pairs(), 900, 40000,
       'pairs of scripts (unrelated, narrowed, overlapping, distributed products); containment must be inclusion of the denoted sets; '
       'non-trivial: the sets intersect and the scripts differ')
def containment(c, ctx):
    na, nb = R.norm(c['a'][1], c['a'][0]), R.norm(c['b'][1], c['b'][0])
    a, b = script(text_of(c['a'])), script(text_of(c['b']))
    same = R.layer(na) == R.layer(nb)
    wa, wb = R.sem(na), R.sem(nb)
    if same and na != nb and wa & wb:
        ctx.nontrivial()
    ctx.label('contained' if same and wb <= wa else 'not_contained')
    expect_eq(b in a, same and wb <= wa, '%r in %r' % (str(b), str(a)))
    expect_eq(a in b, same and wa <= wb, '%r in %r' % (str(a), str(b)))
    expect(a in a and b in b, 'containment is not reflexive')
