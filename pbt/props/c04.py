"""C04 — factorisation never changes what is denoted."""
from pbt.core import facet, expect, expect_eq, st
from pbt import peer
from pbt import ref_script as R
from pbt.gen_script import spellings, text_of, _node

from ieml.dictionary.script import script, factorize
from ieml.dictionary.script.tools import promote
from ieml.exceptions import TooManySingularSequences


def promoted(n, L):
    while R.layer(n) < L:
        n = R.mult(R.layer(n) + 1, n, ('n', R.layer(n)), ('n', R.layer(n)))
    return n


def sem_text(s):
    return R.sem(R.read(str(s)))


@facet('C04', 'one_script', lambda tier: spellings(max_layer=4, cap=60), 500, 15000,
       'factorisation of one script (sums, products, overlapping terms); non-trivial: >= 3 singular sequences')
def one_script(c, ctx):
    n = R.norm(c[1], c[0])
    want = R.sem(n)
    if len(want) >= 3:
        ctx.nontrivial()
    s = script(text_of(c))
    f = factorize(s)
    expect_eq(sem_text(f), want, 'singular sequences after factorising %r into %r' % (str(s), str(f)))
    expect_eq(f.layer, c[0], 'layer after factorising')
    expect_eq({str(x) for x in f.singular_sequences}, {str(x) for x in s.singular_sequences}, 'singular sequences')
    expect_eq(f.cardinal, len(want), 'cardinal after factorising %r into %r' % (str(s), str(f)))
    expect_eq(str(script(str(f))), str(f), 'text of the factorised script is canonical')
    expect_eq(str(script(text_of(c), factorize=True)), str(f), 'factorisation through script()')
    g = factorize(f)
    expect_eq(sem_text(g), want, 'singular sequences after factorising twice')
    if n[0] == 'm':
        expect(R.read(str(f))[0] == 'm', 'the product %r was factorised into a sum %r', str(s), str(f))


@st.composite
def sets(draw):
    """A set of singular sequences: a sub-set of a grid, or mixed scripts, in arbitrary order."""
    if draw(st.booleans()):
        L = draw(st.integers(1, 2))
        xs = []
        for _ in range(draw(st.integers(1, 3))):
            g = [draw(st.lists(st.sampled_from('EUASBT' if L == 1 else sorted(R.PAIR)), min_size=1, max_size=4,
                               unique=True)) for _ in range(3)]
            for a in g[0]:
                for b in g[1]:
                    for d in g[2]:
                        if draw(st.integers(0, 7)):
                            xs.append([L, [[[a], [b], [d]]]])
        xs = xs[:60] or [[1, [['U']]]]
        if len(xs) > 1:
            xs = list(draw(st.permutations(xs)))
        return xs
    return draw(st.lists(spellings(max_layer=3, cap=12), min_size=1, max_size=5))


@facet('C04', 'many_scripts', lambda tier: sets(), 400, 12000,
       'factorisation of a list of scripts (partial grids in arbitrary order, mixed layers, duplicates); '
       'non-trivial: >= 3 distinct singular sequences and not a single script')
def many_scripts(c, ctx):
    ns = [R.norm(x[1], x[0]) for x in c]
    L = max(map(R.layer, ns))
    want = frozenset().union(*[R.sem(promoted(n, L)) for n in ns])
    if len(want) >= 3 and len(ns) > 1:
        ctx.nontrivial()
    if len(set(map(R.layer, ns))) > 1:
        ctx.label('mixed_layers')
    ss = [script(text_of(x)) for x in c]
    f = factorize(ss)
    expect_eq(sem_text(f), want, 'singular sequences after factorising %s into %r' % ([str(s) for s in ss], str(f)))
    expect_eq((f.layer, f.cardinal), (L, len(want)), 'layer and cardinal after factorising')
    expect_eq(len({str(x) for x in f.singular_sequences}), len(want), 'singular sequences')


def factor_text(texts):
    """One factorisation, as another process sees it."""
    return str(factorize([script(t, factorize=False) for t in texts]))


@st.composite
def orders(draw):
    """A scattered set of one layer, given in several orders."""
    kind = draw(st.integers(0, 2))
    if kind == 0:           # scattered points of a small grid: many equivalent factorisations
        abc = draw(st.sampled_from(['SBT', 'UASB', 'EUA', 'ESBT', 'UASBT']))
        grid = [[1, [[[a], [b], [d]]]] for a in abc for b in abc for d in abc]
        xs = draw(st.lists(st.sampled_from(grid), min_size=2, max_size=16, unique_by=lambda x: str(x)))
    elif kind == 1:         # the same at layer 2
        abc = draw(st.lists(st.sampled_from(sorted(R.PAIR)), min_size=2, max_size=4, unique=True))
        grid = [[2, [[[a], [b], [d]]]] for a in abc for b in abc for d in abc]
        xs = draw(st.lists(st.sampled_from(grid), min_size=2, max_size=14, unique_by=lambda x: str(x)))
    else:
        xs = draw(sets())
    return {'xs': xs, 'orders': [draw(st.permutations(range(len(xs)))) for _ in range(3)],
            'dup': draw(st.lists(st.integers(0, len(xs) - 1), max_size=3))}


@facet('C04', 'order', lambda tier: orders(), 500, 15000,
       'the same set factorised from several orders, with repetitions, and in a second interpreter with another hash seed; '
       'non-trivial: the factorised script is a sum of >= 2 terms, one of them a paradigm')
def order(c, ctx):
    ts = [text_of(x) for x in c['xs']]
    want = frozenset().union(*[R.sem(promoted(R.norm(x[1], x[0]), max(y[0] for y in c['xs']))) for x in c['xs']])
    f = factor_text(ts)
    n = R.read(f)
    if n[0] == 'a' and any(len(R.sem(k)) > 1 for k in n[2]):
        ctx.nontrivial()
    expect_eq(R.sem(n), want, 'singular sequences after factorising %s into %r' % (ts, f))
    for o in c['orders']:
        got = factor_text([ts[i] for i in o])
        expect_eq(got, f, 'factorisation of %s, in another order' % ts)
    if c['dup']:
        expect_eq(factor_text(ts + [ts[i] for i in c['dup']]), f, 'factorisation of %s, with repetitions' % ts)
    expect_eq(peer.ask('c04', 'factor_text', ts), ['ok', f], 'factorisation of %s in another process' % ts)


@st.composite
def to_promote(draw):
    L, node = draw(spellings(max_layer=4, cap=30))
    return {'s': [L, node], 'to': draw(st.integers(L, 6))}


@facet('C04', 'promotion', lambda tier: to_promote(), 300, 8000,
       'promotion of a script to a higher layer; non-trivial: the layer changes')
def promotion(c, ctx):
    L = c['s'][0]
    n = R.norm(c['s'][1], L)
    if c['to'] > L:
        ctx.nontrivial()
    s = script(text_of(c['s']))
    p = promote(s, c['to'])
    expect_eq(str(p), R.render(promoted(n, c['to'])), 'promotion of %r to layer %d' % (str(s), c['to']))
    expect_eq((p.layer, p.cardinal), (c['to'], s.cardinal), 'layer and cardinal after promotion')
    expect_eq(R.sem(R.read(str(p))), R.sem(promoted(n, c['to'])), 'singular sequences after promotion')
