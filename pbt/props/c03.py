"""C03 — scripts are totally ordered, by layer, then size, then content."""
import functools
import itertools

from pbt.core import facet, expect, expect_eq, st
from pbt import ref_script as R
from pbt.gen_script import spellings, respell, text_of, _node
from pbt.props.c02 import narrow

from ieml.dictionary.script import script


@st.composite
def regroup(draw):
    """The same terms cut in different ways between the three roles: same size, same primitives, other structure."""
    k = draw(st.integers(4, 7))
    names = draw(st.lists(st.sampled_from(sorted(R.PAIR)), min_size=k, max_size=k, unique=True))
    names.sort(key=lambda t: R.VALUE[R.PAIR[t][0]] * 64 + R.VALUE[R.PAIR[t][1]])
    out = []
    for _ in range(draw(st.integers(2, 4))):
        i = draw(st.integers(1, k - 2))
        j = draw(st.integers(i + 1, k - 1))
        out.append([2, [[names[:i], names[i:j], names[j:]]]])
    if draw(st.booleans()):
        out.append([2, [x[1][0] for x in out]])
    # the same ambiguity, deeper
    for L in range(3, 3 + draw(st.sampled_from([0, 0, 1, 1, 2]))):
        same = draw(st.booleans())
        tail = draw(st.sampled_from(out))[1]
        nxt = []
        for x in out:
            ch = [x[1]]
            if R.card(R.norm(x[1], L - 1)) * R.card(R.norm(tail, L - 1)) <= 300:
                ch.append(tail if same else draw(st.sampled_from([tail, x[1]])))
            ch = ch if draw(st.integers(0, 3)) else ch[::-1]
            nxt.append([L, [ch]])
        out = [x for x in nxt if R.fits(R.norm(x[1], x[0]))] or nxt[:1]
        if not all(R.fits(R.norm(x[1], x[0])) for x in out):
            return [[2, [[names[:1], names[1:2], names[2:]]]]] * 2
    return out if len(out) > 1 else out * 2


# layer 1 terms by number of singular sequences
POOL = {}
for _x in ('U', 'A', 'S', 'B', 'T', 'O', 'M', 'F', 'I'):
    for _y in ('U', 'A', 'S', 'B', 'T', 'O', 'M', 'F', 'I'):
        _n = R.norm([[[_x], [_y]]], 1)
        POOL.setdefault(R.card(_n), []).append([_x, _y])
# sizes of six terms f1..f6 such that the product of sums (f1+..+f4)*f5*f6 and the sum of products f1*f2*f3 + f4*f5*f6 have
# as many singular sequences
SIZES = [(a, b, c, d, e, f) for a in (1, 2, 3) for b in (2, 3, 4, 5) for c in (2, 3, 4, 5, 6) for d in (2, 3, 4, 5, 6, 9)
         for e in (1, 2, 3) for f in (1, 2, 3)
         if a <= b <= c <= d and a * b * c <= d * e * f and (a + b + c + d) * e * f == a * b * c + d * e * f
         and all(k in POOL for k in (a, b, c, d, e, f))]


@st.composite
def mixed(draw):
    """A product and a sum of one layer, with the same primitives in the same order and the same size."""
    sizes = draw(st.sampled_from(SIZES))
    fs = [draw(st.sampled_from(POOL[k])) for k in sizes]
    if fs[0] == fs[1] or fs[1] == fs[2]:
        fs[:3] = draw(st.lists(st.sampled_from(POOL[sizes[0]]), min_size=3, max_size=3, unique_by=str))[:3] \
            if len(set(sizes[:3])) == 1 else fs[:3]
    fs[:4] = sorted(fs[:4], key=lambda f: (R.card(R.norm([[[f[0]], [f[1]]]], 1)), R.canon(R.norm([[[f[0]], [f[1]]]], 1))))
    t = [[[x], [y]] for x, y in fs]
    out = [[2, [[t[:4], [t[4]], [t[5]]]]], [2, [[[t[0]], [t[1]], [t[2]]], [[t[3]], [t[4]], [t[5]]]]]]
    for L in range(3, 3 + draw(st.sampled_from([0, 0, 1, 2]))):
        out = [[L, [[x[1]]]] for x in out]
    return out + [draw(st.sampled_from(out))][:draw(st.integers(0, 1))]


@st.composite
def families(draw):
    mode = draw(st.integers(0, 5))
    if mode == 5:
        return draw(mixed())
    if mode == 0:
        return draw(st.lists(spellings(), min_size=2, max_size=6))
    if mode == 1:
        return draw(regroup())
    L, node = draw(spellings(max_layer=5, cap=60))
    if mode == 2:
        xs = [[L, node]]
        for _ in range(draw(st.integers(1, 4))):
            xs.append([L, draw(narrow(L, node))])
        return xs
    if mode == 3:
        xs = [[L, node], [L, draw(respell(L, node))]]
        xs += [[L, draw(_node(L, 12, 0, True))] for _ in range(3)]
        return xs
    # a script and its parts
    xs = [[L, node]]
    for t in node:
        xs.append([L, [t]])
        if not isinstance(t, str):
            xs.extend([L - 1, ch] for ch in t)
    return xs[:6]


@facet('C03', 'total_order', lambda tier: families(), 1200, 50000,
       'families of 2-7 scripts: unrelated, narrowed, respelled, parts of one another, and regrouped products with the '
       'same size and primitives; non-trivial: two distinct scripts of one layer and one size')
def total_order(c, ctx):
    ns = [R.norm(x[1], x[0]) for x in c]
    ss = [script(text_of(x)) for x in c]
    for (i, a), (j, b) in itertools.combinations(enumerate(ns), 2):
        if a != b and R.layer(a) == R.layer(b) and R.card(a) == R.card(b):
            ctx.nontrivial()
            ctx.label('same_layer_and_size')
            if R.canon(a) == R.canon(b):
                ctx.label('same_primitives')
    for i, j in itertools.product(range(len(ss)), repeat=2):
        want = R.cmp(ns[i], ns[j])
        a, b = ss[i], ss[j]
        expect_eq((a < b, a > b, a == b), (want < 0, want > 0, want == 0),
                  'order of %r and %r (<, >, ==)' % (str(a), str(b)))
    for i, j, k in itertools.permutations(range(min(5, len(ss))), 3):
        if ss[i] < ss[j] and ss[j] < ss[k]:
            expect(ss[i] < ss[k], 'order not transitive: %r %r %r', str(ss[i]), str(ss[j]), str(ss[k]))
    want = [R.render(n) for n in sorted(ns, key=functools.cmp_to_key(R.cmp))]
    expect_eq([str(s) for s in sorted(ss)], want, 'sorted scripts')
    expect_eq([str(s) for s in sorted(reversed(ss))], want, 'sorted scripts, reversed input')
    expect_eq(str(min(ss)), want[0], 'smallest script')


@facet('C03', 'singular_sequence_order', lambda tier: spellings(max_layer=4, cap=120), 300, 10000,
       'ordering of the singular sequences of one script and of its terms; non-trivial: >= 3 singular sequences')
def ss_order(c, ctx):
    s = script(text_of(c))
    xs = [str(x) for x in s.singular_sequences]
    if len(set(xs)) >= 3:
        ctx.nontrivial()
    ref = [R.render(n) for n in sorted((R.read(x) for x in xs), key=functools.cmp_to_key(R.cmp))]
    expect_eq(xs, ref, 'order of the singular sequences of %r' % str(s))
