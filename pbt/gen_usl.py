"""Strategies for polymorphemes, lexemes and words (models of ref_usl)."""
import re

from hypothesis import strategies as st

from pbt import ref_script as R
from pbt import ref_usl as U
from pbt.gen_script import _node

# the old grammatical class marker is a token of its own in USL text
OLD = re.compile(r'E:\.b\.E:.:\.-$')

FLEXION_ROOTS = [
    "E:M:.-d.u.-'", "E:.-n.E:U:.+F:.-'", "E:O:O:.", "E:M:O:.", "E:.+E:U:S:+T:.-M:M:.o.-'", "E:.b.O:M:.-",
    "E:.b.O:O:.-", "E:S:.j.-'M:O:.-O:.-',", "E:.-',b.-S:.U:.-'y.-'O:.-',_", "E:.O:O:.-", "E:I:.-t.u.-'",
    "E:F:.-t.o.-'", "E:.-'O:O:.-M:.-'t.o.-',", "E:.-O:O:.-t.o.-'", "E:.-F:.M:M:.-l.-'", "E:.O:O:.O:.-t.o.-'",
    "E:M:.-O:.-t.o.-'", "E:M:.d.+M:O:.-", "E:F:M:.", "E:.O:.M:O:.-"]


def _texts(root):
    n = R.read(root)
    return sorted(R.render(R.from_word(w, R.layer(n))) for w in R.sem(n))


FLEXIONS = {r: _texts(r) for r in FLEXION_ROOTS}

POOL = ['S:', 'B:', 'T:', 'U:', 'A:', 'a.', 'b.', 'wo.', 'y.', 'E:U:.', 'E:S:.', 'U:S:U:.', 'S:E:T:.', 'b.a.-',
        'k.a.-', "b.o.-n.o.-s.u.-'", "f.a.-b.a.-f.o.-'", "b.-S:.A:.-'T:.-'T:.-',", "n.-S:.U:.-'B:.-'B:.-',B:.-',B:.-',_",
        "l.-T:.U:.-',n.-T:.A:.-',t.o.-f.o.-',_", "E:.wo.-", "E:S:.-d.u.-'", "m.-S:.U:.-'", "i.k.-", "u.A:.-",
        "E:T:.p.-", "s.a.-", "t.u.-", "e.", "c.-'B:.-'k.o.-t.o.-',"]


assert all(R.render(R.read(t)) == t for t in POOL)


@st.composite
def morpheme(draw):
    if draw(st.integers(0, 2)):
        return draw(st.sampled_from(POOL))
    L = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))
    n = R.norm(draw(_node(L, 1, 0, False)), L)
    t = R.render(n)
    if R.is_null(n) or OLD.match(t):
        return 'S:'
    return t


def distinct(draw, n, elem=None):
    return draw(st.lists(elem or morpheme(), min_size=n, max_size=n, unique=True))


@st.composite
def pms(draw, groups=True, max_const=4, max_group=4, min_total=0, max_groups=3):
    """A valid polymorpheme: disjoint, singular, multiplicities within the groups."""
    nc = draw(st.integers(0, max_const))
    ng = draw(st.integers(0, max_groups)) if groups else 0
    sizes = [draw(st.integers(1, max_group)) for _ in range(ng)]
    if nc + ng < min_total:
        nc = min_total
    ms = distinct(draw, nc + sum(sizes))
    c, rest = ms[:nc], ms[nc:]
    gs = []
    for s in sizes:
        gs.append([rest[:s], draw(st.integers(1, min(3, s)))])
        rest = rest[s:]
    return {'c': c, 'g': gs}


@st.composite
def flexion_pms(draw, groups=True, max_roots=3, max_group=3):
    """A flexion as in the dictionary: per flexion root either one constant or one group of multiplicity 1."""
    roots = draw(st.lists(st.sampled_from(FLEXION_ROOTS), max_size=max_roots, unique=True))
    c, g = [], []
    for r in roots:
        if groups and draw(st.booleans()) and len(FLEXIONS[r]) > 1 and len(g) < 3:
            k = draw(st.integers(2, min(max_group, len(FLEXIONS[r]))))
            g.append([draw(st.lists(st.sampled_from(FLEXIONS[r]), min_size=k, max_size=k, unique=True)), 1])
        else:
            c.append(draw(st.sampled_from(FLEXIONS[r])))
    return {'c': c, 'g': g}


@st.composite
def lexemes(draw, groups=True, size=3):
    k = draw(st.integers(0, 5))
    f = {'c': [], 'g': []} if k == 0 else draw(flexion_pms(groups=groups, max_roots=2)) if k < 4 else \
        draw(pms(groups=groups, max_const=2, max_group=3, max_groups=1))
    c = {'c': [], 'g': []} if draw(st.integers(0, 5)) == 0 else \
        draw(pms(groups=groups, max_const=size, max_group=3, max_groups=2))
    return {'f': f, 'c': c}


@st.composite
def _indep(draw, depth, leaf):
    if depth > 0 and draw(st.integers(0, 3)) == 0:
        link = draw(st.sampled_from(U.JUNCTIONS))
        n = draw(st.integers(2, 3))
        out = []
        for i in range(n):
            out += [[[link, U.INDEXES[i]] + r, x] for r, x in draw(_indep(depth - 1, leaf))]
        return out
    return [[[], draw(leaf)]]


@st.composite
def _dep(draw, depth, leaf):
    if depth > 0 and draw(st.integers(0, 3)) == 0:
        link = draw(st.sampled_from(U.JUNCTIONS))
        n = draw(st.sampled_from([2, 2, 2, 3, 3, 12]))
        if n == 12 and depth < 2:
            n = 2
        out = []
        for i in range(n):
            out += [[[link, U.INDEXES[i]] + r, x] for r, x in draw(_dep(depth - 1 if n < 12 else 0, leaf))]
        return out
    out = [[[], draw(leaf)]]
    if depth > 0:
        if draw(st.booleans()):
            out += [[[U.INDEP] + r, x] for r, x in draw(_indep(depth - 1, leaf))]
        if draw(st.integers(0, 2)) == 0:
            out += [[[U.DEP] + r, x] for r, x in draw(_dep(depth - 1, leaf))]
    return out


@st.composite
def words(draw, groups=True, leaf=None, depth=2, max_actants=3):
    leaf = leaf or lexemes(groups=groups, size=2)
    kind = draw(st.sampled_from(['process', 'process', 'dep', 'dep', 'indep']))
    if kind == 'process':
        es = [[[draw(st.sampled_from(U.VALENCES))], draw(leaf)]]
        for a in draw(st.lists(st.sampled_from(U.ACTANTS), max_size=max_actants, unique=True)):
            es += [[[a] + r, x] for r, x in draw(_dep(depth - 1, leaf))]
    elif kind == 'dep':
        es = [[[U.DEP] + r, x] for r, x in draw(_dep(depth, leaf))]
    else:
        es = [[[U.INDEP] + r, x] for r, x in draw(_indep(depth, leaf))]
    return {'e': es, 'focus': draw(st.integers(0, len(es) - 1))}


@st.composite
def group_lexeme(draw):
    """A small lexeme with at most one group, to bound the product of a word."""
    if draw(st.integers(0, 2)):
        return draw(lexemes(groups=False, size=2))
    return {'f': draw(flexion_pms(max_roots=1)), 'c': draw(pms(max_const=1, max_group=3, max_groups=1))}


def kind_of(w):
    r = w['e'][0][0][0]
    return 'indep' if r == U.INDEP else 'dep' if r == U.DEP else 'process'


def small_pms():
    few = st.sampled_from(['S:', 'B:', 'T:', 'a.', 'b.a.-'])

    @st.composite
    def s(draw):
        n = draw(st.integers(1, 5))
        ms = draw(st.lists(few, min_size=n, max_size=n, unique=True))
        k = draw(st.integers(0, n))
        g, rest = [], ms[k:]
        while rest:
            j = draw(st.integers(1, len(rest)))
            g.append([rest[:j], draw(st.integers(1, min(3, j)))])
            rest = rest[j:]
        return {'c': ms[:k], 'g': g[:3]}
    return s()


def small_lexemes():
    none = st.just({'c': [], 'g': []})
    return st.builds(lambda f, c: {'f': f, 'c': c}, st.one_of(none, small_pms()), st.one_of(none, small_pms()))
