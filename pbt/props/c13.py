"""C13 — a path addresses exactly one component of a USL, in every direction: listing, text, lookup, composition, rebuild."""
import random

from pbt.core import facet, expect, expect_eq, st, Violation
from pbt import ref_path as P
from pbt import ref_usl as U
from pbt import gen_usl as G
from pbt.real_usl import build

from ieml.dictionary.script import Script, script
from ieml.usl import PolyMorpheme, Lexeme, Word
from ieml.usl.usl import usl
from ieml.usl.decoration.path import DeferenceError, usl_from_path_values
from ieml.usl.decoration.parser.parser import PathParser

PARSER = PathParser()
TYPES = {'script': Script, 'pm': PolyMorpheme, 'lexeme': Lexeme, 'word': Word}


def small_leaf():
    return st.fixed_dictionaries({'f': G.flexion_pms(max_roots=2), 'c': G.pms(max_const=2, max_group=3, max_groups=2)})


def usls():
    pm = G.pms().map(lambda m: ['pm', m])
    lx = st.fixed_dictionaries({'f': G.flexion_pms(), 'c': G.pms()}).map(lambda m: ['lexeme', m])
    w = G.words(leaf=small_leaf()).map(lambda m: ['word', m])
    return st.one_of(pm, lx, w, w)


def shown(v):
    return next(k for k, t in TYPES.items() if isinstance(v, t)), str(v)


def trivial(kind, m):
    return len(P.parts(kind, m)) < (4 if kind == 'pm' else 8 if kind == 'lexeme' else 14)


@facet('C13', 'listing', lambda tier: usls(), 1200, 20000,
       'USLs of the three kinds: iter_structure_path (and its by_type and by_script_ss forms) yields every component of the '
       'reference exactly once under its own path, whose text is read back as an equal path and leads to that component; '
       'non-trivial: at least 4 components in a polymorpheme, 8 in a lexeme, 14 in a word')
def listing(x, ctx):
    kind, m = x
    u = build(kind, m)
    ref = [(P.text(p), (k, t)) for p, k, t in P.parts(kind, m)]
    if not trivial(kind, m):
        ctx.nontrivial()
    ctx.label(kind)
    got = list(u.iter_structure_path())
    expect_eq(sorted((str(p), shown(v)) for p, v in got), sorted(ref), 'components of %s' % u)
    scripts = sorted((t, v) for t, v in ref if v[0] == 'script')
    expect_eq(sorted((str(p), shown(v)) for p, v in u.iter_structure_path_by_script_ss()), scripts,
              'morphemes listed in %s' % u)
    for k in TYPES:
        expect_eq(sorted((str(p), shown(v)) for p, v in u.iter_structure_path_by_type(TYPES[k])),
                  sorted((t, v) for t, v in ref if v[0] == k), 'parts of type %s in %s' % (k, u))
    if kind == 'pm':
        expect_eq(sorted((str(p), shown(v)) for p, v in u.iter_structure_path(flexion=True)),
                  sorted((P.text(p), (k, t)) for p, k, t in P.flexion_parts(m)), 'flexion components of %s' % u)
    if kind == 'word':
        for p, k, t in P.parts(kind, m):
            for odd in (0, 1):
                n = P.named_text(p, odd)
                q = PARSER.parse(n)
                expect_eq(str(q), P.text(p), 'text of the path read from %r' % n)
                expect_eq(shown(q.deference(u)), (k, t), '%s in %s' % (n, u))
    seen = {}
    for p, v in got:
        t = str(p)
        expect_eq(shown(p.deference(u)), shown(v), '%s in %s' % (t, u))
        q = PARSER.parse(t)
        expect_eq(str(q), t, 'text of the path read from %r' % t)
        expect(q == p and not q != p and hash(q) == hash(p) and type(q) is type(p), 'path read from %r is another one' % t)
        expect_eq(shown(q.deference(u)), shown(v), 'path read from %s in %s' % (t, u))
        if kind != 'word':
            expect(type(p).from_string(t) == p, 'path made from the text %r is another one', t)
        seen[q] = v
    expect_eq(len(seen), len(ref), 'distinct paths of %s' % u)
    for p, v in got:
        expect(seen.get(p) is not None and shown(seen[p]) == shown(v), 'path %s is not found by itself' % p)


# ---- lookup ----
@st.composite
def lookups(draw):
    kind, m = draw(usls())
    ps = [p for p, _, _ in P.parts(kind, m)]
    out = []
    for _ in range(draw(st.integers(2, 6))):
        p = [list(s) for s in draw(st.sampled_from(ps))]
        out.append(mutate(draw, p, draw(st.integers(0, 3))))
    return [kind, m, out]


def mutate(draw, p, n):
    """A respelled address (first choices) or one of another component, that may not exist."""
    for _ in range(n):
        if not p:
            return p
        s = p[draw(st.integers(0, len(p) - 1))]
        k = draw(st.integers(0, 4))
        if s[0] == 'role':
            if k == 0:
                s[2] = not s[2]
            elif k == 1 and s[1][0] in U.VALENCES:
                s[1] = [draw(st.sampled_from(U.VALENCES))] + s[1][1:]
            elif k == 2 and draw(st.booleans()):
                s[1] = s[1][:-1] or s[1]               # the head of a quality, or a junction, which is no component
            elif k == 2:
                s[1] = s[1] + [draw(st.sampled_from([U.INDEP, U.DEP]))]
            elif k == 3:
                s[1] = [draw(st.sampled_from(U.ACTANTS))] + s[1][1:] if s[1][0] in U.ACTANTS else s[1]
            else:
                s[1] = s[1][:-1] + [U.INDEXES[5]] if s[1][-1] in U.INDEXES else s[1]
        elif s[0] == 'group':
            if k == 0:
                s[2] = draw(st.sampled_from([None, 1, 2, 3]))
            elif k == 1:
                s[1] = draw(st.integers(0, 2))
            elif k == 2:
                s[3] = None
            else:
                s[3] = draw(st.sampled_from(G.POOL + ['E:']))
        elif s[0] == 'constant':
            s[1] = None if k == 0 else draw(st.sampled_from(G.POOL + ['E:']))
        elif s[0] == 'flex':
            s[1] = draw(st.sampled_from(G.FLEXIONS[draw(st.sampled_from(G.FLEXION_ROOTS))]))
        elif p[-1] is not s and k == 0:
            del p[p.index(s) + 1:]
    return p


def expect_missing(q, u):
    try:
        v = q.deference(u)
    except DeferenceError:
        return
    expect(False, '%s gives %s in %s' % (q, v, u))


@facet('C13', 'lookup', lambda tier: lookups(), 2000, 30000,
       'addresses of a USL respelled (without multiplicity, with another multiplicity, valence or focus mark) or changed to '
       'another component, role, group or morpheme: the parsed path leads to the component of the reference, or '
       'DeferenceError and contained() false where there is none; non-trivial: one found and one missing')
def lookup(x, ctx):
    kind, m, ps = x
    u = build(kind, m)
    found = 0
    missing = 0
    for p in ps:
        q = PARSER.parse(P.text(p))
        want = P.resolve(kind, m, p)
        expect_eq(q.contained(u), want is not None, '%s contained in %s' % (P.text(p), u))
        if want is None:
            missing += 1
            expect_missing(q, u)
        else:
            found += 1
            expect_eq(shown(q.deference(u)), want, '%s in %s' % (P.text(p), u))
    if found and missing:
        ctx.nontrivial()
    ctx.label(kind)


# ---- composition ----
@facet('C13', 'composition', lambda tier: st.tuples(usls(), st.integers(0, 2 ** 32)), 1000, 15000,
       'every way of cutting every path of a USL in two: head + tail is the path, the path has the head as a prefix and no '
       'other one, removing it leaves the tail, and looking the tail up in what the head gives is looking the path up; '
       'non-trivial: a path of at least 2 steps')
def composition(x, ctx):
    (kind, m), seed = x
    u = build(kind, m)
    ps = [(p, (k, t)) for p, k, t in P.parts(kind, m) if p]
    rnd = random.Random(seed)
    ctx.label(kind)
    for p, want in ps if len(ps) < 25 else rnd.sample(ps, 25):
        q = PARSER.parse(P.text(p))
        expect(q.has_prefix(q), '%s has itself as a prefix' % q)
        for i in range(1, len(p)):
            ctx.nontrivial()
            ht, tt = P.text(p[:i]), P.text(p[i:])
            h, t = PARSER.parse(ht), PARSER.parse(tt)
            expect_eq(str(h.concat(t)), str(q), '%s + %s' % (ht, tt))
            expect(q.has_prefix(h), '%s is a prefix of %s' % (ht, q))
            expect(not h.has_prefix(q), '%s is a prefix of %s' % (q, ht))
            r = q.remove_prefix(h)
            expect(r is not None and str(r) == tt and r == t, '%s without its prefix %s is %s' % (q, ht, r))
            expect_eq(shown(t.deference(h.deference(u))), want, '%s in what %s gives in %s' % (tt, ht, u))
        h, t = q.split_tail()
        expect_eq((str(h), str(t)), (P.text(p[:-1]), P.text(p[-1:])), 'last step of %s' % q)
        expect_eq(str(q.tail), P.text(p[-1:]), 'tail of %s' % q)
        other = rnd.choice(ps)[0]
        o = PARSER.parse(P.text(other))
        # paths of one group with different morphemes are each other's prefix, nothing is said of them
        if [s[:3] if s[0] == 'group' else s[:1] if s[0] == 'constant' else s for s in other] != \
                [s[:3] if s[0] == 'group' else s[:1] if s[0] == 'constant' else s for s in p[:len(other)]]:
            expect(not q.has_prefix(o), '%s is a prefix of %s' % (o, q))
            expect_eq(q.remove_prefix(o), None, '%s without %s' % (q, o))
            ctx.label('foreign prefix')


# ---- rebuild ----
@facet('C13', 'rebuild', lambda tier: st.tuples(usls(), st.integers(0, 2 ** 32)), 1000, 15000,
       'a USL taken apart into (path, morpheme) pairs, shuffled, as objects and as text, with constants given whole or by '
       'morpheme, is rebuilt equal; non-trivial: at least 4 morphemes')
def rebuild(x, ctx):
    (kind, m), seed = x
    u = build(kind, m)
    rnd = random.Random(seed)
    parts = P.parts(kind, m)
    pairs = [(P.text(p), t) for p, k, t in parts if k == 'script']
    if len(pairs) >= 4:
        ctx.nontrivial()
    ctx.label(kind)
    expect_eq(str(usl(list(u.iter_structure_path_by_script_ss()))), str(u), 'usl of the morphemes of %s' % u)
    # one item that is not a (path, USL or morpheme)
    items = list(u.iter_structure_path_by_script_ss())
    if items:
        q, v = items[rnd.randrange(len(items))]
        items.insert(rnd.randrange(len(items) + 1), rnd.choice([(str(q), v), (q, str(v)), (q, None), (v, q)]))
        try:
            r = usl(iter(items))
        except ValueError:
            pass
        else:
            raise Violation('usl() reads %s as %s' % ([(repr(a), repr(b)) for a, b in items], r))
    for _ in range(2):
        rnd.shuffle(pairs)
        r = usl_from_path_values(list(pairs))
        expect_eq((type(r), str(r)), (type(u), str(u)), 'rebuilt from %s' % pairs)
    # constants of several morphemes given at once
    whole = [(p, t) for p, k, t in parts if k == 'pm' and p[-1][0] == 'constant' and t and rnd.random() < .6]
    keep = [(P.text(p), t) for p, k, t in parts
            if k == 'script' and not any(p[:-1] == w[:-1] and p[-1][0] == 'constant' for w, _ in whole)]
    mixed = keep + [(P.text(p), t) for p, t in whole]
    rnd.shuffle(mixed)
    if whole:
        ctx.label('whole constant')
    r = usl_from_path_values(mixed)
    expect_eq((type(r), str(r)), (type(u), str(u)), 'rebuilt from %s' % mixed)
