"""C14 — the decorations of a USL: each value on the component it addresses, in one canonical text."""
import math
import random

from pbt.core import facet, expect, expect_eq, st
from pbt import ref_path as P
from pbt import ref_usl as U
from pbt import gen_usl as G
from pbt.props.c13 import mutate, small_leaf
from pbt.real_usl import build, parse

from ieml.exceptions import CannotParse
from ieml.usl.decoration.instance import InstancedUSL, Decoration
from ieml.usl.decoration.path import DeferenceError
from ieml.usl.decoration.parser.parser import PathParser

PARSER = PathParser()
VALUES = ['x', 'hello world', 'a"b', '"', '\\', '\\"', 'a\\', '\\\\"', ']', '] [> "y"', '[>content "q"]', '(', '{}', 'é🎉', '\n',
          ' lead', 'trail ', '#', '! E:A:.', '>', 'm1(', "it's", '\t', '\\n', '\u00a0', '0']


def values():
    return st.one_of(st.sampled_from(VALUES), st.sampled_from(VALUES), st.text('ab"\\[]>( \n', min_size=0, max_size=6),
                     st.text(st.characters(blacklist_categories=['Cs']), max_size=5))


def usls(leaf=None):
    pm = G.pms(min_total=1).filter(lambda m: U.pm_text(m)).map(lambda m: ['pm', m])
    lx = st.fixed_dictionaries({'f': G.flexion_pms(), 'c': G.pms()}).map(lambda m: ['lexeme', m])
    w = G.words(leaf=leaf or small_leaf()).map(lambda m: ['word', m])
    return st.one_of(pm, lx, lx, w, w)


def esc(v):
    return v.replace('\\', '\\\\').replace('"', '\\"')


def respell(p, rnd):
    """Another text of the address of the same component."""
    out = [list(s) for s in p]
    for s in out:
        if s[0] == 'role':
            s[2] = rnd.choice([s[2], s[2], True, False])
            if s[1][0] in U.VALENCES:
                s[1] = [rnd.choice(U.VALENCES)] + s[1][1:]
        elif s[0] == 'group':
            s[2] = rnd.choice([s[2], s[2], None, 1, 2, 3])
    return out


@st.composite
def decorated(draw, n=6, repeat=True, leaf=None):
    """[kind, model, [[address, value]]], addresses as the USL lists them."""
    kind, m = draw(usls(leaf))
    ps = [p for p, _, _ in P.parts(kind, m)]
    if kind != 'word':
        ps = [[]] + ps
    if kind == 'pm':
        ps += [p for p, _, _ in P.flexion_parts(m)]
    k = draw(st.integers(1, n))
    chosen = draw(st.lists(st.integers(0, len(ps) - 1), min_size=k, max_size=k, unique=False)
                  if repeat else st.lists(st.integers(0, len(ps) - 1), min_size=1, max_size=k, unique=True))
    return [kind, m, [[ps[i], draw(values())] for i in chosen]]


def deco_text(p, v, sp=' '):
    return '[%s%s"%s"]' % (P.text(p), sp, esc(v))


def shown(i):
    return {str(d.path): d.value for d in i.decorations}


def literals(u):
    out = [u] + list(u.iter_structure())
    return [x for x in out if x.get_literal() is not None]


@facet('C14', 'canonical', lambda tier: st.tuples(decorated(), st.integers(0, 2 ** 32)), 3600, 40000,
       'a USL with a list of decorations, addresses spelled in any valid way, hostile values, repeated addresses: the text '
       'is read with exactly the last value on each component, written in one text that is a fixed point and does not depend '
       'on the order, the USL is unchanged and nothing leaks; the constructor agrees with the text; '
       'non-trivial: at least 2 components decorated')
def canonical(x, ctx):
    (kind, m, decos), seed = x
    rnd = random.Random(seed)
    u = build(kind, m)
    ut = str(u)
    want = {P.text(p): v for p, v in decos}
    ctx.label(kind)
    if len(want) >= 2:
        ctx.nontrivial()
    if len(want) < len(decos):
        ctx.label('repeated')
    if any(c in v for v in want.values() for c in '"\\'):
        ctx.label('escaped')
    spelled = [(respell(p, rnd), v) for p, v in decos]
    t = ut + ' ' + ' '.join(deco_text(p, v) for p, v in spelled)
    i = parse(t)
    expect(isinstance(i, InstancedUSL), '%r is read as a %s' % (t, type(i).__name__))
    expect_eq(shown(i), want, 'decorations of %r' % t)
    expect_eq(len(i.decorations), len(want), 'number of decorations of %r' % t)
    expect_eq(str(i.usl), ut, 'USL under the decorations of %r' % t)
    expect(type(i.usl) is type(u) and i.usl == u, 'USL under %r is a %s', t, type(i.usl))
    expect_eq(literals(i.usl), [], 'literals left by %r' % t)
    text = str(i)
    expect(text.startswith(ut + ' '), '%r is written %r' % (t, text))
    # the written text, the same decorations in another order, with other white space, as objects: same text
    expect_eq((str(parse(text)), shown(parse(text))), (text, want), 'reading of %r' % text)
    last = [(p, v) for j, (p, v) in enumerate(spelled)
            if P.text(decos[j][0]) not in [P.text(q) for q, _ in decos[j + 1:]]]
    for _ in range(2):
        rnd.shuffle(last)
        t2 = ut + ' ' * rnd.randint(0, 2) + ''.join(deco_text(respell(p, rnd), v, rnd.choice([' ', '  ', '\n']))
                                                     + rnd.choice(['', ' ']) for p, v in last)
        j = parse(t2)
        expect_eq(str(j), text, 'text of %r' % t2)
        expect(i == j, '%r and %r are different' % (t, t2))
    o = InstancedUSL(u, [Decoration(PARSER.parse(P.text(p)), v) for p, v in spelled])
    expect_eq(str(o), text, 'InstancedUSL of %r' % t)
    expect_eq(str(u), ut, 'the USL given to InstancedUSL')
    # a decorated USL has the parts of its USL
    for q, x in u.iter_structure_path():
        expect(q.contained(o) and str(q.deference(o)) == str(x), '%s in %r is not that of its USL', q, text)
    expect_eq([str(x) for x in o.iter_structure()], [str(x) for x in u.iter_structure()], 'components of %r' % text)
    expect_eq(sorted((str(q), str(x)) for q, x in o.iter_structure_path()),
              sorted((str(q), str(x)) for q, x in u.iter_structure_path()), 'paths of the components of %r' % text)
    expect_eq((o.empty, sorted(map(str, o.morphemes)), o.grammatical_class),
              (u.empty, sorted(map(str, u.morphemes)), u.grammatical_class), 'what %r is' % text)
    expect_eq(literals(u), [], 'literals left by the constructor on %r' % t)


@st.composite
def refusals(draw):
    kind, m, decos = draw(decorated(n=4))
    for _ in range(4):
        bad = mutate(draw, [list(s) for s in draw(st.sampled_from(decos))[0]], draw(st.integers(1, 2)))
        if bad and P.resolve(kind, m, bad) is None and bad[0][0] != 'flex':
            break
    else:
        bad = {'pm': [['group', 2, 1, 'm.-']], 'lexeme': [['content'], ['group', 2, 1, 'm.-']],
               'word': [['role', ['E:S:.', U.INDEP, U.INDEP, U.INDEP], False]]}[kind]
    return [kind, m, decos, draw(st.integers(0, 3)), bad]


@facet('C14', 'refused', lambda tier: refusals(), 2000, 25000,
       'a decoration on a component that does not exist, among valid ones: reading refuses the text, the constructor '
       'raises DeferenceError, no value is left on the USL, and a later USL of the same parser is not affected; '
       'non-trivial: a valid decoration comes first')
def refused(x, ctx):
    kind, m, decos, at, bad = x
    u = build(kind, m)
    if P.resolve(kind, m, bad) is not None:
        return
    at = min(at, len(decos))
    if at:
        ctx.nontrivial()
    ctx.label(kind)
    all_ = decos[:at] + [[bad, 'bad']] + decos[at:]
    t = str(u) + ' ' + ' '.join(deco_text(p, v) for p, v in all_)
    try:
        i = parse(t)
    except CannotParse:
        i = None
    expect(i is None, '%r is read as %s' % (t, i))
    try:
        InstancedUSL(u, [Decoration(PARSER.parse(P.text(p)), v) for p, v in all_])
    except DeferenceError:
        pass
    else:
        expect(False, 'InstancedUSL accepts %r' % t)
    expect_eq(literals(u), [], 'literals left by the refusal of %r' % t)
    good = str(u) + ' ' + ' '.join(deco_text(p, v) for p, v in decos)
    expect_eq(shown(parse(good)), {P.text(p): v for p, v in decos}, 'decorations of %r after a refusal' % good)
    expect_eq(InstancedUSL.list_decorations(u), [], 'decorations listed on %s after a refusal' % u)


@facet('C14', 'components', lambda tier: st.tuples(usls(), st.lists(st.tuples(st.integers(0, 40), values()), max_size=6)),
       1500, 20000,
       'values set on the components of a USL (the word, its lexemes, their contents and flexions) are exactly the '
       'decorations from_usl gives, and its text is read with the same ones; '
       'non-trivial: at least 2 components carry a value')
def components(x, ctx):
    (kind, m), sets = x
    u = build(kind, m)
    if kind == 'pm':
        ctx.label('no component')
        return
    parts = [(p, v) for p, v in u.iter_structure_path()
             if type(p.tail).__name__ in ('UslPath', 'RolePath', 'LexemePath')]
    want = {}
    for i, v in sets:
        p, c = parts[i % len(parts)]
        c.set_literal(v)
        want[str(p)] = v
    if len(want) >= 2:
        ctx.nontrivial()
    ctx.label(kind)
    expect_eq({str(d.path): d.value for d in InstancedUSL.list_decorations(u)}, want, 'decorations listed on %s' % u)
    i = InstancedUSL.from_usl(u)
    expect_eq(shown(i), want, 'decorations of from_usl on %s' % u)
    expect_eq(str(i.usl), str(u), 'USL of from_usl')
    if want:
        expect_eq(shown(parse(str(i))), want, 'reading of %s' % i)


@facet('C14', 'singular', lambda tier: decorated(repeat=False, leaf=G.group_lexeme()), 1600, 20000,
       'the singular sequences of a decorated USL are those of the USL, each with exactly the decorations of the '
       'components it has; non-trivial: more than one singular sequence')
def singular(x, ctx):
    kind, m, decos = x
    decos = [[p, v] for p, v in decos if not p or p[-1][-1] != 'E:']
    if count_ss(kind, m) > 300:
        ctx.label('too many')
        return
    ms = ss_models(kind, m)
    if len(ms) > 1:
        ctx.nontrivial()
    ctx.label(kind)
    u = build(kind, m)
    i = InstancedUSL(u, [Decoration(PARSER.parse(P.text(p)), v) for p, v in decos])
    want = []
    for s in ms:
        have = {}
        for p, v in decos:
            if p == []:
                have['>'] = v
            elif p[0][0] == 'flex':
                if any(p == q for q, _, _ in P.flexion_parts(s)):
                    have[P.text(p)] = v
            else:
                for q, _, _ in P.parts(kind, s):
                    if P.same_place(p, q):
                        have[P.text(q)] = v
        want.append((text(kind, s), sorted(have.items())))
    got = []
    for s in i.singular_sequences:
        got.append((str(s.usl), sorted(shown(s).items())) if isinstance(s, InstancedUSL) else (str(s), []))
    expect_eq(sorted(got), sorted(want), 'singular sequences of %s' % i)
    expect_eq([str(x) for x in literals(u)], [], 'literals left on %s' % u)


def count_ss(kind, m):
    """An upper bound of the number of singular sequences."""
    if kind == 'word':
        return math.prod(count_ss('lexeme', x) for _, x in m['e'])
    if kind == 'lexeme':
        return count_ss('pm', m['f']) * count_ss('pm', m['c'])
    return len(U.pm_ss(m))


def ss_models(kind, m):
    return {'pm': U.pm_ss_models, 'lexeme': U.lexeme_ss, 'word': U.word_ss}[kind](m)


def text(kind, m):
    return {'pm': U.pm_text, 'lexeme': U.lexeme_text, 'word': U.word_text}[kind](m)
