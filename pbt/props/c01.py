"""C01 — every spelling of a script has one canonical text, and parsing and printing are inverse."""
from functools import reduce

from pbt.core import facet, expect, expect_eq, st, Violation
from pbt import ref_script as R
from pbt.gen_script import spellings, respell, text_of

from ieml.dictionary.script import script, m, AdditiveScript, MultiplicativeScript, NullScript
from ieml.dictionary.script.operator import add
from ieml.exceptions import InvalidScript


@st.composite
def two_spellings(draw):
    L, node = draw(spellings())
    return {'layer': L, 'a': node, 'b': draw(respell(L, node)),
            'quote': draw(st.integers(0, 1)), 'ws': draw(st.sampled_from(['', '', ' ', '\n', ' \t']))}


def classify(ctx, n):
    ctx.label('layer_%d' % R.layer(n))
    if n[0] == 'a':
        ctx.label('sum')
    if R.overlapping(n):
        ctx.label('overlapping_sum')


@facet('C01', 'canonical_text', lambda tier: two_spellings(), 1600, 60000,
       'two spellings of one script (permuted/duplicated sums, explicit empty padding, letters expanded, blanks), '
       'layers 0-6; non-trivial: the two texts differ and the script is not a single primitive')
def canonical_text(c, ctx):
    L = c['layer']
    n = R.norm(c['a'], L)
    ta = text_of((L, c['a']))
    tb = text_of((L, c['b']), c['quote'], c['ws'])
    classify(ctx, n)
    if ta != tb and n[0] != 'p':
        ctx.nontrivial()
    a, b = script(ta), script(tb)
    want = R.render(n)
    expect_eq(str(a), want, 'canonical text of %r' % ta)
    expect_eq(str(b), want, 'canonical text of %r' % tb)
    expect(a == b and hash(a) == hash(b) and not (a != b), 'two spellings %r %r of one script are not equal', ta, tb)
    expect(a == want and a == script(want), 'script differs from its own canonical text %r', want)
    again = script(str(a))
    expect_eq(str(again), want, 're-parsing the canonical text')
    expect_eq((a.layer, b.layer), (L, L), 'layer of %r' % ta)
    expect_eq(a.empty, n[0] == 'n', 'emptiness of %r' % ta)
    expect_eq(a.script_class, R.script_class(n), 'grammatical class of %r' % ta)
    expect_eq(b.script_class, R.script_class(n), 'grammatical class of %r' % tb)


def build(n):
    """Build a normal form through the constructors rather than the parser."""
    if n[0] == 'n':
        return NullScript(layer=n[1])
    if n[0] == 'p':
        return MultiplicativeScript(character=n[1])
    if n[0] == 'm':
        return m(build(n[2]), build(n[3]), build(n[4]))
    return add([build(x) for x in n[2]])


@facet('C01', 'construction', lambda tier: spellings(), 800, 30000,
       'a script built bottom-up with the product/sum operations vs. parsed from text; non-trivial: layer >= 1 '
       'and more than one term or child')
def construction(c, ctx):
    n = R.norm(c[1], c[0])
    if n[0] in 'ma':
        ctx.nontrivial()
    s = build(n)
    expect_eq(str(s), R.render(n), 'text of the constructed script')
    p = script(text_of(c))
    expect(s == p and hash(s) == hash(p), 'constructed and parsed %r are not equal', str(p))
    expect(not (s < p) and not (p < s), 'equal scripts are ordered: %r', str(p))
    expect_eq((s.layer, s.cardinal, s.script_class, bool(s.paradigm), s.empty),
              (p.layer, p.cardinal, p.script_class, bool(p.paradigm), p.empty), 'attributes of %r' % str(p))


@st.composite
def summands(draw):
    L = draw(st.integers(0, 3))
    n = draw(st.integers(2, 4))
    xs = [draw(spellings(max_layer=L, min_layer=L if draw(st.booleans()) else 0, cap=12)) for _ in range(n)]
    return {'terms': xs, 'perm': draw(st.permutations(list(range(n))))}


def promote(n, L):
    while R.layer(n) < L:
        n = R.mult(R.layer(n) + 1, n, ('n', R.layer(n)), ('n', R.layer(n)))
    return n


@facet('C01', 'sum_laws', lambda tier: summands(), 700, 30000,
       'sum of 2-4 scripts of mixed layers, in two orders and two groupings; non-trivial: at least two distinct terms')
def sum_laws(c, ctx):
    ns = [R.norm(x[1], x[0]) for x in c['terms']]
    L = max(map(R.layer, ns))
    ps = [promote(n, L) for n in ns]
    want = R.render(R.add(ps))
    if len(set(ps)) > 1:
        ctx.nontrivial()
    ss = [script(text_of(x)) for x in c['terms']]
    before = [str(s) for s in ss]
    expect_eq(str(add(ss)), want, 'sum of %s' % before)
    expect_eq(str(add([ss[i] for i in c['perm']])), want, 'sum of %s in another order' % before)
    if len(set(map(R.layer, ns))) == 1:
        args = list(ss)
        for _ in range(2):
            expect_eq(str(AdditiveScript(children=args)), want, 'sum of %s' % before)
            expect(len(args) == len(ss) and all(x is y for x, y in zip(args, ss)), 'the sum changed the list of terms %s it was given', before)
        acc = ss[0]
        for s in ss[1:]:
            acc = acc + s
        expect_eq(str(acc), want, 'left-nested sum of %s' % before)
        acc = ss[-1]
        for s in reversed(ss[:-1]):
            acc = s + acc
        expect_eq(str(acc), want, 'right-nested sum of %s' % before)
    expect_eq([str(s) for s in ss], before, 'operands changed by the sum')


@st.composite
def arguments(draw):
    L = draw(st.integers(0, 3))
    k = draw(st.integers(0, 4))
    xs = []
    for _ in range(k):
        kind = draw(st.integers(0, 9))
        xs.append(None if kind == 0 else draw(spellings(max_layer=3, cap=6)) if kind == 1 else
                  draw(spellings(max_layer=L, min_layer=L, cap=6)))
    return {'xs': xs, 'how': draw(st.sampled_from(['product', 'm', 'sum', 'add', 'plus'])),
            'letter': draw(st.sampled_from(list('EUASBTIFMOZz8') + ['wo', 'y', 's', 'x', 'ww', 'é', 'SS', 'r'])), 'gen': draw(st.booleans())}


def outcome(f):
    try:
        return str(f())
    except InvalidScript:
        return 'refused'


@facet('C01', 'arguments', lambda tier: arguments(), 1200, 40000,
       'products and sums of 0-4 arguments, some missing (None) or of another layer, and letters, legal or not: the object '
       'of the model, or InvalidScript where there is none; non-trivial: refused, or a missing part before the last one')
def args(c, ctx):
    ns = [x if x is None else R.norm(x[1], x[0]) for x in c['xs']]
    xs = [x if x is None else script(text_of(x)) for x in c['xs']]
    if c['how'] in ('product', 'm'):
        parts = list(ns)
        while parts and parts[-1] is None:
            parts.pop()
        if not parts:
            want = 'refused'
        else:
            L = R.layer(parts[-1])
            parts = [('n', L) if p is None else p for p in parts]
            if len(parts) > 3 or any(R.layer(p) != L for p in parts):
                want = 'refused'
            else:
                want = R.render(R.mult(L + 1, *(parts + [('n', L)] * (3 - len(parts)))))
        if c['how'] == 'm':
            if not 1 <= len(xs) <= 3:
                return
            got = outcome(lambda: m(*xs))
        else:
            got = outcome(lambda: MultiplicativeScript(children=iter(xs) if c['gen'] and xs else xs))
        if None in parts or want == 'refused' or any(x is None for x in c['xs'][:-1]):
            ctx.nontrivial()
    else:
        xs, ns = [x for x in xs if x is not None], [x for x in ns if x is not None]
        if c['how'] == 'add':
            if not xs:
                return
            want = R.render(R.add([promote(n, max(map(R.layer, ns))) for n in ns]))
            got = outcome(lambda: add(xs))
        else:
            want = 'refused' if not ns or len(set(map(R.layer, ns))) > 1 else R.render(R.add(ns))
            if c['how'] == 'sum':
                got = outcome(lambda: AdditiveScript(children=tuple(xs) if c['gen'] else xs))
            else:
                if len(xs) < 2:
                    return
                got = outcome(lambda: reduce(lambda a, b: a + b, xs))
        if want == 'refused' or len(ns) > 2:
            ctx.nontrivial()
    ctx.label(c['how'] + (' refused' if want == 'refused' else ''))
    expect_eq(got, want, '%s of %s' % (c['how'], [str(x) for x in xs]))
    l = c['letter']
    one = l if l in 'UASBT' and len(l) == 1 else None
    want = l + ':' if one else '%s.' % l if l in R.PAIR else 'refused'
    expect_eq(outcome(lambda: MultiplicativeScript(character=l)), want, 'product of the letter %r' % l)
    expect_eq(outcome(lambda: AdditiveScript(character=l)), l + ':' if l in R.SUMS else 'refused', 'sum of the letter %r' % l)
