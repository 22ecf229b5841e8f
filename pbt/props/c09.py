"""C09 — The relations graph is exactly what the definitions of the relations give, symmetric where it must be."""
import numpy as np

from pbt.core import facet, expect, expect_eq, st
from pbt import ref_dict as RD
from pbt import gen_dict as GD

from ieml.constants import RELATIONS, INVERSE_RELATIONS
from ieml.dictionary.script import script


@facet('C09', 'relations', lambda tier: GD.dictionaries(max_roots=3, max_subs=6), 800, 30000,
       'all relations of random dictionaries against their definitions; non-trivial: an etymology, sibling and rank >= 2 '
       'table relation occur')
def relations(c, ctx):
    m = RD.Model(c)
    want = RD.relations(m)
    d = RD.build(c)
    g = d.relations
    for r in RELATIONS:
        if want[r]:
            ctx.label(r)
    if any(want[r] for r in RELATIONS if r.startswith('father')) and \
            any(want[r] for r in ('opposed', 'associated', 'crossed', 'twin')) and \
            any(want['table_%d' % i] for i in range(2, 6)):
        ctx.nontrivial()
    for t in m.scripts:
        s = script(t)
        ro = g.relation_object(s)
        for r in RELATIONS:
            got = [str(x) for x in g.object(s, r)]
            w = [o for o in m.scripts if (t, o) in want[r]]
            expect_eq(got, w, 'objects of (%r, %s)' % (t, r))
            expect_eq([str(x) for x in ro[r]], got, 'relation_object(%r)[%s]' % (t, r))
    for r in RELATIONS:
        expect_eq({(b, a) for a, b in want[r]}, want[INVERSE_RELATIONS.get(r, r)], 'inverse of %s' % r)
    some = m.scripts[:6] + m.scripts[-3:]
    for a in some:
        for b in some:
            expect_eq(g.relation(script(a), script(b)), [r for r in RELATIONS if (a, b) in want[r]],
                      'relations from %r to %r' % (a, b))
    bm = np.array(g.boolean_matrix)
    rel = {(a, b) for r in RELATIONS for a, b in want[r]}
    for i, a in enumerate(m.scripts):
        for j, b in enumerate(m.scripts):
            expect(bool(bm[i, j]) == ((a, b) in rel), 'boolean matrix at (%r, %r)', a, b)


@facet('C09', 'frame', lambda tier: GD.dictionaries(max_roots=2, max_subs=3, layers=(0, 1, 1, 2)), 160, 5000,
       'the table of all relations; non-trivial: more than 20 rows')
def frame(c, ctx):
    m = RD.Model(c)
    want = RD.relations(m)
    df = RD.build(c).relations.pandas()
    got = sorted(zip(df['substance'], df['mode'], df['attribute']))
    w = sorted((a, r, b) for r in RELATIONS for a, b in want[r])
    if len(w) > 20:
        ctx.nontrivial()
    expect_eq(len(got), len(set(got)), 'duplicate rows')
    expect_eq(got, w, 'table of relations')
