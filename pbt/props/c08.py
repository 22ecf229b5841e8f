"""C08 — The dictionary holds exactly the declared morphemes, in one table tree per root paradigm."""
import pickle

from pbt.core import facet, expect, expect_eq, st
from pbt import ref_script as R
from pbt import ref_dict as RD
from pbt import gen_dict as GD

from ieml.dictionary.script import script


def check_dictionary(d, m):
    expect_eq([str(s) for s in d.scripts], m.scripts, 'morphemes of the dictionary')
    expect_eq(len(d), len(m.scripts), 'size of the dictionary')
    for i, t in enumerate(m.scripts):
        s = script(t)
        expect(s in d and d.index[s] == i and d[t] == s, 'index of %r', t)
    expect_eq([str(d.scripts[i]) for i in range(len(d)) if d.roots_idx[i]], [t for t in m.scripts if t in m.roots],
              'root paradigms')
    expect_eq({str(s) for s in d.tables.roots}, set(m.roots), 'root paradigms of the tables')
    expect_eq({str(t.script) for t in d.tables}, set(m.scripts), 'tables')
    for t in m.scripts:
        s = script(t)
        tab, mt = d.tables[s], m.tables[t]
        expect(s in d.tables and str(tab.script) == t, 'table of %r', t)
        r = d.tables.root(s)
        expect_eq(str(r), m.root_of[t], 'root paradigm of %r' % t)
        expect(tab in d.tables.roots[r], 'the table of %r is not under its root', t)
        expect_eq(str(tab.parent.script) if tab.parent is not None else None, mt.parent.text if mt.parent else None,
                  'parent table of %r' % t)
        expect_eq(tab.rank, mt.rank, 'rank of %r' % t)
        expect_eq(tab.rank == 0, t in m.roots, 'rank 0 of %r' % t)
        expect_eq({str(c.script) for c in d.tables.children(tab)},
                  {u for u in m.scripts if m.tables[u].parent is not None and m.tables[u].parent.text == t},
                  'children of the table of %r' % t)
        dim = {'cell': 0, '1d': 1, '2d': 2}.get(mt.kind)
        if dim is not None:
            expect_eq(tab.ndim, dim, 'dimension of the table of %r' % t)
        if mt.kind in ('1d', '2d'):
            sh = mt.shape[:tab.ndim]
            expect_eq(tuple(tab.shape), sh, 'shape of the table of %r' % t)
            for w, ix in mt.at.items():
                cell = R.render(R.from_word(w, R.layer(R.read(t))))
                expect_eq(tuple(tab.index_of(cell)), ix[:tab.ndim], 'coordinates of %r in %r' % (cell, t))
                expect_eq(str(tab[ix[:tab.ndim]] if tab.ndim > 1 else tab[ix[0]]), cell, 'cell of %r' % t)
            if tab.ndim == 2:
                for k, (name, hs) in enumerate((('row', tab.rows), ('column', tab.columns))):
                    expect_eq([R.sem(R.read(str(h))) for h in hs],
                              [{w for w, ix in mt.at.items() if ix[k] == i} for i in range(sh[k])], '%ss of the table of %r' % (name, t))
        elif mt.kind == 'set':
            expect_eq([str(x) for x in tab.tables], mt.tabs, 'tables of %r' % t)
            expect(len(tab.cells) == len(s.cells) and all(a.shape == b.shape and (a == b).all() for a, b in zip(tab.cells, s.cells)),
                   'cells of the tables of %r', t)
            expect_eq(tab.ndim, 3 if len(s.cells) == 1 else 4, 'dimension of the tables of %r' % t)
            if tab.ndim == 3:
                expect_eq(tuple(tab.shape), s.cells[0].shape, 'shape of the tables of %r' % t)
    expect(d.tables.root(script("l.-T:.U:.-',n.-T:.A:.-',t.o.-f.o.-',_")) is None, 'root of an unknown morpheme')


@facet('C08', 'contents', lambda tier: GD.dictionaries(), 2400, 40000,
       'dictionaries of 1-4 disjoint roots (layers 0-3, up to 36 singular sequences) and 0-8 nested paradigms, some ignored '
       'or outside every root, declared in any order; non-trivial: two levels of tables below a root')
def contents(c, ctx):
    m = RD.Model(c)
    ranks = {t.rank for t in m.tables.values()}
    for r in ranks:
        ctx.label('rank_%d' % r)
    if any(t.parent and t.parent.parent and t.kind != 'cell' for t in m.tables.values()):
        ctx.nontrivial()
    d = RD.build(c)
    check_dictionary(d, m)
    # the order in which the paradigms are listed does not matter
    d2 = RD.build(c, order=c['order'][::-1])
    check_dictionary(d2, m)


@facet('C08', 'overlap', lambda tier: GD.dictionaries(max_roots=2, max_subs=3), 400, 8000,
       'a root paradigm declared over singular sequences of another root; non-trivial: always')
def overlap(c, ctx):
    subs = [t for t, how in c['subs']]
    roots = [r for r in c['roots'] if not r[2]]
    inside = [t for t in subs if any(R.layer(R.read(t)) == R.layer(R.read(r[0])) and R.sem(R.read(t)) & R.sem(R.read(r[0]))
                                     for r in roots)]
    if not inside:
        return
    ctx.nontrivial()
    bad = {'roots': c['roots'] + [[inside[0], [], False]], 'subs': [s for s in c['subs'] if s[0] != inside[0]]}
    bad['order'] = list(range(len(bad['roots']) + len(bad['subs'])))
    try:
        RD.build(bad)
    except ValueError:
        return
    expect(False, 'overlapping root paradigms were accepted: %r in %r', inside[0], [r[0] for r in roots])


@facet('C08', 'pickle', lambda tier: GD.dictionaries(max_roots=2, max_subs=4, layers=(0, 1, 1, 2)), 120, 4000,
       'a pickled dictionary is the same dictionary; non-trivial: at least one sub-paradigm')
def pickled(c, ctx):
    m = RD.Model(c)
    if any(t.parent and t.kind != 'cell' for t in m.tables.values()):
        ctx.nontrivial()
    d = RD.build(c)
    check_dictionary(pickle.loads(pickle.dumps(d, protocol=4)), m)
