"""C05 — the tables of a script lay out its singular sequences, each in one cell, under the right headers."""
import itertools

import numpy as np
from pbt.core import facet, expect, expect_eq, st
from pbt import ref_script as R
from pbt.gen_script import spellings, text_of, _node

from ieml.dictionary.script import script


def subs(n):
    return n[2:] if n[0] == 'm' else n[2] if n[0] == 'a' else ()


def tabulable(n):
    """A product of several plural factors may have at most 12 values per factor."""
    if R.card(n) == 1:
        return True
    if n[0] == 'a':
        if any(R.card(c) == 1 for c in n[2]):
            return True
        return all(tabulable(c) for c in n[2])
    pl = [c for c in n[2:] if R.card(c) > 1]
    if len(pl) == 1:
        return tabulable(pl[0])
    return all(R.card(c) <= 12 for c in pl)


def blocks(n):
    """Reference layout: list of (dims, shape) tables; each table is (script set, 3d grid of words)."""
    if R.card(n) == 1:
        return None


@st.composite
def cases(draw):
    k = draw(st.integers(0, 3))
    if k:
        L = draw(st.integers(1, 4))
        return [L, draw(_node(L, draw(st.sampled_from([6, 12, 30, 60, 150, 360])), 0, False))]
    return draw(spellings(overlap=False))


@facet('C05', 'layout', lambda tier: cases(), 900, 30000,
       'scripts with 2-360 singular sequences; cells, sub-tables and headers compared by denotation; '
       'non-trivial: at least two headers along one dimension')
def layout(c, ctx):
    n = R.norm(c[1], c[0])
    s = script(text_of(c))
    if R.card(n) == 1:
        cells = s.cells
        expect(len(cells) == 1 and cells[0].shape == (1, 1, 1) and str(cells[0][0, 0, 0]) == str(s),
               'table of the singular script %r', str(s))
        expect_eq([str(t) for t in s.tables_script], [str(s)], 'tables of a singular script')
        return
    try:
        cells, tables, headers = s.cells, s.tables_script, s.headers
    except ValueError:
        expect(not tabulable(n), 'no table for %r', str(s))
        ctx.label('too_many_headers')
        return
    expect(tabulable(n), 'table with more than 12 headers for %r', str(s))
    words = R.sem(n)
    grids = [np.array(a) for a in cells]
    expect(all(a.ndim == 3 for a in grids), 'cells of %r are not 3 dimensional', str(s))
    flat = [str(x) for a in grids for x in a.ravel()]
    expect_eq(sorted(flat), sorted(str(x) for x in s.singular_sequences), 'cells of %r' % str(s))
    # the sub-tables partition the script
    denote = [R.sem(R.read(str(t))) for t in tables]
    expect_eq(sum(map(len, denote)), len(words), 'sizes of the tables of %r' % str(s))
    expect_eq(frozenset().union(*denote), words, 'tables of %r' % str(s))
    # each table is one slice (3rd dimension) of one grid
    slices = [a[:, :, k] for a in grids for k in range(a.shape[2])]
    expect_eq(len(slices), len(tables), 'number of tables of %r' % str(s))
    expect_eq(len(headers), len(tables), 'number of header groups of %r' % str(s))
    if len(tables) > 1:
        ctx.label('several_tables')
    if any(a.shape[2] > 1 for a in grids):
        ctx.label('3d')
    for sl, den, hd in zip(slices, denote, headers):
        ws = np.vectorize(lambda x: next(iter(R.sem(R.read(str(x))))), otypes=[object])(sl)
        expect_eq(set(ws.ravel()), set(den), 'cells of one table of %r' % str(s))
        if sl.shape[1] == 1:
            ctx.label('1d')
            # a column: one header, the table itself
            expect(all(len(d) >= 1 for d in hd), 'empty header dimension in %r', str(s))
            expect_eq(R.sem(R.read(str(hd[0][0]))), den, 'header of a column table of %r' % str(s))
            col = [str(x) for x in sl[:, 0]]
            want = [str(x) for x in script(str(tables[list(map(id, denote)).index(id(den))])).singular_sequences]
            expect_eq(col, want, 'order of a column table of %r' % str(s))
        else:
            ctx.label('2d')
            ctx.nontrivial()
            expect_eq(len(hd), 2, 'header dimensions of %r' % str(s))
            rows, cols = hd
            expect_eq((len(rows), len(cols)), sl.shape, 'header sizes of %r' % str(s))
            for i, h in enumerate(rows):
                expect_eq(R.sem(R.read(str(h))), frozenset(ws[i, :]), 'row header %d of %r' % (i, str(s)))
            for j, h in enumerate(cols):
                expect_eq(R.sem(R.read(str(h))), frozenset(ws[:, j]), 'column header %d of %r' % (j, str(s)))
