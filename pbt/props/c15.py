"""C15 — the table of a USL is the grid of the choices of two of its parts, everything else left as it is."""
import contextlib
import io
import itertools

from pbt.core import facet, expect, expect_eq, st
from pbt import ref_usl as U
from pbt import gen_usl as G
from pbt.real_usl import build, parse

from ieml.usl.decoration.path import path
from ieml.usl.table import UslTable2D, enumerate_partitions

# A part of a USL: (entry of a word or None, 'f' / 'c' of a lexeme or None, group or None); (None, None, g) in a polymorpheme.


def trim(pm):
    """Only USLs none of whose combinations passes the size limit (which counts an absent constant)."""
    pm = U.norm_pm(pm)
    while max(1, len(pm['c'])) + sum(min(m, len(g)) for g, m in pm['g']) > U.SIZE_LIMIT:
        pm['g' if pm['g'] else 'c'].pop()
    return pm


def trimmed(kind, m):
    if kind == 'pm':
        return trim(m)
    if kind == 'lexeme':
        return {'f': trim(m['f']), 'c': trim(m['c'])}
    return {'e': [[list(r), trimmed('lexeme', lx)] for r, lx in m['e']], 'focus': m['focus']}


def text(kind, m):
    return {'pm': U.pm_text, 'lexeme': U.lexeme_text, 'word': U.word_text}[kind](m)


def lexemes(kind, m):
    return [] if kind == 'pm' else [(None, m)] if kind == 'lexeme' else [(i, lx) for i, (_, lx) in enumerate(m['e'])]


def parts(kind, m):
    if kind == 'pm':
        return [(None, None, j) for j in range(len(m['g']))]
    out = []
    for i, lx in lexemes(kind, m):
        if kind == 'word':
            out.append((i, None, None))
        for k in 'fc':
            out.append((i, k, None))
            # a flexion varies as a whole
            out += [(i, k, j) for j in range(len(lx[k]['g'])) if k == 'c']
    return out


def disjoint(a, b):
    return not all(x is None or y is None or x == y for x, y in zip(a, b))


def address(kind, m, a):
    i, k, j = a
    t = ''
    if i is not None:
        t = '>role>' + ('! ' if i == m['focus'] else '') + ' '.join(m['e'][i][0])
    if k:
        t += '>content' if k == 'c' else '>flexion'
    if j is not None:
        t += '>group_%d %d' % (j, pm_of(kind, m, a)['g'][j][1])
    return t


def pm_of(kind, m, a):
    return m if kind == 'pm' else (m if kind == 'lexeme' else m['e'][a[0]][1])[a[1]]


def choices(kind, m, a):
    """What may stand in the part: lexemes, polymorphemes, or lists of constants."""
    i, k, j = a
    if j is not None:
        return [x['c'] for x in U.pm_ss_models({'c': [], 'g': [pm_of(kind, m, a)['g'][j]]})]
    if k is not None:
        return U.pm_ss_models(pm_of(kind, m, a))
    return U.lexeme_ss(m['e'][i][1])


def put(kind, m, chosen):
    """The model with each part replaced by what was chosen for it."""
    def in_pm(pm, where):
        if where in [(x[:2]) for x in chosen if x[2] is None]:
            return next(v for x, v in chosen.items() if x[2] is None and x[:2] == where)
        done = {x[2]: v for x, v in chosen.items() if x[:2] == where}
        return {'c': pm['c'] + [t for v in done.values() for t in v],
                'g': [g for j, g in enumerate(pm['g']) if j not in done]}

    def in_lexeme(lx, i):
        if (i, None, None) in chosen:
            return chosen[(i, None, None)]
        return {k: in_pm(lx[k], (i, k)) for k in 'fc'}

    if kind == 'pm':
        return in_pm(m, (None, None))
    if kind == 'lexeme':
        return in_lexeme(m, None)
    return {'e': [[r, in_lexeme(lx, i)] for i, (r, lx) in enumerate(m['e'])], 'focus': m['focus']}


def count(kind, m, a):
    return len(choices(kind, m, a))


@st.composite
def grids(draw, kinds=('pm', 'lexeme', 'word', 'word'), top=40):
    """[kind, model, row part or None, column part]"""
    kind = draw(st.sampled_from(kinds))
    if kind == 'pm':
        m = draw(G.pms(max_const=2, max_group=4, max_groups=2).filter(lambda x: x['g']))
    elif kind == 'lexeme':
        m = draw(st.fixed_dictionaries({'f': G.flexion_pms(max_roots=2), 'c': G.pms(max_const=2, max_group=3, max_groups=2)}))
    else:
        m = draw(G.words(leaf=st.fixed_dictionaries(
            {'f': G.flexion_pms(max_roots=1), 'c': G.pms(max_const=2, max_group=3, max_groups=1)})))
    m = trimmed(kind, m)
    ps = parts(kind, m)
    if kind == 'pm' and not ps:
        m = {'c': [], 'g': [[['S:', 'B:'], 1]]}
        ps = parts(kind, m)
    if kind != 'pm':
        ps = [p for p in ps if any(disjoint(p, q) for q in ps)]
    many = [p for p in ps if count(kind, m, p) > 1]
    col = draw(st.sampled_from(many if many and draw(st.integers(0, 3)) else ps))
    rows = [p for p in ps if disjoint(p, col)]
    many = [p for p in rows if p in many]
    if kind == 'pm':
        row = draw(st.sampled_from(rows)) if rows else None
    else:
        row = draw(st.sampled_from(many if many and draw(st.integers(0, 3)) else rows))
    return [kind, m, row, col]


def grid(kind, m, row, col, ctx):
    t = text(kind, m)
    cs = choices(kind, m, col)
    if len(cs) > 40:
        ctx.label('column_too_large')
        return
    if row is None:
        rows = [p for p in leaves(kind, m) if disjoint(p, col)]
        n = 1
        for p in rows:
            n *= count(kind, m, p)
        if n * len(cs) > 80:
            ctx.label('rows_too_large')
            return
    else:
        rows = [row]
        n = count(kind, m, row)
        if n * len(cs) > 80:
            ctx.label('too_large')
            return
    rs = list(itertools.product(*(choices(kind, m, p) for p in rows)))
    # text of the row header, of the column header -> choices
    row_of = {text(kind, put(kind, m, dict(zip(rows, r)))): dict(zip(rows, r)) for r in rs}
    col_of = {text(kind, put(kind, m, {col: c})): {col: c} for c in cs}
    if len(row_of) > 1 and len(col_of) > 1:
        ctx.nontrivial()
    ctx.label('%s_%dx%d' % (kind, len(row_of) > 1, len(col_of) > 1))
    ctx.label('column_' + ('group' if col[2] is not None else 'polymorpheme' if col[1] else 'role'))
    ctx.label('row_' + ('any' if row is None else 'group' if row[2] is not None else 'polymorpheme' if row[1] else 'role'))
    u = build(kind, m)
    where = 'table of %r, rows %s, columns %s' % (t, None if row is None else address(kind, m, row), address(kind, m, col))
    with contextlib.redirect_stderr(io.StringIO()):
        table = UslTable2D(u, rows=None if row is None else path(address(kind, m, row)), columns=path(address(kind, m, col)))
        cells = [[str(x) for x in r] for r in table.cells]
        r_heads, c_heads = list(table.rows), list(table.columns)
    expect_eq(str(u), t, 'text of the USL after the %s' % where)
    expect_eq(sorted(str(x) for x in r_heads), sorted(row_of), 'rows of the %s' % where)
    expect_eq(sorted(str(x) for x in c_heads), sorted(col_of), 'columns of the %s' % where)
    expect([str(x) for x in r_heads] == [str(x) for x in sorted(r_heads)], 'rows not in order in the %s', where)
    expect([str(x) for x in c_heads] == [str(x) for x in sorted(c_heads)], 'columns not in order in the %s', where)
    expect_eq(len(cells), len(r_heads), 'number of rows of the %s' % where)
    for i, r in enumerate(r_heads):
        expect_eq(len(cells[i]), len(c_heads), 'length of row %d of the %s' % (i, where))
        for j, c in enumerate(c_heads):
            want = text(kind, put(kind, m, {**row_of[str(r)], **col_of[str(c)]}))
            expect_eq(cells[i][j], want, 'cell %d, %d of the %s' % (i, j, where))


def leaves(kind, m):
    """The smallest parts that vary."""
    return [p for p in parts(kind, m) if p[2] is not None or p[1] == 'f']


@facet('C15', 'grid', lambda tier: grids(), 700, 14000,
       'polymorphemes, lexemes and words with groups; a row part and a column part among their roles, contents, flexions and '
       'groups; at most 80 cells; non-trivial: at least two rows and two columns')
def two_parts(x, ctx):
    kind, m, row, col = x
    grid(kind, m, None if row is None else tuple(row), tuple(col), ctx)


@st.composite
def one_sided(draw):
    kind, m, row, col = draw(grids())
    return [kind, m, col]


@facet('C15', 'all_rows', lambda tier: one_sided(), 500, 8000,
       'the same with no row part: the rows are the choices of everything that varies outside of the columns, provided that is '
       'a set of groups of distinct polymorphemes; non-trivial: at least two rows and two columns')
def all_rows(x, ctx):
    kind, m, col = x
    col = tuple(col)
    # the groups of one polymorpheme vary together (balanced choices): one group at most in each
    m = {'pm': lambda: one_group(m), 'lexeme': lambda: {k: one_group(m[k]) for k in 'fc'},
         'word': lambda: {'e': [[r, {k: one_group(lx[k]) for k in 'fc'}] for r, lx in m['e']], 'focus': m['focus']}}[kind]()
    if col not in parts(kind, m):
        col = parts(kind, m)[0]
    grid(kind, m, None, col, ctx)


def one_group(pm):
    return {'c': pm['c'], 'g': pm['g'][:1]}


# ---- partitions ----
def tree(kind, m):
    """Nested parts that vary: {part: subtree}."""
    def pm(a, model):
        return {(a[0], a[1], j): {} for j in range(len(model['g'])) if count(kind, m, (a[0], a[1], j)) > 1}

    def lexeme(i, lx):
        out = {}
        for k in 'fc':
            if len(U.pm_ss_models(lx[k])) > 1:
                out[(i, k, None)] = pm((i, k), lx[k]) if k == 'c' else {}
        return out

    if kind == 'pm':
        return pm((None, None), m)
    if kind == 'lexeme':
        return lexeme(None, m)
    return {(i, None, None): lexeme(i, lx) for i, lx in lexemes(kind, m) if len(U.lexeme_ss(lx)) > 1}


def cuts(t):
    """The sets of disjoint parts."""
    out = {frozenset()}
    for p, sub in t.items():
        out = {a | b for a in out for b in cuts(sub) | {frozenset([p])}}
    return out


def n_leaves(t):
    return sum(n_leaves(s) if s else 1 for s in t.values())


@facet('C15', 'partitions', lambda tier: grids(), 400, 8000,
       'the same USLs: the sets of disjoint parts to choose rows and columns from; non-trivial: at least two dimensions')
def partitions(x, ctx):
    kind, m, _, _ = x
    t = tree(kind, m)
    if n_leaves(t) > 6:
        ctx.label('too_many')
        return
    if n_leaves(t) > 1:
        ctx.nontrivial()
    ctx.label('%s_%d' % (kind, n_leaves(t)))
    u = build(kind, m)
    dim, res = enumerate_partitions(u)
    expect_eq(dim, n_leaves(t), 'dimensions of %r' % text(kind, m))
    got = {frozenset(str(p) for p in ps) for ps in res}
    want = {frozenset(str(path(address(kind, m, p))) for p in c) for c in cuts(t)}
    expect_eq(sorted(map(sorted, got)), sorted(map(sorted, want)), 'partitions of %r' % text(kind, m))
