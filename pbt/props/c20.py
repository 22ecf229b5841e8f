"""C20 — Each editing transaction of the database makes exactly its documented change, in one commit, or refuses and changes
nothing."""
import os

import pandas

from pbt.core import facet, expect, expect_eq, scratch, st
from pbt import ref_script as R
from pbt import gen_dict as GD
from pbt import gen_db as D
from pbt import gitlib as GL
from pbt.gitlib import SIG

from ieml.dictionary.script import script, factorize
from ieml.ieml_database.ieml_database import IEMLDatabase, Structure
from ieml.ieml_database.transactions.DBTransaction import DBTransactions
from ieml.dictionary.dictionary import Dictionary
from ieml.usl.parser import IEMLParser

LANGS, CLASSES = D.LANGS, ['translations', 'comments', 'tags', 'rdf_repositories']
USLS = ['s. b.', 'S: m1(B: T:)', '(E:S:.)(s. b.)', '[! E:A:.  (E:S:.)(s.)]', "E:.b.-"]
VAL = st.sampled_from(['a', 'b', 'a b', 'é', 'c"d', '1', 'NA', ' a ', ''])


def vals():
    """Values by language, as the callers give them: some languages may be left out."""
    return st.dictionaries(st.sampled_from(LANGS), st.lists(VAL, max_size=2), max_size=2)


def vals1():
    """At least one value: a paradigm without descriptor is not listed."""
    return vals().map(lambda v: dict(v, fr=v.get('fr', []) + ['x']))


@st.composite
def near(draw, v):
    """Values that hardly differ from v."""
    v = {l: list(v.get(l, [])) for l in LANGS}
    l = draw(st.sampled_from([x for x in LANGS if v[x]] or LANGS))
    how = draw(st.sampled_from(['same', 'twice', 'twice', 'swap', 'reverse', 'less', 'move', 'case']))
    if how == 'twice' and v[l]:
        v[l].append(draw(st.sampled_from(v[l])))
    elif how == 'swap' and len(v[l]) > 1:
        v[l] = v[l][:-1] + v[l][:1]
    elif how == 'reverse':
        v[l].reverse()
    elif how == 'less' and v[l]:
        v[l].pop()
    elif how == 'move':
        v = {LANGS[0]: v[LANGS[1]], LANGS[1]: v[LANGS[0]]}
    elif how == 'case' and v[l]:
        v[l][0] = v[l][0].upper()
    return v


def accepted(k):
    """Transactions want factorised scripts (C04 decides the factorisation): the others are refused, a few are kept."""
    try:
        return str(factorize(script(k))) == k
    except Exception:
        return True


@st.composite
def histories(draw):
    d = draw(GD.dictionaries(max_roots=2, max_subs=6, layers=(0, 1, 1, 1, 2)))
    keep = draw(st.integers(0, 9)) == 0
    roots = [r[0] for r in d['roots']]
    roots = [r for r in roots if keep or accepted(r)] or roots
    subs = [s[0] for s in d['subs'] if keep or accepted(s[0])]
    for r in roots:
        for f in (GD.restrict, GD.slices, GD.slices):
            s = R.render(draw(f(R.read(r))))
            if R.card(R.read(s)) > 1 and s not in subs + roots and (keep or accepted(s)):
                subs.append(s)
    singles = []
    for r in roots:
        ws = sorted(R.sem(R.read(r)))
        for w in draw(st.lists(st.sampled_from(ws), min_size=1, max_size=3, unique=True)):
            singles.append(R.render(R.from_word(w, R.layer(R.read(r)))))
    par = roots + subs
    every = par + singles + USLS
    s_root = st.sampled_from(roots + roots + par)
    s_sub = st.sampled_from(subs or par)
    inh = st.lists(st.sampled_from(GD.INHIB), max_size=2, unique=True)
    start = list(draw(st.permutations(roots)))[:draw(st.integers(1, 3))]
    if subs and draw(st.integers(0, 3)) == 0:
        start = [draw(s_sub)] + start
    ops = []
    for r in start:
        ops.append(['create', r, draw(inh), draw(vals1()), draw(vals())])
    new = list(draw(st.permutations(subs)))
    for s in new[:draw(st.integers(0, 3))]:
        ops.append(['add', s, draw(vals1()), draw(vals())])
    touched = start + singles + USLS
    for _ in range(draw(st.integers(0, 3))):
        ops.append(['set', draw(st.sampled_from(touched)), draw(st.sampled_from(CLASSES)), draw(vals1())])
    s_t = st.sampled_from(touched)
    pairs = st.lists(st.tuples(st.sampled_from([o[1] for o in ops if o[0] == 'set'] or touched), s_t), min_size=1, max_size=4)
    op = st.one_of(
        st.tuples(st.just('create'), s_root, inh, vals1(), vals()),
        st.tuples(st.just('add'), s_sub, vals(), vals()),
        st.tuples(st.just('delroot'), st.sampled_from(start + start + par), st.booleans()),
        st.tuples(st.just('del'), st.sampled_from(subs + singles[:1] + subs or par)),
        st.tuples(st.just('update'), s_sub, s_sub),
        st.tuples(st.just('update'), s_sub, s_sub),
        st.tuples(st.just('update'), st.sampled_from(start), s_root),
        st.tuples(st.just('set'), st.sampled_from(every), st.sampled_from(CLASSES), vals()),
        st.tuples(st.just('set'), s_t, st.sampled_from(CLASSES), vals()),
        st.tuples(st.just('inhibit'), st.sampled_from(every[:-5] + start * 5),
                  st.lists(st.sampled_from(GD.INHIB), max_size=3)),
        st.tuples(st.just('migrate'), pairs))
    op = st.one_of(op, op, op, op, op, op, op, st.tuples(st.just('bad'), op.filter(lambda o: o[0] in BAD), st.integers(0, 9)))
    ops += [list(o) for o in draw(st.lists(op, min_size=2, max_size=8))]
    out = []
    for o in ops:
        out.append(o)
        if o[0] == 'set' and draw(st.integers(0, 2)) == 0:
            out.append(['set', o[1], o[2], draw(near(o[3]))])
    return {'ops': out, 'cache': draw(st.booleans())}


BAD = ('create', 'add', 'set', 'inhibit', 'migrate')


def corrupt(o, n):
    """The same request with one argument that no database can hold."""
    o = list(o)
    if o[0] == 'migrate':
        return ['migrate', [[a, BAD_IEML] for a, b in o[1]]]
    if o[0] == 'inhibit':
        return [o[0], o[1], list(o[2]) + ['unknown']]
    i = {'create': (1, 2, 3, 4), 'add': (1, 2, 3), 'set': (2, 3)}[o[0]]
    i = i[n % len(i)]
    if i == 1:
        # a singular sequence is no paradigm
        x = R.read(o[1])
        ws = sorted(R.sem(x))
        o[1] = R.render(R.from_word(ws[n % len(ws)], R.layer(x)))
        return o
    if i == 2 and o[0] == 'create':
        o[i] = list(o[i]) + ['unknown']
    elif i == 2 and o[0] == 'set':
        o[i] = 'translation'
    elif n < 5:
        o[i] = dict(o[i], **{LANGS[n % len(LANGS)]: list(o[i].get(LANGS[n % len(LANGS)], [])) + [(3, None, b'a')[n % 3]]})
    else:
        o[i] = dict(o[i], xx=['y'])
    return o


BAD_IEML = 'not an ieml ('


class Model:
    """Rows of the database: descriptors {ieml: [(language, class, value)]}, structure {ieml: [(key, value)]}."""
    def __init__(self):
        self.d, self.s = {}, {}

    def copy(self):
        m = Model()
        m.d = {k: list(v) for k, v in self.d.items()}
        m.s = {k: list(v) for k, v in self.s.items()}
        return m

    def add(self, k, l, c, v):
        v = D.stored(v)
        if v:
            self.d.setdefault(k, []).append((l, c, v))

    def get(self, k, l, c):
        return [v for l_, c_, v in self.d.get(k, []) if (l_, c_) == (l, c)]

    def drop(self, k):
        self.d.pop(k, None)

    def dictionary(self):
        """The dictionary of these rows (its construction is decided by C08)."""
        rows = [(k, a, b) for k in sorted(self.s) for a, b in self.s[k]]
        df = pandas.DataFrame(rows, columns=['ieml', 'key', 'value'], dtype=str)
        return Dictionary([k for k in sorted(self.d) if self.d[k] and is_paradigm(k)], Structure(df))


def is_paradigm(k):
    return k[0] not in '([' and ' ' not in k and R.card(R.read(k)) > 1


def obj(k):
    return script(k) if k[0] not in '([' and ' ' not in k else IEMLParser().parse(k)


class Refused(Exception):
    pass


def refuse_if(cond):
    if cond:
        raise Refused()


def words(k):
    n = R.read(k)
    return {(R.layer(n), w) for w in R.sem(n)}


def expected(m, o):
    """The model after the operation and the number of commits, or Refused."""
    m = m.copy()
    if o[0] in ('create', 'add', 'delroot', 'del'):
        refuse_if(str(factorize(script(o[1]))) != o[1])
    dic = m.dictionary()
    known = {str(s) for s in dic.scripts}
    roots = {str(s): words(str(s)) for s in dic.tables.roots}

    def root_of(w):
        rs = [r for r, ws in roots.items() if w in ws]
        return rs[0] if rs else None

    def add_paradigm(m, k, tr, co):
        m.drop(k)
        m.s[k] = [('is_root', 'False')]
        for l in LANGS:
            for v in tr.get(l, []):
                m.add(k, l, 'translations', v)
            for v in co.get(l, []):
                m.add(k, l, 'comments', v)

    if o[0] == 'create':
        _, k, inh, tr, co = o
        refuse_if(m.d.get(k) or any(root_of(w) for w in words(k)))
        m.s[k] = [x for x in m.s.get(k, []) if x[0] != 'is_root'] + [('is_root', 'True')] + [('inhibition', i) for i in inh]
        for l in LANGS:
            for v in tr.get(l, []):
                m.add(k, l, 'translations', v)
            for v in co.get(l, []):
                m.add(k, l, 'comments', v)
        n = 1
        for i, t in enumerate(t for t in script(k).tables_script if str(t) != k):
            if m.d.get(str(t)):
                continue                                # its tables that are already described are kept
            add_paradigm(m, str(t), {l: [v + str(i) for v in x] for l, x in tr.items()},
                         {l: [v + str(i) for v in x] for l, x in co.items()})
            n += 1
        return m, n
    if o[0] == 'add':
        _, k, tr, co = o
        rs = {root_of(w) for w in words(k)}
        refuse_if(len(rs) != 1 or None in rs or k in known)
        add_paradigm(m, k, tr, co)
        return m, 1
    if o[0] == 'delroot':
        _, k, empty = o
        refuse_if(k not in roots)
        m.s.pop(k)
        if empty:
            for x in [x for x in known if words(x) <= roots[k]]:
                m.drop(x)
        return m, 1
    if o[0] == 'del':
        k = o[1]
        if k in roots or k not in known:
            return None, 0                              # not claimed
        refuse_if(not is_paradigm(k))
        m.s.pop(k, None)
        m.drop(k)
        return m, 1
    if o[0] == 'update':
        _, a, b = o
        refuse_if(any(str(factorize(script(x))) != x for x in (a, b)))
        if a == b:
            return m, 0
        refuse_if(a not in known or b in known)
        rs = {root_of(w) for w in words(b)}
        if a in roots:
            refuse_if(not words(a) <= words(b) or len(rs - {None}) != 1)
            old = m.s.pop(a)
            m.s[a] = [('is_root', 'False')]
            m.s.setdefault(b, []).extend(old)
        else:
            refuse_if(len(rs) != 1 or None in rs)
            m.s.pop(a, None)
            m.s.setdefault(b, []).append(('is_root', 'False'))
        for l, c, v in m.d.pop(a, []):
            m.add(b, l, c, v)
            if a in roots:
                m.add(a, l, c, '(translation migrated to %s) %s' % (b, v))
        return m, 1
    if o[0] == 'set':
        _, k, c, v = o
        if R_script(k):
            refuse_if(str(factorize(script(k))) != k)
        m.d[k] = [x for x in m.d.get(k, []) if x[1] != c]
        for l in LANGS:
            for x in v.get(l, []):
                m.add(k, l, c, x)
        return m, 1
    if o[0] == 'inhibit':
        _, k, inh = o
        refuse_if(str(factorize(script(k))) != k or k not in roots)
        old = [v for a, v in m.s[k] if a == 'inhibition']
        m.s[k] = [x for x in m.s[k] if x[0] != 'inhibition' or x[1] in inh] + [('inhibition', i) for i in inh if i not in old]
        return m, 1
    if o[0] == 'migrate':
        f = dict(map(tuple, o[1]))
        out = m.copy()
        out.d = {}
        for k, rows in m.d.items():
            ok = all(x in known for x in morphemes(k))
            out.d.setdefault(f.get(k, k) if ok else k, []).extend(rows)
        return out, 1
    raise AssertionError(o)


def known_item(m, k):
    known = {str(s) for s in m.dictionary().scripts}
    return all(x in known for x in morphemes(k))


def R_script(k):
    return k[0] not in '([' and ' ' not in k


def morphemes(k):
    if R_script(k):
        return [k]
    return [str(m) for m in IEMLParser().parse(k).morphemes]


def read(folder):
    db = IEMLDatabase(folder, use_cache=False)
    d, s = {}, {}
    for (i, l, c), (v,) in db.get_descriptors().df.iterrows():
        d.setdefault(i, []).append((l, c, v))
    for (i, k), (v,) in db.get_structure().df.iterrows():
        s.setdefault(i, []).append((k, v))
    return d, s


def canon(d, order=True):
    """Values of one slot keep their order."""
    return {k: sorted(v, key=lambda r: r[:-1]) if order else sorted(v) for k, v in d.items() if v}


def run(tr, o):
    if o[0] == 'create':
        tr.create_root_paradigm(script(o[1]), o[2], full(o[3]), full(o[4]))
    elif o[0] == 'add':
        tr.add_morpheme_paradigm(script(o[1]), full(o[2]), full(o[3]))
    elif o[0] == 'delroot':
        tr.delete_morpheme_root_paradigm(script(o[1]), **({} if o[2] else {'empty_descriptors': False}))
    elif o[0] == 'del':
        tr.delete_morpheme_paradigm(script(o[1]))
    elif o[0] == 'update':
        tr.update_morpheme_paradigm(script(o[1]), script(o[2]))
    elif o[0] == 'set':
        return tr.set_descriptors(obj(o[1]), o[2], {l: list(v) for l, v in o[3].items()})
    elif o[0] == 'inhibit':
        tr.set_inhibitions(script(o[1]), list(o[2]))
    elif o[0] == 'migrate':
        f = dict(map(tuple, o[1]))
        tr.update_all_ieml(lambda x: obj(f[str(x)]) if str(x) in f else x, 'test')


def full(v):
    """A language with no value can be missing, and all of them."""
    if 'xx' in v:
        return v
    n = sum(map(len, v.values()))
    if n % 2:
        return {l: list(x) for l, x in v.items() if x}
    return {l: list(v.get(l, [])) for l in LANGS} if n else None


@facet('C20', 'history', lambda tier: histories(), 480, 9000,
       'histories of editing transactions over 1-3 root paradigms, their sub-paradigms, singular sequences and a few USL; '
       'non-trivial: at least two accepted transactions of different kinds and one refusal or removal', shards=8)
def history(c, ctx):
    with scratch('git') as top:
        GL.origin(os.path.join(top, 'origin'))
        gi = GL.clone(os.path.join(top, 'origin'), os.path.join(top, 'db'))
        cache = os.path.join(top, 'cache')
        m = Model()
        done, other = set(), False
        for o in c['ops']:
            tr = DBTransactions(gi, SIG, cache_folder=cache if c['cache'] else None, use_cache=c['cache'])
            h0 = GL.head(gi.folder)
            before = GL.worktree(gi.folder)
            if o[0] == 'bad':
                if o[1][0] == 'migrate' and not any(k in m.d and known_item(m, k) for k, _ in o[1][1]):
                    continue
                o = corrupt(o[1], o[2])
                bad = True
            else:
                bad = False
            try:
                refuse_if(bad)
                want, n = expected(m, o)
                if want is None:
                    continue
            except Refused:
                want = None
            if want is None:
                other = True
                ctx.label('refused_' + ('bad_' if bad else '') + o[0])
                try:
                    run(tr, o)
                except Exception:
                    pass
                else:
                    expect(False, '%r was accepted', o)
                expect_eq(GL.head(gi.folder), h0, 'commit after a refused %r' % (o,))
                GL.expect_files(GL.worktree(gi.folder), before, 'files after a refused %r' % (o,))
                continue
            r = run(tr, o)
            d, s = read(gi.folder)
            # the same values in another order may be left as they are
            free = o[0] == 'migrate' or o[0] == 'set' and canon(m.d, False) == canon(want.d, False)
            expect_eq(canon(d, not free), canon(want.d, not free), 'descriptors after %r' % (o,))
            expect_eq(canon(s), canon(want.s), 'structure after %r' % (o,))
            if free:
                want.d = d
            changed = canon(m.d) != canon(want.d) or canon(m.s) != canon(want.s)
            hist = []
            h = GL.head(gi.folder)
            while h != h0 and len(hist) < 50:
                hist.append(h)
                h, = GL.parents(gi.folder, h)
            if changed:
                expect(0 < len(hist) <= n, '%d commits for %r', len(hist), o)
                ctx.label(o[0])
                done.add(o[0])
                if o[0] in ('del', 'delroot', 'update', 'migrate'):
                    other = True
            else:
                expect(not hist or GL.worktree(gi.folder) != before, 'a commit for %r, which changes nothing', o)
            if o[0] == 'set':
                expect(r is True or not changed, 'set_descriptors returned %r for a change', r)
            if h0 != GL.head(gi.folder):
                GL.expect_files(GL.tree_of(gi.folder), GL.worktree(gi.folder), 'commit of %r' % (o,))
            GL.expect_clean(gi, 'after %r' % (o,))
            m = want
        if len(done) > 1 and other:
            ctx.nontrivial()
        # the dictionary of the database is the one of the model
        a, b = IEMLDatabase(gi.folder, use_cache=c['cache'], cache_folder=cache if c['cache'] else None).get_dictionary(), m.dictionary()
        expect_eq([str(x) for x in a.scripts], [str(x) for x in b.scripts], 'dictionary at the end')
