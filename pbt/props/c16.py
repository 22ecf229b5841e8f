"""C16 — The descriptor store returns exactly what was stored: any history of additions and removals, against a model."""
import os

from pbt.core import facet, expect, expect_eq, scratch, st
from pbt import gen_db as D

from ieml.exceptions import CannotParse
from ieml.ieml_database.descriptors import Descriptors
from ieml.ieml_database.ieml_database import IEMLDatabase
from ieml.usl import PolyMorpheme, Lexeme, Word
from ieml.usl.parser import IEMLParser


class Model:
    def __init__(self):
        self.desc = {}       # text -> [(lang, class, value)]
        self.struct = {}     # text -> [(key, value)]

    def values(self, t, l, d):
        return [v for ll, dd, v in self.desc.get(t, []) if ll == l and dd == d]

    def partial(self, t=None, l=None, d=None):
        r = {}
        for tt, rows in self.desc.items():
            for ll, dd, v in rows:
                if t in (None, tt) and l in (None, ll) and d in (None, dd):
                    r.setdefault((tt, ll, dd), []).append(v)
        return r

    def add(self, t, l, d, v):
        v = D.stored(v)
        if v:
            self.desc.setdefault(t, []).append((l, d, v))

    def remove(self, t, l, d, v):
        if v is not None:
            v = D.stored(v)
        self.desc[t] = [r for r in self.desc.get(t, [])
                        if not (l in (None, r[0]) and d in (None, r[1]) and v in (None, r[2]))]

    def svalues(self, t, k):
        return [v for kk, v in self.struct.get(t, []) if kk == k]

    def sremove(self, t, k, v):
        self.struct[t] = [r for r in self.struct.get(t, []) if not (k in (None, r[0]) and v in (None, r[1]))]


def observe(db, m, pool, full):
    desc = db.get_descriptors()
    texts = [k['text'] for k in pool]
    for t in texts:
        for l in D.LANGS:
            for d in D.CLASSES:
                expect_eq(desc.get_values(t, l, d), m.values(t, l, d), 'values of (%r, %s, %s)' % (t, l, d))
        expect_eq(desc.get_descriptor(t), {d: {l: m.values(t, l, d) for l in D.LANGS} for d in D.CLASSES},
                  'descriptor of %r' % t)
        expect_eq(desc.get_values_partial(t), m.partial(t), 'all values of %r' % t)
    expect_eq(sum(len(v) for v in m.partial().values()), len(desc.df), 'number of stored values')
    if full:
        for l in D.LANGS + [None]:
            for d in D.CLASSES + [None]:
                if l or d:
                    expect_eq(desc.get_values_partial(None, l, d), m.partial(None, l, d), 'values of (*, %s, %s)' % (l, d))
                    expect_eq(desc.get_values_partial(texts[0], l, d), m.partial(texts[0], l, d),
                              'values of (%r, %s, %s)' % (texts[0], l, d))
        files = ['./' + D.relpath(k) for k in pool[:2] if m.desc.get(k['text'])]
        if files:
            sub = db.get_descriptors(files_list=files)
            want = {}
            for k in pool[:2]:
                want.update(m.partial(k['text']))
            got = {}
            for k, (v,) in sub.df.iterrows():
                got.setdefault(k, []).append(v)
            expect_eq(got, want, 'values read from the files %r' % files)
    live = {t for t, r in m.desc.items() if r}
    kinds = {k['text']: k for k in pool}
    expect_eq(sorted(db.list()), sorted(live), 'list of the database')
    if full:
        for kind in D.PREFIX:
            for par in (None, True, False):
                expect_eq(sorted(db.list(kind, paradigm=par)),
                          sorted(t for t in live if kinds[t]['kind'] == kind and par in (None, kinds[t]['n'] != 1)),
                          'list of (%s, paradigm=%s)' % (kind, par))
            if kind in BY_CLASS:
                expect_eq(sorted(db.list(BY_CLASS[kind])), sorted(db.list(kind)), 'list of the class %s' % kind)
    if full or m.struct:
        s = db.get_structure()
        for t in texts:
            for k in D.KEYS:
                expect_eq(s.get_values(t, k), m.svalues(t, k), 'structure of (%r, %s)' % (t, k))
        want = {}
        for t, rows in m.struct.items():
            for k, v in rows:
                want.setdefault((t, k), []).append(v)
        got = {}
        for k, (v,) in s.df.iterrows():
            got.setdefault(k, []).append(v)
        expect_eq(got, want, 'stored structure')


BY_CLASS = {'polymorpheme': PolyMorpheme, 'lexeme': Lexeme, 'word': Word}


@st.composite
def histories(draw):
    pool, seen = [], set()
    for k in draw(st.lists(D.keys(), min_size=1, max_size=4)):
        if k['text'] not in seen:
            seen.add(k['text'])
            pool.append(k)
    vals = draw(st.lists(D.values(), min_size=2, max_size=6))
    ix = st.integers(0, len(pool) - 1)
    val = st.one_of(st.sampled_from(vals), st.sampled_from(vals), st.sampled_from(vals), D.values())
    lang, cls = st.sampled_from(D.LANGS), st.sampled_from(D.CLASSES)

    def opt(s):
        return st.one_of(s, s, st.none())
    svals = st.one_of(st.tuples(st.just('inhibition'), st.sampled_from(D.INHIB)),
                      st.tuples(st.sampled_from(['is_root', 'is_ignored']), st.sampled_from([True, False, 'True', 'false'])))
    add = st.tuples(st.just('add'), ix, lang, cls, val)
    op = st.one_of(add, add, add, add,
                   st.tuples(st.just('del'), ix, lang, cls, val),
                   st.tuples(st.just('del'), ix, opt(lang), opt(cls), st.one_of(val, st.none())),
                   st.tuples(st.just('sadd'), ix, svals),
                   st.tuples(st.just('sdel'), ix, svals),
                   st.tuples(st.just('sdelkey'), ix, opt(st.sampled_from(D.KEYS))),
                   st.tuples(st.just('bad'), ix, st.integers(0, 5), val),
                   st.tuples(st.just('look')), st.tuples(st.just('reopen')))
    ops, added, sadded = [], [], []
    for _ in range(draw(st.integers(2, 6))):
        ops.append(draw(add))
    added += ops
    for _ in range(draw(st.integers(1, 9))):
        how = draw(st.integers(0, 6))
        if how == 0:                                    # remove something that is there, by full or partial key
            o = list(draw(st.sampled_from(added)))
            o[0] = 'del'
            for i in range(2, 5):
                if draw(st.integers(0, 3)) == 0:
                    o[i] = None
        elif how == 1:                                  # a near miss: another value of the same key
            o = list(draw(st.sampled_from(added)))
            o[0] = 'del'
            o[4] = draw(val)
        elif how == 2 and sadded:
            o = list(draw(st.sampled_from(sadded)))
            o[0] = 'sdel'
        else:
            o = draw(op)
            if o[0] == 'add':
                added.append(o)
            elif o[0] == 'sadd':
                sadded.append(o)
        ops.append(o)
    return {'pool': pool, 'ops': [list(o) for o in ops]}


BAD = [(None, 'de', 'translations'), (None, 'fr', 'translation'), (None, '', 'tags'), (None, 'fr', ''),
       ('no ieml!', 'fr', 'tags'), ('(', 'en', 'comments')]


@facet('C16', 'history', lambda tier: histories(), 640, 16000,
       'histories of 3-14 additions, removals (full and partial keys, with and without a value), structure updates, rejected '
       'calls and re-openings over 1-4 keys of every kind; non-trivial: a removal hits an entry and leaves another')
def history(c, ctx):
    pool = c['pool']
    with scratch('db') as folder:
        db = IEMLDatabase(folder, use_cache=False)
        m = Model()
        for o in c['ops']:
            if o[0] == 'add':
                k = pool[o[1]]
                db.add_descriptor(k['spell'], o[2], o[3], o[4])
                m.add(k['text'], o[2], o[3], o[4])
            elif o[0] == 'del':
                t = pool[o[1]]['text']
                n = sum(map(len, m.desc.values()))
                db.remove_descriptor(pool[o[1]]['spell'], o[2], o[3], o[4])
                m.remove(t, o[2], o[3], o[4])
                if 0 < sum(map(len, m.desc.values())) < n:
                    ctx.nontrivial()
                    ctx.label('removal')
            elif o[0] == 'sadd':
                db.add_structure(pool[o[1]]['spell'], *o[2])
                m.struct.setdefault(pool[o[1]]['text'], []).append((o[2][0], str(o[2][1]).capitalize()
                                                                   if o[2][0] != 'inhibition' else o[2][1]))
            elif o[0] == 'sdel':
                db.remove_structure(pool[o[1]]['spell'], *o[2])
                m.sremove(pool[o[1]]['text'], o[2][0], str(o[2][1]).capitalize() if o[2][0] != 'inhibition' else o[2][1])
            elif o[0] == 'sdelkey':
                db.remove_structure(pool[o[1]]['spell'], o[2])
                m.sremove(pool[o[1]]['text'], o[2], None)
            elif o[0] == 'bad':
                i, l, d = BAD[o[2]]
                for f in (lambda: db.add_descriptor(pool[o[1]]['spell'] if i is None else i, l, d, o[3]),
                          lambda: db.add_structure(pool[o[1]]['spell'] if i is None else i, 'root', True),
                          lambda: db.add_structure(pool[o[1]]['spell'], 'inhibition', 'contains'),
                          lambda: db.add_structure(pool[o[1]]['spell'], 'is_root', 'maybe')):
                    try:
                        f()
                    except (ValueError, CannotParse):
                        pass
                    else:
                        expect(False, 'a malformed key was accepted: %r', BAD[o[2]])
                ctx.label('rejected')
            elif o[0] == 'look':
                observe(db, m, pool, False)
            else:
                db = IEMLDatabase(folder, use_cache=False)
        observe(db, m, pool, True)
        # what is on disk is one file per key, where the layout says, and the git layer reads the same from it
        want = {D.relpath(k) for k in pool if m.desc.get(k['text'])}
        seen = set()
        for dp, _, fs in os.walk(folder):
            for f in fs:
                p = os.path.join(dp, f)
                if f.endswith('.desc') and os.path.getsize(p):
                    seen.add(os.path.relpath(p, folder))
                    with open(p, encoding='utf8', newline='') as fp:
                        r = Descriptors.from_csv_string(fp.read(), assert_unique_ieml=True)
                    for t in r:
                        expect_eq(r[t], {d: {l: m.values(t, l, d) for l in D.LANGS} for d in D.CLASSES},
                                  'content of the file of %r' % t)
        expect_eq(seen, want, 'descriptor files')


@st.composite
def value_pairs(draw):
    k = draw(D.keys())
    vs = draw(st.lists(D.values(), min_size=1, max_size=6))
    return {'key': k, 'vals': vs, 'rm': draw(st.integers(0, len(vs) - 1)), 'l': draw(st.sampled_from(D.LANGS)),
            'd': draw(st.sampled_from(D.CLASSES))}


@facet('C16', 'values', lambda tier: value_pairs(), 480, 16000,
       'one key, 1-6 hostile values (quotes, numbers, NA, line breaks, spaces, unicode), one of them removed; non-trivial: '
       'two distinct stored values, one with a quote, digit or line break')
def values(c, ctx):
    k, l, d = c['key'], c['l'], c['d']
    st_ = [D.stored(v) for v in c['vals'] if D.stored(v)]
    if len(set(st_)) > 1 and any(x in v for v in st_ for x in '"0123456789\\'):
        ctx.nontrivial()
    with scratch('db') as folder:
        db = IEMLDatabase(folder, use_cache=False)
        for v in c['vals']:
            db.add_descriptor(IEMLParser().parse(k['spell']), l, d, v)
        expect_eq(db.get_descriptors().get_values(k['text'], l, d), st_, 'stored values')
        db.remove_descriptor(k['spell'], l, d, c['vals'][c['rm']])
        expect_eq(db.get_descriptors().get_values(k['text'], l, d),
                  [v for v in st_ if v != D.stored(c['vals'][c['rm']])], 'values after removing %r' % c['vals'][c['rm']])


@facet('C16', 'layout', lambda tier: D.keys(('morpheme', 'polymorpheme', 'lexeme', 'word', 'word')), 600, 20000,
       'keys of every kind; the file of a key depends on the USL, not its spelling; non-trivial: name longer than the limit '
       'or a paradigm')
def layout(k, ctx):
    if len(k['text']) > 100 or k['n'] > 1:
        ctx.nontrivial()
    ctx.label('%s_%s' % (k['kind'], 'long' if len(k['text']) > 100 else 'short'))
    with scratch('db') as folder:
        db = IEMLDatabase(folder, use_cache=False)
        for ext, desc in (('.desc', True), ('.ieml', False)):
            want = os.path.join(folder, D.relpath(k, ext))
            expect_eq(db.path_of(k['spell'], descriptor=desc), want, 'path of %r' % k['spell'])
            expect_eq(db.path_of(IEMLParser().parse(k['text']), descriptor=desc), want, 'path of the object %r' % k['text'])
        expect(os.listdir(folder) == [], 'computing a path created files')
