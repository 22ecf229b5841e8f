"""C17 — Caches are transparent: the dictionary and the listing of a database always reflect its current content."""
import os
import sys

import numpy as np

from pbt.core import facet, expect, expect_eq, scratch, st
from pbt import ref_script as R
from pbt import ref_usl as U
from pbt import gen_db as D

from ieml.ieml_database.ieml_database import IEMLDatabase

ROOTS = ['I:', 'E:F:.', 'E:.M:M:.-', 'M:M:.', 'O:M:.']
EXTRA = ['M:O:.', 'O:O:.', 'E:.O:M:.-', 'S:M:.O:.-']                  # roots a history may declare or drop
SUBS = ['O:', 'M:', 'F:', 'E:O:.', 'E:M:.', 'E:.S:M:.-', 'E:.M:S:.-', 'S:M:.', 'M:S:.', 'B:M:.', 'U:M:.', 'O:S:.', 'S:+B:M:.',
        'O:U:.', 'S:M:.U:.-', 'M:A:.']
SINGLE = ['S:', 'U:', 'E:', 's.', 'b.', 'y.', 'E:S:.', 'E:.n.-', 'wo.', 'j.', 's.U:.-', "b.a.-"]
OTHER = ['s. b.', 'S: m1(B: T:)', 's. b. m1(y. o.)', 'U: S:', '(E:S:.)(s. b.)', '()(S:)', '(E:U:.)(wo.)',
         '[! E:A:.  (E:S:.)(s.)]', '[! E:S:. ()(s.) > E:.n.- ()(y.)]', '[! E:U:.  ()(s.)]', 'm1(y. o.)', 'y. o.', 'y. m1(S:)', '(s.)(y.)', '()(y. m1(s. b.))', '[! E:A:.  ()(m1(S: B:))]', '[E:A:.  ()(s.) > E:A:. E:U:. ()(! b.)]'
         .replace('! ', '').replace('[E:A:.', '[! E:A:.'), '()(wo. b.)', 'S: wo.', '(E:S:.)(s.) [>content "x y"]', '[! E:A:.  (E:S:.)(s.)] [> "x"]',
         '()(m1(S: B:)) [>content "x"]']


def kind(t):
    return 'word' if t[0] == '[' else 'lexeme' if t[0] == '(' else 'polymorpheme' if ' ' in t else 'morpheme'


def same_dictionary(a, b):
    expect_eq([str(s) for s in a.scripts], [str(s) for s in b.scripts], 'morphemes of the dictionary')
    expect_eq({str(s): i for s, i in a.index.items()}, {str(s): i for s, i in b.index.items()}, 'index')
    expect_eq({str(s): sorted(str(t.script) for t in v) for s, v in a.tables.roots.items()},
              {str(s): sorted(str(t.script) for t in v) for s, v in b.tables.roots.items()}, 'roots and their tables')
    expect_eq({str(s): t.rank for s, t in a.tables.tables.items()}, {str(s): t.rank for s, t in b.tables.tables.items()}, 'ranks')
    expect(bool(np.array_equal(a.roots_idx, b.roots_idx)), 'root indices')
    for r in b.relations.relations:
        x, y = a.relations.relations[r], b.relations.relations[r]
        expect((x != y).nnz == 0, 'relation %s', r)


def start(folder):
    db = IEMLDatabase(folder, use_cache=False)
    for r in ROOTS:
        db.add_descriptor(r, 'fr', 'translations', 'racine ' + r)
        db.add_structure(r, 'is_root', True)


@st.composite
def histories(draw):
    keys = draw(st.lists(st.sampled_from(SUBS + SINGLE + OTHER + EXTRA), min_size=2, max_size=6, unique=True))
    key = st.sampled_from(keys)
    val = st.sampled_from(['a', 'b', 'c d', '1', 'NA', 'é"'])
    op = st.one_of(
        st.tuples(st.just('add'), key, st.sampled_from(D.LANGS), st.sampled_from(D.CLASSES), val),
        st.tuples(st.just('add'), key, st.sampled_from(D.LANGS), st.sampled_from(D.CLASSES), val),
        st.tuples(st.just('del'), st.sampled_from(keys + ROOTS[3:])),
        st.tuples(st.just('delval'), key, st.sampled_from(D.LANGS), st.sampled_from(D.CLASSES), val),
        st.tuples(st.just('root'), st.sampled_from(EXTRA)),
        st.tuples(st.just('unroot'), st.sampled_from(EXTRA + ROOTS[1:])),
        st.tuples(st.just('sub'), st.sampled_from(SUBS)),
        st.tuples(st.just('ignore'), st.sampled_from(SUBS)),
        st.tuples(st.just('inhibit'), st.sampled_from(ROOTS + EXTRA), st.sampled_from(D.INHIB)),
        st.tuples(st.just('uninhibit'), st.sampled_from(ROOTS + EXTRA)),
        st.tuples(st.just('swap'), key, key))
    look = st.sampled_from([['look', 'list'], ['look', 'list'], ['look', 'dict'], ['look', 'both']])
    harm = st.sampled_from([['harm', 'truncate'], ['harm', 'garbage'], ['harm', 'empty'], ['harm', 'other'], ['harm', 'remove']])
    # changes which leave most of what can be seen of a file from outside as it was
    spot = (draw(key), draw(st.sampled_from(D.LANGS)), draw(st.sampled_from(D.CLASSES)))
    tiny = st.sampled_from([('replace', *spot), ('rotate', *spot), ('rotate', *spot), ('long', *spot), ('add', *spot, 'tail')])
    if draw(st.integers(0, 2)) == 0:
        op = tiny
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        ops += [list(o) for o in draw(st.lists(op, min_size=0, max_size=3))]
        if draw(st.integers(0, 3)) == 0:
            ops.append(draw(harm))
        ops.append(draw(look))
    return {'ops': ops, 'fresh': draw(st.booleans()), 'where': draw(st.sampled_from(['inside', 'apart', 'slash']))}


def harm(folder, how):
    files = sorted(f for f in os.listdir(folder) if f.startswith('.') and '-cache.' in f)
    for f in files:
        p = os.path.join(folder, f)
        if how == 'truncate':
            os.truncate(p, os.path.getsize(p) // 2)
        elif how == 'garbage':
            with open(p, 'wb') as fp:
                fp.write(b'\x80\x04garbage')
        elif how == 'empty':
            os.truncate(p, 0)
        elif how == 'remove':
            os.remove(p)
        else:
            # left over by another version of the content
            with open(os.path.join(folder, f.rsplit('.', 1)[0] + '.' + '0' * 32), 'wb') as fp:
                fp.write(b'x')


@facet('C17', 'history', lambda tier: histories(), 256, 6000,
       'histories of descriptor and structure changes on a dictionary of 5-9 roots, with cached look-ups in between and '
       'damaged, missing or left-over cache files; non-trivial: two look-ups with a change between them', shards=8)
def history(c, ctx):
    with scratch('db') as top:
        folder = os.path.join(top, 'db')
        cache = os.path.join(top, 'cache') if c['where'] == 'apart' else folder
        os.mkdir(folder)
        start(folder)
        arg = folder + '/' if c['where'] == 'slash' else folder

        def handle():
            return IEMLDatabase(arg, use_cache=True, cache_folder=None if c['where'] != 'apart' else cache)
        w = IEMLDatabase(folder, use_cache=False)
        db = handle()
        roots = set(ROOTS)
        looks, changed = 0, False
        for o in c['ops']:
            if o[0] == 'look':
                if looks and changed:
                    ctx.nontrivial()
                looks, changed = looks + 1, False
                if c['fresh']:
                    db = handle()
                ref = IEMLDatabase(folder, use_cache=False)
                for _ in range(2):                            # the second one is served from the cache
                    if o[1] in ('dict', 'both'):
                        same_dictionary(db.get_dictionary(), ref.get_dictionary())
                    if o[1] in ('list', 'both'):
                        expect_eq(db.get_list(), ref.get_list(), 'listing through the cache')
                ctx.label('look_' + o[1])
                continue
            if o[0] == 'harm':
                if os.path.isdir(cache):
                    harm(cache, o[1])
                ctx.label('harm')
                continue
            changed = True
            apply_op(w, o, roots)


def apply_op(w, o, roots):
    if o[0] == 'add':
        w.add_descriptor(*o[1:])
    elif o[0] == 'del':
        w.remove_descriptor(o[1])
    elif o[0] == 'delval':
        w.remove_descriptor(*o[1:])
    elif o[0] == 'root':
        if o[1] not in roots:
            roots.add(o[1])
            w.remove_structure(o[1])
            w.add_structure(o[1], 'is_root', True)
            w.add_descriptor(o[1], 'en', 'translations', 'root')
    elif o[0] == 'unroot':
        if o[1] in roots:
            roots.discard(o[1])
            w.remove_structure(o[1])
    elif o[0] == 'sub':
        w.remove_structure(o[1])
        w.add_structure(o[1], 'is_root', False)
        w.add_descriptor(o[1], 'fr', 'tags', 'sub')
    elif o[0] == 'ignore':
        w.add_structure(o[1], 'is_ignored', True)
    elif o[0] == 'inhibit':
        w.add_structure(o[1], 'inhibition', o[2])
    elif o[0] == 'uninhibit':
        w.remove_structure(o[1], 'inhibition')
    elif o[0] == 'long':
        w.add_descriptor(*o[1:], 'x' * 5000)
    elif o[0] in ('replace', 'rotate'):
        vs = list(w.get_descriptors().get_values(*o[1:]))
        if o[0] == 'replace' and vs:
            w.remove_descriptor(*o[1:], vs[-1])
            w.add_descriptor(*o[1:], vs[-1][:-1] + ('y' if vs[-1][-1] != 'y' else 'z'))
        elif len(vs) > 1:
            w.remove_descriptor(*o[1:], vs[0])
            w.add_descriptor(*o[1:], vs[0])
        else:
            w.add_descriptor(*o[1:], 'u')
            w.add_descriptor(*o[1:], 'v')
    elif o[0] == 'swap':
        # exchange the descriptors of two keys
        a, b = o[1], o[2]
        d = w.get_descriptors()
        va, vb = d.get_values_partial(a), d.get_values_partial(b)
        if a != b:
            w.remove_descriptor(a)
            w.remove_descriptor(b)
            for src, dst in ((va, b), (vb, a)):
                for (_, l, k), vs in src.items():
                    for v in vs:
                        w.add_descriptor(dst, l, k, v)


@st.composite
def schedules(draw):
    c = draw(histories())
    ops = [o for o in c['ops'] if o[0] not in ('look', 'harm')]
    k = draw(st.integers(0, len(ops)))
    return {'before': ops[:k], 'warm': draw(st.booleans()), 'stale': ops[k:k + 1], 'what': draw(st.sampled_from(['list', 'dict', 'dict'])),
            'where': c['where'],
            'cuts': draw(st.lists(st.tuples(st.sampled_from(['commons.py', 'commons.py', 'ieml_database.py']), st.integers(0, 150),
                                            st.lists(st.one_of(st.just(['look']), st.just(['look']),
                                                               st.sampled_from(ops or [['root', EXTRA[0]]])), min_size=1, max_size=2)),
                                  min_size=1, max_size=2))}


def content(folder, sub):
    out = {}
    for p, _, fs in os.walk(os.path.join(folder, sub)):
        for f in fs:
            if f.endswith(('.desc', '.ieml')):
                with open(os.path.join(p, f), 'rb') as fp:
                    out[p, f] = fp.read()
    return out


def came_back(states):
    """Whether a state is found again after another one."""
    runs = [s for i, s in enumerate(states) if i == 0 or s != states[i - 1]]
    return any(s in runs[:i] for i, s in enumerate(runs))


class Cut:
    """Runs an action of another process before a line of the code, the n-th that is executed in a file."""
    def __init__(self, cuts, act):
        self.left = {f: sorted((n, ops) for g, n, ops in cuts if g == f) for f in ('commons.py', 'ieml_database.py')}
        self.count = dict.fromkeys(self.left, 0)
        self.act, self.fired = act, 0

    def __call__(self, frame, event, arg):
        f = os.path.basename(frame.f_code.co_filename)
        if not self.left.get(f):
            return None
        if event == 'line':
            while self.left[f] and self.left[f][0][0] <= self.count[f]:
                ops = self.left[f].pop(0)[1]
                self.fired += 1
                sys.settrace(None)
                try:
                    for o in ops:
                        self.act(o)
                finally:
                    sys.settrace(self)
            self.count[f] += 1
        return self

    def run(self, f):
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(None)


@facet('C17', 'schedule', lambda tier: schedules(), 320, 8000,
       'a cached look-up during which, before any line of the cache or of the database, other processes look up or change the '
       'database: no look-up fails, those with no change meanwhile are right, and so is every later one; non-trivial: the '
       'look-up was interrupted', shards=8)
def schedule(c, ctx):
    with scratch('db') as top:
        folder = os.path.join(top, 'db')
        cache = os.path.join(top, 'cache') if c['where'] == 'apart' else folder
        os.mkdir(folder)
        start(folder)
        arg = folder + '/' if c['where'] == 'slash' else folder
        w = IEMLDatabase(folder, use_cache=False)
        roots = set(ROOTS)

        def look(db):
            return db.get_dictionary() if c['what'] == 'dict' else db.get_list()

        def right(got, ref, when):
            if c['what'] == 'dict':
                same_dictionary(got, ref)
            else:
                expect_eq(got, ref, 'listing ' + when)

        def handle():
            return IEMLDatabase(arg, use_cache=True, cache_folder=None if c['where'] != 'apart' else cache)
        for o in c['before']:
            apply_op(w, o, roots)
        if c['warm']:
            look(handle())
        for o in c['stale']:
            apply_op(w, o, roots)
        ref = look(w)
        changed = []
        states = [[content(folder, '')], [content(folder, 'morpheme/paradigm')]]

        def act(o):
            if o[0] == 'look':
                ctx.label('look meanwhile')
                got = look(handle())
                right(got, look(w) if changed else ref, 'meanwhile')
            else:
                ctx.label('change meanwhile')
                changed.append(o)
                apply_op(w, o, roots)
                states[0].append(content(folder, ''))
                states[1].append(content(folder, 'morpheme/paradigm'))
        cut = Cut(c['cuts'], act)
        db = handle()
        got = cut.run(lambda: look(db))
        if cut.fired:
            ctx.nontrivial()
            ctx.label('fired %d' % cut.fired)
        if not changed:
            right(got, ref, 'interrupted by other look-ups')
        if any(map(came_back, states)):
            ctx.label('changed and changed back')      # the caches compare contents, they can't see it
            return
        ref = look(w)
        right(look(db), ref, 'after')
        right(look(handle()), ref, 'after, by another process')
        left = [f for f in os.listdir(cache) if 'cache' in f]
        expect(len(left) <= 2, 'cache files left over: %s', left)


@st.composite
def listings(draw):
    rows = draw(st.lists(st.tuples(st.sampled_from(SUBS + SINGLE + OTHER + OTHER), st.sampled_from(D.LANGS),
                                   st.sampled_from(D.CLASSES), st.sampled_from(['a', 'b', '1', 'NA', 'é "x"'])),
                         min_size=1, max_size=10))
    return {'rows': [list(r) for r in rows], 'subs': draw(st.lists(st.sampled_from(SUBS), max_size=4, unique=True)),
            'roots': draw(st.lists(st.sampled_from(EXTRA), max_size=2, unique=True))}


def class_name(t):
    """The class of a key: of its constant morphemes, of the content of a lexeme, of the type of a word."""
    t = t.split(' [>')[0]
    if t[0] == '[':
        return {'E:A:.': 'Noun', 'E:U:.': 'Auxiliary'}.get(t.strip('[! ').split()[0], 'Verb')
    if t[0] == '(':
        t = t[t.index(')') + 2:-1]
    ms = [x for x in t.split('m1(')[0].split() if x]
    return ['Auxiliary', 'Verb', 'Noun'][max([R.script_class(R.read(m)) for m in ms], default=0)]


def morphemes(t):
    out = []
    for x in t.split(' [>')[0].replace('[', ' ').replace(']', ' ').replace('!', ' ').replace('>', ' ').replace('(', ' ( ').replace(')', ' ').split():
        if x != '(' and not (x[0] == 'm' and x[1:].isdigit()):
            out.append(x)
    return out


@facet('C17', 'listing', lambda tier: listings(), 256, 6000,
       'the listing against the model: every stored USL whose morphemes the dictionary knows, once, with its kind, class, '
       'cardinality and descriptors; non-trivial: a lexeme or word is listed and another key is left out')
def listing(c, ctx):
    with scratch('db') as folder:
        start(folder)
        db = IEMLDatabase(folder, use_cache=False)
        desc = {}
        for r in ROOTS:
            desc[r] = [('fr', 'translations', 'racine ' + r)]
        for t in c['roots']:
            db.add_structure(t, 'is_root', True)
            db.add_descriptor(t, 'fr', 'tags', 'root')
            desc.setdefault(t, []).append(('fr', 'tags', 'root'))
        for t in c['subs']:
            db.add_structure(t, 'is_root', False)
        for t, l, d, v in c['rows']:
            db.add_descriptor(t, l, d, v)
            desc.setdefault(t, []).append((l, d, v))
        dic = db.get_dictionary()
        known = {str(s) for s in dic.scripts}
        words = {(R.layer(R.read(r)), w) for r in ROOTS + c['roots'] for w in R.sem(R.read(r))}
        expect(all(t in known for t in ROOTS + c['roots']), 'a root is missing from the dictionary')
        for t in SINGLE:
            n = R.read(t)
            expect_eq(t in known, (R.layer(n), next(iter(R.sem(n)))) in words, 'presence of %r in the dictionary' % t)
        want = {t for t in desc if all(m in known for m in morphemes(t))}
        expect_eq(sorted(str(u) for u in db.list(parse=True)), sorted(want), 'stored USLs that are read')
        got = db.get_list()
        expect_eq(sorted(e['ieml'] for e in got), sorted(want), 'listed USLs')
        expect_eq([e['index'] for e in got], sorted(e['index'] for e in got), 'order of the listing')
        ms = [e['ieml'] for e in got if e['type'] == 'morpheme']
        expect_eq(ms, sorted(ms, key=lambda t: [str(s) for s in dic.scripts].index(t)), 'order of the morphemes')
        roots = set(ROOTS + c['roots'])
        if any(kind(t) in ('lexeme', 'word') for t in want) and set(desc) - want:
            ctx.nontrivial()
        for e in got:
            t = e['ieml']
            k = kind(t)
            par = 'm1(' in t if k != 'morpheme' else R.card(R.read(t)) > 1
            expect_eq(e['type'], k, 'kind of %r' % t)
            expect_eq(e['class'], class_name(t), 'class of %r' % t)
            expect_eq(bool(e['paradigm']), par, 'paradigm flag of %r' % t)
            expect_eq(e['cardinality'], 'root_paradigm' if t in roots else 'paradigm' if par else 'singular_sequence',
                      'cardinality of %r' % t)
            for d in D.CLASSES:
                w = {l: [v for ll, dd, v in desc[t] if ll == l and dd == d] for l in D.LANGS}
                expect_eq(e.get(d), w if any(w.values()) else None, '%s of %r' % (d, t))
