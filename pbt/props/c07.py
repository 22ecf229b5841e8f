"""C07 — What is pickled or copied comes back the same: in this process or another one, before or after being used."""
import base64
import copy
import pickle

from pbt.core import facet, expect, expect_eq, st
from pbt import gen_db as D
from pbt import gen_dict as GD
from pbt import peer
from pbt import ref_dict as RD
from pbt import ref_script as R
from pbt.gen_script import spellings, text_of

from ieml.constants import RELATIONS
from ieml.dictionary.script import Script, script
from ieml.usl import USL
from ieml.usl.decoration.instance import InstancedUSL
from ieml.usl.decoration.path import UslPath, path
from ieml.usl.parser import IEMLParser

P = []


def read(kind, t):
    if kind == 'script':
        return script(t)
    if kind == 'path':
        return path(t)
    if not P:
        P.append(IEMLParser())
    return P[0].parse(t)


def look(o):
    """Everything a user can ask of an object, as text."""
    out = {'kind': type(o).__name__, 'text': str(o), 'same_hash': hash(o) == hash(read(
        'script' if isinstance(o, Script) else 'path' if isinstance(o, UslPath) else 'usl', str(o)))}
    if isinstance(o, UslPath):
        return out
    out['ss'] = [str(x) for x in o.singular_sequences]
    out['n'] = [len(o), o.cardinal, o.is_singular, len(o.singular_sequences_set)]
    out['in'] = all(x in o.singular_sequences_set and x in o for x in o.singular_sequences) and o in o
    out['class'] = str(o.grammatical_class)
    out['empty'] = o.empty
    if isinstance(o, Script):
        out['layer'] = o.layer
        out['parts'] = [str(c) for c in o.children]
        if 1 < o.cardinal <= 80 and len(o.singular_sequences_set) == o.cardinal:     # terms that overlap have no table
            try:
                out['tables'] = [[[[str(x) for x in l] for l in r] for r in c] for c in o.cells]
                out['sub'] = [str(t) for t in o.tables_script]
                out['headers'] = [[[str(h) for h in k] for k in c] for c in o.headers]
            except ValueError as e:
                out['tables'] = str(e)
    else:
        out['morphemes'] = [str(m) for m in o.morphemes]
        out['structure'] = [[str(p), str(x), x.get_literal()] for p, x in o.iter_structure_path()]
        if isinstance(o, InstancedUSL):
            out['usl'] = look(o.usl)
            out['decorations'] = [str(d) for d in o.decorations]
    return out


WARM = {
    'ss': lambda o: o.singular_sequences,
    'set': lambda o: o.singular_sequences_set,
    'in': lambda o: o in o,
    'order': lambda o: sorted([o, o]),
    'structure': lambda o: list(o.iter_structure_path()),
    'hash': lambda o: {o},
    'tables': lambda o: (o.cells, o.headers) if isinstance(o, Script) and len(o.singular_sequences_set) == o.cardinal < 40 else None,
    'look': look,
}
HOW = ['copy', 'deepcopy', 'pickle', 'pickle', 'peer']


def restored(b64):
    """What a pickle is worth in another process, and the pickle made there."""
    o = pickle.loads(base64.b64decode(b64))
    objs = o if isinstance(o, list) else [o]
    here = [read('script' if isinstance(x, Script) else 'path' if isinstance(x, UslPath) else 'usl', str(x)) for x in objs]
    found = [x in {y} and y in {x} and {x: 1}[y] == 1 and x == y for x, y in zip(objs, here)]
    return [[look(x) for x in objs], found, base64.b64encode(pickle.dumps(o, 4)).decode()]


@st.composite
def objects(draw):
    items = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['script', 'script', 'usl', 'usl', 'usl', 'path']))
        if kind == 'script':
            t = text_of(draw(spellings(max_layer=4, cap=24)))
        elif kind == 'usl':
            t = draw(D.keys(('polymorpheme', 'lexeme', 'word', 'word')))['spell']
        else:
            t = draw(st.sampled_from(['>', '>content', '>flexion', '>role>! E:A:.', '>role>E:A:. E:U:.>content', '>constant',
                                      '>role>! E:A:.>flexion']))
            tail = draw(st.sampled_from(['', '>constant', '>constant>s.', '>group_0 1', '>group_0 2>b.', '>S:', '>E:A:.']))
            if tail and t.endswith('content'):
                t += tail if tail[1] in 'cg' else ''
            elif tail and t.endswith('flexion'):
                t += tail if tail[1] in 'SE' else ''
        items.append([kind, t])
    return {'items': items, 'warm': draw(st.lists(st.sampled_from(sorted(WARM)), max_size=4)), 'how': draw(st.sampled_from(HOW)),
            'protocol': draw(st.integers(2, 5)), 'twice': draw(st.booleans())}


@facet('C07', 'objects', lambda tier: objects(), 3000, 60000,
       'morphemes, USLs (decorated or not) and paths, used or not before being copied, deep copied or pickled (protocols 2-5), '
       'alone or in a list with shared members, here or through a second interpreter with another hash seed; '
       'non-trivial: one of them has several singular sequences or is a USL, and was used before')
def objects_(c, ctx):
    os_ = [read(*x) for x in c['items']]
    for o in os_:
        if not isinstance(o, UslPath):
            for w in c['warm']:
                try:
                    WARM[w](o)
                except ValueError:
                    expect(w in ('tables', 'look'), '%s of %r', w, str(o))   # a table with too many headers
    if c['warm'] and any(isinstance(o, USL) or isinstance(o, Script) and len(o) > 1 for o in os_):
        ctx.nontrivial()
    ctx.label(c['how'])
    for o in os_:
        ctx.label(type(o).__name__)
    before = [look(read(*x)) for x in c['items']]
    src = os_ + os_[:1] if c['twice'] else os_
    if c['how'] == 'copy':
        got = [copy.copy(o) for o in src]
    elif c['how'] == 'deepcopy':
        got = copy.deepcopy(src)
    else:
        b = pickle.dumps(src, c['protocol'])
        if c['how'] == 'peer':
            r = peer.ask('c07', 'restored', base64.b64encode(b).decode())
            expect(r[0] == 'ok', 'restoring %r in another process raises %s', [str(o) for o in os_], r[1])
            views, found, back = r[1]
            expect_eq(views[:len(os_)], before, 'view of %r in another process' % ([str(o) for o in os_],))
            expect(all(found), 'a restored object is not found by equality or hash in another process: %r', [str(o) for o in os_])
            b = base64.b64decode(back)
        got = pickle.loads(b)
    for x, o, v in zip(got, os_, before):
        expect(x == o and o == x and not x != o, 'the restored %r is different', str(o))
        expect_eq(hash(x), hash(o), 'hash of the restored %r' % str(o))
        expect(x in {o} and o in {x}, 'the restored %r is not found in a set', str(o))
        expect(not (x < o) and not (o < x), 'the restored %r is ordered', str(o))
        expect_eq(look(x), v, 'the restored %r' % str(o))
        expect_eq(look(o), v, 'the original of %r' % str(o))
    # a deep copy shares nothing
    if c['how'] != 'copy':
        for x, o, v in zip(got, os_, before):
            if isinstance(x, USL) and not isinstance(x, InstancedUSL):
                for _, y in x.iter_structure_path():
                    y.set_literal('changed')
                expect_eq(look(o), v, 'the original of %r, after its copy was decorated' % str(o))


def dictionary_view(d):
    out = {'scripts': [str(s) for s in d.scripts], 'roots': sorted(str(r) for r in d.tables.roots), 'n': len(d)}
    out['tables'] = [[str(s), str(d.tables[s].parent.script) if d.tables[s].parent is not None else None, d.tables[s].rank,
                      str(d.tables.root(s))] for s in d.scripts]
    out['index'] = [d.index[script(str(s))] for s in d.scripts]
    out['known'] = all(script(str(s)) in d and d[str(s)] == s for s in d.scripts)
    out['relations'] = [[r, [[str(o) for o in d.relations.object(s, r)] for s in d.scripts]] for r in RELATIONS]
    return out


def restored_dictionary(b64):
    d = pickle.loads(base64.b64decode(b64))
    return [dictionary_view(d), base64.b64encode(pickle.dumps(d, 4)).decode()]


@facet('C07', 'dictionary', lambda tier: GD.dictionaries(max_roots=3, max_subs=4, layers=(0, 1, 1, 2)), 320, 8000,
       'a dictionary pickled, restored in a second interpreter with another hash seed, pickled there and restored here; '
       'non-trivial: two roots or a sub-paradigm')
def dictionary(c, ctx):
    d = RD.build(c)
    v = dictionary_view(d)
    if len(v['roots']) > 1 or len(c['subs']):
        ctx.nontrivial()
    r = peer.ask('c07', 'restored_dictionary', base64.b64encode(pickle.dumps(d, 4)).decode())
    expect(r[0] == 'ok', 'restoring the dictionary in another process raises %s', r[1])
    expect_eq(r[1][0], v, 'the dictionary in another process')
    expect_eq(dictionary_view(pickle.loads(base64.b64decode(r[1][1]))), v, 'the dictionary back')
    expect_eq(dictionary_view(copy.deepcopy(d)), v, 'a deep copy of the dictionary')
