"""C21 — The difference between two commits tells every change of the descriptors and structures, and nothing else."""
import os
from collections import Counter

import pygit2

from pbt.core import facet, expect, expect_eq, scratch, st
from pbt import gen_db as D
from pbt import gitlib as GL
from pbt.gitlib import SIG

from ieml.ieml_database.ieml_database import IEMLDatabase

OTHER = ['README', 'notes.txt', 'morpheme/readme']


@st.composite
def histories(draw):
    pool, seen = [], set()
    for k in draw(st.lists(D.keys(), min_size=2, max_size=4)):
        if k['text'] not in seen:
            seen.add(k['text'])
            pool.append(k)
    ix = st.one_of(st.just(0), st.integers(0, len(pool) - 1))
    lang, cls = st.sampled_from(D.LANGS), st.sampled_from(D.CLASSES)
    val = st.one_of(st.sampled_from(['a', 'b', 'c']), D.values())
    add = st.tuples(st.just('add'), ix, lang, cls, val)
    op = st.one_of(add, add, add,
                   st.tuples(st.just('del'), ix, st.one_of(lang, st.none()), st.one_of(cls, st.none())),
                   st.tuples(st.just('drop'), ix),
                   st.tuples(st.just('sadd'), ix, st.sampled_from(D.INHIB)),
                   st.tuples(st.just('sdel'), ix),
                   st.tuples(st.just('raw'), st.sampled_from(OTHER), st.sampled_from(['x', 'say "hi"\n', 'a\nb\n', None])))
    commits = [[list(o) for o in draw(st.lists(op, min_size=1, max_size=6))] for _ in range(draw(st.integers(1, 4)))]
    commits[0] = [list(draw(add)) for _ in range(draw(st.integers(2, 6)))] + commits[0][:1]
    n = len(commits)
    pairs = draw(st.lists(st.tuples(st.integers(0, n), st.integers(0, n)), min_size=1, max_size=3))
    pairs += [(i, j) for i in range(n) for j in (i + 1, n) if draw(st.booleans())]
    return {'pool': pool, 'commits': commits, 'pairs': [list(p) for p in pairs]}


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def lines(data):
    return [l + '\n' for l in data.decode('utf8').split('\n')[:-1]]


@facet('C21', 'history', lambda tier: histories(), 960, 12000,
       'differences between any two of up to 5 commits of a database with keys of every kind, hostile values, structures and '
       'other files; non-trivial: a file that keeps some of its lines changes')
def history(c, ctx):
    pool = c['pool']
    with scratch('git') as top:
        GL.origin(os.path.join(top, 'origin'))
        gi = GL.clone(os.path.join(top, 'origin'), os.path.join(top, 'db'))
        db = IEMLDatabase(gi.folder, use_cache=False)
        heads = [GL.head(gi.folder)]
        for i, ops in enumerate(c['commits']):
            with gi.commit(SIG, 'commit %d' % i):
                for o in ops:
                    if o[0] == 'add':
                        db.add_descriptor(pool[o[1]]['spell'], o[2], o[3], o[4])
                    elif o[0] == 'del':
                        db.remove_descriptor(pool[o[1]]['spell'], o[2], o[3])
                    elif o[0] == 'drop':
                        db.remove_descriptor(pool[o[1]]['spell'])
                    elif o[0] in ('sadd', 'sdel'):
                        if o[0] == 'sadd':
                            db.add_structure(pool[o[1]]['spell'], 'inhibition', o[2])
                        else:
                            db.remove_structure(pool[o[1]]['spell'])
                    else:
                        p = os.path.join(gi.folder, o[1])
                        if o[2] is None:
                            if os.path.exists(p):
                                os.remove(p)
                        else:
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            with open(p, 'w') as fp:
                                fp.write(o[2])
            heads.append(GL.head(gi.folder))
        trees = [GL.tree_of(gi.folder, h) for h in heads]
        where = {}
        for k in pool:
            for ext in ('.desc', '.ieml'):
                where[D.relpath(k, ext)] = k['text']
        for a, b in c['pairs']:
            before = GL.worktree(gi.folder)
            got = gi.diff(heads[a], pygit2.Repository(gi.folder)[heads[b]].id if a < b else heads[b])
            GL.expect_files(GL.worktree(gi.folder), before, 'files after a comparison')
            A, B = trees[a], trees[b]
            want = {p for p in set(A) | set(B) if p.endswith(('.desc', '.ieml')) and A.get(p, b'') != B.get(p, b'')}
            expect_eq(set(got), want, 'files that differ between commits %d and %d' % (a, b))
            part = whole = False
            for p in want:
                r = got[p]
                old, new = lines(A.get(p, b'')), lines(B.get(p, b''))
                expect_eq(r['ieml'], where[p], 'IEML of %r' % p)
                expect_eq((bool(r['is_new']), bool(r['is_removed'])), (p not in A, p not in B), 'new or removed, %r' % p)
                expect(subsequence(r['deleted'], old), 'deleted lines of %r: %r, was %r', p, r['deleted'], old)
                expect(subsequence(r['added'], new), 'added lines of %r: %r, is %r', p, r['added'], new)
                expect_eq(Counter(old) - Counter(r['deleted']) + Counter(r['added']), Counter(new),
                          'lines of %r after the change' % p)
                whole = whole or p not in A or p not in B
                part = part or len(r['deleted']) < len(old)
            ctx.label('equal' if not want else 'differ')
            if part and whole:
                ctx.label('kept_lines_and_whole_file')
            if part:
                ctx.nontrivial()
