"""C19 — Pulling merges two histories file by file: nothing is lost silently, the remote wins conflicts, clones converge."""
import os
import shutil
import subprocess
import tempfile

import pygit2

from pbt.core import facet, expect, expect_eq, scratch, st
from pbt import gitlib as GL
from pbt.gitlib import SIG
from pbt.props.c16 import Model
from pbt import gen_db as D

from ieml.ieml_database.descriptors import Descriptors
from ieml.ieml_database.git_interface import GitInterface
from ieml.ieml_database.ieml_database import IEMLDatabase

KEYS = ['U:', 'A:', 'O:', 's. b.', '()(S:)', '[! E:S:. ()(s.) > E:.n.- ()(y.)]']
SLOTS = [('fr', 'translations'), ('en', 'translations'), ('fr', 'comments'), ('en', 'tags')]


def parse_desc(data):
    """{ieml: {class: {lang: values}}} of a descriptor file, read independently."""
    out = {}
    for line in data.decode('utf8').split('\n'):
        if not line:
            continue
        f, i = [], 0
        while i < len(line):
            if line[i] == '"':
                j, v = i + 1, ''
                while True:
                    if line[j] == '"':
                        if line[j + 1:j + 2] == '"':
                            v += '"'
                            j += 2
                            continue
                        break
                    v += line[j]
                    j += 1
                f.append(v)
                i = j + 2
            else:
                j = line.find(' ', i)
                j = len(line) if j < 0 else j
                f.append(line[i:j])
                i = j + 1
        d = out.setdefault(f[0], {c: {l: [] for l in D.LANGS} for c in D.CLASSES})
        d[f[2]][f[1]].append(f[3])
    return out


EMPTY = {c: {l: [] for l in D.LANGS} for c in D.CLASSES}


def merge3(b, l, r, top):
    """(content or None, conflict)"""
    if l == r or b == r:
        return l, False
    if b == l:
        return r, False
    if l is None or r is None:
        return r, True
    b = b or b''                                       # added on both sides: a version without any line conflicts with none
    names = []
    for n, x in (('l', l), ('b', b), ('r', r)):
        p = os.path.join(top, 'merge-' + n)
        with open(p, 'wb') as fp:
            fp.write(x)
        names.append(p)
    p = subprocess.run(['git', 'merge-file', '-p', '-q'] + names, capture_output=True)
    return (p.stdout, False) if p.returncode == 0 else (r, True)


def expected(base, loc, rem, top):
    files, conflicts, merged = {}, {}, 0
    for path in set(base) | set(loc) | set(rem):
        b, l, r = base.get(path), loc.get(path), rem.get(path)
        x, c = merge3(b, l, r, top)
        if x is not None:
            files[path] = x
        if x not in (b, l, r):
            merged += 1
        if c and path.endswith('.desc'):
            for src in (l, r, b):
                k = parse_desc(src) if src else {}
                if k:
                    ieml = next(iter(k))
                    break
            else:
                continue
            conflicts[ieml] = parse_desc(l)[ieml] if l else EMPTY
    return files, conflicts, merged


def op_strategy(hot):
    val = st.sampled_from(['a', 'b', 'c"d', 'e f', 'g', 'h'])
    key, slot = st.one_of(st.sampled_from(hot), st.sampled_from(hot), st.sampled_from(KEYS)), st.sampled_from(SLOTS)
    return st.one_of(
        st.tuples(st.just('add'), key, slot, val),
        st.tuples(st.just('add'), key, slot, val),
        st.tuples(st.just('set'), key, slot, val),
        st.tuples(st.just('delval'), key, slot, val),
        st.tuples(st.just('delslot'), key, slot),
        st.tuples(st.just('del'), key),
        st.tuples(st.just('front'), key, slot, val),
        st.tuples(st.just('move'), key, key),
        st.tuples(st.just('root'), st.sampled_from(['O:', 'U:']), st.booleans()),
        st.tuples(st.just('unroot'), st.sampled_from(['O:', 'U:'])),
        st.tuples(st.just('write'), st.sampled_from(['notes', 'x/y']), st.sampled_from(['1\n2\n3\n4\n', '1\n', 'z\n2\n3\n4\n', '1\n2\n3\nz\n'])))


def do(folder, o):
    db = IEMLDatabase(folder, use_cache=False)
    if o[0] == 'add':
        db.add_descriptor(o[1], o[2][0], o[2][1], o[3])
    elif o[0] == 'set':
        db.remove_descriptor(o[1], o[2][0], o[2][1])
        db.add_descriptor(o[1], o[2][0], o[2][1], o[3])
    elif o[0] == 'delval':
        db.remove_descriptor(o[1], o[2][0], o[2][1], o[3])
    elif o[0] == 'delslot':
        db.remove_descriptor(o[1], o[2][0], o[2][1])
    elif o[0] == 'del':
        db.remove_descriptor(o[1])
    elif o[0] == 'front':
        # what an edited file looks like: a new first line
        p = db.path_of(o[1], mkdir=True)
        old = open(p, 'rb').read() if os.path.exists(p) else b''
        db.remove_descriptor(o[1])
        db.add_descriptor(o[1], o[2][0], o[2][1], o[3])
        with open(p, 'ab') as fp:
            fp.write(old)
    elif o[0] == 'move':
        # the descriptors of one IEML become those of another
        if o[1] != o[2]:
            vals = db.get_descriptors().get_values_partial(o[1])
            db.remove_descriptor(o[1])
            for (_, l, d), vs in vals.items():
                for v in vs:
                    db.add_descriptor(o[2], l, d, v)
    elif o[0] == 'root':
        db.remove_structure(o[1], 'is_root')
        db.add_structure(o[1], 'is_root', o[2])
    elif o[0] == 'unroot':
        db.remove_structure(o[1])
    else:
        p = os.path.join(folder, o[1])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fp:
            fp.write(o[2])


@st.composite
def cases(draw):
    base = []
    hot = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=2, unique=True))
    for k in hot + draw(st.lists(st.sampled_from(KEYS), max_size=2, unique=True)):
        for (l, d) in SLOTS:
            for v in draw(st.lists(st.sampled_from(['p', 'q', 'r']), min_size=0, max_size=3, unique=True)):
                base.append(['add', k, [l, d], v])
    if draw(st.booleans()):
        base.append(['write', 'notes', '1\n2\n3\n4\n'])
    rounds = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        o = st.lists(op_strategy(hot), min_size=draw(st.sampled_from([0, 1, 1, 2])), max_size=5).map(lambda x: [list(y) for y in x])
        rounds.append({'local': draw(o), 'remote': draw(o), 'back': draw(st.booleans()), 'split': draw(st.booleans())})
    return {'base': base, 'rounds': rounds}


def commit(gi, ops, split):
    if split:
        for i, o in enumerate(ops):
            with gi.commit(SIG, 'change %d' % i):
                do(gi.folder, o)
    else:
        with gi.commit(SIG, 'changes'):
            for o in ops:
                do(gi.folder, o)


@facet('C19', 'merge', lambda tier: cases(), 480, 16000,
       'two clones of one base diverge by 0-4 changes each, one pulls the other, up to 3 rounds; content, conflicts and '
       'history compared with a per-file three-way merge; non-trivial: a conflict or a file changed on both sides')
def merge(c, ctx):
    with scratch('git') as top:
        orig = GL.origin(os.path.join(top, 'origin'))
        a = GL.clone(orig, os.path.join(top, 'a'))
        commit(a, c['base'], False)
        shutil.copytree(a.folder, os.path.join(top, 'b'), symlinks=True)
        b = GitInterface(origin=orig, folder=os.path.join(top, 'b'))
        a.add_remote('B', os.path.join(b.folder, '.git'))
        b.add_remote('A', os.path.join(a.folder, '.git'))
        for i, r in enumerate(c['rounds']):
            commit(a, r['local'], r['split'])
            commit(b, r['remote'], r['split'])
            la, lb = GL.head(a.folder), GL.head(b.folder)
            loc, rem = GL.tree_of(a.folder), GL.tree_of(b.folder)
            # two clones that make the same change in the same second make the same commit
            repo = pygit2.Repository(a.folder)
            repo.remotes['B'].fetch()
            base = GL.tree_of(a.folder, repo.merge_base(la, lb))
            files, conflicts, merged = expected(base, loc, rem, top)
            if conflicts or merged:
                ctx.nontrivial()
            what = 'round %d' % i
            got = a.pull('B')
            GL.expect_files(GL.tree_of(a.folder), files, '%s: content after the pull' % what)
            GL.expect_clean(a, '%s: after the pull' % what)
            expect_eq(int(pygit2.Repository(a.folder).state()), 0, '%s: a merge is still in progress' % what)
            expect_eq(got, conflicts, '%s: conflicts returned' % what)
            h = GL.head(a.folder)
            anc = pygit2.Repository(a.folder)
            expect(h == lb or anc.descendant_of(h, lb), '%s: the remote history is not in the local one', what)
            expect(h == la or anc.descendant_of(h, la), '%s: the local history was lost', what)
            if h not in (la, lb):
                expect_eq(sorted(GL.parents(a.folder, h)), sorted([la, lb]), '%s: parents of the merge' % what)
                ctx.label('merge_commit')
            ctx.label('conflicts_%d' % min(3, len(conflicts)))
            if merged:
                ctx.label('line_merge')
            expect_eq(a.pull('B'), {}, '%s: a second pull' % what)
            expect_eq(GL.head(a.folder), h, '%s: head after a second pull' % what)
            # a restart changes nothing
            a = GitInterface(origin=orig, folder=a.folder)
            expect_eq(GL.head(a.folder), h, '%s: head after a restart' % what)
            GL.expect_clean(a, '%s: after a restart' % what)
            # pulled back, the other clone is the same
            expect_eq(b.pull('A'), {}, '%s: pulling back' % what)
            expect_eq(GL.head(b.folder), h, '%s: the clones did not converge' % what)
            GL.expect_files(GL.tree_of(b.folder), files, '%s: content of the other clone' % what)
            GL.expect_clean(b, '%s: the other clone' % what)
            if r['back']:
                a.push('origin')
                expect_eq(str(pygit2.Repository(orig).lookup_reference('refs/heads/master').target), h, 'pushed head')
                fresh = GL.clone(orig, os.path.join(top, 'fresh%d' % i))
                GL.expect_files(GL.worktree(fresh.folder), files, 'a fresh clone after the push')
