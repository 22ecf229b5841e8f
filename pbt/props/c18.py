"""C18 — A git transaction is atomic: all of its changes in one commit, or nothing, even if the process dies inside."""
import os
import shutil
import sys

import pygit2

from pbt.core import facet, expect, expect_eq, scratch, st, HarnessError
from pbt import gitlib as GL
from pbt.gitlib import SIG

from ieml.ieml_database.git_interface import GitInterface
from ieml.ieml_database.ieml_database import IEMLDatabase

KEYS = ['U:', 'O:', 's. b.', '()(S:)', "(E:U:.)(wo. m1(S: B:))", '[! E:S:. ()(s.) > E:.n.- ()(y.)]', 'M:M:.']
RAW = ['notes', 'morpheme/singular/x.desc', 'a/b/c.txt', 'a/b/d e.txt', "a/é'.txt", 'word/readme']


class Boom(Exception):
    pass


def op_strategy():
    val = st.sampled_from(['a', 'b', 'c"d', 'é', '1'])
    return st.one_of(
        st.tuples(st.just('add'), st.sampled_from(KEYS), st.sampled_from(['fr', 'en']), val),
        st.tuples(st.just('add'), st.sampled_from(KEYS), st.sampled_from(['fr', 'en']), val),
        st.tuples(st.just('del'), st.sampled_from(KEYS), st.sampled_from(['fr', None])),
        st.tuples(st.just('struct'), st.sampled_from(['O:', 'M:M:.']), st.booleans()),
        st.tuples(st.just('unstruct'), st.sampled_from(['O:', 'M:M:.'])),
        st.tuples(st.just('write'), st.sampled_from(RAW), st.sampled_from(['', 'x\n', 'y\nz', 'w'])),
        st.tuples(st.just('rm'), st.sampled_from(RAW)),
        st.tuples(st.just('mv'), st.sampled_from(RAW), st.sampled_from(RAW)))


def do(db, o):
    if o[0] == 'add':
        db.add_descriptor(o[1], o[2], 'translations', o[3])
    elif o[0] == 'del':
        db.remove_descriptor(o[1], o[2], 'translations' if o[2] else None)
    elif o[0] == 'struct':
        db.add_structure(o[1], 'is_root', o[2])
    elif o[0] == 'unstruct':
        db.remove_structure(o[1])
    else:
        p = os.path.join(db.folder, o[1])
        if o[0] == 'write':
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fp:
                fp.write(o[2])
        elif o[0] == 'rm':
            if os.path.exists(p):
                os.remove(p)
        elif os.path.exists(p) and o[1] != o[2]:
            q = os.path.join(db.folder, o[2])
            os.makedirs(os.path.dirname(q), exist_ok=True)
            os.replace(p, q)


def ops(lo=1, hi=5):
    return st.lists(op_strategy(), min_size=lo, max_size=hi).map(lambda l: [list(o) for o in l])


@st.composite
def histories(draw):
    ts = []
    for _ in range(draw(st.integers(1, 4))):
        o = draw(ops())
        end = draw(st.sampled_from(['ok', 'ok', 'ok', 'raise', 'raise', 'interrupt', 'signature', 'index.lock', 'ref.lock', 'dirty']))
        ts.append({'ops': o, 'end': end, 'at': draw(st.integers(0, len(o))), 'reopen': draw(st.booleans())})
    return {'ts': ts, 'dot': draw(st.booleans())}


def setup(top):
    GL.origin(os.path.join(top, 'origin'), {'README': b'db\n', 'a/b/c.txt': b'c\n', 'notes': b'n1\nn2\n',
                                            'morpheme/singular/S:.desc': b'"S:" fr translations "s"\n'})
    return GL.clone(os.path.join(top, 'origin'), os.path.join(top, 'db'))


@facet('C18', 'history', lambda tier: histories(), 1000, 24000,
       'histories of 1-4 transactions of 1-5 changes, committed, abandoned by an exception at any point, failing inside the '
       'commit (bad signature, locked index, locked branch) or started on a dirty tree; non-trivial: a commit and a '
       'roll-back in one history')
def history(c, ctx):
    kinds = {t['end'] for t in c['ts']}
    if 'ok' in kinds and len(kinds) > 1:
        ctx.nontrivial()
    with scratch('git') as top:
        gi = setup(top)
        if c['dot']:
            with open(os.path.join(gi.folder, '.dictionary-cache.x'), 'w') as fp:
                fp.write('cache')
        for i, t in enumerate(c['ts']):
            ctx.label(t['end'])
            before, h0 = GL.worktree(gi.folder), GL.head(gi.folder)
            db = IEMLDatabase(gi.folder, use_cache=False)
            msg = 'transaction %d' % i
            if t['end'] == 'dirty':
                do(db, ['write', 'a/dirty', 'dirty'])
                try:
                    with gi.commit(SIG, msg):
                        for o in t['ops']:
                            do(db, o)
                except ValueError:
                    pass
                else:
                    expect(False, 'a transaction started on a dirty tree')
                want = dict(before)
                want['a/dirty'] = b'dirty'
                GL.expect_files(GL.worktree(gi.folder), want, 'after a refused transaction')
                expect_eq(GL.head(gi.folder), h0, 'head after a refused transaction')
                gi.reset()
                GL.expect_files(GL.worktree(gi.folder), before, 'after reset')
                continue
            lock = None
            left = None
            raised = None
            try:
                with gi.commit(None if t['end'] == 'signature' else SIG, msg):
                    for k, o in enumerate(t['ops']):
                        if t['end'] == 'raise' and k == t['at']:
                            raise Boom()
                        if t['end'] == 'interrupt' and k == t['at']:
                            raise KeyboardInterrupt()
                        do(db, o)
                    if t['end'] == 'raise' and t['at'] == len(t['ops']):
                        raise Boom()
                    if t['end'] == 'interrupt' and t['at'] == len(t['ops']):
                        raise KeyboardInterrupt()
                    left = GL.worktree(gi.folder)
                    if t['end'].endswith('.lock'):
                        lock = os.path.join(gi.folder, '.git', 'index.lock' if t['end'] == 'index.lock' else 'refs/heads/master.lock')
                        open(lock, 'w').close()
            except (Exception, KeyboardInterrupt) as e:
                raised = e
            if lock:
                os.remove(lock)
            changed = left is not None and left != before
            if t['end'] == 'ok' or not changed and left is not None:
                if raised is not None:
                    raise raised
                GL.expect_files(GL.worktree(gi.folder), left, 'after the transaction')
                h1 = GL.head(gi.folder)
                if changed:
                    expect_eq(GL.parents(gi.folder, h1), [h0], 'parent of the new commit')
                    com = pygit2.Repository(gi.folder)[h1]
                    expect_eq((com.message, com.author.name, com.author.email), (msg, SIG.name, SIG.email), 'commit')
                    if any(o[0] in ('del', 'rm', 'mv', 'unstruct') for o in t['ops']):
                        ctx.label('committed_removal')
                else:
                    expect_eq(h1, h0, 'a transaction without change made a commit')
            else:
                expect(raised is not None, 'the transaction ended %r without an error', t['end'])
                if t['end'] in ('raise', 'interrupt'):
                    expect(isinstance(raised, (Boom, KeyboardInterrupt)), 'the error was replaced by %r', raised)
                if lock:
                    gi = GitInterface(origin=gi.origin, folder=gi.folder)       # what the next start does
                expect_eq(GL.head(gi.folder), h0, 'head after an abandoned transaction (%s)' % t['end'])
                GL.expect_files(GL.worktree(gi.folder), before, 'after an abandoned transaction (%s)' % t['end'])
            GL.expect_clean(gi, 'after transaction %d (%s)' % (i, t['end']))
            h = GL.head(gi.folder)
            expect_eq((gi.current_commit, gi.get_version()), (h, ('master', h)), 'version told after the transaction')
            if t['reopen']:
                h = GL.head(gi.folder)
                gi = GitInterface(origin=gi.origin, folder=gi.folder)
                expect_eq(GL.head(gi.folder), h, 'head after reopening')
                GL.expect_clean(gi, 'after reopening')
        if c['dot']:
            expect(os.path.exists(os.path.join(gi.folder, '.dictionary-cache.x')), 'the cache file was deleted')
            expect('.dictionary-cache.x' not in GL.tree_of(gi.folder), 'the cache file was committed')


# ---- the process dies ----
WATCHED = ('git_interface.py', 'ieml_database.py')


def run_child(folder, orig, todo, stop, counter):
    """Run one transaction in a child that dies at the stop-th line executed in the database layer."""
    pid = os.fork()
    if pid == 0:
        n = [0]

        def local(frame, event, arg):
            if event == 'line':
                n[0] += 1
                if stop is not None and n[0] >= stop:
                    os._exit(7)
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.endswith(WATCHED) else None
        try:
            gi = GitInterface(origin=orig, folder=folder)
            db = IEMLDatabase(folder, use_cache=False)
            sys.settrace(tracer)
            with gi.commit(SIG, 'child'):
                for o in todo:
                    do(db, o)
            sys.settrace(None)
            if counter:
                with open(counter, 'w') as fp:
                    fp.write(str(n[0]))
            os._exit(0)
        except BaseException:
            os._exit(9)
    _, st_ = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st_)


@facet('C18', 'crash', lambda tier: st.fixed_dictionaries({'pre': ops(1, 3), 'ops': ops(1, 4),
                                                           'at': st.lists(st.one_of(st.integers(0, 1000), st.integers(940, 1000)),
                                                                          min_size=3, max_size=6)}),
       240, 6000, 'the process dies at 3-6 random points (any line of the database or git layer) of a transaction; the next '
       'start must find all or nothing; non-trivial: the transaction changes files')
def crash(c, ctx):
    with scratch('git') as top:
        gi = setup(top)
        db = IEMLDatabase(gi.folder, use_cache=False)
        with gi.commit(SIG, 'pre'):
            for o in c['pre']:
                do(db, o)
        master = gi.folder
        h0, before = GL.head(master), GL.worktree(master)
        full = os.path.join(top, 'full')
        shutil.copytree(master, full, symlinks=True)
        cnt = os.path.join(top, 'count')
        rc = run_child(full, gi.origin, c['ops'], None, cnt)
        expect_eq(rc, 0, 'exit code of an undisturbed transaction')
        with open(cnt) as fp:
            total = int(fp.read())
        after = GL.worktree(full)
        if after != before:
            ctx.nontrivial()
        for k in c['at']:
            stop = 1 + k * total // 1001
            d = os.path.join(top, 'c%d' % k)
            shutil.copytree(master, d, symlinks=True)
            rc = run_child(d, gi.origin, c['ops'], stop, None)
            expect(rc in (0, 7), 'exit code of the killed process: %r', rc)
            g = GitInterface(origin=gi.origin, folder=d)
            h = GL.head(d)
            GL.expect_clean(g, 'restart after dying at line %d of %d' % (stop, total))
            if h == h0:
                GL.expect_files(GL.worktree(d), before, 'rolled back after dying at line %d of %d' % (stop, total))
                ctx.label('rolled_back')
            else:
                expect_eq(GL.parents(d, h), [h0], 'parents after dying at line %d of %d' % (stop, total))
                GL.expect_files(GL.worktree(d), after, 'committed after dying at line %d of %d' % (stop, total))
                ctx.label('committed')
            # and the database is usable
            with g.commit(SIG, 'next'):
                IEMLDatabase(d, use_cache=False).add_descriptor('T:', 'fr', 'tags', 'next')
            expect_eq(len(GL.parents(d, GL.head(d))), 1, 'commit after the restart')
            GL.expect_clean(g, 'after the next transaction')
            shutil.rmtree(d)
