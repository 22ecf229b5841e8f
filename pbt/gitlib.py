"""Scratch git databases for the git properties (pygit2, nothing leaves the scratch folder)."""
import os

import pygit2

from pbt.core import expect, expect_eq

from ieml.ieml_database.git_interface import GitInterface
from ieml.ieml_database.ieml_database import IEMLDatabase

SIG = pygit2.Signature('alice', 'alice@example.org', 1500000000, 0)


def origin(path, files=None):
    """A bare repository with one commit on master."""
    repo = pygit2.init_repository(path, bare=True, initial_head='master')
    tree = build_tree(repo, files or {'README': b'db\n'})
    repo.create_commit('refs/heads/master', SIG, SIG, 'start', tree, [])
    return path


def build_tree(repo, files):
    idx = pygit2.Index()
    for p, data in sorted(files.items()):
        idx.add(pygit2.IndexEntry(p, repo.create_blob(data), pygit2.enums.FileMode.BLOB))
    return idx.write_tree(repo)


def clone(orig, folder):
    return GitInterface(origin=orig, folder=folder)


def tree_of(folder, commit='HEAD'):
    """{path: bytes} of a commit."""
    repo = pygit2.Repository(folder)
    out = {}

    def walk(t, prefix):
        for e in t:
            if isinstance(e, pygit2.Tree):
                walk(e, prefix + e.name + '/')
            else:
                out[prefix + e.name] = e.data
    walk(repo.revparse_single(str(commit)).tree, '')
    return out


def worktree(folder, dot=False):
    """{path: bytes} of the files on disk, the hidden files of the root left out."""
    out = {}
    for dp, dns, fns in os.walk(folder):
        rel = os.path.relpath(dp, folder)
        if rel == '.':
            dns[:] = [d for d in dns if d != '.git' and (dot or not d.startswith('.'))]
        for f in fns:
            p = f if rel == '.' else os.path.join(rel, f)
            if not dot and p.startswith('.'):
                continue
            with open(os.path.join(dp, f), 'rb') as fp:
                out[p] = fp.read()
    return out


def head(folder):
    return str(pygit2.Repository(folder).head.target)


def parents(folder, c):
    return [str(p) for p in pygit2.Repository(folder)[c].parent_ids]


def show(d):
    return {k: v[:200] for k, v in d.items()}


def expect_files(got, want, what):
    if got != want:
        miss = sorted(set(want) - set(got))
        extra = sorted(set(got) - set(want))
        diff = sorted(k for k in got if k in want and got[k] != want[k])
        expect(False, '%s: missing %r, unexpected %r, different %r', what, miss,
               extra, [(k, got[k][:300], want[k][:300]) for k in diff])


def expect_clean(gi, what):
    expect_eq(gi.status(), {}, '%s: status' % what)
    expect_files(worktree(gi.folder), {k: v for k, v in tree_of(gi.folder).items() if not k.startswith('.')},
                 '%s: files on disk against the last commit' % what)
