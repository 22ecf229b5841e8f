"""Reference model of the dictionary: which morphemes it holds, the table tree and ranks, and the semantic relations.
The geometry of one morpheme (cells, sub-tables) is taken from the Script object: property C05 decides it."""
import functools
import itertools

import pandas

from pbt import ref_script as R

from ieml.dictionary.script import script
from ieml.dictionary.dictionary import Dictionary
from ieml.ieml_database.ieml_database import Structure

key = functools.cmp_to_key(R.cmp)


def build(case, order=None):
    """The real dictionary of a case."""
    items = case['roots'] + case['subs']
    names = [items[i][0] for i in (order or case['order'])]
    rows = []
    for t, inh, ign in case['roots']:
        rows.append((t, 'is_root', 'True'))
        if len(inh) == 2:
            rows.append((t, 'is_root', 'True'))                     # declared twice
        rows += [(t, 'inhibition', i) for i in inh]
        if ign:
            rows.append((t, 'is_ignored', 'True'))
    for t, how in case['subs']:
        if how in ('row', 'twice', 'ignored'):
            rows.append((t, 'is_root', 'False'))
        if how == 'ignored' and len(t) % 2:
            rows.append((t, 'is_ignored', 'True'))
        if how in ('ignored', 'twice'):
            rows.append((t, 'is_ignored', 'True' if how == 'ignored' else 'False'))
    df = pandas.DataFrame(rows, columns=['ieml', 'key', 'value'], dtype=str)
    return Dictionary(names, Structure(df))


class T:
    def __init__(self, text, parent=None, regular=False):
        self.text, self.parent, self.regular = text, parent, regular
        self.s = script(text)
        self.words = R.sem(R.read(text))
        self.tabs = [str(t) for t in self.s.tables_script]
        if len(self.words) == 1:
            self.kind = 'cell'
        elif len(self.tabs) > 1:
            self.kind = 'set'
        else:
            sh = self.s.cells[0].shape
            self.kind = '1d' if sum(1 for x in sh if x != 1) == 1 else '2d'
        if self.kind in ('1d', '2d'):
            g = self.s.cells[0]
            self.shape = g.shape
            self.at = {word(str(g[ix])): ix for ix in itertools.product(*map(range, g.shape))}

    @property
    def rank(self):
        if self.kind == 'cell':
            return 6
        if self.parent is None:
            return 0
        p = max(self.parent.rank, 1)
        return p if self.parent.kind == 'set' else p + 2 if self.regular else p + 1

    def accept(self, words):
        """None, or whether the sub-paradigm is regular."""
        if not words <= self.words:
            return None
        if self.kind == 'set':
            if self.parent is not None and self.parent.kind == 'set':
                return None
            inside = [R.sem(R.read(t)) for t in self.tabs]
            inside = [w for w in inside if w <= words]
            return False if inside and frozenset().union(*inside) == words else None
        if self.kind == '1d':
            if self.rank >= 5:
                return None
            i = sorted(max(self.at[w]) for w in words)
            return True if i[-1] - i[0] + 1 == len(i) else None
        if self.rank and self.rank % 2 == 0 or self.rank >= 5:
            return None
        pts = {self.at[w][:2] for w in words}
        R_, C = sorted({p[0] for p in pts}), sorted({p[1] for p in pts})
        nr, nc = self.shape[:2]
        whole_c, whole_r = len(C) == nc, len(R_) == nr
        # one whole line (or column): regular
        if whole_r:
            if len(C) == 1:
                return True
            return False
        if whole_c:
            if len(R_) == 1:
                return True
            return False
        if len(pts) != len(R_) * len(C) or len(R_) < 2 or len(C) < 2:
            return None
        return False if periodic(R_, nr) and periodic(C, nc) else None


def periodic(ix, n):
    """One run (cyclically), or equally spaced runs."""
    starts = [i for i in ix if (i - 1) % n not in ix]
    if len(starts) <= 1:
        return True
    step = int(n / len(starts))
    return all((s + step) % n in starts for s in starts)


@functools.lru_cache(maxsize=50000)
def word(text):
    w, = R.sem(R.read(text))
    return w


class Model:
    def __init__(self, case):
        self.roots = [t for t, _, ign in case['roots'] if not ign]
        self.inhib = {t: set(i) for t, i, ign in case['roots'] if not ign}
        self.tables = {}
        self.root_of = {}
        singles = {}
        for r in self.roots:
            n = R.read(r)
            for w in R.sem(n):
                singles[(R.layer(n), w)] = r
        members = {r: [] for r in self.roots}
        for t, how in case['subs']:
            if how == 'ignored':
                continue
            n = R.read(t)
            rs = {singles.get((R.layer(n), w)) for w in R.sem(n)}
            if None in rs:
                continue
            # a paradigm is attached to the root of its first singular sequence
            first = min(R.sem(n), key=lambda w: key(R.from_word(w, R.layer(n))))
            members[singles[(R.layer(n), first)]].append(t)
        for r in self.roots:
            root = T(r)
            defined = [root]
            for t in sorted(members[r], key=lambda t: -len(R.sem(R.read(t)))):
                w = R.sem(R.read(t))
                cand = [(d, d.accept(w)) for d in defined]
                cand = [c for c in cand if c[1] is not None]
                if cand:
                    p, reg = min(cand, key=lambda c: key(R.read(c[0].text)))
                    defined.append(T(t, p, reg))
            for d in defined:
                self.tables[d.text] = d
                self.root_of[d.text] = r
            L = R.layer(R.read(r))
            for w in R.sem(R.read(r)):
                t = R.render(R.from_word(w, L))
                self.tables[t] = T(t, root)
                self.root_of[t] = r
        self.scripts = sorted(self.tables, key=lambda t: key(R.read(t)))


# ---- relations ----
def relations(m):
    """{relation: set of (subject, object)}"""
    out = {}
    S = m.scripts
    N = {t: R.read(t) for t in S}
    W = {t: m.tables[t].words for t in S}
    L = {t: R.layer(N[t]) for t in S}
    by_root = {}
    for t in S:
        by_root.setdefault(m.root_of[t], []).append(t)
    out['identity'] = {(t, t) for t in S}
    out['contains'] = {(a, b) for g in by_root.values() for a in g for b in g if W[b] <= W[a]}
    out['contained'] = {(b, a) for a, b in out['contains']}
    known = {N[t]: t for t in S}

    def fathers(n):
        for x in (n[2] if n[0] == 'a' else [n]):
            if x[0] == 'n':
                continue
            if x in known:
                yield known[x]
            elif x[0] == 'm':
                for c in x[2:]:
                    yield from fathers(c)

    for i, r in enumerate(('substance', 'attribute', 'mode')):
        f = set()
        for t in S:
            if 'father_' + r in m.inhib[m.root_of[t]]:
                continue
            for x in (N[t][2] if N[t][0] == 'a' else [N[t]]):
                if x[0] == 'm':
                    f |= {(t, o) for o in fathers(x[2 + i])}
        out['father_' + r] = f
        out['child_' + r] = {(b, a) for a, b in f}

    def opp(x, y):
        if x[0] in 'np' or y[0] in 'np':
            return False
        if R.card(x) != R.card(y):
            return False
        cx, cy = (x[2:] if x[0] == 'm' else x[2]), (y[2:] if y[0] == 'm' else y[2])
        return cx[0] == cy[1] and cx[1] == cy[0]

    for r in ('opposed', 'associated', 'crossed', 'twin'):
        out[r] = set()
    for root, g in by_root.items():
        ms = [t for t in g if N[t][0] == 'm']
        for a, b in itertools.permutations(ms, 2):
            x, y = N[a], N[b]
            if 'opposed' not in m.inhib[root] and opp(x, y):
                out['opposed'].add((a, b))
            if R.card(x) == R.card(y) and x[2] == y[2] and x[3] == y[3] and x[4] != y[4] \
                    and 'associated' not in m.inhib[root]:
                out['associated'].add((a, b))
            if x[1] >= 2 and R.card(x) == R.card(y) and opp(x[2], y[2]) and opp(x[3], y[3]) \
                    and 'crossed' not in m.inhib[root]:
                out['crossed'].add((a, b))
            if x[2] == x[3] and y[2] == y[3] and R.card(x) == R.card(y) and 'twin' not in m.inhib[root]:
                out['twin'].add((a, b))
    ranks = {t: m.tables[t].rank for t in S}
    for i in range(6):
        out['table_%d' % i] = set()
    for g in by_root.values():
        paradigms = [t for t in g if len(W[t]) > 1]
        for p in paradigms:
            inside = [t for t in g if W[t] <= W[p]]
            out['table_%d' % ranks[p]] |= set(itertools.product(inside, inside))
    return out
