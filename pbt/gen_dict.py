"""Random dictionaries: disjoint root paradigms, paradigms nested in them (and some that must be left out), inhibitions."""
from pbt.core import st
from pbt import ref_script as R

SUM0 = ['M', 'F', 'O', 'M', 'F', 'I', 'U', 'S', 'E', 'SB', 'ST', 'US', 'ES']


def n0(letters):
    out = []
    for c in letters:
        out += [('n', 0) if x == 'E' else ('p', x) for x in R.SUMS.get(c, c)]
    return R.add(out)


@st.composite
def product1(draw, cap=36):
    ch = []
    room = cap
    for i in range(3):
        s = n0(draw(st.sampled_from(SUM0 if i < 2 else ['E', 'E', 'E', 'O', 'M', 'U', 'S'])))
        if R.card(s) > room:
            s = n0('U')
        room //= R.card(s)
        ch.append(s)
    return R.mult(1, *ch)


@st.composite
def product2(draw, cap=36):
    ch = []
    room = cap
    for i in range(3):
        s = ('n', 1) if i and draw(st.integers(0, 2)) == 0 or i == 2 and draw(st.booleans()) else draw(product1(cap=min(12, room)))
        room //= R.card(s)
        ch.append(s)
    return R.mult(2, *ch)


@st.composite
def product3(draw, cap=24):
    ch = []
    room = cap
    for i in range(3):
        s = ('n', 2) if i == 2 or i and draw(st.booleans()) else draw(product2(cap=min(9, room)))
        room //= R.card(s)
        ch.append(s)
    return R.mult(3, *ch)


def overlaps(terms):
    seen = set()
    for t in terms:
        if seen & R.sem(t):
            return True
        seen |= R.sem(t)
    return False


def clean(n):
    """No overlapping sums anywhere, at most 12 values per factor (else there is no table)."""
    if n[0] == 'a':
        return not overlaps(n[2]) and all(clean(c) for c in n[2])
    if n[0] == 'm':
        pl = [c for c in n[2:] if R.card(c) > 1]
        return all(clean(c) for c in n[2:]) and (len(pl) < 2 or all(R.card(c) <= 12 for c in pl))
    return True


@st.composite
def roots(draw, layers=(0, 1, 1, 1, 2, 2, 3)):
    L = draw(st.sampled_from(layers))
    if L == 0:
        return n0(draw(st.sampled_from(['O', 'M', 'F', 'SB', 'US', 'I'])))
    P = {1: product1, 2: product2, 3: product3}[L]
    k = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return R.add([draw(P(cap=36 if k == 1 else 12)) for _ in range(k)])


def flip(t):
    """substance and attribute exchanged."""
    return ('m', t[1], t[3], t[2], t[4]) if t[0] == 'm' and t[1] > 0 else t


@st.composite
def restrict(draw, n, p=2):
    """A smaller script of the same shape."""
    if n[0] in 'np':
        return n
    if n[0] == 'm':
        which = draw(st.integers(0, 2))
        ch = list(n[2:])
        for i in range(3):
            if i == which or draw(st.integers(0, p)) == 0:
                ch[i] = draw(restrict(ch[i], p))
        return R.mult(n[1], *ch)
    terms = list(n[2])
    if draw(st.booleans()) or len(terms) == 1:
        i = draw(st.integers(0, len(terms) - 1))
        terms[i] = draw(restrict(terms[i], p))
        if draw(st.booleans()):
            return R.add(terms)
    k = draw(st.integers(1, len(terms)))
    if draw(st.booleans()):                       # contiguous
        j = draw(st.integers(0, len(terms) - k))
        return R.add(terms[j:j + k])
    return R.add(draw(st.permutations(terms))[:k])


@st.composite
def slices(draw, n):
    """A line, some lines, or one table: only one factor is restricted."""
    if n[0] in 'np':
        return n
    if n[0] == 'm':
        pl = [i for i in range(3) if R.card(n[2 + i]) > 1]
        if not pl:
            return n
        i = draw(st.sampled_from(pl))
        c = n[2 + i]
        if len(pl) == 1 and c[0] == 'm':
            c = draw(slices(c))
        else:
            L = R.layer(c)
            ws = sorted(R.sem(c), key=lambda w: R.canon(R.from_word(w, L)))
            k = draw(st.integers(1, len(ws)))
            if draw(st.booleans()):
                k = 1 if len(pl) > 1 and draw(st.booleans()) else max(2, k)
            j = draw(st.integers(0, len(ws) - 1))
            c = R.add([R.from_word(ws[(j + x) % len(ws)], L) for x in range(min(k, len(ws)))])
        ch = list(n[2:])
        ch[i] = c
        return R.mult(n[1], *ch)
    k = draw(st.integers(1, len(n[2])))
    j = draw(st.integers(0, len(n[2]) - k))
    r = R.add(n[2][j:j + k])
    return draw(slices(r)) if r[0] == 'm' and draw(st.booleans()) else r


INHIB = ['father_substance', 'father_attribute', 'father_mode', 'opposed', 'associated', 'crossed', 'twin']


@st.composite
def dictionaries(draw, max_roots=3, max_subs=8, layers=(0, 1, 1, 1, 2, 2, 3)):
    rs, used = [], set()
    for _ in range(draw(st.integers(1, max_roots))):
        r = draw(roots(layers=layers))
        if R.card(r) == 1 or not clean(r) or R.layer(r) and 'E' * 3 ** R.layer(r) in R.sem(r) or any((R.layer(r), w) in used for w in R.sem(r)):
            continue
        used |= {(R.layer(r), w) for w in R.sem(r)}
        rs.append(r)
        if R.layer(r) and draw(st.integers(0, 3)) == 0:
            # a root at the layer below: etymology
            for c in (r[2:] if r[0] == 'm' else r[2][0][2:]):
                if R.card(c) > 1 and clean(c) and (not R.layer(c) or 'E' * 3 ** R.layer(c) not in R.sem(c)) and not any((R.layer(c), w) in used for w in R.sem(c)):
                    used |= {(R.layer(c), w) for w in R.sem(c)}
                    rs.append(c)
    if not rs:
        rs = [n0('O')]
    subs = []
    if 2 in layers and draw(st.integers(0, 3)) == 1:
        # a deep chain: table, one line of it (a table again), a part of that line, one line of that part
        a = R.mult(1, n0(draw(st.sampled_from(['M', 'F', 'O', 'SB']))), n0(draw(st.sampled_from(['M', 'F', 'O', 'M']))), n0('E'))
        b = draw(st.sampled_from([R.mult(1, n0('M'), n0('E'), n0('E')), R.mult(1, n0('O'), n0('S'), n0('E')),
                                  R.mult(1, n0('O'), n0('O'), n0('E'))]))
        ones = sorted(R.sem(b))
        one = R.from_word(draw(st.sampled_from(ones)), 1)
        swap = draw(st.booleans())
        root = R.mult(2, b, a, ('n', 1)) if swap else R.mult(2, a, b, ('n', 1))
        if R.card(a) <= 12 and not any((2, w) in used for w in R.sem(root)):
            rs.append(root)
            used |= {(2, w) for w in R.sem(root)}
            line = R.mult(2, one, a, ('n', 1)) if swap else R.mult(2, a, one, ('n', 1))
            part = draw(slices(line))
            for x in (line, part, draw(slices(part)), draw(slices(line))):
                if R.card(x) > 1 and not any(R.sem(x) == R.sem(y) for y in subs + rs):
                    subs.append(x)
    for _ in range(draw(st.sampled_from([max_subs, max_subs // 2, max_subs, 3, 1, 0]))):
        how = draw(st.integers(0, 4))
        base = draw(st.sampled_from(subs[-2:])) if subs and how < 3 else draw(st.sampled_from(rs))
        s = draw(slices(base)) if how % 2 == 0 else draw(restrict(base))
        if draw(st.integers(0, 9)) == 0:
            s = flip(s)
        if R.card(s) > 1 and clean(s) and not any(R.sem(s) == R.sem(x) for x in subs + rs):
            subs.append(s)
    out = {'roots': [], 'subs': []}
    for r in rs:
        out['roots'].append([R.render(r), draw(st.lists(st.sampled_from(INHIB), max_size=3, unique=True)),
                             draw(st.integers(0, 15)) == 7])
    for s in subs:
        # declared with a structure row, without one, or ignored
        out['subs'].append([R.render(s), draw(st.sampled_from(['row', 'row', 'row', 'none', 'row', 'row', 'ignored', 'twice']))])
    out['order'] = draw(st.permutations(list(range(len(out['roots']) + len(out['subs'])))))
    return out
