"""Reference model of IEML scripts (morphemes), written from the IEML definition, sharing no code with ieml.

AST ("spelling", JSON):  node = [term, ...]   a sum
   term at layer 0 : one of E U A S B T O M F I
   term at layer>0 : [node, node?, node?] (1 to 3 nodes of the layer below) or, at layer 1, a vowel/consonant name.
Normal form (hashable tuples):
   ('n', layer)                         empty script
   ('p', c)                             primitive
   ('m', layer, a, b, c)                product
   ('a', layer, (t1, ..., tn))          sum, n >= 2, ordered
"""
import functools
import itertools

MARKS = ":.-',_;"
PRIMS = 'EUASBT'
VALUE = {'E': 1, 'U': 2, 'A': 4, 'S': 8, 'B': 16, 'T': 32}
SUMS = {'O': 'UA', 'M': 'SBT', 'F': 'UASBT', 'I': 'EUASBT'}
NAMES = {'UU': 'wo', 'UA': 'wa', 'US': 'y', 'UB': 'o', 'UT': 'e',
         'AU': 'wu', 'AA': 'we', 'AS': 'u', 'AB': 'a', 'AT': 'i',
         'SU': 'j', 'SA': 'g', 'SS': 's', 'SB': 'b', 'ST': 't',
         'BU': 'h', 'BA': 'c', 'BS': 'k', 'BB': 'm', 'BT': 'n',
         'TU': 'p', 'TA': 'x', 'TS': 'd', 'TB': 'f', 'TT': 'l'}
PAIR = {v: k for k, v in NAMES.items()}
MAX_CARD = 360


def is_null(t):
    return t[0] == 'n'


def layer(t):
    return {'n': lambda: t[1], 'p': lambda: 0, 'm': lambda: t[1], 'a': lambda: t[1]}[t[0]]()


def mult(L, a, b, c):
    if is_null(a) and is_null(b) and is_null(c):
        return ('n', L)
    return ('m', L, a, b, c)


def add(terms):
    """Sum of normal forms of the same layer."""
    flat = []
    for t in terms:
        flat.extend(t[2] if t[0] == 'a' else [t])
    uniq = []
    for t in flat:
        if t not in uniq:
            uniq.append(t)
    if len(uniq) == 1:
        return uniq[0]
    return ('a', layer(uniq[0]), tuple(sorted(uniq, key=functools.cmp_to_key(cmp))))


def norm(node, L):
    """Normal form of a spelling of layer L."""
    terms = []
    for t in node:
        if isinstance(t, str):
            if L == 0:
                if t in SUMS:
                    terms.extend([('n', 0) if c == 'E' else ('p', c) for c in SUMS[t]])
                else:
                    terms.append(('n', 0) if t == 'E' else ('p', t))
            else:
                a, b = PAIR[t]
                terms.append(('m', 1, ('p', a), ('p', b), ('n', 0)))
        else:
            ch = [norm(c, L - 1) for c in t] + [('n', L - 1)] * (3 - len(t))
            terms.append(mult(L, *ch))
    return add(terms)


@functools.lru_cache(maxsize=200000)
def card(t):
    """Number of singular sequences, when terms do not overlap."""
    if t[0] in 'np':
        return 1
    if t[0] == 'm':
        return card(t[2]) * card(t[3]) * card(t[4])
    return sum(card(c) for c in t[2])


@functools.lru_cache(maxsize=200000)
def canon(t):
    if t[0] == 'n':
        return b'\x01' * (3 ** t[1])
    if t[0] == 'p':
        return bytes([VALUE[t[1]]])
    if t[0] == 'm':
        return b''.join(canon(c) for c in t[2:])
    if t[1] == 0:
        return bytes([sum(VALUE['E' if c[0] == 'n' else c[1]] for c in t[2])])
    return b''.join(canon(c) for c in t[2])


def cmp(x, y):
    if x == y:
        return 0
    if layer(x) != layer(y):
        return -1 if layer(x) < layer(y) else 1
    if is_null(x):
        return -1
    if is_null(y):
        return 1
    if card(x) != card(y):
        return -1 if card(x) < card(y) else 1
    if canon(x) != canon(y):
        return -1 if canon(x) < canon(y) else 1
    if x[0] != y[0]:
        return -1 if x[0] == 'm' else 1
    for a, b in zip(x[2:] if x[0] == 'm' else x[2], y[2:] if y[0] == 'm' else y[2]):
        if a != b:
            return cmp(a, b)
    return -1 if len(x) < len(y) else 1


@functools.lru_cache(maxsize=200000)
def render(t):
    """The canonical string."""
    if t[0] == 'n':
        return 'E' + MARKS[:t[1] + 1]
    if t[0] == 'p':
        return t[1] + ':'
    if t[0] == 'm':
        if t[1] == 1 and t[2][0] == 'p' and t[3][0] == 'p' and is_null(t[4]):
            return NAMES[t[2][1] + t[3][1]] + '.'
        ch = list(t[2:])
        while len(ch) > 1 and is_null(ch[-1]):
            ch.pop()
        return ''.join(render(c) for c in ch) + MARKS[t[1]]
    if t[1] == 0:
        s = {'E' if c[0] == 'n' else c[1] for c in t[2]}
        for k, v in SUMS.items():
            if s == set(v):
                return k + ':'
    return '+'.join(render(c) for c in t[2])


@functools.lru_cache(maxsize=100000)
def sem(t):
    """The singular sequences, each as a word of 3**layer primitives."""
    if t[0] == 'n':
        return frozenset(['E' * 3 ** t[1]])
    if t[0] == 'p':
        return frozenset([t[1]])
    if t[0] == 'm':
        return frozenset(a + b + c for a, b, c in itertools.product(sem(t[2]), sem(t[3]), sem(t[4])))
    return frozenset().union(*[sem(c) for c in t[2]])


def from_word(w, L):
    """Normal form of a singular sequence given as a word of 3**L primitives."""
    if L == 0:
        return ('n', 0) if w == 'E' else ('p', w)
    k = 3 ** (L - 1)
    return mult(L, from_word(w[:k], L - 1), from_word(w[k:2 * k], L - 1), from_word(w[2 * k:], L - 1))


def overlapping(t):
    """Some sum inside t has two terms sharing a singular sequence."""
    if t[0] in 'np':
        return False
    ch = t[2:] if t[0] == 'm' else t[2]
    if any(overlapping(c) for c in ch):
        return True
    return t[0] == 'a' and sum(len(sem(c)) for c in ch) != len(sem(t))


def fits(t):
    """Every sub-script is within the size limit (code enforces it on each node)."""
    if t[0] in 'np':
        return True
    ch = t[2:] if t[0] == 'm' else t[2]
    return all(fits(c) for c in ch) and card(t) <= MAX_CARD


def script_class(t):
    """0 auxiliary, 1 verb, 2 noun."""
    if t[0] == 'n':
        return 0
    if t[0] == 'p':
        return 1 if t[1] in 'UA' else 2
    if t[0] == 'm':
        return script_class(t[2])
    return max(script_class(c) for c in t[2])


def spell(node, L, style=0, ws=''):
    """Write a spelling out as IEML text."""
    out = []
    for t in node:
        if isinstance(t, str):
            out.append(t + MARKS[L])
        else:
            out.append(''.join(spell(c, L - 1, style, ws) for c in t) + ("\u2019" if style and L == 3 else MARKS[L]) + ws)
    return (ws + '+' + ws).join(out)


# ---- reading canonical text back (independent recursive-descent reader) ----
class BadScript(Exception):
    pass


def _layers_of(s):
    return max([MARKS.index(c) for c in s if c in MARKS] or [-1])


def read(text):
    """Deterministic reader: splits by layer marks from the top."""
    s = ''.join(c for c in text if c not in ' \t\n').replace('\u2019', "'")
    L = _layers_of(s)
    if L < 0:
        raise BadScript(text)
    return _read_sum(s, L)


def _read_sum(s, L):
    terms = []
    i = 0
    while True:
        j = s.find(MARKS[L], i)
        if j < 0:
            raise BadScript(s)
        terms.append(_read_term(s[i:j], L))
        i = j + 1
        if i == len(s):
            return add(terms)
        if s[i] != '+':
            raise BadScript(s)
        i += 1


def _read_term(body, L):
    """body: text of a term without its mark."""
    if L == 0:
        if body in SUMS:
            return add([('n', 0) if c == 'E' else ('p', c) for c in SUMS[body]])
        if len(body) == 1 and body in PRIMS:
            return ('n', 0) if body == 'E' else ('p', body)
        raise BadScript(body)
    if L == 1 and body in PAIR:
        a, b = PAIR[body]
        return ('m', 1, ('p', a), ('p', b), ('n', 0))
    # cut the body in up to three sums of layer L-1
    parts, cur, i = [], [], 0
    while i < len(body):
        j = body.find(MARKS[L - 1], i)
        if j < 0:
            raise BadScript(body)
        cur.append(_read_term(body[i:j], L - 1))
        i = j + 1
        if i < len(body) and body[i] == '+':
            i += 1
            if i == len(body):
                raise BadScript(body)
        else:
            parts.append(add(cur))
            cur = []
    if cur or not 1 <= len(parts) <= 3:
        raise BadScript(body)
    return mult(L, *(parts + [('n', L - 1)] * (3 - len(parts))))
