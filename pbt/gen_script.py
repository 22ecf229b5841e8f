"""Strategies for script spellings (see ref_script for the AST)."""
from hypothesis import strategies as st

from pbt import ref_script as R

L0_SINGLE = ['U', 'A', 'S', 'B', 'T', 'E']


@st.composite
def _node(draw, L, cap, size, overlap):
    """A sum of layer L with at most cap singular sequences (counted with multiplicity)."""
    if L == 0:
        if cap == 1:
            return [draw(st.sampled_from(L0_SINGLE))]
        k = draw(st.integers(0, 9))
        if k < 4:
            return [draw(st.sampled_from(L0_SINGLE))]
        if k < 7:
            ch = [c for c in 'OMFI' if len(R.SUMS[c]) <= cap]
            return [draw(st.sampled_from(ch))] if ch else [draw(st.sampled_from(L0_SINGLE))]
        terms = draw(st.lists(st.sampled_from(L0_SINGLE), min_size=1, max_size=min(cap, 4)))
        return terms
    nterms = 1
    if cap > 1:
        nterms = min(cap, draw(st.sampled_from([1, 1, 1, 2, 2, 3])))
    terms = []
    for i in range(nterms):
        used = sum(R.card(R.norm([t], L)) for t in terms)
        left = cap - used - (nterms - i - 1)
        if left < 1:
            break
        terms.append(draw(_term(L, left, size, overlap)))
    if not overlap and len(terms) > 1:
        keep, seen = [], set()
        for t in terms:
            s = R.sem(R.norm([t], L))
            if not (s & seen):
                keep.append(t)
                seen |= s
        terms = keep
    return terms


@st.composite
def _term(draw, L, cap, size, overlap):
    if L == 1 and draw(st.integers(0, 3)) == 0:
        return draw(st.sampled_from(sorted(R.PAIR)))
    n = draw(st.sampled_from([1, 2, 3]))
    out = []
    left = cap
    for i in range(n):
        # in deep layers most children are empty, as in the IEML dictionary
        if i > 0 and L >= 2 and draw(st.integers(0, 9)) < (3 if L < 4 else 6):
            out.append(null_spelling(L - 1, draw(st.integers(0, 2))))
            continue
        c = draw(_node(L - 1, left, size, overlap))
        out.append(c)
        left //= max(1, R.card(R.norm(c, L - 1)))
    return out


def null_spelling(L, style):
    if L == 0:
        return ['E']
    inner = null_spelling(L - 1, style)
    return [[inner] if style == 0 else [inner, inner] if style == 1 else [inner, inner, inner]]


def spellings(max_layer=6, cap=R.MAX_CARD, overlap=True, min_layer=0):
    """(layer, node): a spelling within the size limit."""
    caps = [c for c in (1, 2, 4, 6, 12, 30, 60, 120, 360) if c <= cap]

    @st.composite
    def s(draw):
        L = draw(st.sampled_from([l for l in (0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6) if min_layer <= l <= max_layer]))
        c = draw(st.sampled_from(caps))
        return [L, draw(_node(L, c, 0, overlap))]
    return s()


@st.composite
def respell(draw, L, node, depth=0):
    """A different spelling of the same script: permute sums, duplicate terms, pad with empties, expand letters."""
    terms = []
    for t in node:
        if isinstance(t, str):
            if L == 0 and t in R.SUMS and draw(st.booleans()):
                terms.extend(list(R.SUMS[t]))
            elif L == 1 and draw(st.booleans()):
                ch = [[R.PAIR[t][0]], [R.PAIR[t][1]]]
                if draw(st.booleans()):
                    ch.append(['E'])
                terms.append(ch)
            else:
                terms.append(t)
        else:
            ch = [draw(respell(L - 1, c, depth + 1)) for c in t]
            while len(ch) < 3 and draw(st.booleans()):
                ch.append(null_spelling(L - 1, draw(st.integers(0, 2)) if L < 4 else 0))
            terms.append(ch)
    if draw(st.booleans()) and len(terms) < 6:
        terms.append(terms[draw(st.integers(0, len(terms) - 1))])
    if len(terms) > 1:
        terms = list(draw(st.permutations(terms)))
    # gather: letters back to a remarkable sum letter stays optional, the parser does it
    return terms


def text_of(case, style=0, ws=''):
    return R.spell(case[1], case[0], style, ws)
