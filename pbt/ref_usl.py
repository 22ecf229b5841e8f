"""Reference model of polymorphemes, lexemes and words (no code shared with ieml).

pm     {'c': [morpheme text], 'g': [[[morpheme text], multiplicity], ...]}
lexeme {'f': pm, 'c': pm}
word   {'e': [[[role text, ...], lexeme], ...], 'focus': i}   entry i is the focused one
"""
import functools
import itertools

from pbt import ref_script as R

VALENCES = ['E:S:.', 'E:T:.', 'E:B:.']
MOTORS = ['E:.n.-', 'E:.d.-', 'E:.k.-']
CIRCS = ['E:.t.-', 'E:.l.-', 'E:.m.-', 'E:.f.-', 'E:.s.-']
ACTANTS = MOTORS + CIRCS
DEP, INDEP = 'E:A:.', 'E:U:.'
LOGICAL = ["E:S:.-k.u.-'", "E:T:.-k.u.-'", "E:B:.-k.u.-'"]
COMPARISON = ["E:.-%s.a.-k.u.-'" % c for c in 'sbtkmndfl']
RANKINGS = ["E:.-%s.-k.u.-'" % c for c in 'yoeuai']
CAUSAL = ["E:.-%s.-k.u.-'" % c for c in ('wo', 'wa', 'we', 'wu')]
ANTINOMIES = ["E:.-%s.u.-k.u.-'" % c for c in 'sbtkmndfl']
JUNCTIONS = LOGICAL + COMPARISON + RANKINGS + CAUSAL + ANTINOMIES
INDEXES = ["%s.-%s:.-'d.o.-l.o.-'," % (a, b) for a in 'jghcpx' for b in 'UA']
ROLES = VALENCES + ACTANTS + [DEP, INDEP] + JUNCTIONS + INDEXES
ROLE_ORDER = {r: i for i, r in enumerate(ROLES)}
SIZE_LIMIT = 5

_read = functools.lru_cache(maxsize=50000)(R.read)


def mcmp(a, b):
    return R.cmp(_read(a), _read(b))


mkey = functools.cmp_to_key(mcmp)


def lcmp(xs, ys, cmp):
    for a, b in zip(xs, ys):
        c = cmp(a, b)
        if c:
            return c
    return (len(xs) > len(ys)) - (len(xs) < len(ys))


def gcmp(a, b):
    return lcmp(a[0], b[0], mcmp) or (a[1] > b[1]) - (a[1] < b[1])


def is_empty_text(t):
    return R.is_null(_read(t))


def norm_pm(pm):
    c = sorted((t for t in pm['c'] if not is_empty_text(t)), key=mkey)
    g = sorted(([sorted((t for t in g if not is_empty_text(t)), key=mkey), m] for g, m in pm['g']),
               key=functools.cmp_to_key(gcmp))
    return {'c': c, 'g': g}


def pm_text(pm):
    n = norm_pm(pm)
    return ' '.join(list(n['c']) + ['m%d(%s)' % (m, ' '.join(g)) for g, m in n['g']])


def pm_morphemes(pm):
    n = norm_pm(pm)
    return sorted(set(n['c'] + [m for g, _ in n['g'] for m in g]), key=mkey)


def pm_empty(pm):
    return not norm_pm(pm)['c'] and not pm['g']


def lexeme_text(lx):
    f, c = lx['f'], lx['c']
    if pm_empty(c):
        return '()' if pm_empty(f) else '(%s)' % pm_text(f)
    return '(%s)(%s)' % (pm_text(f), pm_text(c))


def role_key(role):
    return [ROLE_ORDER[r] for r in role]


def word_text(w):
    es = sorted(range(len(w['e'])), key=lambda i: role_key(w['e'][i][0]))
    return '[' + ' > '.join(('! ' if i == w['focus'] else '') + ' '.join(w['e'][i][0])
                            + _sep(w['e'][i][0]) + lexeme_text(w['e'][i][1]) for i in es) + ']'


def _sep(role):
    # the head of a quality is written with its prefix and an empty remainder
    return '  ' if role in ([DEP], [INDEP]) else ' '


# ---- singular sequences ----
def pm_choices(pm):
    """Balanced choices: every group gives q or q+1 morphemes, never more than its multiplicity."""
    groups = [(g, m) for g, m in norm_pm(pm)['g']]
    n = len(groups)
    top = max([min(m, len(g)) for g, m in groups] or [0])
    out = set()
    for q in range(0, top + 1):
        for counts in itertools.product((q, q + 1), repeat=n):
            if all(k == q + 1 for k in counts):
                continue
            if any(k > m or k > len(g) for k, (g, m) in zip(counts, groups)):
                continue
            for pick in itertools.product(*(itertools.combinations(g, k) for k, (g, m) in zip(counts, groups))):
                out.add(frozenset(itertools.chain(*pick)))
    return out


def pm_ss(pm):
    """Texts of the singular polymorphemes."""
    n = norm_pm(pm)
    if not n['g']:
        return [pm_text(n)]
    out = set()
    for pick in pm_choices(n):
        ms = set(pick) | set(n['c'])
        # the absent constant counts as the empty morpheme
        size = len(ms) if n['c'] else len(ms) + 1
        if size == 0 or size > SIZE_LIMIT:
            continue
        out.add(pm_text({'c': list(ms), 'g': []}))
    return sorted(out)


def pm_ss_models(pm):
    n = norm_pm(pm)
    return [{'c': t.split(' ') if t else [], 'g': []} for t in pm_ss(n)] if n['g'] else [n]


def lexeme_ss(lx):
    return [{'f': f, 'c': c} for f in pm_ss_models(lx['f']) for c in pm_ss_models(lx['c'])]


def word_ss(w):
    out = []
    for combo in itertools.product(*(lexeme_ss(lx) for _, lx in w['e'])):
        out.append({'e': [[r, lx] for (r, _), lx in zip(w['e'], combo)], 'focus': w['focus']})
    return out


# ---- order ----
def pm_cmp(a, b):
    a, b = norm_pm(a), norm_pm(b)
    ca, cb = a['c'] or ['E:'], b['c'] or ['E:']
    if len(ca) != len(cb):
        return -1 if len(ca) < len(cb) else 1
    return lcmp(ca, cb, mcmp) or lcmp(a['g'], b['g'], gcmp)


def lexeme_cmp(a, b):
    return pm_cmp(a['f'], b['f']) or pm_cmp(a['c'], b['c'])
