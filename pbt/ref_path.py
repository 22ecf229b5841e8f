"""Reference model of the addresses of the components of a USL (models of ref_usl).

An address is a list of steps: ['role', [role texts], focus], ['content'], ['flexion'], ['flex', morpheme],
['constant', morpheme or None], ['group', index, multiplicity, morpheme or None].
"""
from pbt import ref_usl as U


# the names of the roles, that a path can be written with
NAMES = {
    'process_1': 'E:S:.',
    'process_2': 'E:T:.',
    'process_3': 'E:B:.',
    'initiator': 'E:.n.-',
    'interactant': 'E:.d.-',
    'recipient': 'E:.k.-',
    'time': 'E:.t.-',
    'location': 'E:.l.-',
    'manner': 'E:.f.-',
    'intention': 'E:.m.-',
    'cause': 'E:.s.-',
    'independant': 'E:U:.',
    'dependant': 'E:A:.',
    'and': "E:S:.-k.u.-'",
    'or (inclusive)': "E:B:.-k.u.-'",
    'or (exclusive)': "E:T:.-k.u.-'",
    'is the same as the precedent': "E:.-s.a.-k.u.-'",
    'is similar to the precedent': "E:.-b.a.-k.u.-'",
    'is distinct from the precedent': "E:.-t.a.-k.u.-'",
    'is worse than the precedent': "E:.-k.a.-k.u.-'",
    'is as good as the precedent': "E:.-m.a.-k.u.-'",
    'is better than the precedent': "E:.-n.a.-k.u.-'",
    'is less than the precedent': "E:.-d.a.-k.u.-'",
    'is as much as the precedent': "E:.-f.a.-k.u.-'",
    'is more than the precedent': "E:.-l.a.-k.u.-'",
    'is the worst of the precedent': "E:.-y.-k.u.-'",
    'is the qualitative average of the precedent': "E:.-o.-k.u.-'",
    'is the best of the precedent': "E:.-e.-k.u.-'",
    'is the minimum of the precedent': "E:.-u.-k.u.-'",
    'is the quantitative average of the precedent': "E:.-a.-k.u.-'",
    'is the maximum of the precedent': "E:.-i.-k.u.-'",
    'explains the precedent': "E:.-s.u.-k.u.-'",
    'has nothing to do with the precedent': "E:.-b.u.-k.u.-'",
    'contradicts the precedent': "E:.-t.u.-k.u.-'",
    'unfortunately opposes the precedent': "E:.-k.u.-k.u.-'",
    'balances the precedent (neutral)': "E:.-m.u.-k.u.-'",
    'is fortunately opposed to the precedent': "E:.-n.u.-k.u.-'",
    'has the opposite effect of the precedent': "E:.-d.u.-k.u.-'",
    'reduces the effect of the previous one': "E:.-f.u.-k.u.-'",
    'increases the effect of the previous one': "E:.-l.u.-k.u.-'",
    'is the effect of the precedent (therefore)': "E:.-wo.-k.u.-'",
    'is the cause of the precedent (because)': "E:.-wa.-k.u.-'",
    'is an analogy of the precedent cause to effect relationship (a fortiori, a contrario, etc.)': "E:.-we.-k.u.-'",
    'is an analogy of the precedent effect to cause relationship': "E:.-wu.-k.u.-'",
    '*1': "j.-U:.-'d.o.-l.o.-',",
    '*2': "j.-A:.-'d.o.-l.o.-',",
    '*3': "g.-U:.-'d.o.-l.o.-',",
    '*4': "g.-A:.-'d.o.-l.o.-',",
    '*5': "h.-U:.-'d.o.-l.o.-',",
    '*6': "h.-A:.-'d.o.-l.o.-',",
    '*7': "c.-U:.-'d.o.-l.o.-',",
    '*8': "c.-A:.-'d.o.-l.o.-',",
    '*9': "p.-U:.-'d.o.-l.o.-',",
    '*10': "p.-A:.-'d.o.-l.o.-',",
    '*11': "x.-U:.-'d.o.-l.o.-',",
    '*12': "x.-A:.-'d.o.-l.o.-',",
    'process': 'E:B:.'}
NAME_OF = {}
for _n, _s in NAMES.items():
    NAME_OF.setdefault(_s, []).append(_n)


def named_text(p, odd):
    """The text of an address, all its roles, or one of two, written by name."""
    out = []
    for s in p:
        if s[0] == 'role':
            s = ['role', [(NAME_OF[r][-odd] if not odd or i % 2 else r)
                          for i, r in enumerate(s[1])], s[2]]
        out.append(step_text(s))
    return '>' + '>'.join(out)


def text(p):
    return '>' + '>'.join(map(step_text, p))


def step_text(s):
    if s[0] == 'role':
        return 'role>' + ('! ' if s[2] else '') + ' '.join(s[1])
    if s[0] == 'flex':
        return s[1]
    if s[0] == 'constant':
        return 'constant' + ('>' + s[1] if s[1] is not None else '')
    if s[0] == 'group':
        return 'group_%d' % s[1] + (' %d' % s[2] if s[2] is not None else '') + ('>' + s[3] if s[3] is not None else '')
    return s[0]


def pm_parts(pm):
    """[(address, kind, text of the part)]"""
    n = U.norm_pm(pm)
    out = [([['constant', None]], 'pm', U.pm_text({'c': n['c'], 'g': []}))]
    out += [([['constant', m]], 'script', m) for m in n['c'] or ['E:']]
    for i, (g, k) in enumerate(n['g']):
        out.append(([['group', i, k, None]], 'pm', U.pm_text({'c': [], 'g': [[g, k]]})))
        out += [([['group', i, k, m]], 'script', m) for m in g]
    return out


def flexion_parts(pm):
    n = U.norm_pm(pm)
    return [([['flex', m]], 'script', m) for m in (n['c'] or ['E:']) + [m for g, _ in n['g'] for m in g]]


def lexeme_parts(lx):
    out = [([['flexion']], 'pm', U.pm_text(lx['f']))]
    out += [([['flexion']] + p, k, t) for p, k, t in flexion_parts(lx['f'])]
    out.append(([['content']], 'pm', U.pm_text(lx['c'])))
    return out + [([['content']] + p, k, t) for p, k, t in pm_parts(lx['c'])]


def word_parts(w):
    out = [([], 'word', U.word_text(w))]
    for i, (r, lx) in enumerate(w['e']):
        step = ['role', r, i == w['focus']]
        out.append(([step], 'lexeme', U.lexeme_text(lx)))
        out += [([step] + p, k, t) for p, k, t in lexeme_parts(lx)]
    return out


PARTS = {'pm': pm_parts, 'lexeme': lexeme_parts, 'word': word_parts}


def parts(kind, m):
    return PARTS[kind](m)


def bare(s):
    """The step without what is not needed to find the component."""
    if s[0] == 'role':
        r = s[1][1:] if s[1] and s[1][0] in U.VALENCES else s[1]
        return ('role', s[1][0] in U.VALENCES, tuple(r))
    if s[0] == 'group':
        return ('group', s[1], s[3])
    return tuple(s)


def same_place(p, q):
    return [bare(s) for s in p] == [bare(s) for s in q]


def resolve(kind, m, p):
    """(kind, text) of the component at p, or None."""
    for q, k, t in parts(kind, m):
        if same_place(p, q):
            return k, t
    if p and p[-1][0] in ('constant', 'group') and p[-1][-1] == 'E:':
        # the empty morpheme is in every constant and group there is
        if resolve(kind, m, [*p[:-1], [*p[-1][:-1], None]]) is not None:
            return 'script', 'E:'
    return None
