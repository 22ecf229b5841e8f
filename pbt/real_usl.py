"""Building real USLs from the models."""
from ieml.dictionary.script import script
from ieml.usl import PolyMorpheme, Lexeme, Word
from ieml.usl.parser import IEMLParser
from pbt.core import expect
from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole

PARSER = IEMLParser()          # building one is slow; parse() serialises on its own lock


def parse(text):
    return PARSER.parse(text)


def build_pm(pm):
    constant, groups = [script(t) for t in pm['c']], [([script(t) for t in g], m) for g, m in pm['g']]
    before = list(constant), [(list(g), m) for g, m in groups]
    p = PolyMorpheme(constant=constant, groups=groups)
    expect((constant, groups) == before, 'building %s changed the lists it was given', str(p))
    return p


def build_lexeme(lx):
    return Lexeme(build_pm(lx['f']), build_pm(lx['c']))


def build_word(w, role=None):
    l = [([script(t) for t in r], build_lexeme(x)) for r, x in w['e']]
    before = [(list(r), x) for r, x in l]
    ctx, sfun = SyntagmaticFunction.from_list(l)
    expect(l == before, 'building a word changed the list of roles it was given: %s', w['e'])
    return Word(sfun, role=SyntagmaticRole([script(t) for t in (role or w['e'][w['focus']][0])]), context_type=ctx)


def build(kind, m):
    return {'pm': build_pm, 'lexeme': build_lexeme, 'word': build_word}[kind](m)
