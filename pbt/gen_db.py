"""Generators for the descriptor database: IEML keys of every kind (canonical text, a spelling of it, where it must be
stored) and descriptor values, hostile ones included."""
import hashlib
import os

from pbt.core import st
from pbt import ref_script as R
from pbt import gen_script as GS
from pbt import ref_usl as U
from pbt import gen_usl as G

LANGS = ['fr', 'en']
CLASSES = ['translations', 'comments', 'tags', 'rdf_repositories']
KEYS = ['inhibition', 'is_root', 'is_ignored']
INHIB = ['father_substance', 'father_attribute', 'father_mode', 'opposed', 'associated', 'crossed', 'twin']


def _shuf(draw, pm):
    c = list(draw(st.permutations(pm['c'])))
    g = ['m%d(%s)' % (m, ' '.join(draw(st.permutations(x)))) for x, m in draw(st.permutations(pm['g']))]
    return ' '.join(c + g)


@st.composite
def morpheme_keys(draw, max_layer=3):
    c = draw(GS.spellings(max_layer=max_layer, cap=12, overlap=False))
    t = R.norm(c[1], c[0])
    text = R.render(t)
    if G.OLD.match(text):
        return {'kind': 'morpheme', 'text': 'O:', 'spell': 'U:+A:', 'n': 2}
    return {'kind': 'morpheme', 'text': text, 'spell': draw(st.sampled_from([text, GS.text_of(c)])), 'n': len(R.sem(t))}


@st.composite
def pm_keys(draw):
    pm = draw(G.pms(min_total=2, max_group=3, max_groups=2))
    n = U.norm_pm(pm)
    kind = 'polymorpheme' if n['g'] or len(n['c']) > 1 else 'morpheme'
    return {'kind': kind, 'text': U.pm_text(pm), 'spell': _shuf(draw, pm), 'n': len(U.pm_ss(pm))}


DECO = st.sampled_from(['', '', '', 'x', 'two words', 'é', 'U:', 'c"d', 'a\\b', 'http://x.y/z', 'a/b', '../b', '日本' * 45, '語' * 80])      # a literal attached to the USL


def esc(v):
    return v.replace('\\', '\\\\').replace('"', '\\"')


@st.composite
def lexeme_keys(draw):
    lx = draw(G.lexemes())
    if not 0 < len(U.pm_ss(lx['f'])) * len(U.pm_ss(lx['c'])) <= 40:
        lx = {'f': {'c': lx['f']['c'], 'g': []}, 'c': {'c': lx['c']['c'], 'g': []}}
    t = U.lexeme_text(lx)
    dec = draw(DECO)
    if dec:
        t += ' [>content "%s"]' % esc(dec)
    return {'kind': 'lexeme', 'text': t, 'spell': t, 'n': len(U.lexeme_ss(lx))}


@st.composite
def word_keys(draw):
    w = draw(G.words(leaf=G.group_lexeme(), max_actants=2))
    n = 1
    for e in w['e']:
        k = len(U.lexeme_ss(e[1]))
        if k == 0 or n * k > 40:
            e[1] = {'f': {'c': e[1]['f']['c'], 'g': []}, 'c': {'c': e[1]['c']['c'], 'g': []}}
            k = 1
        n *= k
    t = U.word_text(w)
    dec = draw(DECO)
    if dec:
        t += ' [> "%s"]' % esc(dec)
    return {'kind': 'word', 'text': t, 'spell': draw(st.sampled_from([t, t.replace('  ', ' ')])), 'n': n}


def keys(kinds=('morpheme', 'morpheme', 'polymorpheme', 'lexeme', 'word')):
    m = {'morpheme': morpheme_keys(), 'polymorpheme': pm_keys(), 'lexeme': lexeme_keys(), 'word': word_keys()}
    return st.one_of(*[m[k] for k in kinds])


PREFIX = {'morpheme': 0, 'polymorpheme': 5, 'lexeme': 8, 'word': 10}


def relpath(key, ext='.desc'):
    """Where the documentation of the layout says the file of this key is."""
    name = key['text'].replace('/', '_')
    if name != key['text'] or len(name) > 100 or len(name.encode('utf8')) > 240:
        name = name[:89].encode('utf8')[:229].decode('utf8', 'ignore') + '|' + hashlib.sha224(key['text'].encode('utf8')).hexdigest()[:10]
    return os.path.join(key['kind'], 'singular' if key['n'] == 1 else 'paradigm', name[:PREFIX[key['kind']]], name + ext)


HOSTILE = ['"', '""', 'a"b', '"a"', 'a', 'a b', 'a  b', 'ab', 'NA', 'NaN', 'null', 'None', 'nan', '007', '1', '1.0', '1e5',
           'True', 'true', 'False', '-', '#', '# x', "l'eau", 'a,b', 'a\tb', 'a\nb', 'a\\nb', '\\', 'a\\', '\\"', 'é', 'e\u0301',
           '日本', 'a\u2028b', 'a\rb', ' a', 'a ', '\n', '', '   ', 'E:', '"E:" fr translations "x"', 'fr', '%s', '$(x)', '*',
           'a" "b', 'x' * 300, '\ufeffa', '\u00a0a', '1,5', "'", "''", 'N/A', 'inf', '0x1F', '<NA>', '🙂']


def values():
    free = st.text(st.characters(codec='utf-8', exclude_categories=('Cs', 'Cc')), max_size=12)
    bits = st.lists(st.sampled_from(['a', '"', ' ', '\n', '\\n', '\\', 'b', '\t', "'", '#', ',', 'é']), max_size=6).map(''.join)
    return st.one_of(st.sampled_from(HOSTILE), st.sampled_from(HOSTILE), free, bits)


def stored(v):
    """What a reader gets back: stripped, line breaks written as backslash-n (a descriptor file has one value per line)."""
    return v.strip().replace('\n', '\\n')
