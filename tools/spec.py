"""Source of properties.jsonl and MANIFEST.json:  python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


SC = 'ieml/dictionary/script/script.py'
SP = 'ieml/dictionary/script/parser/parser.py'

prop('C01', 'A morpheme has one canonical text, whatever the spelling',
     'Every spelling of the same morpheme (any order and repetition of the terms of a sum, explicit or omitted trailing '
     'empty parts, letter abbreviations or their expansion, white space, typographic quotes) is read as one and the same '
     'object: equal, same hash, same text. That text is the canonical spelling of the morpheme, reading it gives the '
     'morpheme back, and the addition and multiplication operators and the constructors build the same object as reading '
     'does, whichever parts are left out (arguments that are not a sum or a product are refused), leaving the '
     'scripts and lists they were given as they were.',
     ['inputs'], 'all spellings of all morphemes of layers 0 to 6 within the size limit',
     'the tests read about forty fixed scripts; the property is over an infinite language of spellings',
     [SC, SP, 'ieml/dictionary/script/operator.py', 'ieml/dictionary/script/tools.py'],
     [('constructors that sort, merge and strip children', SC), ('grammar actions', SP)],
     ['script(text)', 'str(script)', '==', 'hash', '+ and *'],
     'property-based testing: generated spellings against a reference normal form',
     'Random exploration with shrinking against an independent normal-form model; spellings of layers 0-6 up to 360 '
     'singular sequences. Trusts the reference reader/renderer in pbt/ref_script.py.')

prop('C02', 'The singular sequences of a morpheme are exactly what its text denotes',
     'The singular sequences of a morpheme are exactly the words of primitives obtained by expanding its sums and '
     'products; its cardinal is their number, it is singular exactly when there is one, and containment between '
     'morphemes is inclusion of these sets. A morpheme with more singular sequences than the documented limit is '
     'refused, and no other is.',
     ['inputs'], 'all morphemes within and just beyond the size limit',
     'tests check the count of a few scripts; the set must be right for every product of sums',
     [SC], [('singular sequence computation and caching', SC), ('size limit', 'ieml/constants.py')],
     ['Script.singular_sequences', 'cardinal', 'len', 'in', 'TooManySingularSequences'],
     'property-based testing: set-theoretic denotation as reference model',
     'Random exploration against a set denotation computed by an independent model, including the limit boundary.')

prop('C03', 'Morphemes are totally ordered',
     'The order of morphemes is a strict total order compatible with equality: by layer, then number of singular '
     'sequences, then canonical content. Sorting a collection of morphemes gives the same list whatever its initial '
     'order.',
     ['inputs'], 'all pairs, triples and collections of morphemes',
     'tests compare a few fixed pairs; totality and transitivity are over all triples',
     [SC], [('rich comparison of scripts', SC)], ['<', '>', '==', 'sorted'],
     'property-based testing: reference comparison, order laws over generated triples',
     'Random exploration of close and distant triples against a reference comparison.')

prop('C04', 'Factorising or promoting a morpheme keeps its meaning',
     'Factorising any morpheme, or any set of morphemes of one layer, gives a morpheme with exactly the same singular '
     'sequences, and gives it independently of the order of the set. Promoting a morpheme to a higher layer keeps its '
     'singular sequences up to trailing empty parts.',
     ['inputs'], 'all morphemes and sets of singular sequences of one layer',
     'tests factorise a handful of scripts; the greedy cover can go wrong on any irregular set',
     ['ieml/dictionary/script/tools.py', SC], [('factorisation', 'ieml/dictionary/script/tools.py')],
     ['factorize', 'promote', 'script(text, factorize=True)'],
     'property-based testing: metamorphic check of the denotation before and after',
     'Random exploration; irregular subsets of products, cubes with missing corners, permuted inputs.')

prop('C05', 'The table of a paradigm lays out each of its singular sequences once',
     'The cells of the tables of a morpheme paradigm are exactly its singular sequences, each once per table set; each '
     'row and column header denotes exactly the cells of its line, and table dimensions agree with the number of '
     'varying parts.',
     ['inputs'], 'all plural morphemes',
     'tests look at a few dictionary tables; every plural product of every layer must be laid out',
     ['ieml/dictionary/table/table.py'], [('table construction from script variables', 'ieml/dictionary/table/table.py')],
     ['table(script)', 'cells', 'rows', 'columns', 'headers'],
     'property-based testing: reference denotation against cells and headers',
     'Random exploration of plural morphemes against the set denotation.')

UF = ['ieml/usl/polymorpheme.py', 'ieml/usl/lexeme.py', 'ieml/usl/word.py', 'ieml/usl/syntagmatic_function.py',
      'ieml/usl/parser/parser.py']

prop('C10', 'USL text is canonical and reads back to the same USL',
     'A polymorpheme, lexeme or word read from any legal text, or built from its parts, has a canonical text which does '
     'not depend on the order in which morphemes, groups or roles were given; reading that text gives an equal USL with '
     'the same parts, components, roles, focus and grammatical class; a focus on a whole junction is written on the head of each of '
     'its branches. A list of roles that is not a legal word is refused; it is '
     'never rewritten or read partially.',
     ['inputs'], 'all polymorphemes, lexemes and words of the three kinds, with nested qualities and junctions',
     'tests read a dozen words; nested junctions and qualities are almost not exercised',
     UF, [('canonical rendering in the constructors', 'ieml/usl'), ('USL grammar', 'ieml/usl/parser/parser.py')],
     ['IEMLParser.parse', 'str', '==', 'hash', 'Word.role', 'syntagmatic_fun.as_list'],
     'property-based testing: round trip and reference renderer, mutated role lists against a reference grammar',
     'Random exploration against an independent renderer and role grammar (pbt/ref_usl.py).')

prop('C11', 'The singular sequences of a USL are the balanced choices of its groups',
     'The singular sequences of a polymorpheme are its constants together with every balanced choice in its groups '
     '(each group gives k or k+1 members, never more than its multiplicity or size), within the size limit, each once; '
     'those of a lexeme or word are the combinations of those of its parts. Cardinal, singularity and containment agree '
     'with that set, and each singular sequence keeps the constants, roles and focus.',
     ['inputs'], 'all polymorphemes with up to three groups, lexemes and words',
     'tests enumerate a few fixed polymorphemes; the combinatorics depends on all the group sizes and multiplicities',
     UF[:4], [('singular sequence computation', 'ieml/usl/polymorpheme.py'), ('product over roles', 'ieml/usl/syntagmatic_function.py')],
     ['singular_sequences', 'cardinal', 'is_singular', 'in'],
     'property-based testing: combinatorial reference model',
     'Random exploration against an enumerating reference model.')

prop('C12', 'USLs are totally ordered',
     'Polymorphemes, lexemes, words and decorated USLs have a strict total order compatible with equality: first by '
     'kind, in that order, then by their components (the decorated ones by their USL, then by their decorations), so that '
     'sorting does not depend on the initial order.',
     ['inputs'], 'all pairs and triples of USLs of all kinds',
     'no test states an order law on words, nor sorts lexemes or decorated USLs',
     UF[:4] + ['ieml/usl/usl.py', 'ieml/usl/decoration/instance.py'], [('comparison methods', 'ieml/usl')],
     ['<', '>', '==', 'sorted'],
     'property-based testing: reference comparison',
     'Random exploration of triples of close USLs. An instance without decorations is not ordered with its own USL.')

DD = 'ieml/dictionary/dictionary.py'
DR = 'ieml/dictionary/relation/relations.py'
TS = 'ieml/dictionary/table/table_structure.py'

prop('C06', 'Reading is total, pure and repeatable',
     'Any text given to a reader of morphemes, USLs or paths gives one well-formed object or the documented error '
     '(CannotParse, or TooManySingularSequences), never anything else; the text of the object reads back as the same '
     'text. What was read before, valid or not, decorated or not, by this parser or by other threads, and the state of '
     'the on-disk tables of the parsers (absent, truncated, garbage, being written by another process) change nothing. '
     'A parser bound to a dictionary reads exactly the texts whose morphemes are all in the dictionary, and reads them '
     'as an unbound one does.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'],
     'all texts, all sequences and interleavings of readings, all states of the cache of the tables',
     'the tests read a few valid texts, alone, with a good cache',
     ['ieml/usl/parser/parser.py', 'ieml/usl/parser/lexer.py', SP, 'ieml/usl/decoration/parser/parser.py',
      'ieml/commons.py', 'ieml/usl/decoration/instance.py'],
     [('grammar actions and error handler', 'ieml/usl/parser/parser.py'), ('per-thread parser and cached tables', 'ieml/commons.py')],
     ['IEMLParser.parse', 'usl()', 'script()', 'PathParser.parse', 'exceptions raised'],
     'grammar-based fuzzing, stateful and multi-threaded property-based testing, cache fault injection',
     'Random and mutated texts, sequences of readings, real threads with a short switch interval (not a controlled '
     'scheduler), processes started together over damaged table caches. Unicode is sampled.')

prop('C07', 'What is pickled or copied comes back the same',
     'A morpheme, a USL (decorated or not), a path or a dictionary that is copied, deep copied or pickled, used before or '
     'not, alone or in a collection with shared members, and restored in this process or in another one with another '
     'string hash seed, is equal to the original and to the one read there from its text: same text, hash, singular '
     'sequences, class, parts, tables, decorations, indexes, relations and inhibitions, found in sets and dicts by either. '
     'Neither the original nor what is computed from it later changes, and a deep copy that is decorated leaves the '
     'original as it was.',
     ['inputs', 'histories'], 'all objects, all ways of having used them before, all protocols (2 and later), all hash seeds',
     'no test pickles or copies anything',
     [SC, 'ieml/usl/usl.py', 'ieml/dictionary/dictionary.py', 'ieml/usl/decoration/path.py'],
     [('__new__, __getnewargs_ex__, __hash__', SC), ('__getstate__, __hash__', 'ieml/usl/usl.py')],
     ['pickle', 'copy', '==', 'hash', 'every accessor of the restored object'],
     'property-based testing: round-trip through pickles and copies, across interpreters with different hash seeds',
     'Random objects, ways of use and protocols; the other process has one other hash seed per run.')

prop('C22', 'A USL passes its check exactly when it is well formed',
     'The check of a polymorpheme, of a lexeme, of a word or of a decorated USL succeeds exactly when each of its '
     'polymorphemes is well formed, wherever it stands: singular morphemes, none of them twice over the constant and the '
     'groups, and a multiplicity of 1 to 3 which does not exceed its group. Otherwise it raises a ValueError. It changes '
     'nothing, and every singular sequence of a well formed USL is well formed.',
     ['inputs'], 'all USLs, with and without faults, at any place of any word, built or read',
     'the tests check a few valid USLs; the fault can be in any role of any nested or joined part of a word',
     UF, [('check_polymorpheme', 'ieml/usl/polymorpheme.py'), ('check of the nested functions', 'ieml/usl/syntagmatic_function.py')],
     ['USL.check', 'ValueError'],
     'property-based testing: injected faults against reference rules',
     'Random exploration: USLs with 0-2 injected faults against an independent statement of the rules. Roles are those of '
     'legal words (C10); the rules for flexions, which nothing enforces, are not claimed.')

prop('C08', 'A dictionary holds exactly what its root paradigms generate',
     'A dictionary built from any set of root paradigms, paradigms and ignored paradigms contains exactly the singular '
     'sequences of its roots and the declared paradigms that are not ignored and find a place in a table of a root, each '
     'once, in the order of morphemes. Each belongs to the table tree of exactly one root, with the parent table, '
     'children, rank, dimension, shape and cell coordinates that the nesting of paradigms determines; roots that overlap '
     'are refused. The result does not depend on the order of declaration, and a pickled dictionary is restored equal.',
     ['inputs'], 'all families of root, nested, ignored and outside paradigms, declared in any order',
     'the tests need one pinned remote database, unreachable offline; the tree depends on the whole family of paradigms',
     [DD, TS, 'ieml/dictionary/table/table.py'],
     [('dictionary construction', DD), ('table tree and ranks', TS), ('acceptance of a sub-table', 'ieml/dictionary/table/table.py')],
     ['Dictionary(paradigms, structure)', 'scripts', 'index', 'tables', 'tables.root', 'Table.parent', 'Table.rank', 'pickle'],
     'property-based testing: generated dictionaries against a reference model of the table tree',
     'Random exploration of small dictionaries (1-4 roots of up to 36 singular sequences, 0-8 nested paradigms) against '
     'pbt/ref_dict.py; the geometry of a single paradigm is decided by C05.')

prop('C09', 'The relations of a dictionary are exactly the documented ones',
     'Between the scripts of a dictionary each semantic relation (contains, contained, opposed, associated, crossed, '
     'twin, father and child of each part, common tables of each rank) holds exactly when its definition on the two '
     'scripts, their layers and their tables says so; a relation and its inverse are transposes; sibling relations are '
     'symmetric; a relation inhibited on a root paradigm does not appear among its scripts, and inhibiting it changes no '
     'other relation. Every view of the relations (objects of a script, relations of a pair, matrix, table) agrees.',
     ['inputs', 'histories'], 'all pairs of scripts of generated dictionaries, all sets of inhibitions',
     'the tests check a few relations of a few scripts of one dictionary',
     [DR, DD], [('relation matrices', DR), ('inhibition', DD)],
     ['RelationsGraph.object', 'relation', 'relation_object', 'boolean_matrix', 'pandas'],
     'property-based testing: definition-based reference relations over all pairs of generated dictionaries',
     'Random exploration of small dictionaries; every pair of scripts is compared with the definitions.')

UP = 'ieml/usl/decoration/path.py'
UI = 'ieml/usl/decoration/instance.py'
UT = 'ieml/usl/table.py'

prop('C13', 'A path names exactly one component of a USL, in every direction',
     'The paths listed for a USL are those of its components, each once, with its value: roles of a word, content and '
     'flexion of a lexeme, constants, groups and morphemes of a polymorpheme. Looking up a path gives the component it '
     'names; one that names no component is refused with an error (the empty morpheme E: is found in every constant and group). The text of a path (roles by symbol or by name) reads back as the same path, '
     'concatenation and prefixes agree with looking up step by step, and a USL built from the paths of all its morphemes '
     'and their values is that USL, whatever their order.',
     ['inputs'], 'all USLs and all paths, existing or not',
     'the tests use about twenty fixed paths; paths interact with focus, multiplicity, junctions and empty parts',
     [UP, 'ieml/usl/decoration/parser/parser.py', 'ieml/usl/word.py', 'ieml/usl/lexeme.py', 'ieml/usl/polymorpheme.py'],
     [('path classes, deference and composition', UP), ('path grammar', 'ieml/usl/decoration/parser/parser.py')],
     ['iter_structure_path', 'UslPath.deference', 'path(text)', 'str(path)', 'concat', 'has_prefix', 'usl_from_path_values'],
     'property-based testing: reference list of the components of generated USLs, round-trips',
     'Random USLs of the three kinds against a reference list of addresses (pbt/ref_path.py), valid and mutated paths.')

prop('C14', 'Decorations stay on the component they were put on',
     'A USL decorated with values at paths has one canonical text, whatever the order and the spelling of its decorations; '
     'that text reads back as the same decorated USL with exactly the same values at the same components, whatever '
     'characters the values hold. A decoration on a component that does not exist is refused. Putting the values on the '
     'USL gives each component its value and no other component any; the decorations of the constant parts are found again in '
     'every singular sequence.',
     ['inputs'], 'all decorated USLs, all values',
     'the tests decorate one word with simple values',
     [UI, UP, 'ieml/usl/decoration/parser/parser.py'],
     [('instances and decorations', UI), ('addresses', UP)],
     ['InstancedUSL', 'Decoration', 'get_literal', 'singular_sequences of instances'],
     'property-based testing: map from component to value as reference model, round-trips',
     'Random decorated USLs with hostile values against a map from addresses to values.')

prop('C15', 'The table of a USL is the grid of the choices of two of its parts',
     'The table of a USL over a row part and a column part has one row for each choice (singular sequence) of the row '
     'part, one column for each of the column part, in order; the cell of a row and a column is the USL with the two parts '
     'replaced by these choices and everything else as it was, and the heading of a row (column) is the USL with that '
     'part alone replaced. Without a row part the rows are the choices of everything else that varies. The proposed '
     'partitions of a USL are exactly the sets of disjoint parts that vary.',
     ['inputs'], 'all polymorphemes, lexemes, words; all pairs of disjoint parts (roles, contents, flexions, groups)',
     'the tests check dimensions and order on six tables',
     [UT, UP], [('rows, columns and cells from paths', UT), ('partitions', UT)],
     ['UslTable2D.cells', 'rows', 'columns', 'enumerate_partitions'],
     'property-based testing: cells recomputed by substitution in a reference model of USLs',
     'Random USLs and parts, up to 80 cells, all of them compared with the substituted reference USL.')

DB = 'ieml/ieml_database/ieml_database.py'
DE = 'ieml/ieml_database/descriptors.py'
GI = 'ieml/ieml_database/git_interface.py'

prop('C16', 'The database keeps every descriptor and structure exactly as written',
     'After any sequence of additions and removals of descriptors and structures, reading the database (by key, partial '
     'key, whole, as a new process or after a copy) gives exactly the values that were added and not removed, in order '
     'and unchanged: quotes, spaces, numbers, NA-like words, any alphabet. Removing one value, slot or IEML touches '
     'nothing else. Each IEML lives in the file given by its kind and text; distinct IEML never share a file, and any '
     'key length is storable.',
     ['inputs', 'histories'], 'all histories of add/remove over all keys, languages, classes and printable values',
     'the tests add one value to one key; the losses depend on the value text and on the order of operations',
     [DB, DE], [('file layout and csv rows', DB), ('reading and filtering', DE)],
     ['add_descriptor', 'remove_descriptor', 'get_descriptors', 'add_structure', 'remove_structure', 'get_structure',
      'path_of', 'get_csv'],
     'stateful property-based testing against a model of the rows; independent reader of the files',
     'Random histories against a list model, with hostile values and keys of all kinds.')

prop('C17', 'The cached view of a database is always the current content',
     'Whatever the history of changes to a database folder (through any database object or on disk) and whatever happened '
     'to its cache files (absent, left over from another content, truncated, garbage), a database opened with a cache '
     'builds the same dictionary and the same list of USLs as one opened without, and never fails because of the cache, nor '
     'because other processes read or change the database meanwhile (what they leave is what the next look-up sees). '
     'The list holds every stored IEML whose morphemes the dictionary knows exactly once, with its kind, its number of '
     'singular sequences, whether it is a paradigm, and its descriptors.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'all histories of changes, look-ups, reopenings and cache damage, and what other processes do during a look-up',
     'the tests never change a database behind a cache',
     [DB, 'ieml/commons.py'], [('cache keyed by the watched files', 'ieml/commons.py'), ('dictionary and listing', DB)],
     ['IEMLDatabase.get_dictionary', 'IEMLDatabase.get_list', 'cache files'],
     'stateful property-based testing with fault injection: cached against uncached database and model',
     'Random histories with cache corruption, compared with the uncached database and a model of the stored keys; a look-up '
     'is interrupted before any line of the cache code by look-ups and changes of other database objects. A change undone '
     'within one look-up is not claimed.')

prop('C18', 'A transaction commits everything or changes nothing',
     'A transaction that ends normally adds one commit, whose parent is the previous one, with the given author and '
     'message and exactly the content on disk; one that changes nothing adds no commit. One that raises, fails to commit '
     'or starts on a dirty folder leaves branch, index and files as they were. A process killed at any point leaves the '
     'last commit or the new one, and after a reset or restart the files are exactly those of that commit.',
     ['histories', 'crash_points', 'fault_sequences'], 'all sequences of transactions, failures at any step, a kill at any line',
     'the tests make one successful commit and one exception; crash points are not tested',
     [GI], [('git_transaction enter/exit', GI), ('reset', GI)],
     ['GitInterface.commit', 'status', 'reset', 'current_commit'],
     'stateful property-based testing with fault injection (exceptions, locked index, kill at a line)',
     'Random histories in scratch repositories; kills are at Python line granularity inside the library, not inside libgit2.')

prop('C19', 'Pulling merges two histories and loses nothing silently',
     'After a pull the local branch contains both histories, and each file is the three-way merge of its versions: '
     'changed on one side, that side; changed on both without overlap, both; in conflict, the remote version, and the '
     'local descriptors of that IEML (empty ones if deleted locally) are returned to the caller, and only those. '
     'Files on disk match the commit, no merge is left in progress, a second pull changes nothing, and clones that '
     'pull from each other converge to the same commit.',
     ['inputs', 'histories'], 'all pairs of divergent histories of one base, over several rounds',
     'the tests merge two fixed histories; conflicts depend on both sides',
     [GI, DE], [('pull, conflict resolution', GI)], ['GitInterface.pull', 'push', 'returned conflicts'],
     'stateful property-based testing: per-file three-way merge (git merge-file) as reference',
     'Random divergences of two clones over 1-3 rounds, compared with a reference merge.')

prop('C20', 'Each editing transaction makes its documented change, or none',
     'Creating a root paradigm or a paradigm, adding or removing descriptors, deleting a paradigm, renaming (updating) a '
     'set of USLs, setting values, inhibiting or restoring relations through the transactions of the database makes '
     'exactly its documented change to the rows of the database, as one commit (one more for each table that comes with a '
     'new root) whose content is the rows on disk (descriptors of some languages only, or none for a table, are accepted), and '
     'the dictionary read afterwards is the one these rows describe. A request that cannot be honoured (unknown or '
     'overlapping root, paradigm out of every root, unknown relation, class or language, a value that is no text, no effect) is refused by an exception and leaves files and history '
     'as they were. All other rows are untouched.',
     ['inputs', 'histories'], 'all sequences of transactions over all databases',
     'the tests run one or two transactions on a fixed database; the changes interact (roots, subparadigms, inhibitions)',
     ['ieml/ieml_database/transactions/DBTransaction.py', DB, GI],
     [('DBTransactions methods', 'ieml/ieml_database/transactions/DBTransaction.py')],
     ['DBTransactions', 'descriptor and structure rows', 'commits', 'get_dictionary'],
     'stateful property-based testing against a model of the rows',
     'Random histories of 3-10 transactions over generated dictionaries. Deleting a root through the morpheme deletion, and '
     'creating a root without any descriptor are not claimed.')

prop('C21', 'The difference between two commits tells every change, and nothing else',
     'For any two commits of a database, in either direction, the reported difference lists exactly the descriptor and '
     'structure files whose content differs, each with the IEML it belongs to, whether it is new or removed as a whole, '
     'and the rows removed and added: applied to the old rows they give exactly the new ones. Other files are ignored, '
     'the difference of a commit with itself is empty, and comparing changes nothing on disk.',
     ['inputs', 'histories'], 'all pairs of commits of all histories',
     'the tests compare no commits with quoted values, removed files, or other files',
     [GI, DE], [('GitInterface.diff', GI)], ['GitInterface.diff'],
     'property-based testing: differences of generated histories against the rows of both trees',
     'Random histories of up to 4 commits, all chosen pairs, against an independent reader of the two trees.')

NA = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            assert len(p['title']) <= 80, p['title']
            fp.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']},
                                 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': NA,
           'notes': 'Every check is `bash check.sh <ID>`: it imports /repo/ieml from the working tree in a fresh cache '
                    'folder. A violation writes a shrunk replay file, run again with `bash check.sh <ID> --replay FILE`. '
                    'See DESIGN.md and KNOWN_FINDINGS.md.'}
    for p in P:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'bash check.sh %s --tier quick' % p['id'],
                              'thorough_cmd': 'bash check.sh %s --tier thorough' % p['id'],
                              'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(man, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
