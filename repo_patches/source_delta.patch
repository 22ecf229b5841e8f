From bd4d2ef1e16490c07d258e25264d0224d5972dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 01/63] fix: keep the term of a one-term sum when it is added
 to another script

---
 ieml/dictionary/script/script.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 7f4adca..9343249 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -256,17 +256,15 @@ class AdditiveScript(Script):
 
         if _children:
 
-            to_remove = []
             to_add = []
             # remove the sub addition
             for c in _children:
                 if isinstance(c, AdditiveScript):
-                    to_remove.append(c)
                     to_add.extend(c.children)
 
             _children.extend(to_add)
             # Remove duplicate children
-            _children = list(set(c for c in _children if c not in to_remove))
+            _children = list(set(c for c in _children if not isinstance(c, AdditiveScript)))
 
         # make a character with the children if possible
         if l == 0:
-- 
2.43.0


From 3c4c41c846ecd37b7f56ae0f955ed8c867c02e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:14 +0000
Subject: [PATCH 02/63] fix: only factorise singular sequences whose whole cube
 is present

---
 ieml/dictionary/script/tools.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 66e2807..7c92eb1 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -31,6 +31,18 @@ def factor(sequences):
     for s in scripts:
         topology[s[0]][s[1]][s[2]] = True
 
+    def _neighbours(t1, t2):
+        x1, y1, z1 = t1
+        x2, y2, z2 = t2
+        yield x1, y1, z1
+        yield x1, y1, z2
+        yield x1, y2, z1
+        yield x1, y2, z2
+        yield x2, y1, z1
+        yield x2, y1, z2
+        yield x2, y2, z1
+        yield x2, y2, z2
+
     # calculate the relations, ie for a seq, the others seq that can be factorized with it
     relations = {}
     _computed = set()
@@ -39,9 +51,7 @@ def factor(sequences):
             continue
 
         cubes = {e for e in _computed if
-                 topology[e[0]][seq[1]][seq[2]] and
-                 topology[seq[0]][e[1]][seq[2]] and
-                 topology[seq[0]][seq[1]][e[2]]}
+                 all(topology[n[0]][n[1]][n[2]] for n in _neighbours(e, seq))}
 
         for c in cubes:
             relations[c].add(seq)
@@ -51,18 +61,6 @@ def factor(sequences):
 
     relations = {r: sorted(v) for r,v in relations.items()}
 
-    def _neighbours(t1, t2):
-        x1, y1, z1 = t1
-        x2, y2, z2 = t2
-        yield x1, y1, z1
-        yield x1, y1, z2
-        yield x1, y2, z1
-        yield x1, y2, z2
-        yield x2, y1, z1
-        yield x2, y1, z2
-        yield x2, y2, z1
-        yield x2, y2, z2
-
     def _factors(candidate, factorisation):
         # sorting the list of candidate to get the one with the most of potential factors
         candidate.sort(key=lambda e: len(relations[e]), reverse=True)
-- 
2.43.0


From 96b400c764f0ee6a98244f4951544f5c37621ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 03/63] fix: never take more morphemes of a group than its
 multiplicity

---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 31f1715..1d54921 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -108,7 +108,7 @@ def compute_PM_singular_sequences(constants, groups):
 
     max_sizes_groups = defaultdict(set)
     for i, (grp, mult) in enumerate(groups):
-        for j in range(mult + 1, min_len + 1):
+        for j in range(mult + 1, min_len + 2):
             max_sizes_groups[j].add(i)
 
     def iter_groups_combinations():
-- 
2.43.0


From eff2afac216a4c044aaf670721dea86dc2f86ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:44 +0000
Subject: [PATCH 04/63] fix: refuse a word with a role that has no head lexeme

---
 ieml/usl/syntagmatic_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index f817c32..852192c 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -381,6 +381,9 @@ class DependantQualitySyntagmaticFunction(SyntagmaticFunction):
         if _dependant:
             dependant = DependantQualitySyntagmaticFunction._from_list(_dependant)
 
+        if actor is None:
+            raise ValueError("Invalid actant syntagmatic function definition, no lexeme at the head of the role.")
+
         independant = None
         if _independant:
             independant = IndependantQualitySyntagmaticFunction._from_list(_independant)
-- 
2.43.0


From 587333dabdec75c57410ef230563f5d4fe0f4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 05/63] fix: report an incoherent junction as an invalid
 syntagmatic function

---
 ieml/usl/syntagmatic_function.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index 852192c..5051682 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -262,6 +262,9 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
     @classmethod
     def _from_list(cls, l: List[Tuple[List[Script], X]], context: Type[SyntagmaticFunction]):
 
+        if any(len(address) < 2 for address, _ in l):
+            raise ValueError("Invalid junction syntagmatic function definition, expected a link and an index.")
+
         junctions = {address[0] for address, _ in l}
 
         links = junctions & set(JUNCTION_SCRIPTS)
@@ -288,7 +291,7 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
 
         groups = [[] for _ in range(len(_groups))]
         for i in _groups:
-            if i > len(groups):
+            if i >= len(groups):
                 raise ValueError("Invalid junction syntagmatic function definition, incoherent indexing.")
             groups[i] = _groups[i]
 
-- 
2.43.0


From 566b5f7774964a4717d12937f2d6c06be123be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 06/63] fix: order words that contain junctions

---
 ieml/usl/syntagmatic_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index 5051682..7bd6ac8 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -60,8 +60,9 @@ class SyntagmaticFunction:
         return s_actors == o_actors
 
     def __lt__(self, other):
-        s_actors = sorted([(p, a.actor) for p, a in self.actors.items()], key=lambda e: e[0])
-        o_actors = sorted([(p, a.actor) for p, a in other.actors.items()], key=lambda e: e[0])
+        # the junctions have no actor, only their leaves are compared
+        s_actors = sorted([(p, a.actor) for p, a in self.actors.items() if a.actor is not None], key=lambda e: e[0])
+        o_actors = sorted([(p, a.actor) for p, a in other.actors.items() if a.actor is not None], key=lambda e: e[0])
         return s_actors < o_actors
 
     # @property
-- 
2.43.0


From 3f42ad4aa877dc4ed41d191643074191bd36ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:45 +0000
Subject: [PATCH 07/63] fix: morphemes, structure and emptiness of words that
 contain junctions

---
 ieml/usl/syntagmatic_function.py | 6 +++++-
 ieml/usl/word.py                 | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index 7bd6ac8..bab2673 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -105,8 +105,8 @@ class SyntagmaticFunction:
 
     def iter_structure(self):
         for sfun in self.actors.values():
-            yield sfun.actor
             if sfun.actor is not None:
+                yield sfun.actor
                 yield from sfun.actor.iter_structure()
 
     def iter_structure_path(self, context, focus_role=None):
@@ -260,6 +260,10 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
 
         super().__init__(None, res)
 
+    @property
+    def empty(self):
+        return all(c.empty for c in self.children)
+
     @classmethod
     def _from_list(cls, l: List[Tuple[List[Script], X]], context: Type[SyntagmaticFunction]):
 
diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index e8aa5c2..6511a30 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -84,7 +84,8 @@ class Word(USL):
     @property
     def morphemes(self):
         return sorted(set(chain.from_iterable(e.actor.morphemes
-                                              for e in self.syntagmatic_fun.actors.values())))
+                                              for e in self.syntagmatic_fun.actors.values()
+                                              if e.actor is not None)))
 
     def check(self):
         check_word(self)
\ No newline at end of file
-- 
2.43.0


From 78c37b7d55feefea054aecbe7b084d3abe7131fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:55 +0000
Subject: [PATCH 08/63] fix: parse morphemes that begin like the old
 grammatical class marker

---
 ieml/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/constants.py b/ieml/constants.py
index 7c4c812..82f2767 100644
--- a/ieml/constants.py
+++ b/ieml/constants.py
@@ -114,7 +114,7 @@ PHONETIC_PUNCTUATION = [
     '_',
     '~'
 ]
-TERM_REGEX = r'(?!E:\.b\.E:.:\.-)[EUASBTOMFIacbedgfihkjmlonpsutwyx][EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+]+'
+TERM_REGEX = r'(?!E:\.b\.E:.:\.-(?![EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+]))[EUASBTOMFIacbedgfihkjmlonpsutwyx][EUASBTOMFIacbedgfihkjmlonpsutwyx\.\-\;\:\,\'\’\_\+]+'
 
 # TERM_REGEX_LAYER_0 = r'[EUASBTOMFI]\:'
 # TERM_REGEX_LAYER_0_ADD = r'{layer0}(\s*\+\s*{layer0})*'.format(layer0=TERM_REGEX_LAYER_0)
-- 
2.43.0


From 8a2791b22d66af36b489f23c5412531e762c01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:58 +0000
Subject: [PATCH 09/63] fix: refuse a junction mixed with other roles instead
 of rewriting them

---
 ieml/usl/syntagmatic_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index bab2673..f078692 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -273,7 +273,7 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
         junctions = {address[0] for address, _ in l}
 
         links = junctions & set(JUNCTION_SCRIPTS)
-        if len(links) != 1:
+        if len(links) != 1 or links != junctions:
             raise ValueError("No links defined in the junction")
         link = next(iter(links))
 
-- 
2.43.0


From 978517f83190460fc53255d8105a29dc18627035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:26 +0000
Subject: [PATCH 10/63] fix: read descriptor and structure values back as they
 were written

---
 ieml/ieml_database/ieml_database.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 90db087..d09d565 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -55,7 +55,11 @@ class Structure:
         ieml, key, _ = normalize_key(ieml, key, None, parse_ieml=False, partial=False, structure=True)
 
         try:
-            return self.df.loc(axis=0)[(ieml, key)].to_dict('list')['value']
+            res = self.df.loc(axis=0)[(ieml, key)]
+            if isinstance(res, pandas.Series):
+                return res.to_list()
+            else:
+                return res.to_dict('list')['value']
         except KeyError:
             return []
 
@@ -203,7 +207,7 @@ class IEMLDatabase:
 
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
         try:
-            r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
             r.columns=['ieml', 'language', 'descriptor', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'language', 'descriptor', 'value'])
@@ -214,8 +218,12 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None)
-        r.columns = ['ieml', 'key', 'value']
+        try:
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
+            r.columns = ['ieml', 'key', 'value']
+        except EmptyDataError:
+            r = pandas.DataFrame(columns=['ieml', 'key', 'value'])
+
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
-- 
2.43.0


From 766e2021a7877d52d87f7982a88e1885cb8c485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:26 +0000
Subject: [PATCH 11/63] fix: remove only the descriptor value that was asked
 for

---
 ieml/ieml_database/ieml_database.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index d09d565..22cd33a 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -298,21 +298,26 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor)
+                    self.remove_descriptor(ieml, l, descriptor, value, normalize=normalize)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d)
+                    self.remove_descriptor(ieml, language, d, value, normalize=normalize)
             return
 
         if value:
             value = _normalize_value(value)
 
-        with open(path, "r", encoding='utf8') as f:
-            lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} {} '.format(str(ieml), language, descriptor) + \
-                                        ('"{}"'.format(self.escape_value(value)) if value is not None else ''))]
+        prefix = '"{}" {} {} '.format(self.escape_value(str(ieml)), language, descriptor)
 
-        with open(path, "w", encoding='utf8') as f:
+        if value is None:
+            removed = lambda l: l.startswith(prefix)
+        else:
+            removed = lambda l: l == '{}"{}"\n'.format(prefix, self.escape_value(value))
+
+        with open(path, "r", encoding='utf8', newline='\n') as f:
+            lines = [l for l in f.readlines() if not removed(l)]
+
+        with open(path, "w", encoding='utf8', newline='\n') as f:
             f.writelines(lines)
 
     def add_structure(self, ieml, key, value):
-- 
2.43.0


From 627c38f303fabc2bbdc4b04d28ecf646bcf2768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:46 +0000
Subject: [PATCH 12/63] fix: remove_structure with a false value removes only
 that value

---
 ieml/ieml_database/ieml_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 22cd33a..9d9567f 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -341,7 +341,7 @@ class IEMLDatabase:
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
                      if not l.startswith('"{}" {} '.format(str(ieml), key) + \
-                                        ('"{}"'.format(value) if value else ''))]
+                                        ('"{}"'.format(value) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8') as f:
             f.writelines(lines)
-- 
2.43.0


From 8bc9d526318e0b8b4c68aa4ff1e4f0ccd7104210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:53 +0000
Subject: [PATCH 13/63] fix: list a kind of USL that the database does not
 contain yet

---
 ieml/ieml_database/ieml_database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 9d9567f..3895159 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -159,6 +159,9 @@ class IEMLDatabase:
             if paradigm is not None:
                 p = os.path.join(p, 'paradigm' if paradigm else 'singular')
 
+        if not os.path.isdir(p):
+            return []
+
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
         p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
-- 
2.43.0


From 9caa656b9f0e21be69b801aefca5be5357bb87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:25 +0000
Subject: [PATCH 14/63] fix: load a dictionary whose ignored paradigms are
 roots or out of every root

---
 ieml/dictionary/dictionary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index cd82409..3c22c38 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -33,6 +33,9 @@ class Dictionary:
             elif key == 'is_ignored' and value[0].lower() == 't':
                 ignored.append(p)
 
+        # an ignored paradigm can't be a root
+        root_paradigms = [r for r in root_paradigms if r not in ignored]
+
         # ignore all scripts that are not in a root paradigm
         singular_sequences = set()
         for r in root_paradigms:
@@ -41,7 +44,7 @@ class Dictionary:
             singular_sequences |= r.singular_sequences_set
 
         for s in scripts.values():
-            if not s.singular_sequences_set.issubset(singular_sequences):
+            if s not in ignored and not s.singular_sequences_set.issubset(singular_sequences):
                 ignored.append(s)
 
         for s in ignored:
-- 
2.43.0


From 40c3ba4910babf2782996e35d3cb7c1849fc4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:25 +0000
Subject: [PATCH 15/63] fix: inhibit the father relations of a root paradigm

---
 ieml/dictionary/relation/relations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/relation/relations.py b/ieml/dictionary/relation/relations.py
index 24c3508..c6ebea0 100644
--- a/ieml/dictionary/relation/relations.py
+++ b/ieml/dictionary/relation/relations.py
@@ -188,12 +188,14 @@ class RelationsGraph:
         father = [([], []) for _ in range(3)]
 
         for s in dictionary.scripts:
+            inhibitions = dictionary._inhibitions[dictionary.tables.root(s)]
+
             for sub_s in s if isinstance(s, AdditiveScript) else [s]:
                 if len(sub_s.children) == 0 or isinstance(sub_s, NullScript):
                     continue
 
                 for i, rel in enumerate(('father_substance', 'father_attribute', 'father_mode')):
-                    if rel in dictionary._inhibitions:
+                    if rel in inhibitions:
                         continue
 
                     fathers_indexes = _recurse_script(sub_s.children[i])
-- 
2.43.0


From 38f85d74e39e660bd11592db777d63a41a56ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:31 +0000
Subject: [PATCH 16/63] fix: load a dictionary with three nested
 one-dimensional paradigms

---
 ieml/dictionary/table/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/dictionary/table/table.py b/ieml/dictionary/table/table.py
index 808267b..b4a33e1 100644
--- a/ieml/dictionary/table/table.py
+++ b/ieml/dictionary/table/table.py
@@ -183,6 +183,10 @@ class Table1D(Table):
         if s not in self.script:
             return False, False
 
+        # the ranks end at 5 (6 for the singular sequences)
+        if self.rank >= 5:
+            return False, False
+
         coords = sorted([self.index_of(ss) for ss in s.singular_sequences])
         if len(coords) == coords[-1][0] - coords[0][0] + 1:
             return True, True
-- 
2.43.0


From ad4c7cb60afe423da052ce8d445c7c0764e45990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:29 +0000
Subject: [PATCH 17/63] fix: refresh the cached list of USLs when any
 descriptor or structure changes

---
 ieml/ieml_database/ieml_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 3895159..8635898 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -235,7 +235,7 @@ class IEMLDatabase:
         return Dictionary(self.list('morpheme', paradigm=True), self.get_structure())
 
     @monitor_decorator("Get list of all usls")
-    @cache_results_watch_files("morpheme/*/*.desc", 'all_usls')
+    @cache_results_watch_files("**/*.[di]e[sm][cl]", 'all_usls')
     def get_list(self):
         res = {}
         dictionary = self.get_dictionary()
-- 
2.43.0


From 7d85eb42de4120864066f7336728a567deaac9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:29 +0000
Subject: [PATCH 18/63] fix: list a lexeme as a lexeme and a word as a word

---
 ieml/usl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/__init__.py b/ieml/usl/__init__.py
index 175ffa9..1e65495 100644
--- a/ieml/usl/__init__.py
+++ b/ieml/usl/__init__.py
@@ -35,7 +35,7 @@ def get_index(s, dic):
             return (0, '0' + int2base(dic.index[s.constant[0]]))
         else:
             return (1, '1' + int2base(_polymorph_idx(s, dic)))
-    elif isinstance(s, Word):
+    elif isinstance(s, Lexeme):
         return (2, '2' + int2base(0))
     else:
         return (3, '3' + int2base(0))
-- 
2.43.0


From 04eb16dc4b424942ce479c2ac8689f3401e1e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:17 +0000
Subject: [PATCH 19/63] fix: list a database that contains words

---
 ieml/ieml_database/ieml_database.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 8635898..f22da38 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -20,13 +20,15 @@ from tqdm import tqdm
 from ieml import error
 from ieml.commons import monitor_decorator, cache_results_watch_files
 from ieml.constants import INHIBITABLE_RELATIONS, STRUCTURE_KEYS, GRAMMATICAL_CLASS_NAMES, \
-    TYPES, LANGUAGES, DESCRIPTORS_CLASS
+    TYPES, LANGUAGES, DESCRIPTORS_CLASS, VERB_CLASS, NOUN_CLASS, AUXILIARY_CLASS
 from ieml.dictionary.dictionary import Dictionary
 from ieml.dictionary.script import NullScript, MultiplicativeScript, AdditiveScript, Script
 from ieml.exceptions import CannotParse
 from ieml.ieml_database.descriptors import Descriptors, normalize_key
 from ieml.ieml_database.git_interface import logger
 from ieml.usl.decoration.instance import InstancedUSL
+from ieml.usl.constants import SYNTAGMATIC_FUNCTION_PROCESS_TYPE_SCRIPT, SYNTAGMATIC_FUNCTION_ACTANT_TYPE_SCRIPT, \
+    SYNTAGMATIC_FUNCTION_QUALITY_TYPE_SCRIPT
 from ieml.usl.lexeme import Lexeme
 from ieml.usl.parser import IEMLParser
 from ieml.usl import PolyMorpheme, Word, get_index
@@ -234,6 +236,16 @@ class IEMLDatabase:
     def get_dictionary(self):
         return Dictionary(self.list('morpheme', paradigm=True), self.get_structure())
 
+    def _class_name(self, ieml):
+        c = ieml.grammatical_class
+        if isinstance(c, Script):
+            # the class of a word is the type of its syntagmatic function
+            c = {SYNTAGMATIC_FUNCTION_PROCESS_TYPE_SCRIPT: VERB_CLASS,
+                 SYNTAGMATIC_FUNCTION_ACTANT_TYPE_SCRIPT: NOUN_CLASS,
+                 SYNTAGMATIC_FUNCTION_QUALITY_TYPE_SCRIPT: AUXILIARY_CLASS}[c]
+
+        return GRAMMATICAL_CLASS_NAMES[c].lower().capitalize()
+
     @monitor_decorator("Get list of all usls")
     @cache_results_watch_files("**/*.[di]e[sm][cl]", 'all_usls')
     def get_list(self):
@@ -256,7 +268,7 @@ class IEMLDatabase:
                 res[ieml] = {'ieml': str(pieml),
                              'type': TYPES[i],
                              'paradigm': len(pieml) != 1,
-                             'class': GRAMMATICAL_CLASS_NAMES[pieml.grammatical_class].lower().capitalize(),
+                             'class': self._class_name(pieml),
                              'index': r,
                              'cardinality': 'singular_sequence' if pieml.cardinal == 1 else \
                                  ('paradigm' if not isinstance(pieml,
-- 
2.43.0


From 3b417830faefd0af6400e0f7b62d8db18a4e2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:33 +0000
Subject: [PATCH 20/63] fix: load a dictionary in which a paradigm is declared
 root or ignored twice

---
 ieml/dictionary/dictionary.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index 3c22c38..ee7f494 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -29,9 +29,11 @@ class Dictionary:
             if key == 'inhibition':
                 inhibitions[p].append(value)
             elif key == 'is_root' and value[0].lower() == 't':
-                root_paradigms.append(p)
+                if p not in root_paradigms:
+                    root_paradigms.append(p)
             elif key == 'is_ignored' and value[0].lower() == 't':
-                ignored.append(p)
+                if p not in ignored:
+                    ignored.append(p)
 
         # an ignored paradigm can't be a root
         root_paradigms = [r for r in root_paradigms if r not in ignored]
-- 
2.43.0


From 5d5b68b6c786ba32198055179cfd96fb1fa7c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 21/63] fix: merge conflicts on files that are not descriptors

---
 ieml/ieml_database/git_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index dcac1d9..afcb5e0 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -354,7 +354,7 @@ class GitInterface:
                     last = self.repo.create_commit('HEAD',
                                             DEFAULT_COMMITER_SIGNATURE,
                                             DEFAULT_COMMITER_SIGNATURE,
-                                            "Merge {}".format(ieml),
+                                            "Merge {}".format(', '.join(comm['old_path'] for comm in to_commit)),
                                             tree_id,
                                             [repo.head.target, commit_target])
 
-- 
2.43.0


From b795838634a9929567b7e3b38744ff42ac5729be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:58 +0000
Subject: [PATCH 22/63] fix: merge a descriptor deleted locally and modified
 remotely

---
 ieml/ieml_database/git_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index afcb5e0..2ee2a59 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -22,7 +22,8 @@ from appdirs import user_cache_dir
 
 from ieml import logger, error
 from ieml.commons import monitor_decorator
-from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE
+from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE, \
+    LANGUAGES, DESCRIPTORS_CLASS
 
 
 def get_local_cache_dir(origin):
-- 
2.43.0


From 731a9398c4ab69f918085c8754bf840d097c63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:11 +0000
Subject: [PATCH 23/63] fix: merge a conflict on an IEML with no descriptor
 left locally

---
 ieml/ieml_database/git_interface.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 2ee2a59..bac730b 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -310,19 +310,20 @@ class GitInterface:
                             if ancestor is not None and ancestor.path != local_entry.path:
                                 raise ValueError("Renaming not supported")
 
-                            # local entry is not deleted
-                            res = Descriptors.from_csv_string(repo.get(local_entry.oid).data.decode('utf8'),
-                                                              assert_unique_ieml=True)
-                            ieml = next(iter(res))
-                            conflicts[ieml] = res[ieml]
-                        else:
-                            # locally deleted
-                            assert remote_entry is not None
-                            res = Descriptors.from_csv_string(repo.get(remote_entry.oid).data.decode('utf8'),
-                                                              assert_unique_ieml=True)
+                        # the file of an ieml with no descriptor left is empty
+                        entries = [repo.get(e.oid).data.decode('utf8') for e in (local_entry, remote_entry, ancestor)
+                                   if e is not None]
+                        content = next((data for data in entries if data.strip()), None)
+
+                        if content is not None:
+                            res = Descriptors.from_csv_string(content, assert_unique_ieml=True)
                             ieml = next(iter(res))
 
-                            conflicts[ieml] = {d: {l : [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
+                            if local_entry is not None and repo.get(local_entry.oid).data.strip():
+                                conflicts[ieml] = res[ieml]
+                            else:
+                                # locally deleted
+                                conflicts[ieml] = {d: {l : [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
                     else:
                         print("Ignoring", old_path, "not a descriptor", file=stderr)
                     # repo.index.read()
-- 
2.43.0


From dd2cc9cc35017af8d581ea83d2e75c348ae76845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:11 +0000
Subject: [PATCH 24/63] fix: never merge the descriptors of two IEML as one
 renamed file

---
 ieml/ieml_database/git_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index bac730b..e6a1007 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -261,7 +261,8 @@ class GitInterface:
             # repo.head.set_target(commit_target)
 
 
-            repo.merge(commit_target)
+            # files are never renamed : two similar descriptors are not the two versions of one file
+            repo.merge(commit_target, flags=pygit2.enums.MergeFlag(0))
 
             # we are now in the remote state, we are going to try to add the local commit on top of the remote HEAD
             # until a merge conflict
-- 
2.43.0


From c04c5e5b3e142a6f1632e2f65e4a3c52ade4d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:14 +0000
Subject: [PATCH 25/63] fix: leave no merge in progress after a pull

---
 ieml/ieml_database/git_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index e6a1007..e8c49ff 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -361,7 +361,8 @@ class GitInterface:
                                             tree_id,
                                             [repo.head.target, commit_target])
 
-                # repo.state_cleanup()
+            # the merge is committed, it is no longer in progress
+            repo.state_cleanup()
 
             # repo.head.set_target(last)
         else:
-- 
2.43.0


From 4bf11747e432a566574f46438a19ea55f8756681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:10 +0000
Subject: [PATCH 26/63] fix: load a dictionary with paradigms nested in a
 two-dimensional table of rank 5

---
 ieml/dictionary/table/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/dictionary/table/table.py b/ieml/dictionary/table/table.py
index b4a33e1..558d4d3 100644
--- a/ieml/dictionary/table/table.py
+++ b/ieml/dictionary/table/table.py
@@ -136,6 +136,10 @@ class Table2D(Table):
         if self.rank != 0 and self.rank % 2 == 0:
             return False, False
 
+        # the ranks end at 5 (6 for the singular sequences)
+        if self.rank >= 5:
+            return False, False
+
         coords = sorted([self.index_of(ss) for ss in script.singular_sequences])
 
         is_dim, count = is_dim_subset(coords)
-- 
2.43.0


From 0f8734e3ad07e125d4ec8c29f6955b94735c3ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:10 +0000
Subject: [PATCH 27/63] fix: factorise a term that was repeated in a sum

---
 ieml/dictionary/script/script.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 9343249..206ccb6 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -316,7 +316,8 @@ class AdditiveScript(Script):
     def _compute_singular_sequences(self):
         # Generating the singular sequence
         if not self.paradigm:
-            return [self]
+            # a sum of one term (a term repeated)
+            return list(self.children[0].singular_sequences)
         else:
             # additive proposition has always children set
             s = [sequence for child in self.children for sequence in child.singular_sequences]
-- 
2.43.0


From 83006fdf6ea26166fd3e36956dbfd44abf890507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:43 +0000
Subject: [PATCH 28/63] fix: create a root paradigm over singular sequences
 that are in no root

---
 ieml/ieml_database/transactions/DBTransaction.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 1755a92..965c034 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -88,11 +88,9 @@ class DBTransactions:
 
         dictionary = db.get_dictionary()
         for ss in root.singular_sequences:
-            try:
-                r = dictionary.tables.root(ss)
+            r = dictionary.tables.root(ss)
+            if r is not None:
                 raise ValueError("Root paradigms {} intersection with script {} ".format(str(r), str(root)))
-            except KeyError:
-                pass
 
         with self.gitdb.commit(self.signature, "[dictionary] Create root paradigm {} ({}), create {} singular sequences"
                 .format(str(root),
-- 
2.43.0


From 93e58260fb4632f5f067d1cd9b911e7acf1a88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:54 +0000
Subject: [PATCH 29/63] fix: refuse a paradigm over singular sequences that are
 in no root

---
 ieml/ieml_database/transactions/DBTransaction.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 965c034..ae06aed 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -133,10 +133,10 @@ class DBTransactions:
 
         r_cand = set()
         for ss in script.singular_sequences:
-            try:
-                r_cand.add(d.tables.root(ss))
-            except KeyError:
+            r = d.tables.root(ss)
+            if r is None:
                 raise ValueError("No root paradigms contains this script {}".format(str(script)))
+            r_cand.add(r)
 
         if len(r_cand) != 1:
             raise ValueError("No root paradigms or too many for script {}".format(str(script)))
@@ -237,11 +237,11 @@ class DBTransactions:
 
         root_new_cand = set()
         for ss in script_new.singular_sequences:
-            try:
-                root_new_cand.add(d.tables.root(ss))
-            except KeyError:
-                if not is_root:
-                    raise ValueError("A non root paradigm is defined over singular sequences that are in no paradigms")
+            r = d.tables.root(ss)
+            if r is not None:
+                root_new_cand.add(r)
+            elif not is_root:
+                raise ValueError("A non root paradigm is defined over singular sequences that are in no paradigms")
 
         assert len(root_new_cand) == 1, "No root paradigms or too many for script {}".format(str(script_new))
         root_new = next(iter(root_new_cand))
-- 
2.43.0


From 3ea813c6ca7b8295f61a9a3644789bde77745b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:30 +0000
Subject: [PATCH 30/63] fix: keep the descriptors when all the ieml of a
 database are updated

---
 ieml/ieml_database/transactions/DBTransaction.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index ae06aed..ef77c0a 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -356,14 +356,17 @@ class DBTransactions:
 
         with self.gitdb.commit(self.signature, '[IEML migration] Update all ieml in db: {}'.format(message)):
 
+            new_descriptors = []
+
             for old_ieml in tqdm.tqdm(db.list(parse=True), "Migrate all usls"):
                 new_ieml = f(old_ieml)
 
-                value = desc.get_values_partial(old_ieml)
+                new_descriptors.append((new_ieml, desc.get_values_partial(old_ieml)))
 
                 db.remove_descriptor(old_ieml, None, None)
 
-                for l in LANGUAGES:
-                    for d in value[l]:
-                        for e in value[l][e]:
-                            db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
+            # add them once all are removed: a new ieml can be the old one of another
+            for new_ieml, value in new_descriptors:
+                for (_, l, d), values in value.items():
+                    for e in values:
+                        db.add_descriptor(new_ieml, l, d, e)
-- 
2.43.0


From 4ce7b11c28dba1a64ec467b515fe9c663131b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:24 +0000
Subject: [PATCH 31/63] fix: list the whole IEML of a descriptor that contains
 quotes

---
 ieml/ieml_database/ieml_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index f22da38..b57690b 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -166,7 +166,8 @@ class IEMLDatabase:
 
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
-        p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
+        # the first value of each line, the quotes in it are doubled
+        p3 = subprocess.Popen(["sed", "-E", r's/^"(([^"]|"")*)".*$/\1/; s/""/"/g'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
         p4 = subprocess.Popen(["uniq"], stdin=p3.stdout, stdout=subprocess.PIPE, cwd=p)
 
         res = [s.strip().decode('utf8') for s in p4.stdout.readlines() if s.strip()]
-- 
2.43.0


From ec3d59bac43c1682f461078dfa6d673d959ca7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:17 +0000
Subject: [PATCH 32/63] fix: list a decorated lexeme as a lexeme

---
 ieml/usl/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ieml/usl/__init__.py b/ieml/usl/__init__.py
index 1e65495..d3bb439 100644
--- a/ieml/usl/__init__.py
+++ b/ieml/usl/__init__.py
@@ -27,6 +27,11 @@ def _polymorph_idx(pm, dic):
 
 
 def get_index(s, dic):
+    from .decoration.instance import InstancedUSL
+    if isinstance(s, InstancedUSL):
+        # the decorations don't change the kind of an usl
+        s = s.usl
+
     if isinstance(s, Script):
         return (0, '0' + int2base(dic.index[s]))
 
-- 
2.43.0


From 403d051c9636592ce7a3a5e87b0a05a74ce84049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:59 +0000
Subject: [PATCH 33/63] fix: compare two commits that change other files than
 descriptors

---
 ieml/ieml_database/git_interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index e8c49ff..f65a3d0 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -421,9 +421,10 @@ class GitInterface:
                         deleted.append(l.content)
                     elif l.old_lineno == -1:
                         added.append(l.content)
-            if l:
+            # the files that are not descriptors or structures (README ...) are ignored
+            if l and file_path.endswith(('.desc', '.ieml')):
                 res[file_path] = {
-                    'ieml': l.content.split('"')[1],
+                    'ieml': next(csv.reader([l.content], delimiter=' '))[0],
                     'added': added,
                     'deleted': deleted,
                     'is_new': patch.delta.old_file.mode == 0,
-- 
2.43.0


From e244239e7f7f2923ce4be78793890112e66f9f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 34/63] fix: report a word with a lexeme without role as an
 invalid syntagmatic function

---
 ieml/usl/syntagmatic_function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index f078692..e3a8efd 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -191,6 +191,9 @@ class SyntagmaticFunction:
         if not l:
             raise ValueError("Empty syntagmatic function")
 
+        if any(not address for address, _ in l):
+            raise ValueError("Invalid syntagmatic function, a lexeme has no role")
+
         roles = [address[0] for address, _ in l]
         children_l = [(address[1:], x) for address, x in l]
 
-- 
2.43.0


From e0ad78f64f4df214405f09a6e6b32fb1110bc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 35/63] fix: cannot parse a decoration whose path is not in the
 USL

---
 ieml/usl/parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index e63b963..f663af9 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -11,6 +11,7 @@ from .lexer import get_lexer, tokens
 import threading
 
 from ..decoration.instance import Decoration, InstancedUSL
+from ..decoration.path import DeferenceError
 from ..decoration.parser.parser import PathParser
 
 
@@ -51,7 +52,7 @@ class IEMLParser():
             self.factorize_script = factorize_script
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-            except ValueError as e:
+            except (ValueError, DeferenceError) as e:
                 raise CannotParse(s, str(e))
             except CannotParse as e:
                 e.s = s
-- 
2.43.0


From 2f88d71538ee7e39d8610df543145cd051e581ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:57 +0000
Subject: [PATCH 36/63] fix: write a group of empty morphemes so that it can be
 read back

---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 1d54921..bbefd00 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -161,7 +161,7 @@ class PolyMorpheme(USL):
         # self.groups_paradigms = [PolyMorpheme(groups=[g]) for g in groups]
 
         self._str = ' '.join(chain(map(str, self.constant),
-                               ["m{}({})".format(mult, ' '.join(map(str, group))) for group, mult
+                               ["m{}({})".format(mult, ' '.join(map(str, group or NULL_SCRIPTS[:1]))) for group, mult
                                     in self.groups]))
 
         if not self.constant:
-- 
2.43.0


From c0dfde8dcbb426728990e3e87cbc31affcbb322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:59 +0000
Subject: [PATCH 37/63] fix: rebuild the tables of a parser when their cache
 file is damaged

---
 ieml/commons.py                         | 27 +++++++++++++++++++++++++
 ieml/dictionary/script/parser/parser.py |  5 ++---
 ieml/usl/decoration/parser/parser.py    |  4 ++--
 ieml/usl/parser/parser.py               |  4 ++--
 4 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index b1cb461..2191b40 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -10,6 +10,9 @@ from sys import stderr
 from typing import List
 import hashlib
 from time import time
+from uuid import uuid4
+
+import ply.yacc as yacc
 
 from ieml import logger
 
@@ -84,6 +87,30 @@ class Singleton(type):
         return cls._instances[cls]
 
 
+def build_parser(picklefile, **kwargs):
+    """
+    Build a ply parser whose tables are cached in a file. If this cache file can't be read (truncated, being written by
+    another process), it is built again.
+
+    :param picklefile: the cache file of the parser tables
+    :param kwargs: the arguments of yacc
+    :return: the parser
+    """
+    try:
+        return yacc.yacc(picklefile=picklefile, **kwargs)
+    except yacc.YaccError:
+        raise
+    except Exception as e:
+        logger.warning("Invalid parser cache {}: {}".format(picklefile, repr(e)))
+
+    # build the tables in another file, for the cache file to be always complete
+    tmp = '{}.{}'.format(picklefile, uuid4().hex)
+    parser = yacc.yacc(picklefile=tmp, **kwargs)
+    if os.path.isfile(tmp):
+        os.replace(tmp, picklefile)
+    return parser
+
+
 class FolderWatcherCache:
     def __init__(self, db_path: str, pattern: str, cache_folder: str, name: str):
         """
diff --git a/ieml/dictionary/script/parser/parser.py b/ieml/dictionary/script/parser/parser.py
index e034ce3..5c7d344 100644
--- a/ieml/dictionary/script/parser/parser.py
+++ b/ieml/dictionary/script/parser/parser.py
@@ -2,12 +2,11 @@ import logging
 import types
 from functools import lru_cache
 import os
-import ply.yacc as yacc
 
 from ieml.exceptions import InvalidScript, CannotParse
 from ieml.dictionary.script import AdditiveScript, MultiplicativeScript, NullScript
 from ieml.constants import REMARKABLE_ADDITION, PARSER_FOLDER
-from ieml.commons import Singleton
+from ieml.commons import Singleton, build_parser
 from ieml.dictionary.script.parser.lexer import get_script_lexer, tokens
 
 import threading
@@ -23,7 +22,7 @@ class ScriptParser(metaclass=Singleton):
         self.t_add_rules()
 
         self.lexer = get_script_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='term',
+        self.parser = build_parser(module=self, errorlog=logging, start='term',
                                 debug=False, optimize=True,
                                 picklefile=os.path.join(PARSER_FOLDER, "morpheme_parser.pickle"))
         # rename the parsing method (can't name it directly parse with lru_cache due to ply checking)
diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index ef2e991..7c7afa9 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -1,8 +1,8 @@
 import logging
 import threading
 import os
-from ply.yacc import yacc
 
+from ieml.commons import build_parser
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script
 from ieml.exceptions import CannotParse
@@ -20,7 +20,7 @@ class PathParser:
     def __init__(self):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc(module=self, errorlog=logging, start='path',
+        self.parser = build_parser(module=self, errorlog=logging, start='path',
                                   # debug=True, debuglog=logging,
                                   optimize=False,
                                   picklefile=os.path.join(PARSER_FOLDER, "path_parser.pickle"))
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index f663af9..ba1a815 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -1,6 +1,6 @@
 import logging, os
-import ply.yacc as yacc
 
+from ieml.commons import build_parser
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script, Script, NullScript
 from ieml.usl import Word, PolyMorpheme, USL
@@ -32,7 +32,7 @@ class IEMLParser():
     def __init__(self, dictionary=None):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='proposition',
+        self.parser = build_parser(module=self, errorlog=logging, start='proposition',
                                 # debug=True,
                                 optimize=False,
                                 picklefile=os.path.join(PARSER_FOLDER, "ieml_parser.pickle"))
-- 
2.43.0


From 9443fc3aa4bee1d883b1f20fd46cb2f3097f97a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 38/63] fix: list the flexion of a lexeme once, as a whole

---
 ieml/usl/lexeme.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index fea0d1c..9b8bb5f 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -55,8 +55,8 @@ class Lexeme(USL):
 
 		yield (LexemePath(LexemeIndex.FLEXION), self.pm_flexion)
 
-		yield from [(LexemePath(LexemeIndex.FLEXION, child=None if path.morpheme is None else FlexionPath(path.morpheme)), pm)
-					for path, pm in self.pm_flexion.iter_structure_path()]
+		yield from [(LexemePath(LexemeIndex.FLEXION, child=FlexionPath(path.morpheme)), pm)
+					for path, pm in self.pm_flexion.iter_structure_path() if path.morpheme is not None]
 
 		yield (LexemePath(LexemeIndex.CONTENT), self.pm_content)
 		yield from [(LexemePath(LexemeIndex.CONTENT, child=path), pm)
-- 
2.43.0


From 727c00305cbdece1f93639217afb4e3560e752f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 39/63] fix: decorate a morpheme of a flexion

---
 ieml/usl/polymorpheme.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index bbefd00..c985b18 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -187,8 +187,13 @@ class PolyMorpheme(USL):
     def iter_structure_path(self, flexion=False):
         from ieml.usl.decoration.path import PolymorphemePath, GroupIndex, FlexionPath
 
-        res_f = lambda u, grp_idx, multiplicity: (FlexionPath(morpheme=u) if flexion else
-                                PolymorphemePath(group_idx=grp_idx, morpheme=u, multiplicity=multiplicity))
+        if flexion:
+            # a flexion path gives a morpheme, never the constant or a group
+            yield from [(FlexionPath(morpheme=m), m)
+                        for ms in (self.constant, *(g for g, _ in self.groups)) for m in ms]
+            return
+
+        res_f = lambda u, grp_idx, multiplicity: PolymorphemePath(group_idx=grp_idx, morpheme=u, multiplicity=multiplicity)
 
         yield (res_f(None, GroupIndex.CONSTANT, None), PolyMorpheme(constant=list(self.constant)))
         yield from [(res_f(m, GroupIndex.CONSTANT, None), m) for m in self.constant]
-- 
2.43.0


From 2119c62783b3d4c5f148aa70194feb868f683d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:31 +0000
Subject: [PATCH 40/63] fix: keep each decoration on the component it
 addresses, and only there

---
 ieml/usl/decoration/instance.py | 20 ++++++++++++++++++--
 ieml/usl/decoration/path.py     | 31 +++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index b07e0fa..b811759 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -2,7 +2,7 @@ from typing import List
 
 from ieml.commons import DecoratedComponent
 from ieml.dictionary.script import Script
-from ieml.usl import USL
+from ieml.usl import USL, PolyMorpheme
 from ieml.usl.decoration.path import UslPath, FlexionPath
 
 
@@ -66,7 +66,23 @@ class InstancedUSL(USL):
 
 				decoration.apply(self.usl)
 
-			self.decorations = InstancedUSL.list_decorations(self.usl, flexion=self.flexion)
+		self.decorations = InstancedUSL.place_decorations(self.usl, decorations)
+
+	@staticmethod
+	def place_decorations(u: USL, decorations: List[Decoration]):
+		"""The decorations, each on the one component it addresses, with its path as the structure of u gives it."""
+		paths = [UslPath(), *(p for p, _ in u.iter_structure_path())]
+		if isinstance(u, PolyMorpheme):
+			paths.extend(p for p, _ in u.iter_structure_path(flexion=True))
+
+		values = {}
+		for decoration in decorations:
+			path = next((p for p in paths if p.is_same_address(decoration.path)), decoration.path)
+			values[path] = decoration.value
+
+		order = {p: i for i, p in reversed(list(enumerate(paths)))}
+		return sorted(sorted((Decoration(p, v) for p, v in values.items()),
+							 key=lambda d: (order.get(d.path, len(paths)), str(d.path))))
 
 	@staticmethod
 	def list_decorations(u: USL, flexion=False):
diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 0179811..ce1d7e7 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -3,7 +3,7 @@ from itertools import chain
 
 from ieml.commons import OrderedEnum, monitor_decorator
 from ieml.dictionary.script import Script
-from ieml.usl.constants import FLEXION_SCRIPTS
+from ieml.usl.constants import ADDRESS_PROCESS_VALENCE_SCRIPTS, FLEXION_SCRIPTS
 from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
 from ieml.usl.usl import USL
 from ieml.usl.polymorpheme import PolyMorpheme
@@ -160,6 +160,20 @@ class UslPath:
 	def _do_lt(self, other):
 		return False
 
+	def is_same_address(self, other):
+		"""True if the two paths lead to the same component of an USL, whatever the multiplicity of its group, the focus
+		and the valence of the process, that are not needed to find it."""
+		if self.__class__ != other.__class__ or not self._is_same_address(other):
+			return False
+
+		if self.child is None or other.child is None:
+			return self.child is None and other.child is None
+
+		return self.child.is_same_address(other.child)
+
+	def _is_same_address(self, other):
+		return self._do_eq(other)
+
 	def __hash__(self):
 		return hash(str(self))
 
@@ -230,7 +244,13 @@ class PolymorphemePath(UslPath):
 
 
 	def _do_lt(self, other):
-		return (self.group_idx, self.morpheme) < (other.group_idx, other.morpheme)
+		if self.group_idx != other.group_idx or self.morpheme is None or other.morpheme is None:
+			return (self.group_idx, self.morpheme is not None) < (other.group_idx, other.morpheme is not None)
+
+		return self.morpheme < other.morpheme
+
+	def _is_same_address(self, other):
+		return self.group_idx == other.group_idx and self.morpheme == other.morpheme
 
 	def without_morpheme(self):
 		return PolymorphemePath(group_idx=self.group_idx,
@@ -606,6 +626,13 @@ class RolePath(UslPath):
 	def _do_lt(self, other):
 		return self.role < other.role
 
+	def _is_same_address(self, other):
+		a, b = list(self.role.constant), list(other.role.constant)
+		if a and b and a[0] in ADDRESS_PROCESS_VALENCE_SCRIPTS and b[0] in ADDRESS_PROCESS_VALENCE_SCRIPTS:
+			a, b = a[1:], b[1:]
+
+		return a == b
+
 	def _deference(self: 'RolePath', usl: Word):
 		try:
 			return usl.syntagmatic_fun.get(self.role, ignore_prefix=True, ignore_process_valence=True)
-- 
2.43.0


From 21be571d86a73a8f580f9d363bd67b06fba77518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:54 +0000
Subject: [PATCH 41/63] fix: read every path of a decoration that is written

---
 ieml/usl/parser/lexer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 95b3222..287ed0a 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -55,8 +55,9 @@ def get_lexer(module=None):
     t_LITERAL = r'\#(\\\#|[^\#])+\#'
 
     t_GROUP_MULTIPLICITY = r'm\d+'
-    t_USL_PATH = r'(?<=\[)>(role>{role_regex}(\s{role_regex})*>)?((flexion|content)>)?(((group_\d|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
-                                                                                                                        term_regex=TERM_REGEX)
+    # the path parser checks the structure of the path
+    t_USL_PATH = r'(?<=\[)>(role>(!\s*)?{role_regex}(\s+{role_regex})*>?)?((flexion|content)>?)?' \
+                 r'((group_\d(\s\d)?|constant)>?)?({term_regex})?'.format(role_regex=ROLE_REGEX, term_regex=TERM_REGEX)
 
     t_DECORATION_VALUE = r'"(\\"|[^"])*"'
 
-- 
2.43.0


From ddb7d6d0517aff120a6430b1fed7f883b0fddd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 42/63] fix: read the value of a decoration back as it was
 written

---
 ieml/usl/decoration/instance.py | 2 +-
 ieml/usl/parser/lexer.py        | 2 +-
 ieml/usl/parser/parser.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index b811759..6feb097 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -36,7 +36,7 @@ class Decoration:
 		tgt.set_literal(self.value)
 
 	def __str__(self):
-		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('"', r'\"'))
+		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('\\', r'\\').replace('"', r'\"'))
 
 	def __lt__(self, other):
 		return (self.path, self.value) < (other.path, other.value)
diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 287ed0a..3b2608b 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -59,7 +59,7 @@ def get_lexer(module=None):
     t_USL_PATH = r'(?<=\[)>(role>(!\s*)?{role_regex}(\s+{role_regex})*>?)?((flexion|content)>?)?' \
                  r'((group_\d(\s\d)?|constant)>?)?({term_regex})?'.format(role_regex=ROLE_REGEX, term_regex=TERM_REGEX)
 
-    t_DECORATION_VALUE = r'"(\\"|[^"])*"'
+    t_DECORATION_VALUE = r'"(\\[\s\S]|[^"\\])*"'
 
     t_ignore  = '{} \t\n'
 
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index ba1a815..676eaee 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -1,4 +1,4 @@
-import logging, os
+import logging, os, re
 
 from ieml.commons import build_parser
 from ieml.constants import PARSER_FOLDER
@@ -210,7 +210,7 @@ class IEMLParser():
     def p_decoration(self, p):
         """decoration : LBRACKET USL_PATH DECORATION_VALUE RBRACKET"""
         usl_path = self.path_parser.parse(p[2])
-        p[0] = Decoration(usl_path, p[3][1:-1])
+        p[0] = Decoration(usl_path, re.sub(r'\\(["\\])', r'\1', p[3][1:-1]))
 
 
     def p_error(self, p):
-- 
2.43.0


From fb9677db01dbd6b70edbd7e54176f126386b187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 43/63] fix: store an IEML whose literals contain a slash or
 many wide characters

---
 ieml/ieml_database/ieml_database.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index b57690b..57180e4 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -92,6 +92,7 @@ class IEMLDatabase:
     }
 
     MAX_IEML_NAME_SIZE = 100
+    MAX_FILE_NAME_BYTES = 240
     HASH_SIZE = 10
 
     def __init__(self, folder,
@@ -116,9 +117,12 @@ class IEMLDatabase:
 
     def filename_of(self, ieml):
         l = str(ieml)
-        if len(l) > self.MAX_IEML_NAME_SIZE:
-            l = "{}|{}".format(l[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1],
-                               sha224(l.encode('utf8')).hexdigest()[:self.HASH_SIZE])
+        # the literals of an USL can contain any character, of any size
+        name = l.replace('/', '_')
+        if name != l or len(l) > self.MAX_IEML_NAME_SIZE or len(l.encode('utf8')) > self.MAX_FILE_NAME_BYTES:
+            name = name[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1].encode('utf8')
+            name = name[:self.MAX_FILE_NAME_BYTES - self.HASH_SIZE - 1].decode('utf8', 'ignore')
+            return "{}|{}".format(name, sha224(l.encode('utf8')).hexdigest()[:self.HASH_SIZE])
         return l
 
     def path_of(self, _ieml, descriptor=True, mkdir=False, normalize=True):
-- 
2.43.0


From bf22bd27b5678ec08e250e08b3271b5c77603280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 44/63] fix: keep the structure of an IEML whose literals
 contain quotes

---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 57180e4..5cd49f9 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -344,7 +344,7 @@ class IEMLDatabase:
         ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=False, structure=True)
 
         with open(self.path_of(ieml, descriptor=False, mkdir=True), 'a', encoding='utf8') as fp:
-            fp.write('"{}" {} "{}"\n'.format(str(ieml), key, value))
+            fp.write('"{}" {} "{}"\n'.format(self.escape_value(str(ieml)), key, value))
 
     def remove_structure(self, ieml, key=None, value=None, normalize=True):
         ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=True, structure=True)
@@ -360,7 +360,7 @@ class IEMLDatabase:
 
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} '.format(str(ieml), key) + \
+                     if not l.startswith('"{}" {} '.format(self.escape_value(str(ieml)), key) + \
                                         ('"{}"'.format(value) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8') as f:
-- 
2.43.0


From 40032d68f427ebc9407c0466e097cc52106cc876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:05 +0000
Subject: [PATCH 45/63] fix: read the descriptors of the files asked for,
 whatever their names

---
 ieml/ieml_database/ieml_database.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 5cd49f9..838a901 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -207,10 +207,8 @@ class IEMLDatabase:
     @monitor_decorator("Get descriptors")
     def get_descriptors(self, files_list=None):
         if files_list is not None:
-            p1 = subprocess.Popen(['echo', '-ne', r'\0'.join(files_list)],
+            p1 = subprocess.Popen(['printf', r'%s\0', *files_list],
                                   stdout=subprocess.PIPE, cwd=self.folder)
-            # p1 = subprocess.Popen(['sed', '-e', r's/\n/\x0/g'], stdin=p0.stdout,
-            #                       stdout=subprocess.PIPE, cwd=self.folder)
         else:
             p1 = subprocess.Popen("find -path *.desc -print0".split(),
                                   stdout=subprocess.PIPE, cwd=self.folder)
-- 
2.43.0


From ffe09a5793e56467bd164bf85633c86ee1a41303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:19 +0000
Subject: [PATCH 46/63] fix: read the decorations of junctions whatever the
 hash seed

---
 ieml/usl/constants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/constants.py b/ieml/usl/constants.py
index f92f20b..7fbb4eb 100644
--- a/ieml/usl/constants.py
+++ b/ieml/usl/constants.py
@@ -312,7 +312,9 @@ ROLE_NAMES_TO_SCRIPT= {**dict(map(reversed, NAMES_TO_ADDRESS_WITH_VALENCE_IN_PRO
                         'process': THREE_ACTANTS_PROCESS
                        }
 
-ROLE_REGEX=r"({})".format('|'.join(map(re.escape, map(str, set(ROLE_NAMES_TO_SCRIPT.values())))))
+# the longest first: a role can be the beginning of another one
+ROLE_REGEX=r"({})".format('|'.join(map(re.escape, sorted(map(str, set(ROLE_NAMES_TO_SCRIPT.values())),
+                                                         key=lambda role: (-len(role), role)))))
 
 
 NAMES_ORDERING = {
-- 
2.43.0


From 58e62ef770deaa625824f228a6e5d05547f9fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 47/63] fix: a junction is no component of a word for a path

---
 ieml/usl/decoration/path.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index ce1d7e7..e43eb2e 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -635,10 +635,15 @@ class RolePath(UslPath):
 
 	def _deference(self: 'RolePath', usl: Word):
 		try:
-			return usl.syntagmatic_fun.get(self.role, ignore_prefix=True, ignore_process_valence=True)
+			lexeme = usl.syntagmatic_fun.get(self.role, ignore_prefix=True, ignore_process_valence=True)
 		except KeyError as key:
 			raise DeferenceError(key)
 
+		if lexeme is None:
+			raise DeferenceError("No lexeme at the junction " + str(self.role))
+
+		return lexeme
+
 	def _to_str(self):
 		return 'role' + SEPARATOR + ('! ' if self.has_focus else '') + str(self.role)
 
-- 
2.43.0


From 30de5bde9a017100a015979b42989bd5001c169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 48/63] fix: create a root paradigm one of whose tables is
 already described

---
 ieml/ieml_database/transactions/DBTransaction.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index ef77c0a..5d11cc9 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -112,6 +112,10 @@ class DBTransactions:
 
         # add main tables header
         for i, t in enumerate([tt for tt in root.tables_script if tt != root]):
+            if db.get_descriptors().get_values_partial(t):
+                # already described, before it has a root
+                continue
+
             self.add_morpheme_paradigm(t,
                                        translations=append_idx_to_dict(translations, i),
                                        comments=append_idx_to_dict(comments, i))
-- 
2.43.0


From 2a7159288989dc1fbe0a36dfc700fbf50b64951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:28 +0000
Subject: [PATCH 49/63] fix: the columns of a USL table keep the groups of the
 rows as groups

---
 ieml/usl/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index be06731..9d8cede 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -154,7 +154,7 @@ class UslTable2D:
 
         res2 = []
         for l in res:
-            res2.append([(path.concat(p2).as_constant(ss), ss)
+            res2.append([(path.concat(p2), ss)
                          for path, vv in l
                          for p2, ss in vv.iter_structure_path_by_script_ss()])
 
-- 
2.43.0


From 04a765714573647b7bc1c3a04703b21f92d27893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:28 +0000
Subject: [PATCH 50/63] fix: USL table of a flexion with both a constant and a
 group

---
 ieml/usl/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index 9d8cede..25534bc 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -134,6 +134,9 @@ class UslTable2D:
             for pm_ss in usl(v).singular_sequences:
                 group_ss = []
                 for _, ss in pm_ss.iter_structure_path_by_script_ss():
+                    if ss not in ss_to_groups_path:
+                        # the constant of a polymorpheme that has none
+                        continue
                     path = path_bin.concat(ss_to_groups_path[ss])
 
                     group_ss.append((path, ss))
-- 
2.43.0


From 7d5a36210332f473a39c9cddd99b5cc313a6d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:29 +0000
Subject: [PATCH 51/63] fix: order the rows and columns of a USL table by the
 whole USL

---
 ieml/usl/table.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index 25534bc..c604911 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -57,7 +57,11 @@ class UslTable2D:
                             for path, morph in ss.iter_structure_path_by_script_ss()])
 
         # return sorted(res, key=lambda l: usl(l + self.constant_paths))
-        return sorted(res, key=lambda l: usl([(path.as_constant(vv), vv) for path, vv in l] + self.constant_paths))
+        others = [(path, ss) for path, ss in self.usl.iter_structure_path_by_script_ss()
+                  if not path.has_prefix(self._columns)]
+
+        # a word is ordered as a whole, without the other dimension it may not be a valid word
+        return sorted(res, key=lambda l: usl([(path.as_constant(vv), vv) for path, vv in l] + others))
 
     @cached_property
     def column_paths_constant(self):
@@ -161,7 +165,10 @@ class UslTable2D:
                          for path, vv in l
                          for p2, ss in vv.iter_structure_path_by_script_ss()])
 
-        return sorted(res2, key=lambda l: usl([(path.as_constant(), vv) for path, vv in l] + self.constant_paths))
+        others = self.constant_paths + [(path, ss) for path, ss in self.usl.iter_structure_path_by_script_ss()
+                                        if path.has_prefix(self._columns)]
+
+        return sorted(res2, key=lambda l: usl([(path.as_constant(vv), vv) for path, vv in l] + others))
 
     @cached_property
     def constant_paths(self):
-- 
2.43.0


From 72fcb98991c8cd739629553ceb805a077e5d29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:30 +0000
Subject: [PATCH 52/63] fix: the whole word is not a variation of itself

---
 ieml/usl/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index c604911..adf563b 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -206,7 +206,8 @@ def enumerate_partitions(usl: USL):
     prefix_tree = Tree()
 
     for p, ss in usl.iter_structure_path():
-        if p.deference(usl).cardinal != 1:
+        # the path of the usl itself is no part of it
+        if p != UslPath() and p.deference(usl).cardinal != 1:
             child = p
             curr = prefix_tree
             while child is not None:
-- 
2.43.0


From 604642baad21ecb67075a872250c08b36e68236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:12 +0000
Subject: [PATCH 53/63] fix: USL table whose columns hold a morpheme in two
 polymorphemes

---
 ieml/usl/table.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index adf563b..37795b9 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -50,10 +50,15 @@ class UslTable2D:
         res = []
         u = self._columns.deference(self.usl)
 
-        ss_to_groups_path = {ss_v: p.without_morpheme() for p, ss_v in u.iter_structure_path_by_script_ss()}
+        def polymorpheme_of(path):
+            # the same morpheme may be in different polymorphemes
+            return path.without_morpheme().split_tail()[0]
+
+        ss_to_groups_path = {(polymorpheme_of(p), ss_v): p.without_morpheme()
+                             for p, ss_v in u.iter_structure_path_by_script_ss()}
 
         for ss in self._columns.deference(self.usl).singular_sequences:
-            res.append([(self._columns.concat(ss_to_groups_path[morph], force=False), morph)
+            res.append([(self._columns.concat(ss_to_groups_path[polymorpheme_of(path), morph], force=False), morph)
                             for path, morph in ss.iter_structure_path_by_script_ss()])
 
         # return sorted(res, key=lambda l: usl(l + self.constant_paths))
-- 
2.43.0


From f1a1ead29b31a96f329ee54722017c8a5686e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 54/63] fix: factorisation of a set depended on its order

---
 ieml/dictionary/script/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 7c92eb1..a2dab05 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -8,6 +8,8 @@ from ieml.dictionary.script import MultiplicativeScript, Script, AdditiveScript
 
 
 def factor(sequences):
+    # the choice of the factors must not depend on the order of the sequences
+    sequences = sorted(set(sequences))
     layer = next(iter(sequences)).layer
 
     if layer == 0:
-- 
2.43.0


From a8e6d36ea12c4aa3c24db81e257bcb00c00e3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 55/63] fix: a USL whose singular sequences were computed could
 not be pickled nor deep copied

---
 ieml/usl/usl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 867d2ad..0d80fe2 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -50,6 +50,10 @@ class USL(DecoratedComponent):
         """Since the IEML string for a script is its definition, it can be used as a hash"""
         return self._str.__hash__()
 
+    def __getstate__(self):
+        # a set that holds the object itself can't be pickled nor copied, it is computed again when needed
+        return {**self.__dict__, '_singular_sequences_set': None}
+
     def __len__(self):
         return self.cardinal
 
-- 
2.43.0


From e9aa508da3dc68eff66fd875e1c0b54942b96b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 56/63] fix: building a sum of scripts extended the list of
 terms it was given

---
 ieml/dictionary/script/script.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 206ccb6..c276962 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -237,7 +237,7 @@ class AdditiveScript(Script):
         _children = []
 
         if children:
-            _children = children
+            _children = list(children)
 
         if character in REMARKABLE_ADDITION:
             _character = character
-- 
2.43.0


From a5567404f7f35980a6f81777b8d8158b9196e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:27 +0000
Subject: [PATCH 57/63] fix: the caches of a database could fail, or keep a
 stale content, when it is changed or read meanwhile

---
 ieml/commons.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index 2191b40..51ec0d7 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -4,6 +4,7 @@ import logging
 import os
 import pickle
 from collections import OrderedDict
+from contextlib import suppress
 from enum import Enum
 from itertools import chain
 from sys import stderr
@@ -126,18 +127,31 @@ class FolderWatcherCache:
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
 
-    def update(self, obj) -> None:
+    def update(self, obj, cache_file=None) -> None:
         """
         Update the cache content, remove old cache files from the cache directory.
 
         :param obj: the object to pickle in the cache
+        :param cache_file: the cache file of the folder content that `obj` was made from, the current one by default
         :return: None
         """
-        for c in self._cache_candidates():
-            os.remove(c)
+        if cache_file is None:
+            cache_file = self.cache_file
 
-        with open(self.cache_file, 'wb') as fp:
-            pickle.dump(obj, fp, protocol=4)
+        # other processes can use the cache directory, for them the cache file must be always complete
+        tmp = os.path.join(self.cache_folder, '.{}-cache-{}.tmp'.format(self.name, uuid4().hex))
+        try:
+            with open(tmp, 'wb') as fp:
+                pickle.dump(obj, fp, protocol=4)
+
+            for c in self._cache_candidates():
+                with suppress(FileNotFoundError):
+                    os.remove(c)
+
+            os.replace(tmp, cache_file)
+        finally:
+            with suppress(FileNotFoundError):
+                os.remove(tmp)
 
     def get(self) -> object:
         """
@@ -165,7 +179,8 @@ class FolderWatcherCache:
         """
         res = b""
         for file in self.files:
-            with open(file, 'rb') as fp:
+            # a file can be removed at any time
+            with suppress(FileNotFoundError), open(file, 'rb') as fp:
                 res += file[len(self.db_path)+1:].encode('utf8') + b":" + fp.read()
 
         return os.path.join(self.cache_folder, ".{}-cache.{}".format(self.name, hashlib.md5(res).hexdigest()))
@@ -203,6 +218,7 @@ def cache_results_watch_files(path, name):
 
             if use_cache:
                 cache = FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name)
+                cache_file = cache.cache_file
                 if not cache.is_pruned():
                     logger.info("read_{}.cache: Reading cache at {}".format(name, cache.cache_file))
                     try:
@@ -223,8 +239,10 @@ def cache_results_watch_files(path, name):
             if use_cache and cache_folder:
                 cache = FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name)
 
-                logger.info("read_{}.cache: Updating cache at {}".format(name, cache.cache_file))
-                cache.update(instance)
+                # the content can have changed while it was read
+                if cache.cache_file == cache_file:
+                    logger.info("read_{}.cache: Updating cache at {}".format(name, cache_file))
+                    cache.update(instance, cache_file)
 
             return instance
 
-- 
2.43.0


From ec217272ed1b2b72d609bf853c5a37667c7c0883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:50 +0000
Subject: [PATCH 58/63] fix: a product of scripts lost the parts that follow a
 missing one

---
 ieml/dictionary/script/script.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index c276962..2e6ba9d 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -351,12 +351,15 @@ class MultiplicativeScript(Script):
         if children is None:
             children = [substance, attribute, mode]
 
-        _children = []
-        for child in children:
-            if child is not None:
-                _children.append(child)
-            else:
-                break
+        # the missing parts are empty
+        _children = list(children)
+        while _children and _children[-1] is None:
+            _children.pop()
+
+        if not (_children or character):
+            raise InvalidScript()
+
+        _children = [c if c is not None else NullScript(layer=_children[-1].layer) for c in _children]
 
         # Replace all the corresponding children to character
         _character = None
-- 
2.43.0


From 53a55d1468a85f36d62f77400dee6ff7284746c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:27 +0000
Subject: [PATCH 59/63] fix: a paradigm could not be added with descriptors in
 some languages only, as a root paradigm can

---
 ieml/ieml_database/transactions/DBTransaction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 5d11cc9..0895b12 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -132,6 +132,9 @@ class DBTransactions:
         if len(script) == 1:
             raise ValueError("The script is not a paradigm {}, can't use it to define a paradigm.".format(str(script)))
 
+        translations = _check_descriptors(translations)
+        comments = _check_descriptors(comments)
+
         if script in d.scripts:
             raise ValueError("Script {} already defined in the dictionary".format(str(script)))
 
-- 
2.43.0


From 2661d4f25e5099850395ec117026adc70d08727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 60/63] fix: descriptors given in an unknown language were
 dropped in silence

---
 ieml/ieml_database/transactions/DBTransaction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 0895b12..d7c18c7 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -42,6 +42,7 @@ def _check_descriptors(descriptor):
         if k not in descriptor:
             descriptor[k] = []
 
+    assert all(k in LANGUAGES for k in descriptor)
     assert all(isinstance(d, str) for k in LANGUAGES for d in descriptor[k])
     return descriptor
 
-- 
2.43.0


From 86b7438fde34237ff272564c5aee7782c5d4eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:14 +0000
Subject: [PATCH 61/63] fix: a lexeme passed its check whatever its
 polymorphemes, which its word refuses

---
 ieml/usl/lexeme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index 9b8bb5f..2456f81 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -41,7 +41,7 @@ class Lexeme(USL):
 			self._str = "()"
 
 	def check(self):
-		pass
+		check_lexeme(self)
 
 	def iter_structure(self):
 		yield self.pm_flexion
-- 
2.43.0


From be288ac756fc17fcb98f045d6d101fb3c4308673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:20 +0000
Subject: [PATCH 62/63] fix: decorated USLs were not ordered, so that sorting
 them depended on their first order

---
 ieml/usl/decoration/instance.py | 2 +-
 ieml/usl/usl.py                 | 4 ----
 2 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index 6feb097..3855960 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -116,7 +116,7 @@ class InstancedUSL(USL):
 		return self.usl.iter_structure_path(flexion=flexion)
 
 	def do_lt(self, other):
-		return self.usl.do_lt(other)
+		return self.usl < other.usl or (self.usl == other.usl and str(self) < str(other))
 
 	def _compute_singular_sequences(self):
 		res = []
diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 0d80fe2..18249e1 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -33,10 +33,6 @@ class USL(DecoratedComponent):
         if isinstance(other, Script):
             return False
 
-        from ieml.usl.decoration.instance import InstancedUSL
-        if isinstance(other, InstancedUSL):
-            other = other.usl
-
         return self.syntactic_level < other.syntactic_level or \
                (self.syntactic_level == other.syntactic_level and self.do_lt(other))
 
-- 
2.43.0


From f9b38d7839ba5efab7dd864e1b50f98e662cfb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:53 +0000
Subject: [PATCH 63/63] fix: a path could not name the junction indexes *10 to
 *12

---
 ieml/usl/decoration/parser/lexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/parser/lexer.py b/ieml/usl/decoration/parser/lexer.py
index c58c994..1de46e1 100644
--- a/ieml/usl/decoration/parser/lexer.py
+++ b/ieml/usl/decoration/parser/lexer.py
@@ -5,7 +5,8 @@ from ieml.usl.constants import NAMES_TO_ADDRESS_WITH_VALENCE_IN_PROCESS, ROLE_NA
 
 logger = logging.getLogger(__name__)
 
-ROLE_NAMES = list(ROLE_NAMES_TO_SCRIPT)
+# the longest first: a name can be the beginning of another one
+ROLE_NAMES = sorted(ROLE_NAMES_TO_SCRIPT, key=lambda name: (-len(name), name))
 ROLE_NAMES_REGEX = r"({})".format('|'.join(map(re.escape, map(str, ROLE_NAMES))))
 
 ROLES_SCRIPTS = list(NAMES_TO_ADDRESS)
-- 
2.43.0

