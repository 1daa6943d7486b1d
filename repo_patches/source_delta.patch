From b775c2ca11d39be85dd11605c55749d94296230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 001/109] fix: don't crash on braced groups in LaTeX math

The math context is also entered for a { ... } group inside math, which
has no entry in the mapping of Math types. Return a Brace in that case.
---
 quickly/lang/latex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index f33f8ba..14d7409 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -170,9 +170,10 @@ class LatexTransform(base.Transform):
         tex.MathDisplayDollar)
 
     def math(self, items):
-        """Process the ``math`` context; return a Math node."""
+        """Process the ``math`` context; return a Math (or Brace) node."""
         head = items[:1]
-        cls = self._math_mapping[head[0].text]
+        # the math context is also used for a ``{`` ... ``}`` group inside math
+        cls = self._math_mapping.get(head[0].text, tex.Brace)
         tail = (items.pop(),) if len(items) > 1 and items[-1] == cls.tail else ()
         return self.factory(cls, head, tail, *self.common(items[1:]))
 
-- 
2.43.0


From 9d514d4424a51cdb6933563cd03b14246abbd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 002/109] fix: support the natural accidental (!) in figured
 bass

The lexer accepts ! in a figure, but FigureAccidental had no mapping for it,
so transforming a document with such a figure raised KeyError.
---
 quickly/dom/lily.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 3d0a71f..609eeaa 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2503,13 +2503,13 @@ class FigureAccidental(element.MappingElement):
     r"""An accidental in figure mode.
 
     One of: -1, -0.5, 0, 0.5, 1, corresponding to:
-     ``'--'``, ``'-'``, ``''``, ``'+'`` or ``'++'``.
+     ``'--'``, ``'-'``, ``'!'``, ``'+'`` or ``'++'``.
 
     """
     mapping = {
         '--':  -1,
         '-':   -0.5,
-        '':     0,
+        '!':    0,
         '+':    0.5,
         '++':   1,
     }
-- 
2.43.0


From 062a23a196674a35ba04f5469143ed94535263ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 003/109] fix: don't lose or move comments at the end of chords
 and articulations

A comment following a chord or note without duration was discarded, and a
comment inside a node with a closing delimiter was moved after the delimiter.
---
 quickly/dom/util.py      | 9 +++++++--
 quickly/lang/lilypond.py | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/util.py b/quickly/dom/util.py
index cf2c53b..bc8a757 100644
--- a/quickly/dom/util.py
+++ b/quickly/dom/util.py
@@ -157,10 +157,15 @@ def skip_comments(node):
 
 
 def pop_comments(node):
-    """Pop and return comments off the end of node (and/or its children)."""
+    """Pop and return comments off the end of node (and/or its children).
+
+    Comments before the tail of a node (e.g. a closing delimiter) are not at the
+    end of that node, so they are left alone.
+
+    """
     from .base import Comment
     comments = []
-    while len(node):
+    while len(node) and node.tail is None:
         if isinstance(node[-1], Comment):
             comments.append(node.pop())
         else:
diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 23b6996..3dc8fa4 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -746,7 +746,7 @@ class MusicBuilder:
                 music = lily.Unpitched(dur)
         elif music:
             # move comment after pitch back to toplevel
-            self._comments[0:] = util.pop_comments(music)
+            self._comments[0:0] = util.pop_comments(music)
         if music:
             if self._modifier:
                 music.extend(self._comments)
-- 
2.43.0


From 8b5567735f061b76f67e7aa280e1cd60b4dc10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 004/109] fix: don't crash on a chord modifier without a chord

---
 quickly/lang/lilypond.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 3dc8fa4..a417ae1 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1126,7 +1126,8 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        self._modifier[-1].extend(obj)
+        if self._modifier:
+            self._modifier[-1].extend(obj)
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
               "chordmode", "figuremode")
-- 
2.43.0


From 09d23858fa8fb6c5d0c10e5cf1b34419afe0cbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 005/109] fix: don't crash on an unfinished <lilypond> tag in
 Html

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index a417ae1..8c74063 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -332,12 +332,12 @@ class LilyPondTransform(base.Transform):
         Returns a two-tuple: ``([list of elements], tail_origin)``.
 
         """
+        tail_origin = ()
+        close_tag = None
         if items:
             if items[-1] == '/>':
                 tail_origin = (items.pop(),)
-                close_tag = None
             elif items.peek(-3, a.Delimiter, a.Name.Tag, a.Delimiter):
-                tail_origin = ()
                 close_tag = self.factory(htm.CloseTag, items[-3:-2], items[-1:], self.factory(htm.TagName, items[-2:-1]))
                 del items[-3:]
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From ad75a6ca51057558dc636fa1829b4269a0c48e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 006/109] fix: don't modify nodes cached by the parce
 transformer

The transformer caches the result of a transform method and uses it again when
the text is edited elsewhere. Durations, articulations, arguments and comments
were appended to (or popped off) such cached nodes, so after an edit the same
duration or comment could appear twice or not at all. Copy the nodes that get
modified.
---
 quickly/lang/lilypond.py | 42 ++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 8c74063..66978eb 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -74,6 +74,18 @@ class LilyPond(parce.lang.lilypond.LilyPond):
         yield from cls.root
 
 
+def reuse(node):
+    """Return the node, or a copy of it when arguments could be appended.
+
+    Use this for a node that was returned by a transform method and is going to
+    be processed by :func:`~quickly.dom.element.build_tree`. That function
+    appends arguments to nodes that define signatures, which would modify the
+    node that is cached by the transformer.
+
+    """
+    return node.copy_with_origin() if any(node.signatures()) else node
+
+
 class LilyPondTransform(base.Transform):
     """Transform LilyPond to Music."""
 
@@ -387,7 +399,7 @@ class LilyPondTransform(base.Transform):
                 if result:
                     yield result
             elif isinstance(i.obj, element.Element):
-                yield i.obj
+                yield reuse(i.obj)
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -413,7 +425,7 @@ class LilyPondTransform(base.Transform):
                             # gotcha!!
                             first, *rest = variable
                             if isinstance(first, lily.List):
-                                identifier = lily.Identifier(*first)
+                                identifier = lily.Identifier(*(c.copy_with_origin() for c in first))
                             else:
                                 identifier = lily.Identifier(first)
                             yield lily.Assignment(identifier, *rest)
@@ -520,7 +532,8 @@ class LilyPondTransform(base.Transform):
             elif isinstance(i.obj, element.Element):
                 if step:
                     yield step
-                step = i.obj
+                # copy, an accidental or alteration might be appended
+                step = i.obj.copy_with_origin()
         if step:
             yield step
 
@@ -721,7 +734,7 @@ class MusicBuilder:
                 if not meth:
                     if isinstance(i.obj, element.Element):
                         yield from self.pending_music()
-                        yield i.obj
+                        yield reuse(i.obj)
                     else:
                         # TEMP
                         print("Unknown item:", i)
@@ -1132,8 +1145,13 @@ class MusicBuilder:
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
               "chordmode", "figuremode")
     def flatten_elements(self, obj):
-        """Called for context that yield lists of Elements; flatten them."""
-        yield from obj
+        """Called for context that yield lists of Elements; flatten them.
+
+        The elements are copied because more arguments could be appended.
+
+        """
+        for node in obj:
+            yield node.copy_with_origin()
 
     @_context("pitch")
     def pitch(self, obj):
@@ -1155,7 +1173,8 @@ class MusicBuilder:
     def music_element(self, obj):
         """An element node that is a music item (chord, figure)."""
         yield from self.pending_music()
-        self._music = obj
+        # copy, because a duration, articulations etc. might be appended
+        self._music = obj.copy_with_origin()
 
     @_context("script")
     def script(self, obj):
@@ -1167,12 +1186,14 @@ class MusicBuilder:
         """Called for ``string``, ``scheme`` or ``list`` context."""
         if self._events:
             # after a direction: an articulation
+            # copy, because comments might be moved out of it
+            obj = obj.copy_with_origin()
             if not self.add_event_argument(obj):
                 self.add_articulation(obj)
         else:
             # toplevel expression
             yield from self.pending_music()
-            yield obj
+            yield reuse(obj)
 
     @_context("markup")
     def markup(self, obj):
@@ -1191,11 +1212,12 @@ class MusicBuilder:
         """Called for ``identifier_ref`` context: maybe articulation."""
         if self._events:
             # after a direction: add as articulation
-            self.add_articulation(obj)
+            # copy, because comments might be moved out of it
+            self.add_articulation(obj.copy_with_origin())
         else:
             # toplevel expression
             yield from self.pending_music()
-            yield obj
+            yield reuse(obj)
 
     @_context("singleline_comment", "multiline_comment")
     def comment(self, obj):
-- 
2.43.0


From 9bcd8defbacb7075382f73759bf4b11e56dfae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 007/109] fix: keep custom spacing when copying an element

---
 quickly/dom/element.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index aac57fa..124c96a 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -175,6 +175,11 @@ class Element(Node, metaclass=ElementType):
         for attribute, value in attrs.items():
             setattr(self, attribute, value)
 
+    def _spacing(self):
+        """Return a dict with the spacing attributes that deviate from the default."""
+        return {'space_' + name: value
+            for name, value in getattr(self, '_space', {}).items()}
+
     def copy(self, with_children=True):
         """Copy the node, without the origin.
 
@@ -183,7 +188,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return type(self)(*children, **getattr(self, '_spacing', {}))
+        return type(self)(*children, **self._spacing())
 
     def copy_with_origin(self, with_children=True):
         """Copy the node, with origin if available.
@@ -193,7 +198,7 @@ class Element(Node, metaclass=ElementType):
 
         """
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = type(self)(*children, **getattr(self, '_spacing', {}))
+        copy = type(self)(*children, **self._spacing())
         copy.copy_origin_from(self)
         return copy
 
@@ -920,11 +925,11 @@ class TextElement(HeadElement):
 
         """
         children = (n.copy() for n in self) if with_children else ()
-        return self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        return self._factory(self.head, *children, **self._spacing())
 
     def copy_with_origin(self, with_children=True):
         children = (n.copy_with_origin() for n in self) if with_children else ()
-        copy = self._factory(self.head, *children, **getattr(self, '_spacing', {}))
+        copy = self._factory(self.head, *children, **self._spacing())
         copy.copy_origin_from(self)
         return copy
 
-- 
2.43.0


From 23dda45419d60a959c8fe877ed76bc92d9129ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 008/109] fix: edit all nodes within a cursor's selection, and
 only those

Child nodes of the last selected node were left out (so selecting all text
only edited a part of the music), a fully selected single node was not edited,
and a selection without nodes edited everything to the end of the document.
---
 quickly/dom/edit.py | 19 ++++++++++++++-----
 quickly/node.py     |  6 +++++-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 406392f..3cbec2b 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -110,12 +110,21 @@ class Edit:
         if cursor.has_selection():
             start_node = d.find_descendant_right(cursor.pos)
             end_node = d.find_descendant_left(cursor.end)
-            if end_node or start_node:
+            if start_node and end_node and start_node.pos < end_node.end:
+                start = start_node.pos
+                end = end_node.end
+                # the end node ends within the selection, include its children
+                while len(end_node):
+                    end_node = end_node[-1]
                 r = Range.from_nodes(start_node, end_node, self.range_from_root)
-                if start_node:
-                    start = start_node.pos
-                if end_node:
-                    end = end_node.end
+                if r.ancestor() is start_node and start_node.end <= cursor.end:
+                    # the full start node is selected, include it in the range
+                    index = start_node.parent.index(start_node)
+                    r = Range(start_node.parent, [index], [index, *r.end_trail])
+            else:
+                # no node is within the selection
+                r = Range(d, None, [])
+                start = end = cursor.pos
         elif self.range_from_cursor:
             start_node = d.find_descendant_right(cursor.pos)
             if start_node:
diff --git a/quickly/node.py b/quickly/node.py
index f7bfa95..1b155b8 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1303,7 +1303,9 @@ class Range(Common):
             self.end_trail = end_trail
             # for convenience, store start and end indices for the range
             self.start = start_trail[depth] if start_trail else 0
-            self.end = len(node) - 1 if end_trail is None else end_trail[depth] if len(end_trail) > depth else -1
+            # (nodes on the end trail may already have been removed from this node)
+            self.end = len(node) - 1 if end_trail is None \
+                else min(end_trail[depth], len(node) - 1) if len(end_trail) > depth else -1
             self.index = -1 # so that iteration will start correctly
 
         def __iter__(self):
@@ -1351,6 +1353,8 @@ class Range(Common):
             for i in self.end_trail[self.depth:]:
                 if i < len(n) - 1:
                     return False    # this descendant is sliced from the end
+                elif i >= len(n):
+                    return True     # this descendant was removed
                 n = n[i]
             return len(n) == 0      # not complete if the end node has children
 
-- 
2.43.0


From 518d768b15d07b4da02a122b4f9f5619481ff732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 009/109] fix: don't leave a half-modified DOM behind when an
 edit operation fails

Operate on a copy of the document's cached DOM, because changes made by an
operation that fails afterwards, or that is readonly, were written out by the
next edit of the document. Also reset Edit.document() in that case.
---
 quickly/dom/edit.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 3cbec2b..53e98d6 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -105,7 +105,9 @@ class Edit:
         ancestor of the range to be the DOM tree root anyway.
 
         """
-        d = cursor.document().get_transform(True)
+        # edit a copy, so that when the operation fails or does not write back,
+        # the document's own (cached) DOM does not get partially modified
+        d = cursor.document().get_transform(True).copy_with_origin()
         r = start = end = None
         if cursor.has_selection():
             start_node = d.find_descendant_right(cursor.pos)
@@ -133,10 +135,12 @@ class Edit:
             r = Range(d)
         self._document = cursor.document()
         self._changes = 0
-        result = self.edit_range(r)
-        if not self.readonly:
-            self._changes = r.ancestor().edit(cursor.document(), start=start, end=end)
-        self._document = None
+        try:
+            result = self.edit_range(r)
+            if not self.readonly:
+                self._changes = r.ancestor().edit(cursor.document(), start=start, end=end)
+        finally:
+            self._document = None
         return result
 
     def edit_document(self, document):
-- 
2.43.0


From 23a3306a088e8301b4d6a156f3769f3d571ac489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 010/109] fix: don't delete text outside the specified range
 when writing back edits

---
 quickly/dom/element.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 124c96a..daa8c46 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -628,7 +628,7 @@ class Element(Node, metaclass=ElementType):
         text outside the specified range will be deleted.
 
         """
-        pos = context.pos if start is None else start
+        pos = start = context.pos if start is None else start
         end = context.end if end is None else end
         tokens = context.tokens()
         insert_after = ''
@@ -644,12 +644,14 @@ class Element(Node, metaclass=ElementType):
                 # existing element
                 if point.pos > pos:
                     # see if old content needs to be deleted between pos and point.pos
-                    del_pos = del_end = pos
+                    # (but never outside the specified range)
+                    del_pos = del_end = max(pos, start)
                     for t in tokens:
                         if t.pos >= point.pos:
                             pos = t.pos
                             break
-                        del_end = t.end
+                        if t.end <= end:
+                            del_end = t.end
                     if del_end > del_pos:
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
@@ -661,6 +663,7 @@ class Element(Node, metaclass=ElementType):
                     yield point.pos, point.end, point.text()
                 pos = point.end
                 insert_after = point.space_after
+        pos = max(pos, start)
         if pos < end:
             yield pos, end, ''
 
-- 
2.43.0


From 074e534718f3b573ce4a9803d725f684242a7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 011/109] fix: don't crash in Time on unresolved variables or a
 position after the music

---
 quickly/time.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/quickly/time.py b/quickly/time.py
index 05b9a0b..5c9273d 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -247,9 +247,10 @@ class Time:
         dom = cursor.document().get_transform(self.wait)
         if dom:
             node = dom.find_descendant_right(cursor.pos)
-            c = self._music_child(node)
-            if c:
-                return self.position(c)
+            if node:
+                c = self._music_child(node)
+                if c:
+                    return self.position(c)
 
     def cursor_duration(self, cursor):
         """Return a :class:`Result` two-tuple(node, time) or None.
@@ -352,9 +353,12 @@ class TimeContext:
         Returns 0 if the node can't be found or is no music.
 
         """
-        node, scope = node.get_value_with_scope(self.time.scope, self.time.wait)
+        scope = self.time.scope
         while isinstance(node, lily.Reference):
-            node, scope = node.get_value_with_scope(scope, self.time.wait)
+            result = node.get_value_with_scope(scope, self.time.wait)
+            if not result:
+                return 0
+            node, scope = result
         if isinstance(node, lily.Music):
             time = type(self.time)(scope, self.time.wait)
             return node.time_length(self.enter(node, time), None)
-- 
2.43.0


From 42c20def0d0dbce8ae25ed2e7bbc80524acc857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:09 +0000
Subject: [PATCH 012/109] fix: honor the wait argument in Reference.get_value()

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 609eeaa..0e89221 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -420,7 +420,7 @@ class Reference(element.Element):
         :meth:`get_value_with_scope`.
 
         """
-        result = self.get_value_with_scope(scope)
+        result = self.get_value_with_scope(scope, wait)
         if result:
             return result[0]
 
-- 
2.43.0


From 99fda6c83d0469470c7c19305c41586565615311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 013/109] fix: Key.key_signature() crash when the mode is a
 variable

---
 quickly/dom/lily.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0e89221..4c0ee5c 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2160,8 +2160,10 @@ class Key(element.HeadElement, Music):
                 elif isinstance(n, Mode):
                     mode = n.head
                 elif isinstance(n, IdentifierRef):
-                    scope, n = n.get_value_with_scope(scope, wait)
-                    continue
+                    result = n.get_value_with_scope(scope, wait)
+                    if result:
+                        n, scope = result
+                        continue
                 elif isinstance(n, Scheme):
                     for n in n // scm.List:
                         mode = [n.head for n in n / scm.Number]
-- 
2.43.0


From d55077851daa621639991068999629a891457b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 014/109] fix: don't crash on \include files that are
 unfinished, invalid or can't be decoded

---
 quickly/dom/lily.py  |  2 +-
 quickly/dom/scope.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 4c0ee5c..207687b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2831,7 +2831,7 @@ class Include(element.HeadElement):
         """
         from .. import pitch
         filename = self.filename
-        if filename.endswith(".ly"):
+        if filename and filename.endswith(".ly"):
             language = filename[:-3]
             if language in pitch.pitch_names:
                 return language
diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 1bdcda1..83612a4 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -125,7 +125,10 @@ class Scope:
         urls = []
         def add(base_url):
             if base_url:
-                u = urljoin(base_url, url)
+                try:
+                    u = urljoin(base_url, url)
+                except ValueError:  # not a valid url
+                    return
                 if u not in skip and u not in urls:
                     urls.append(u)
         if self.relative_include:
@@ -142,12 +145,14 @@ class Scope:
 
         Returns None if no document can be found. The default implementation
         calls :attr:`factory` with a filename pointing to the local file
-        system. OSErrors raised by the factory are suppressed.
+        system. OSErrors raised by the factory are suppressed, as well as
+        ValueErrors, which are raised if the filename is invalid, or if the
+        contents of the file can't be decoded.
 
         """
         filename = urlparse(url).path
         try:
             return self.factory(filename)
-        except OSError:
+        except (OSError, ValueError):
             pass
 
-- 
2.43.0


From a891fc21a590e447d593b1bf9d9a0afe9df4235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 015/109] fix: KeySignature.__repr__() raised TypeError

---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index 0017ce5..ec6ccd8 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -226,7 +226,7 @@ class KeySignature:
         self.flats = pitch.MAJOR_FLATS
 
     def __repr__(self):
-        p = pitch.Pitch(self.note, self.alter)
+        p = pitch.Pitch(0, self.note, self.alter)
         return "<{} note,alter={},{} ({}) mode={}>".format(type(self).__name__,
             self.note, self.alter, p, self.mode)
 
-- 
2.43.0


From d34251efbab9c2fd24f017abd0b663bf6bde2792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 016/109] fix: set the scale and the right alteration when
 adding or subtracting Transposers

---
 quickly/transpose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index f83112f..ad8ea3c 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -90,6 +90,7 @@ class Transposer(AbstractTransposer):
     def __add__(self, other):
         t = type(self).__new__(type(self))
         doct, t.steps = divmod(self.steps + other.steps, 7)
+        t.scale = self.scale
         t.octave = self.octave + other.octave + doct
         t.alter = self.alter + other.alter - doct * 6
         return t
@@ -97,8 +98,9 @@ class Transposer(AbstractTransposer):
     def __sub__(self, other):
         t = type(self).__new__(type(self))
         doct, t.steps = divmod(self.steps - other.steps, 7)
+        t.scale = self.scale
         t.octave = self.octave - other.octave + doct
-        t.alter = self.alter - other.alter + doct * 6
+        t.alter = self.alter - other.alter - doct * 6
         return t
 
 
-- 
2.43.0


From 1a02f0daa5b5c29cadd501f12c8a70e7162316b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 017/109] fix: correct octave when transposing \fixed music

The octave of the start pitch can change as well by transposing the note.
---
 quickly/transpose.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index ad8ea3c..cd17faa 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -200,13 +200,13 @@ class Transpose(edit.Edit):
             r"""Transpose \fixed pitches: handle octave nicely."""
             nodes = util.skip_comments(node)
             for note in nodes:
-                if isinstance(note, lily.Pitchable) and writable(note):
-                    # we may change this note, modify the octave
-                    offset = self.transposer.octave
+                offset = 0
+                if isinstance(note, lily.Pitchable) and writable(node):
+                    # we may change this note and all music, modify the octave
                     with processor.process(note) as p:
+                        octave = p.octave
                         self.transposer.transpose(p)
-                else:
-                    offset = 0
+                        offset = p.octave - octave
                 for p in transpose_pitches(nodes):
                     p.octave -= offset
 
-- 
2.43.0


From b5eed94467f4239586126c563e7d5fb39937cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 018/109] fix: Rel2abs: don't convert nested \relative music
 twice or skip the node after \octaveCheck

---
 quickly/relative.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index e969e84..ae039c8 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -70,8 +70,8 @@ class Rel2abs(edit.Edit):
                 if isinstance(n, lily.Pitchable):
                     yield n
                     # music in markup expressions?
-                    for n in node.instances_of(lily.Relative):
-                        make_absolute(n)
+                    for m in n.instances_of(lily.Relative):
+                        make_absolute(m)
                 elif isinstance(n, (lily.Chord, lily.OctaveCheck)):
                     yield n
                 elif isinstance(n, lily.Relative):
@@ -100,6 +100,7 @@ class Rel2abs(edit.Edit):
 
             parent[index:index+1] = nodes   # remove \relative node but keep its child(ren)
 
+            octave_checks = []
             for n in notes(nodes):
                 if isinstance(n, lily.Pitchable):
                     # note (or positioned rest)
@@ -120,7 +121,9 @@ class Rel2abs(edit.Edit):
                     # OctaveCheck, read last_pitch but remove
                     for note in notes(n):
                         last_pitch = processor.read_node(note)
-                    n.parent.remove(n)
+                    octave_checks.append(n)
+            for n in octave_checks:     # don't remove nodes while iterating
+                n.parent.remove(n)
         # Do it!
         nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
         for n in processor.follow_language(nodes):
-- 
2.43.0


From 014372fefe74be7b54d7eafa798e838e62368a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 019/109] fix: Abs2rel: make chord notes relative to each
 other, leave nested \relative and \octaveCheck alone

---
 quickly/relative.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index ae039c8..8248b88 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -252,11 +252,15 @@ class Abs2rel(edit.Edit):
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
                     for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, last_pitch))
+                        stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
+                elif isinstance(n, lily.OctaveCheck):
+                    # not changed, but next note is relative to this pitch
+                    for note in n / lily.Pitchable:
+                        last_pitch = processor.read_node(note)
                 elif isinstance(n, (
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
-                    lily.Transpose, lily.Transposition, lily.StringTuning,
+                    lily.Relative, lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
                     pass
                 else:
-- 
2.43.0


From c90b1cc4824a4d5417cda42fce494bfa51138ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 020/109] fix: don't write durations inside chords in rhythm
 operations

---
 quickly/rhythm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 9df764c..ff1104d 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -47,6 +47,9 @@ class EditRhythm(edit.Edit):
                 # as of LilyPond 2.23.6)
                 if isinstance(n, lily.Skip) and not any(n / lily.Duration):
                     continue
+                # notes inside a chord can't have a duration
+                if isinstance(n.parent, lily.ChordBody):
+                    continue
                 yield n
 
     @staticmethod
-- 
2.43.0


From 7e2ed220a015c4145623d402bb8c93bb8f195b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 021/109] fix: keep the origin of the closing brace of \score

---
 quickly/lang/lilypond.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 66978eb..969c7da 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -115,8 +115,6 @@ class LilyPondTransform(base.Transform):
 
     def score(self, items):
         """A Score element."""
-        tail = (items.pop(),) if items[-1] == '}' else ()
-        head = items[:2]
         return self.create_block(lily.Score, items, music=True)
 
     def header(self, items):
-- 
2.43.0


From 9d916d79bfa46c89f815a57b3de5a51c72a30775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 022/109] fix: don't insert space before the first unmodified
 text when writing back edits

---
 quickly/dom/element.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index daa8c46..ebfa444 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -632,8 +632,12 @@ class Element(Node, metaclass=ElementType):
         end = context.end if end is None else end
         tokens = context.tokens()
         insert_after = ''
+        first = True
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
+            if first and point.pos is not None:
+                space = ''  # what's before our first text is not ours
+            first = False
             if point.pos is None:
                 # new element
                 text = point.text()
-- 
2.43.0


From 1b9c81ffa2d70568510f2e3061c183b36a585c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 023/109] fix: recognize arguments like in \clef "bass" when a
 comment follows

---
 quickly/lang/lilypond.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 969c7da..3fcdeef 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -86,6 +86,27 @@ def reuse(node):
     return node.copy_with_origin() if any(node.signatures()) else node
 
 
+def split_comments(node):
+    """Yield the node, and then the comments that follow it, if any.
+
+    A ``list`` context also contains the comments that follow the list. Those
+    comments do not belong to the list, and the list would not be recognized as
+    a single String, Symbol or Scheme argument.
+
+    """
+    index = len(node)
+    if type(node) is lily.List:
+        while index > 1 and isinstance(node[index-1], base.Comment):
+            index -= 1
+    if index < len(node):
+        # copy, don't reparent child nodes of a cached node
+        nodes = [n.copy_with_origin() for n in node]
+        yield nodes[0] if index == 1 else lily.List(*nodes[:index])
+        yield from nodes[index:]
+    else:
+        yield node
+
+
 class LilyPondTransform(base.Transform):
     """Transform LilyPond to Music."""
 
@@ -397,7 +418,7 @@ class LilyPondTransform(base.Transform):
                 if result:
                     yield result
             elif isinstance(i.obj, element.Element):
-                yield reuse(i.obj)
+                yield from split_comments(reuse(i.obj))
             elif i.name == "markup":
                 yield from self.create_markup(i.obj, items)
 
@@ -732,7 +753,7 @@ class MusicBuilder:
                 if not meth:
                     if isinstance(i.obj, element.Element):
                         yield from self.pending_music()
-                        yield reuse(i.obj)
+                        yield from split_comments(reuse(i.obj))
                     else:
                         # TEMP
                         print("Unknown item:", i)
@@ -1191,7 +1212,7 @@ class MusicBuilder:
         else:
             # toplevel expression
             yield from self.pending_music()
-            yield reuse(obj)
+            yield from split_comments(reuse(obj))
 
     @_context("markup")
     def markup(self, obj):
-- 
2.43.0


From a747e0ac86af9981fd6ab0ba99b4f948b326b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 024/109] fix: treat music in \transpose inside \relative as
 absolute

---
 quickly/transpose.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index cd17faa..c96d504 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -168,7 +168,11 @@ class Transpose(edit.Edit):
                     pitches, rest = n[:2], n[2:]
                     for p in transpose_pitches(pitches):
                         p.octave -= self.transposer.octave
-                    yield from notes(rest)
+                    if relative_mode:
+                        # LilyPond: \relative has no effect inside \transpose
+                        transpose_absolute(rest)
+                    else:
+                        yield from notes(rest)
                 elif isinstance(n, (lily.Transposition, lily.StringTuning)):
                     pass    # don't change child nodes
                 elif relative_mode and isinstance(n, (lily.Chord, lily.OctaveCheck)):
-- 
2.43.0


From 45ec19f500b1a602a8856f31641cfcaa2a037e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 025/109] fix: don't insert space between unmodified texts that
 touched each other

---
 quickly/dom/element.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index ebfa444..ef7a291 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -633,6 +633,7 @@ class Element(Node, metaclass=ElementType):
         tokens = context.tokens()
         insert_after = ''
         first = True
+        changed = False     # True if the previous text is new or modified
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if first and point.pos is not None:
@@ -644,6 +645,7 @@ class Element(Node, metaclass=ElementType):
                 if text:
                     yield pos, pos, space + text
                     insert_after = point.space_after
+                    changed = True
             else:
                 # existing element
                 if point.pos > pos:
@@ -660,13 +662,15 @@ class Element(Node, metaclass=ElementType):
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
-                elif space:
+                elif space and (changed or point.modified or point.pos < pos):
+                    # (unmodified texts that touched each other may remain so)
                     yield point.pos, point.pos, space
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
                 pos = point.end
                 insert_after = point.space_after
+                changed = point.modified
         pos = max(pos, start)
         if pos < end:
             yield pos, end, ''
-- 
2.43.0


From 5fdedbe993721e28be010144c059608547c9cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 026/109] fix: the end of a multiline Scheme comment is !#

---
 quickly/dom/scm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index cd887d5..5052a23 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -86,14 +86,14 @@ class SinglelineComment(base.SinglelineComment):
 
 
 class MultilineComment(base.MultilineComment):
-    """A multiline comment in Scheme after ``#!``."""
+    """A multiline comment in Scheme between ``#!`` and ``!#``."""
     @classmethod
     def read_head(cls, origin):
-        end = -1 if origin[-1] == "#!" else None
+        end = -1 if origin[-1] == "!#" else None
         return ''.join(t.text for t in origin[1:end])
 
     def write_head(self):
-        return '#!{}#!'.format(self.head)
+        return '#!{}!#'.format(self.head)
 
 
 class Char(element.TextElement):
-- 
2.43.0


From df24739bfad6b4fa54da5b07f943c9f058278aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 027/109] fix: don't drop comments, CDATA sections and
 processing instructions in Html

---
 quickly/dom/htm.py   | 8 +++++---
 quickly/lang/html.py | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 1ce2463..38c695c 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -235,12 +235,14 @@ class CData(element.TextElement):
     """
     @classmethod
     def read_head(cls, origin):
-        return origin[1]
+        # the start is three tokens: <![, CDATA and [
+        end = -1 if origin[-1] == "]]>" else None
+        return ''.join(t.text for t in origin[3:end])
 
     def write_head(self):
         # handle the unlikely case literal ']]>' is in text
-        text = self.head.replace(']]>', ']]>]]&gt;<[CDATA[')
-        return "<[CDATA[{}]]>".format(text)
+        text = self.head.replace(']]>', ']]>]]&gt;<![CDATA[')
+        return "<![CDATA[{}]]>".format(text)
 
 
 class String(element.BlockElement):
diff --git a/quickly/lang/html.py b/quickly/lang/html.py
index de80309..2b987de 100644
--- a/quickly/lang/html.py
+++ b/quickly/lang/html.py
@@ -237,6 +237,8 @@ class HtmlTransform(base.Transform):
                 nodes[-1].extend(items[i].obj) # add contents and CloseTag
             elif items[i].name == "html_lilypond_tag":
                 nodes[-1].extend(items[i].obj[0]) # add contents and CloseTag
+            elif items[i].name in ("comment", "cdata", "processing_instruction"):
+                nodes.append(items[i].obj)
             i += 1
         return nodes
 
-- 
2.43.0


From 8e3af23ce5aa8216c9b344283ed4fe9bfdc83fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 028/109] fix: write space between the items of a LilyPond
 block in Scheme

---
 quickly/dom/scm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 5052a23..8538d76 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -67,6 +67,7 @@ class LilyPond(element.BlockElement):
     """A LilyPond block inside Scheme, between ``#{`` and ``#}``."""
     head = "#{"
     tail = "#}"
+    space_after_head = space_before_tail = space_between = " "
 
 
 class Document(base.Document):
-- 
2.43.0


From 4b0290126c4f9b1a0855f13066377c3724e1718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:31 +0000
Subject: [PATCH 029/109] fix: don't crash on an unfinished LilyPond
 environment with options in LaTeX

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 3fcdeef..c0f3e2a 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -396,7 +396,7 @@ class LilyPondTransform(base.Transform):
             end = self.factory(tex.Command, items[-4:-3])
             end.append(self.factory(tex.EnvironmentName, items[-3:]))
             items = items[:-4]
-        elif items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
+        elif items and items[-1] == '}' and items[-1].action is a.Delimiter.Brace:
             # short form \lilypond { ... }
             tail_origin = (items.pop(),)
         nodes = [lily.Document(*self.handle_assignments(self.create_music(items)))]
-- 
2.43.0


From 49ee5c8b156eda052524af3a7056db395ca94fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 030/109] fix: keep comments, tweaks and tags before a duration
 in text order

---
 quickly/lang/lilypond.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index c0f3e2a..37c1d1a 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -934,8 +934,12 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._articulations:
+        if self._duration or self._articulations or self._events:
             yield from self.pending_music()
+        if self._music:
+            # keep comments before the duration in the right order
+            self._music.extend(self._comments)
+            self._comments.clear()
         self._duration = [token]
 
     @_action(a.Delimiter.Direction)
@@ -1175,7 +1179,7 @@ class MusicBuilder:
     @_context("pitch")
     def pitch(self, obj):
         """Called for ``pitch`` context: octave, accidental, octavecheck and/or comment."""
-        if self._music:
+        if self._music and not self._events:
             self._music.extend(obj)
         else:
             # only happens in erronous LilyPond input, but at least we keep the object
-- 
2.43.0


From 822d0406167918d2d0920a7d26e025489d3f1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 031/109] fix: don't crash on writing a LaTeX option without
 opening bracket

---
 quickly/dom/element.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index ef7a291..242c114 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -837,8 +837,11 @@ class HeadElement(Element):
         except AttributeError:
             pos = end = None
         else:
-            pos = origin[0].pos
-            end = origin[-1].end
+            try:
+                pos = origin[0].pos
+                end = origin[-1].end
+            except IndexError:      # can happen when head was missing
+                pos = end = None
         modified = bool(self._modified & HEAD_MODIFIED)
         space_after = self.space_after_head if len(self) or self.write_tail() else self.space_after
         return Point(pos, end, self.write_head, modified, self.space_before, space_after)
-- 
2.43.0


From abe22abfae786f2389763ccd969f987af0d146c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 032/109] fix: recognize LilyPond environment options after
 whitespace in LaTeX

---
 quickly/lang/latex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 14d7409..9e98e83 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -98,6 +98,9 @@ class LatexTransform(base.Transform):
             # opening bracket of short form LilyPond command
             command_head = (items.pop(),)
         i = 0
+        if len(items) > 1 and items[0].is_token and items[0].text.isspace() and items[1] == '[':
+            # space between the environment name and its options
+            items = items[1:]
         if items.peek(0, a.Delimiter.Bracket) and items[0].text == '[':
             # complete first Option node
             head_origin = items[0:1]
-- 
2.43.0


From c399b598b6fab5c87cfcad6519c8480636b461e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:12 +0000
Subject: [PATCH 033/109] fix: keep the opening bracket of an unfinished LaTeX
 option

---
 quickly/lang/latex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 9e98e83..46b7641 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -113,7 +113,11 @@ class LatexTransform(base.Transform):
             try:
                 i = items.index(']', pos)
             except ValueError:
-                nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                if head_origin:
+                    nodes.append(self.factory(tex.Option, head_origin, (), *self.common(items[pos:])))
+                else:
+                    # unfinished, and the head is in a previous context
+                    nodes.append( (self.common(items[pos:]), ()) )
                 break
             tail_origin = items[i],
             if head_origin:
-- 
2.43.0


From ccd921c951fc312be9de4bcac51a663498327fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 034/109] fix: a duration after \rest or chord modifiers starts
 a new note

---
 quickly/lang/lilypond.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 37c1d1a..9d983e6 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -934,7 +934,7 @@ class MusicBuilder:
     @_action(a.Number.Duration)
     def duration_action(self, token):
         r"""Called for ``Number.Duration``."""
-        if self._duration or self._articulations or self._events:
+        if self._duration or self._modifier or self._articulations or self._events:
             yield from self.pending_music()
         if self._music:
             # keep comments before the duration in the right order
-- 
2.43.0


From fc2bd1df486ba786356de69e980ed1882d804721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:02 +0000
Subject: [PATCH 035/109] fix: ignore \rest and chord modifiers after
 articulations, keeping nodes in text order

---
 quickly/lang/lilypond.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 9d983e6..5554db8 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -873,7 +873,7 @@ class MusicBuilder:
     @_token(r'\rest')
     def rest_token(self, token):
         r"""Called for ``\rest``."""
-        if isinstance(self._music, lily.Note):
+        if isinstance(self._music, lily.Note) and not self._articulations and not self._events:
             # make it a positioned rest, reuse old pitch token if possible
             note = self._music
             self._music = rest = lily.PitchedRest(note.head, *note)
@@ -1020,7 +1020,7 @@ class MusicBuilder:
             # next item is the pitch of an inversion
             note = self.factory(lily.Pitch, (next(self.items),))
             elem.append(note)
-        if self._music and not self._articulations:
+        if self._music and not self._articulations and not self._events:
             if not self._modifier:
                 self._modifier = lily.ChordModifiers()
             self._modifier.append(elem)
-- 
2.43.0


From 6061313e876636d8c0fbd2db222e7b05ac127eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 036/109] fix: keep comments after articulations and late chord
 modifiers in text order

---
 quickly/lang/lilypond.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 5554db8..bbe1b66 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1162,7 +1162,7 @@ class MusicBuilder:
     @_context("chord_modifier")
     def chord_modifier(self, obj):
         """Called with the result of the ``chord_modifier`` context."""
-        if self._modifier:
+        if self._modifier and not self._articulations and not self._events:
             self._modifier[-1].extend(obj)
 
     @_context("repeat", "lyricsto", "lyricmode", "drummode", "notemode",
@@ -1249,12 +1249,12 @@ class MusicBuilder:
         Comments are preserved as good as possible.
 
         """
-        if self._modifier:
-            self._modifier.append(obj)
-        elif self._events:
+        if self._events:
             self._events[-1].append(obj)
         elif self._articulations:
             self._articulations.append(obj)
+        elif self._modifier:
+            self._modifier.append(obj)
         elif not self._music and not self._duration:
             # no pending music
             yield obj
-- 
2.43.0


From 51b70425eefb14b1c32a5f1adba40d4663da6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 037/109] fix: write space between the arguments of tag
 commands

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 207687b..52b0c3b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2534,6 +2534,7 @@ class FigureAlteration(element.MappingElement):
 
 class Tag(element.HeadElement):
     r"""A ``\tag`` command."""
+    space_after_head = space_between = " "
     head = r'\tag'
 
     def signatures(self):
@@ -2542,6 +2543,7 @@ class Tag(element.HeadElement):
 
 class KeepWithTag(element.HeadElement):
     r"""A ``\keepWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\keepWithTag'
 
     def signatures(self):
@@ -2550,6 +2552,7 @@ class KeepWithTag(element.HeadElement):
 
 class RemoveWithTag(element.HeadElement):
     r"""A ``\removeWithTag`` command."""
+    space_after_head = space_between = " "
     head = r'\removeWithTag'
 
     def signatures(self):
@@ -2558,6 +2561,7 @@ class RemoveWithTag(element.HeadElement):
 
 class TagGroup(element.HeadElement):
     r"""A ``\tagGroup`` command."""
+    space_after_head = space_between = " "
     head = r'\tagGroup'
 
     def signatures(self):
@@ -2566,6 +2570,7 @@ class TagGroup(element.HeadElement):
 
 class PushToTag(element.HeadElement):
     r"""A ``\pushToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\pushToTag'
 
     def signatures(self):
@@ -2574,6 +2579,7 @@ class PushToTag(element.HeadElement):
 
 class AppendToTag(element.HeadElement):
     r"""A ``\appendToTag`` command."""
+    space_after_head = space_between = " "
     head = r'\appendToTag'
 
     def signatures(self):
-- 
2.43.0


From 166b14c59e79462850744c0a6867e6cafa3d0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:21 +0000
Subject: [PATCH 038/109] fix: don't lose articulations, dynamics and
 directions that don't follow a note

---
 quickly/lang/lilypond.py | 51 +++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index bbe1b66..2a1d37b 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -796,28 +796,31 @@ class MusicBuilder:
 
         # if there are tweaks, tags or shapes but no articulations, the
         # tweak, tag or shape is meant for the next note. Output it now.
-        for e in self._events:
-            if isinstance(e, (lily.Tweak, lily.Tag, lily.Shape)):
-                yield e
+        # (Also output a direction that belongs to something else.)
+        yield from self._events
         self.reset()
 
     def add_articulation(self, art):
-        """Add an articulation or script."""
+        """Add an articulation or script.
+
+        Returns an iterable of the nodes to output. This is normally empty, but
+        when there is no music the articulation can be added to, the
+        articulation itself is returned, so it is not lost.
+
+        """
+        if self._events:
+            self._events[-1].append(art)
+            art = e = self._events[0]
+            for f in self._events[1:]:
+                e.append(f)
+                e = f
+            self._events.clear()
         if self._music or self._duration:
-            if self._events:
-                self._events[-1].append(art)
-                art = e = self._events[0]
-                for f in self._events[1:]:
-                    e.append(f)
-                    e = f
-                self._events.clear()
             if not self._articulations:
                 self._articulations = lily.Articulations()
             self._articulations.append(art)
-            return True
-        else:
-            print("Unbound event:", art) # TEMP
-            return False
+            return ()
+        return art,
 
     def add_spanner_id(self, node):
         """Return True if the node could be added to a spanner id that's being built."""
@@ -888,7 +891,7 @@ class MusicBuilder:
     @_token(r'\noBeam')
     def nobeam_token(self, token):
         r"""Called for ``\noBeam``."""
-        self.add_articulation(self.factory(lily.Modifier, (token,)))
+        return self.add_articulation(self.factory(lily.Modifier, (token,)))
 
     @_token(r'\tag')
     def tag_token(self, token):
@@ -950,7 +953,7 @@ class MusicBuilder:
     @_action(a.Name.Builtin.Dynamic)
     def dynamic_action(self, token):
         r"""Called for ``Name.Builtin.Dynamic``."""
-        self.add_articulation(self.factory(lily.Dynamic, (token,)))
+        return self.add_articulation(self.factory(lily.Dynamic, (token,)))
 
     # articulations that are spanners, for articulation_action()
     _articulations_mapping = element.head_mapping(
@@ -962,7 +965,7 @@ class MusicBuilder:
     def articulation_action(self, token):
         r"""Called for ``Name.Script.Articulation``."""
         cls = self._articulations_mapping.get(token.text, lily.Articulation)
-        self.add_articulation(self.factory(cls, (token,)))
+        return self.add_articulation(self.factory(cls, (token,)))
 
     # mapping for spanners in spanner_action()
     _spanner_mapping = {
@@ -980,7 +983,7 @@ class MusicBuilder:
         if token.action is a.Name.Symbol.Spanner.Id:
             self._events.append(self.factory(lily.SpannerId, (token,)))
         else:
-            self.add_articulation(self.factory(self._spanner_mapping[token.action], (token,)))
+            return self.add_articulation(self.factory(self._spanner_mapping[token.action], (token,)))
 
     @_action(a.Name.Type)
     def name_type_action(self, token):
@@ -995,7 +998,7 @@ class MusicBuilder:
         if token.group == 0:
             # next item is the duration
             tremolo.append(self.factory(lily.Duration, (next(self.items),)))
-        self.add_articulation(tremolo)
+        return self.add_articulation(tremolo)
 
     @_action(a.Delimiter.Separator.PipeSymbol)
     def pipe_symbol_action(self, token):
@@ -1202,7 +1205,7 @@ class MusicBuilder:
     @_context("script")
     def script(self, obj):
         """Called for ``script`` context: an articulation."""
-        self.add_articulation(obj)
+        return self.add_articulation(obj)
 
     @_context("string", "scheme", "list")
     def string_scheme(self, obj):
@@ -1212,7 +1215,7 @@ class MusicBuilder:
             # copy, because comments might be moved out of it
             obj = obj.copy_with_origin()
             if not self.add_event_argument(obj):
-                self.add_articulation(obj)
+                yield from self.add_articulation(obj)
         else:
             # toplevel expression
             yield from self.pending_music()
@@ -1224,7 +1227,7 @@ class MusicBuilder:
         for node in self.transform.create_markup(obj, self.items):
             if self._events:
                 # after a direction: add to the note
-                self.add_articulation(node)
+                yield from self.add_articulation(node)
             else:
                 # toplevel markup item (in lyricmode possible)
                 yield from self.pending_music()
@@ -1236,7 +1239,7 @@ class MusicBuilder:
         if self._events:
             # after a direction: add as articulation
             # copy, because comments might be moved out of it
-            self.add_articulation(obj.copy_with_origin())
+            yield from self.add_articulation(obj.copy_with_origin())
         else:
             # toplevel expression
             yield from self.pending_music()
-- 
2.43.0


From 02d627b6183f858f64e462d8f4654da6edb312af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 039/109] fix: leave trailing space alone when writing back
 edits in an explicit range

---
 quickly/dom/element.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 242c114..42a3c85 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -671,9 +671,14 @@ class Element(Node, metaclass=ElementType):
                 pos = point.end
                 insert_after = point.space_after
                 changed = point.modified
-        pos = max(pos, start)
-        if pos < end:
-            yield pos, end, ''
+        # delete old content after the last text, but leave trailing space alone
+        pos = del_end = max(pos, start)
+        for t in tokens:
+            if t.end > end:
+                break
+            del_end = t.end
+        if del_end > pos:
+            yield pos, del_end, ''
 
     def edit(self, document, context=None, start=None, end=None,):
         """Write back the modifications to the original parce document.
-- 
2.43.0


From 4ac4b38984c1ff600d7fb6aff9be07b361a3a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 040/109] fix: write a newline after a new singleline comment
 before existing text

---
 quickly/dom/element.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 42a3c85..4430739 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -619,7 +619,7 @@ class Element(Node, metaclass=ElementType):
         return combine_text(
             (p.space_before, p.text(), p.space_after) for p in self.points())[1]
 
-    def edits(self, context, start=None, end=None):
+    def edits(self, context, start=None, end=None, contents=None):
         """Yield three-tuples (pos, end, text) denoting text changes.
 
         The ``context`` is a parce Context. If ``start`` and/or ``end`` are not
@@ -627,6 +627,9 @@ class Element(Node, metaclass=ElementType):
         modified text fragments will still be written to the document, but no
         text outside the specified range will be deleted.
 
+        If the full text of the document is given in ``contents``, existing
+        space after a new text is replaced if it lacks a required newline.
+
         """
         pos = start = context.pos if start is None else start
         end = context.end if end is None else end
@@ -634,6 +637,7 @@ class Element(Node, metaclass=ElementType):
         insert_after = ''
         first = True
         changed = False     # True if the previous text is new or modified
+        new = False         # True if the previous text is new
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if first and point.pos is not None:
@@ -645,7 +649,7 @@ class Element(Node, metaclass=ElementType):
                 if text:
                     yield pos, pos, space + text
                     insert_after = point.space_after
-                    changed = True
+                    changed = new = True
             else:
                 # existing element
                 if point.pos > pos:
@@ -662,6 +666,11 @@ class Element(Node, metaclass=ElementType):
                         if space and del_end < pos:
                             del_end = pos   # unparsed space can be ditched
                         yield del_pos, del_end, space
+                    elif new and contents and '\n' in space:
+                        # e.g. a new singleline comment needs a newline
+                        gap = contents[del_pos:point.pos]
+                        if gap.isspace() and '\n' not in gap:
+                            yield del_pos, point.pos, space
                 elif space and (changed or point.modified or point.pos < pos):
                     # (unmodified texts that touched each other may remain so)
                     yield point.pos, point.pos, space
@@ -671,6 +680,7 @@ class Element(Node, metaclass=ElementType):
                 pos = point.end
                 insert_after = point.space_after
                 changed = point.modified
+                new = False
         # delete old content after the last text, but leave trailing space alone
         pos = del_end = max(pos, start)
         for t in tokens:
@@ -700,7 +710,7 @@ class Element(Node, metaclass=ElementType):
             context = document.builder().root
         n = 0
         with document:
-            for pos, end, text in self.edits(context, start, end):
+            for pos, end, text in self.edits(context, start, end, document.text()):
                 document[pos:end] = text
                 n += 1
         return n
-- 
2.43.0


From 451b5483e2dcc21904eb9b20725a3b89c9fb23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 041/109] fix: the value of a Html comment doesn't include the
 delimiters

---
 quickly/dom/htm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index 38c695c..ed385da 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -210,7 +210,14 @@ class Text(element.TextElement):
 
 
 class Comment(base.MultilineComment):
-    """A Html/Xml comment node."""
+    """A Html/Xml comment node between ``<!--`` and ``-->``."""
+    @classmethod
+    def read_head(cls, origin):
+        end = -1 if origin[-1] == "-->" else None
+        return ''.join(t.text for t in origin[1:end])
+
+    def write_head(self):
+        return '<!--{}-->'.format(self.head)
 
 
 class EntityRef(element.TextElement):
-- 
2.43.0


From c5a57ef23b2309345c6f2e3d936bdc489b613d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 042/109] fix: keep the newline of a singleline comment when
 the last text is deleted

---
 quickly/dom/element.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 4430739..fe67f1e 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -688,7 +688,8 @@ class Element(Node, metaclass=ElementType):
                 break
             del_end = t.end
         if del_end > pos:
-            yield pos, del_end, ''
+            # (but e.g. a singleline comment keeps its newline)
+            yield pos, del_end, '\n' if '\n' in insert_after else ''
 
     def edit(self, document, context=None, start=None, end=None,):
         """Write back the modifications to the original parce document.
-- 
2.43.0


From ead835487fa519a83e4cbefa801b94c7aa6bf15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:57 +0000
Subject: [PATCH 043/109] fix: recognize the string of a direction like
 c^"text" when a comment follows

---
 quickly/lang/lilypond.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 2a1d37b..567208f 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -1213,9 +1213,11 @@ class MusicBuilder:
         if self._events:
             # after a direction: an articulation
             # copy, because comments might be moved out of it
-            obj = obj.copy_with_origin()
+            obj, *comments = split_comments(obj.copy_with_origin())
             if not self.add_event_argument(obj):
                 yield from self.add_articulation(obj)
+            for n in comments:
+                yield from self.comment(n)
         else:
             # toplevel expression
             yield from self.pending_music()
-- 
2.43.0


From 896b18e707f01aab85e94995c49dbc14c8b6ec2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 044/109] fix: don't lose articulations after the duration
 argument of commands like \partial

---
 quickly/dom/lily.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 52b0c3b..6e0113e 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -487,22 +487,29 @@ class _ConvertUnpitchedToDuration(element.Element):
     """Mixin class to convert Unpitched arguments to their Duration."""
     def add_argument(self, node):
         """Reimplemented to pick the Duration of an Unpitched node."""
+        nodes = ()
         if isinstance(node, Unpitched):
-            for node in node:
-                node = node.copy_with_origin()
-                break
+            # keep other nodes, such as (misplaced) articulations
+            node, *nodes = (n.copy_with_origin() for n in node)
         super().add_argument(node)
+        self.extend(nodes)
 
 
 class _ConvertUnpitchedToInt(element.Element):
     """Mixin class to convert Unpitched arguments to an Int."""
     def add_argument(self, node):
         """Reimplemented to read the Duration of an Unpitched node as a Int."""
+        nodes = ()
         if isinstance(node, Unpitched):
             for dur in node / Duration:
-                node = convert_duration_to_int(dur) or node
+                value = convert_duration_to_int(dur)
+                if value:
+                    # keep other nodes, such as (misplaced) articulations
+                    nodes = [n.copy_with_origin() for n in node if n is not dur]
+                    node = value
                 break
         super().add_argument(node)
+        self.extend(nodes)
 
 
 class HandleAssignments(element.Element):
-- 
2.43.0


From ec6461823f1c9019730ceabcbfcbcac825728c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 045/109] fix: don't count writing the same text as a change

---
 quickly/dom/element.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index fe67f1e..947cf92 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -710,10 +710,12 @@ class Element(Node, metaclass=ElementType):
         if context is None:
             context = document.builder().root
         n = 0
+        contents = document.text()
         with document:
-            for pos, end, text in self.edits(context, start, end, document.text()):
-                document[pos:end] = text
-                n += 1
+            for pos, end, text in self.edits(context, start, end, contents):
+                if text != contents[pos:end]:
+                    document[pos:end] = text
+                    n += 1
         return n
 
     def signatures(self):
-- 
2.43.0


From 1594b0fb2a7af269ef5563cc74ca2cd0ebb21925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 046/109] fix: a node of which the last children are outside a
 range isn't completely in the range

---
 quickly/node.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index 1b155b8..ff7d81d 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -827,8 +827,19 @@ class Range(Common):
             return self._stack[0].start_in_range() and self._stack[0].end_in_range()
         elif self.start_trail and trail < self.start_trail:
             return False
-        elif self.end_trail is not None and trail > self.end_trail:
-            return False
+        elif self.end_trail is not None:
+            if trail > self.end_trail:
+                return False
+            depth = len(trail)
+            if trail == self.end_trail[:depth]:
+                # the range ends at this node or at one of its descendants
+                n = self.ancestor()
+                for d, i in enumerate(self.end_trail):
+                    if d >= depth and i < len(n) - 1:
+                        return False    # this descendant is sliced from the end
+                    elif i >= len(n):
+                        break           # this descendant was removed
+                    n = n[i]
         return True
 
     def _trail_intersects(self, trail):
-- 
2.43.0


From 7408207e64aa9a633da4a8c41fbf4f3533d2f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 047/109] fix: don't delete closing brackets when the end of a
 selection is in a list around the edited nodes

---
 quickly/dom/edit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/dom/edit.py b/quickly/dom/edit.py
index 53e98d6..716a051 100644
--- a/quickly/dom/edit.py
+++ b/quickly/dom/edit.py
@@ -123,6 +123,9 @@ class Edit:
                     # the full start node is selected, include it in the range
                     index = start_node.parent.index(start_node)
                     r = Range(start_node.parent, [index], [index, *r.end_trail])
+                if not r.ancestor().is_root():
+                    # text after the ancestor belongs to its parents
+                    end = min(end, r.ancestor().end)
             else:
                 # no node is within the selection
                 r = Range(d, None, [])
-- 
2.43.0


From 9dbce96e4bd3ad3bdc856730f714799063bbbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 048/109] fix: don't make \chordmode relative that is only
 partially selected

---
 quickly/relative.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 8248b88..5d4c6aa 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -201,7 +201,7 @@ class Abs2rel(edit.Edit):
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
                     else:
                         abs2rel()
-                elif isinstance(n, lily.ChordMode):
+                elif isinstance(n, lily.ChordMode) and r.in_range():
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
 
         # Do it!
-- 
2.43.0


From 895f7cdcafe1e3949f3c92b69194405a5f5d4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 049/109] fix: set the parent of nodes that are added using +=

---
 quickly/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index ff7d81d..f88aea6 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -327,6 +327,11 @@ class Node(Common, list):
         for node in self[index:]:
             node._parent = weakref.ref(self)
 
+    def __iadd__(self, nodes):
+        """Append nodes to this node; the parent is set to this node."""
+        self.extend(nodes)
+        return self
+
     def insert(self, index, node):
         """Insert node in this node; the parent is set to this node."""
         node._parent = weakref.ref(self)
-- 
2.43.0


From a25f5fd7f943ddc6a208fb28f644f7e5d89fc1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 050/109] fix: don't change parents when adding nodes to a node
 fails

---
 quickly/node.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index f88aea6..f068501 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -322,10 +322,10 @@ class Node(Common, list):
 
     def extend(self, nodes):
         """Append nodes to this node; the parent is set to this node."""
-        index = len(self)
-        list.extend(self, nodes)
-        for node in self[index:]:
+        nodes = tuple(nodes)
+        for node in nodes:
             node._parent = weakref.ref(self)
+        list.extend(self, nodes)
 
     def __iadd__(self, nodes):
         """Append nodes to this node; the parent is set to this node."""
@@ -343,9 +343,8 @@ class Node(Common, list):
         Fails if called on the root node.
 
         """
-        node._parent = weakref.ref(self)
-        index = self.parent.index(self)
-        self.parent[index] = node
+        parent = self.parent
+        parent[parent.index(self)] = node
 
     def take(self, start=0, end=None):
         """Like :meth:`list.pop`, but takes out and returns a slice(start, end)."""
@@ -357,12 +356,19 @@ class Node(Common, list):
     def __setitem__(self, k, new):
         """Set self[k] to the node(s) in ``new``; the parent is set to this Node."""
         if isinstance(k, slice):
-            new = tuple(new)
-            for node in new:
-                node._parent = weakref.ref(self)
+            nodes = new = tuple(new)
         else:
-            new._parent = weakref.ref(self)
-        list.__setitem__(self, k, new)
+            nodes = (new,)
+        parents = [node._parent for node in nodes]
+        for node in nodes:
+            node._parent = weakref.ref(self)
+        try:
+            list.__setitem__(self, k, new)
+        except BaseException:
+            # the nodes were not added, e.g. because the index is out of range
+            for node, parent in zip(nodes, parents):
+                node._parent = parent
+            raise
 
     def equals(self, other):
         """Return True if we and other are equivalent.
-- 
2.43.0


From 1097a33fa3c97154c71942a08cad51527a1e9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 051/109] fix: don't skip or add nodes when nodes are removed
 while iterating over a range

---
 quickly/node.py | 102 +++++++++++++++++++++++-------------------------
 1 file changed, 48 insertions(+), 54 deletions(-)

diff --git a/quickly/node.py b/quickly/node.py
index f068501..4421e1e 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -911,70 +911,57 @@ class Range(Common):
                 raise ValueError("can't use step other than 1 in slice")
             value = tuple(value)
             index, end, _ = i.indices(len(level.node))
-            removed = end - index
+            end = max(index, end)
+            level.node[i] = value
             added = len(value)
-            length = len(level.node) + added - removed
-
-            if length == 0:
-                # node has become empty
-                level.start = 0
-                level.index = -1
-                level.end = -1
-                if level.start_trail:
-                    level.start_trail[level.depth:] = [0]
-                if level.end_trail:
-                    del level.end_trail[level.depth:]
-            else:
-                # adjust start boundary if needed
-                if index <= level.start:
-                    if index + removed > level.start:
+            shift = added - (end - index)
+
+            # adjust start boundary if needed
+            if adjust_start:
+                if end <= level.start:
+                    level.start += shift
+                    level.start_trail[level.depth] = level.start
+                elif index <= level.start:
+                    # deleted node was on the start trail, truncate
+                    if index < level.start:
                         level.start = index + added
-                        if adjust_start:
-                            # deleted node was on the start trail, truncate
-                            del level.start_trail[level.depth:]
-                            if 0 < level.start < length:
-                                level.start_trail.append(level.start)
-                    else:
-                        level.start += added - removed
-                        if adjust_start:
-                            level.start_trail[level.depth] = level.start
-
-                # adjust end boundary
-                if index <= level.end:
-                    if index + removed > level.end:
-                        level.end = index + added
-                        if adjust_end:
-                            # deleted node was on the end trail, truncate
-                            del level.end_trail[level.depth:]
-                            if level.end < length:
-                                level.end_trail.append(level.end)
-                    else:
-                        level.end += added - removed
-                        if adjust_end:
-                            level.end_trail[level.depth] = level.end
-                elif length and level.end == -1 and level.end_trail is None:
-                    # end can be -1 if node was empty or because of empty end trail,
-                    # in this case it was because the node was empty, just move the end
-                    level.end = length - 1
-
-                # adjust level index
-                if index <= level.index:
-                    if index + removed > level.index:
-                        level.index = index + added
-                    else:
-                        level.index += added - removed
+                    level.start_trail[level.depth:] = [level.start]
+
+            # adjust end boundary
+            if adjust_end:
+                if end <= level.end:
+                    level.end += shift
+                    level.end_trail[level.depth] = level.end
+                elif index <= level.end:
+                    # deleted node was on the end trail, truncate
+                    level.end = index + added - 1
+                    del level.end_trail[level.depth:]
+                    if level.end >= 0:
+                        level.end_trail.append(level.end)
+            elif level.end_trail is None:
+                level.end = len(level.node) - 1
+
+            # adjust level index
+            if end <= level.index:
+                level.index += shift
+            elif index <= level.index:
+                # current node was removed, the next one must not be skipped
+                level.index = index if level.backward else index + added - 1
+                level.removed = True
         else:
             # just replace node at i
+            level.node[i] = value
+            if i < 0:
+                i += len(level.node)
             if adjust_start and i == level.start:
                 del level.start_trail[level.depth+1:]
             if adjust_end and i == level.end:
                 del level.end_trail[level.depth+1:]
 
-        level.node[i] = value
-
     def __delitem__(self, i):
         """Delete Node(s) at index or slice. Slice step must be None or 1."""
         if not isinstance(i, slice):
+            i = range(len(self._stack[-1].node))[i]
             i = slice(i, i+1)
         self[i] = ()
 
@@ -1037,6 +1024,7 @@ class Range(Common):
         if index < level.start or index > level.end:
             raise ValueError("index not in range")
         level.index = index
+        level.removed = False
 
     def start(self):
         """The start index of the range in the current interation level's node."""
@@ -1098,6 +1086,7 @@ class Range(Common):
         """Reset iteration to the ancestor node, as if we are just instantiated."""
         del self._stack[1:]
         self._stack[-1].index = -1
+        self._stack[-1].removed = False
 
     def enter(self):
         """Start iterating the current child node.
@@ -1109,7 +1098,7 @@ class Range(Common):
 
         """
         level = self._stack[-1]
-        if level.index != -1:
+        if level.index != -1 and not level.removed:
             self._stack.append(level.child())
         return len(self._stack) - 1
 
@@ -1329,6 +1318,8 @@ class Range(Common):
             self.end = len(node) - 1 if end_trail is None \
                 else min(end_trail[depth], len(node) - 1) if len(end_trail) > depth else -1
             self.index = -1 # so that iteration will start correctly
+            self.backward = False   # the direction of the iteration
+            self.removed = False    # whether the current node was removed
 
         def __iter__(self):
             return self
@@ -1338,6 +1329,7 @@ class Range(Common):
             if index > self.end:
                 raise StopIteration
             self.index = index
+            self.backward = self.removed = False
             return self.node[index]
 
         def reversed(self):
@@ -1345,8 +1337,10 @@ class Range(Common):
             index = self.end if self.index == -1 else self.index - 1
             while index >= self.start:
                 self.index = index
+                self.backward = True
+                self.removed = False
                 yield self.node[index]
-                index -= 1
+                index = self.index - 1
 
         def child(self, index=None):
             """Return a "child" _Level for the current node.
-- 
2.43.0


From 7afc7e15a4c38bac183201450a7a6ac901d113c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 052/109] fix: nodes don't intersect with a range that ends
 before its first node

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 4421e1e..2d19683 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -861,7 +861,7 @@ class Range(Common):
 
         """
         return (not self.start_trail or trail >= self.start_trail[:len(trail)]) \
-           and (not self.end_trail or trail <= self.end_trail[:len(trail)])
+           and (self.end_trail is None or trail <= self.end_trail[:len(trail)])
 
     def intersects(self, node):
         """Return True if the node is partially or completely in our range.
-- 
2.43.0


From 8bc19e11f147d37627d6b906c761b1e280d13bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 053/109] fix: a range of which the end node precedes the start
 node is empty, also deeper in the tree

---
 quickly/node.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 2d19683..d4212b7 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -797,6 +797,9 @@ class Range(Common):
     def __bool__(self):
         """False if the range is empty."""
         level = self._stack[0]
+        if self.start_trail and self.end_trail is not None \
+                and self.end_trail < self.start_trail:
+            return False
         return level.start <= level.end
 
     def __contains__(self, node):
@@ -1148,7 +1151,7 @@ class Range(Common):
 
         """
         self._goto_trail(self.start_trail)
-        if self.start_trail:
+        if self.start_trail and self:
             node = self.node
             if (yield node) is not False and len(node):
                 yield from self.descendants()
-- 
2.43.0


From aba25a6319993861dee3e3af2729db72651c27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 054/109] fix: don't fail walking a range again after its start
 node was removed

---
 quickly/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index d4212b7..b45b346 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1151,7 +1151,8 @@ class Range(Common):
 
         """
         self._goto_trail(self.start_trail)
-        if self.start_trail and self:
+        level = self._stack[-1]
+        if self.start_trail and self and level.index < len(level.node):
             node = self.node
             if (yield node) is not False and len(node):
                 yield from self.descendants()
-- 
2.43.0


From 8be9c4a82475997bfb1795e0670049a489e139ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 055/109] fix: let a copy of a scheme NaN node equal the
 original

---
 quickly/dom/scm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 8538d76..6500848 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -220,6 +220,10 @@ class NaN(Number):
     def read_head(cls, origin):
         return math.nan
 
+    def body_equals(self, other):
+        """Always True, because a nan value never equals itself."""
+        return True
+
 
 class Dot(element.HeadElement):
     """A dot, e.g. in a Scheme pair."""
-- 
2.43.0


From 459ebd31758949fef9199f7230d6154aa34cee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 056/109] fix: keep the children of a node in a range when the
 range's end node after it is removed

---
 quickly/node.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/node.py b/quickly/node.py
index b45b346..7b9acdc 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -941,6 +941,12 @@ class Range(Common):
                     del level.end_trail[level.depth:]
                     if level.end >= 0:
                         level.end_trail.append(level.end)
+                        if not added:
+                            # the node before the deleted node was fully in the range
+                            n = level.node[level.end]
+                            while len(n):
+                                level.end_trail.append(len(n) - 1)
+                                n = n[-1]
             elif level.end_trail is None:
                 level.end = len(level.node) - 1
 
-- 
2.43.0


From 3a42fc7d70390381c7932bc7c0122d90ece29c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 057/109] fix: don't yield nodes of a range of which the end
 node precedes the start node

---
 quickly/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 7b9acdc..42be996 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1156,9 +1156,11 @@ class Range(Common):
         of the just yielded node will not be yielded.
 
         """
+        if not self:
+            return
         self._goto_trail(self.start_trail)
         level = self._stack[-1]
-        if self.start_trail and self and level.index < len(level.node):
+        if self.start_trail and level.index < len(level.node):
             node = self.node
             if (yield node) is not False and len(node):
                 yield from self.descendants()
-- 
2.43.0


From 92885c38fb8aebe1726c70a16812ecf8915f4e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 058/109] fix: don't visit nodes twice when the start node of a
 range is removed during a walk

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index 42be996..f63745e 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1162,7 +1162,7 @@ class Range(Common):
         level = self._stack[-1]
         if self.start_trail and level.index < len(level.node):
             node = self.node
-            if (yield node) is not False and len(node):
+            if (yield node) is not False and len(node) and not level.removed:
                 yield from self.descendants()
         yield from self.forward()
 
-- 
2.43.0


From a4cd18557088ade0cbb0af3175fd0207b29da69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 059/109] fix: forget the direction of an earlier walk when a
 range is reset

---
 quickly/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/node.py b/quickly/node.py
index f63745e..cdae7c5 100644
--- a/quickly/node.py
+++ b/quickly/node.py
@@ -1095,7 +1095,7 @@ class Range(Common):
         """Reset iteration to the ancestor node, as if we are just instantiated."""
         del self._stack[1:]
         self._stack[-1].index = -1
-        self._stack[-1].removed = False
+        self._stack[-1].backward = self._stack[-1].removed = False
 
     def enter(self):
         """Start iterating the current child node.
-- 
2.43.0


From 01e600b63f5c91b613a5cf1617fabef47fd164ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 060/109] fix: convert the pitches in chords when making music
 relative

---
 quickly/relative.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 5d4c6aa..b5e11b5 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -251,8 +251,9 @@ class Abs2rel(edit.Edit):
                     last_pitch = relative_note(n, last_pitch)
                 elif isinstance(n, lily.Chord):
                     stack = [last_pitch]
-                    for note in n / lily.Pitchable:
-                        stack.append(relative_note(note, stack[-1]))
+                    for body in n / lily.ChordBody:
+                        for note in body / lily.Pitchable:
+                            stack.append(relative_note(note, stack[-1]))
                     last_pitch = stack[:2][-1]  # first of chord or old if empty
                 elif isinstance(n, lily.OctaveCheck):
                     # not changed, but next note is relative to this pitch
-- 
2.43.0


From ada659c787c1cbf28bee778231729ed18cc5a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 061/109] fix: follow the pitch language when converting a
 document to relative music

---
 quickly/relative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index b5e11b5..3180464 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -195,7 +195,8 @@ class Abs2rel(edit.Edit):
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-            for n in r.instances_of((lily.MusicList, lily.Relative, lily.ChordMode)):
+            nodes = r.instances_of((lily.Language, lily.Include, lily.MusicList, lily.Relative, lily.ChordMode))
+            for n in processor.follow_language(nodes):
                 if isinstance(n, lily.MusicList):
                     if any(n / lily.Pitchable) and r.in_range():
                         r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
-- 
2.43.0


From 0f9bbd28331fdbd9e85da246a5c89fbcd7f8cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 062/109] fix: do not convert music inside relative music when
 only a part is selected

---
 quickly/relative.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 3180464..66e13fd 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -26,6 +26,16 @@ from .dom import edit, lily, util
 from .pitch import Pitch, PitchProcessor
 
 
+def _in_relative(node):
+    r"""Return True if ``node`` is (in) music inside a ``\relative`` expression."""
+    for n in (node, *node.ancestors()):
+        if isinstance(n, lily.Relative):
+            return True
+        elif isinstance(n, (lily.Absolute, lily.Fixed, lily.Transpose)):
+            return False    # not affected by \relative
+    return False
+
+
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
 
@@ -55,6 +65,8 @@ class Rel2abs(edit.Edit):
     def edit_range(self, r):
         """Do the pitch conversion."""
         node = r.ancestor()
+        if _in_relative(node):
+            return  # the music would still be in \relative
         processor = self.processor or PitchProcessor()
 
         if not node.is_root():
@@ -191,7 +203,10 @@ class Abs2rel(edit.Edit):
 
     def edit_range(self, r):
         """Do the pitch conversion."""
-        processor, first_pitch_absolute = self._get_settings(r.ancestor())
+        node = r.ancestor()
+        if _in_relative(node):
+            return  # already relative
+        processor, first_pitch_absolute = self._get_settings(node)
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
-- 
2.43.0


From 4d18a43a277516829765f94f7268a8be570cd7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 063/109] fix: use the right pitch language when converting
 (from) relative music

Look for the language before the start of the range instead of before its
ancestor, and also follow language changes in music that is not converted.
---
 quickly/relative.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/quickly/relative.py b/quickly/relative.py
index 66e13fd..e679c9b 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -36,6 +36,12 @@ def _in_relative(node):
     return False
 
 
+def _skip_music(processor, node):
+    """Do not change the music in ``node``, only follow the pitch language."""
+    for n in processor.follow_language(node.instances_of((lily.Language, lily.Include))):
+        pass
+
+
 class Rel2abs(edit.Edit):
     r"""Convert ``\relative`` music to absolute.
 
@@ -69,8 +75,9 @@ class Rel2abs(edit.Edit):
             return  # the music would still be in \relative
         processor = self.processor or PitchProcessor()
 
-        if not node.is_root():
-            processor.find_language(node)
+        start = r.start_node() or node
+        if not start.is_root():
+            processor.find_language(start)
 
         first_pitch_absolute = self.first_pitch_absolute
         if first_pitch_absolute is None:
@@ -92,7 +99,7 @@ class Rel2abs(edit.Edit):
                         lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                         lily.Transpose, lily.Transposition, lily.StringTuning,
                     )):
-                    pass
+                    _skip_music(processor, n)
                 else:
                     yield from notes(n)
 
@@ -139,8 +146,11 @@ class Rel2abs(edit.Edit):
         # Do it!
         nodes = r.instances_of((lily.Language, lily.Include, lily.Relative))
         for n in processor.follow_language(nodes):
-            if isinstance(n, lily.Relative) and r.in_range():
-                make_absolute(n)
+            if isinstance(n, lily.Relative):
+                if r.in_range():
+                    make_absolute(n)
+                else:
+                    _skip_music(processor, n)
 
 
 def rel2abs(music):
@@ -206,7 +216,7 @@ class Abs2rel(edit.Edit):
         node = r.ancestor()
         if _in_relative(node):
             return  # already relative
-        processor, first_pitch_absolute = self._get_settings(node)
+        processor, first_pitch_absolute = self._get_settings(r.start_node() or node)
 
         def abs2rel():
             """Find MusicList nodes, and if they contain notes, make relative."""
@@ -219,6 +229,8 @@ class Abs2rel(edit.Edit):
                         abs2rel()
                 elif isinstance(n, lily.ChordMode) and r.in_range():
                     r.node = self._make_relative_internal(r.node, processor, first_pitch_absolute)
+                else:
+                    _skip_music(processor, n)
 
         # Do it!
         abs2rel()
@@ -279,7 +291,7 @@ class Abs2rel(edit.Edit):
                     lily.Inversion, lily.Key, lily.Absolute, lily.Fixed,
                     lily.Relative, lily.Transpose, lily.Transposition, lily.StringTuning,
                 )):
-                    pass
+                    _skip_music(processor, n)
                 else:
                     last_pitch = relative_notes(n, last_pitch)
             return last_pitch
-- 
2.43.0


From 0341fb12b9b5dea933232c83685b03d107fcc61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 064/109] fix: write the start pitch of relative music in the
 language at that point

---
 quickly/relative.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/relative.py b/quickly/relative.py
index e679c9b..9455824 100644
--- a/quickly/relative.py
+++ b/quickly/relative.py
@@ -251,13 +251,18 @@ class Abs2rel(edit.Edit):
     def _make_relative_internal(self, node, processor, first_pitch_absolute):
         """Implementation of make_relative() with settings."""
         rel = lily.Relative()
+        start_language = processor.language
 
         def get_first_pitch(p):
             if self.start_pitch:
                 last_pitch = Pitch(p.octave, 0, 0)
                 if p.note > 3:
                     last_pitch.octave += 1
+                # the start pitch comes before language changes in the music
+                language = processor.language
+                processor.language = start_language
                 rel.append(processor.pitchable(last_pitch, lily.Pitch))
+                processor.language = language
             elif first_pitch_absolute:
                 last_pitch = Pitch(-1, 3, 0)
             else:
-- 
2.43.0


From fdf93c68100091540606fa6a1dc974891c53db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 065/109] fix: don't remove a duration when a comment precedes
 an unpitched note

---
 quickly/rhythm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index ff1104d..400699f 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -69,12 +69,12 @@ class EditRhythm(edit.Edit):
             return False
         elif any(node / lily.Articulations):
             return True
-        n = node.right_sibling()
-        if n:
+        for n in util.skip_comments(node.right_siblings()):
             if isinstance(n, lily.Unpitched):
                 return False
             elif isinstance(n, lily.LyricItem) and n.duration_required:
                 return False
+            break
         return True
 
     def edit_range(self, r):
-- 
2.43.0


From 62bd7f648f87ca281b969f2d1f3a4a4b04214940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 066/109] fix: add the duration to the first note when making
 durations implicit per line

---
 quickly/rhythm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 400699f..6d6e500 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -164,9 +164,10 @@ class RhythmImplicitPerLine(EditRhythm):
                 del node.duration
             elif node.duration_sets_previous:
                 prev = [dur, block]
-        elif block and prev and prev[1] != block:
-            node.duration_scaling = prev[0]
-            prev[1] = block
+        elif block and (not prev or prev[1] != block):
+            dur = prev[0] if prev else lily.previous_duration(node)
+            node.duration_scaling = dur
+            prev = [dur, block]
         return prev
 
 
-- 
2.43.0


From 0f3421913c982bdc2f9afeb38d8ccc6ffc4eb5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 067/109] fix: do not use the duration of \skip for later notes
 when copying rhythm

---
 quickly/rhythm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quickly/rhythm.py b/quickly/rhythm.py
index 6d6e500..29d77f9 100644
--- a/quickly/rhythm.py
+++ b/quickly/rhythm.py
@@ -265,11 +265,13 @@ class CopyRhythm(EditRhythm):
                 prev = None
                 for n in self.durables(r):
                     dur = n.duration_scaling
-                    if dur:
+                    if not dur:
+                        if not prev:
+                            prev = lily.previous_duration(n)
+                        dur = prev
+                    elif n.duration_sets_previous:
                         prev = dur
-                    elif not prev:
-                        prev = lily.previous_duration(n)
-                    yield prev
+                    yield dur
             return list(durations())
         return [n.duration_scaling for n in self.durables(r)]
 
-- 
2.43.0


From 9f83ceadabefa5c1550ecc8c180754da03683dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 068/109] fix: read \include in header and paper blocks

---
 quickly/lang/lilypond.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 567208f..53ec0c6 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -687,6 +687,11 @@ class LilyPondTransform(base.Transform):
         r"""Called for Keyword ``\defaultchild``."""
         return self.factory(lily.DefaultChild, (token,))
 
+    @_keyword(r'\include')
+    def keyword_include(self, token):
+        r"""Called for Keyword ``\include`` (in a header or paper block)."""
+        return self.factory(lily.Include, (token,))
+
 
 class LilyPondAdHocTransform(base.AdHocTransform, LilyPondTransform):
     """LilyPondTransform that does not keep the origin tokens.
-- 
2.43.0


From b18622c9a20792c30f0dabb126127ad436a9b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 069/109] fix: don't interpret file names as urls when
 searching include files

---
 quickly/dom/scope.py | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index 83612a4..ed8bf03 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -23,10 +23,12 @@ The Scope class finds included documents.
 """
 
 
+import os
 import reprlib
-from urllib.parse import urljoin, urlparse
+from urllib.parse import urljoin
 
 import parce.util
+from parce.docio import localfile
 
 import quickly
 
@@ -118,18 +120,20 @@ class Scope:
         The urls are not checked for existence.
 
         """
-        # skip urls already in parent scopes, prevents circular include hangs
-        skip = {self.document().url}
-        skip.update(scope.document().url for scope in self.ancestors())
+        if not url:
+            return []
+        # skip files already in parent scopes, prevents circular include hangs
+        skip = {_filename(self.document().url)}
+        skip.update(_filename(scope.document().url) for scope in self.ancestors())
 
         urls = []
         def add(base_url):
             if base_url:
                 try:
-                    u = urljoin(base_url, url)
+                    u = _join(base_url, url)
                 except ValueError:  # not a valid url
                     return
-                if u not in skip and u not in urls:
+                if _filename(u) not in skip and u not in urls:
                     urls.append(u)
         if self.relative_include:
             add(self.document().url)
@@ -146,13 +150,32 @@ class Scope:
         Returns None if no document can be found. The default implementation
         calls :attr:`factory` with a filename pointing to the local file
         system. OSErrors raised by the factory are suppressed, as well as
-        ValueErrors, which are raised if the filename is invalid, or if the
-        contents of the file can't be decoded.
+        ValueErrors, which are raised if the url is not local, if the filename
+        is invalid, or if the contents of the file can't be decoded.
 
         """
-        filename = urlparse(url).path
         try:
-            return self.factory(filename)
+            return self.factory(localfile(url))
         except (OSError, ValueError):
             pass
 
+
+def _join(base_url, url):
+    """Return the url, resolved against the base url.
+
+    If no url has a scheme, both are file names (which may contain characters
+    that have a special meaning in urls).
+
+    """
+    if '://' in base_url or '://' in url:
+        return urljoin(base_url, url)
+    return os.path.normpath(os.path.join(os.path.dirname(base_url), url))
+
+
+def _filename(url):
+    """Return the local filename of the url, or the url if it is not local."""
+    try:
+        return url and localfile(url)
+    except ValueError:
+        return url
+
-- 
2.43.0


From 26cf47fe8879f50b591f8c9106bad27c6bd12b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 070/109] fix: don't ignore included files that are empty

---
 quickly/dom/scope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scope.py b/quickly/dom/scope.py
index ed8bf03..d766dfd 100644
--- a/quickly/dom/scope.py
+++ b/quickly/dom/scope.py
@@ -93,7 +93,7 @@ class Scope:
         """
         for u in self.urls(url):
             doc = self.get_document(u)
-            if doc:
+            if doc is not None:     # an empty document is also a document
                 return type(self)(doc, self, self.factory, node)
 
     def ancestors(self):
-- 
2.43.0


From 3e77b7af814188e70308c7a26a5743ba002472d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 071/109] fix: use the length of a variable that is the first
 argument of \afterGrace

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 6e0113e..d0930f0 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2378,7 +2378,7 @@ class AfterGrace(element.HeadElement, Music):
 
         """
         for n in self[:end]:
-            if isinstance(n, Music):
+            if isinstance(n, (Music, Reference)):
                 return context.length(n)
         return 0
 
-- 
2.43.0


From 957c97c8f8d3f18ba6d32c817fc748a37c4b3067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 072/109] fix: don't use the end of surrounding music for the
 duration of a selection

---
 quickly/time.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/quickly/time.py b/quickly/time.py
index 5c9273d..4c70943 100644
--- a/quickly/time.py
+++ b/quickly/time.py
@@ -155,6 +155,22 @@ class Time:
                 return node
             node = node.parent
 
+    @staticmethod
+    def _last_inside(node, start_node):
+        """Return the node, or its last musical descendant that does not contain
+        the ``start_node``.
+
+        """
+        ancestors = list(start_node.ancestors())
+        while any(n is node for n in ancestors):
+            for n in reversed(node):
+                if isinstance(n, (lily.Music, lily.Reference)):
+                    node = n
+                    break
+            else:
+                break
+        return node
+
     @staticmethod
     def _preceding_music(node):
         """Return a two-tuple(music, trail).
@@ -272,6 +288,7 @@ class Time:
                     if start_node:
                         n = dom.find_descendant_left(end)
                         if n:
+                            n = self._last_inside(n, start_node)
                             end_node = self._music_child(n)
                             if end_node:
                                 result = self.duration(start_node, end_node)
-- 
2.43.0


From 49d8531b56b8fbc664ffd5b6503f360c379b2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 073/109] fix: put a dot between a name and a number in
 List.set_list()

---
 quickly/dom/lily.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d0930f0..0c45621 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -983,7 +983,8 @@ class List(element.Element):
         for n in nodes:
             self.append(n)
             for n in nodes:
-                self.append(Separator(',' if isinstance(n, Int) else '.'))
+                comma = isinstance(n, Int) and isinstance(self[-1], Int)
+                self.append(Separator(',' if comma else '.'))
                 self.append(n)
 
 
-- 
2.43.0


From fc71c7545fada66e316d569184419a9c1f93ef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 074/109] fix: read the head value of Scheme values in
 create_value_from_element()

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 0c45621..a76ae64 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3465,7 +3465,7 @@ def create_value_from_element(node):
         if len(node) == 1:
             node = node[0]
             if isinstance(node, (scm.Bool, scm.Number, scm.String)):
-                return node.value
+                return node.head
 
 
 def get_num_value(node):
-- 
2.43.0


From 2802879e517f502750313394f8ca4064c03d6e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 075/109] fix: let IdentifierRef.with_name() work

---
 quickly/dom/lily.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index a76ae64..7932cf7 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -1100,7 +1100,7 @@ class IdentifierRef(base.BackslashCommand, Reference):
         simple symbol.
 
         """
-        v = cls()
+        v = cls('')
         v.set_name(name)
         return v
 
-- 
2.43.0


From 26f229cf1465cbb4f2cc236b3c4f01e1f56f1cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 076/109] fix: never write a Float with an exponent

---
 quickly/dom/lily.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index 7932cf7..d94fd31 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -24,6 +24,7 @@ Elements needed for LilyPond expressions.
 
 
 import collections
+import decimal
 import fractions
 import itertools
 import re
@@ -658,6 +659,10 @@ class Float(Number):
     def check_head(cls, head):
         return isinstance(head, (int, float))
 
+    def write_head(self):
+        """Reimplemented to avoid an exponent, which LilyPond doesn't understand."""
+        return format(decimal.Decimal(str(self.head)), 'f')
+
     def signatures(self):
         yield Unit,
 
-- 
2.43.0


From 199d987df0cc4a54aa2d9d75b2ec8b512f2a100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:14 +0000
Subject: [PATCH 077/109] fix: skip comments when getting or setting the value
 of an assignment

---
 quickly/dom/lily.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d94fd31..d04908a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -558,7 +558,11 @@ class HandleAssignments(element.Element):
         node = create_element_from_value(value)
         assignment = self.find_assignment(name)
         if assignment:
-            assignment[-1] = node
+            old = assignment.get_value()
+            if old is None:
+                assignment.append(node)
+            else:
+                old.replace_with(node)
         else:
             self.append(Assignment.with_name(name, node))
 
@@ -1026,7 +1030,9 @@ class Assignment(element.Element):
     def get_value(self):
         """Return the value after the equalsign."""
         for child in self / EqualSign:
-            return child.right_sibling()
+            for n in child.right_siblings():
+                if not isinstance(n, base.Comment):
+                    return n
 
 
 class Identifier(List):
-- 
2.43.0


From 5be97cdb86c8f1d2a97ff2fda2b20e1098457aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 078/109] fix: keep comments when only the value of a variable
 is changed, as documented

---
 quickly/dom/lily.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d04908a..fbbc41b 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -561,6 +561,10 @@ class HandleAssignments(element.Element):
             old = assignment.get_value()
             if old is None:
                 assignment.append(node)
+            elif node is not value and type(old) is type(node) and isinstance(old, (String, Int, Float)):
+                # keeps comments that may follow
+                old.head = node.head
+                old[:] = [*node, *(old ^ Unit)]
             else:
                 old.replace_with(node)
         else:
-- 
2.43.0


From 40e7fc3dfe991ce0842a4da4befbf1fcbaf8eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 079/109] fix: don't lose a modification when setting a head or
 tail value is interrupted

---
 quickly/dom/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 947cf92..f3885a2 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -483,8 +483,8 @@ class Element(Node, metaclass=ElementType):
     @head.setter
     def head(self, head):
         if head != self._head:
-            self._head = head
             self._modified |= HEAD_MODIFIED
+            self._head = head
 
     @property
     def tail(self):
@@ -494,8 +494,8 @@ class Element(Node, metaclass=ElementType):
     @tail.setter
     def tail(self, tail):
         if tail != self._tail:
-            self._tail = tail
             self._modified |= TAIL_MODIFIED
+            self._tail = tail
 
     @classmethod
     def read_head(cls, head_origin):
-- 
2.43.0


From 3cc88070c5172d00100b8f2d7e81728d0b90e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 080/109] fix: don't read comments after a reference to a
 variable as part of it

---
 quickly/lang/lilypond.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 53ec0c6..68d2a6b 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -89,20 +89,27 @@ def reuse(node):
 def split_comments(node):
     """Yield the node, and then the comments that follow it, if any.
 
-    A ``list`` context also contains the comments that follow the list. Those
-    comments do not belong to the list, and the list would not be recognized as
-    a single String, Symbol or Scheme argument.
+    A ``list`` or ``identifier_ref`` context also contains the comments that
+    follow. Those comments do not belong to the list, and the list would not be
+    recognized as a single String, Symbol or Scheme argument.
 
     """
     index = len(node)
     if type(node) is lily.List:
-        while index > 1 and isinstance(node[index-1], base.Comment):
-            index -= 1
+        first = 1
+    elif type(node) is lily.IdentifierRef:
+        first = 0
+    else:
+        first = index
+    while index > first and isinstance(node[index-1], base.Comment):
+        index -= 1
     if index < len(node):
         # copy, don't reparent child nodes of a cached node
-        nodes = [n.copy_with_origin() for n in node]
-        yield nodes[0] if index == 1 else lily.List(*nodes[:index])
-        yield from nodes[index:]
+        node = node.copy_with_origin()
+        comments = node[index:]
+        del node[index:]
+        yield node.pop() if type(node) is lily.List and index == 1 else node
+        yield from comments
     else:
         yield node
 
@@ -1246,11 +1253,14 @@ class MusicBuilder:
         if self._events:
             # after a direction: add as articulation
             # copy, because comments might be moved out of it
-            yield from self.add_articulation(obj.copy_with_origin())
+            obj, *comments = split_comments(obj.copy_with_origin())
+            yield from self.add_articulation(obj)
+            for n in comments:
+                yield from self.comment(n)
         else:
             # toplevel expression
             yield from self.pending_music()
-            yield reuse(obj)
+            yield from split_comments(reuse(obj))
 
     @_context("singleline_comment", "multiline_comment")
     def comment(self, obj):
-- 
2.43.0


From 3bd301007c76c37664cf88f92930c9a76901d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:13 +0000
Subject: [PATCH 081/109] fix: remove the Octave node when the octave is set to
 0, as documented

---
 quickly/dom/lily.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index fbbc41b..d506022 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -243,7 +243,10 @@ class Pitchable(element.TextElement, Music):
     @octave.setter
     def octave(self, num):
         for n in self / Octave:
-            n.head = num
+            if num == 0:
+                self.remove(n)
+            else:
+                n.head = num
             return
         if num != 0:
             self.add(Octave(num))
-- 
2.43.0


From 05c19785f19ae97b992bad1ceaedc67b76d4c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 082/109] fix: don't align indented lines with the child of a
 child

---
 quickly/dom/indent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index b8a59cf..3d1e574 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -161,10 +161,12 @@ class Indenter:
 
         if has_children:
             n = node[0]
-            self.output_node(n, 0)
+            # the index is only meaningful in the node that indents; but a node
+            # without a head starts with its first child
+            self.output_node(n, 0 if indent else -1 if head else index)
             for i, m in enumerate(node[1:], 1):
                 self.add_whitespace(node.concat_space(n, m))
-                self.output_node(m, i)
+                self.output_node(m, i if indent else -1)
                 n = m
 
         if indent:
-- 
2.43.0


From 0989aa816f5d30448ea7b9420bc187644be3ac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 083/109] fix: align indented lines with the actual position of
 the text on the previous line

---
 quickly/dom/indent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 3d1e574..e2bf11c 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -209,14 +209,15 @@ class Indenter:
 
         if self._indenters:
             # add new indent levels
-            new_indent = current_indent = self.current_indent()
+            new_indent = self.current_indent()
             for i in self._indenters:
                 new_indent += self.indent_width
                 pos = i.get_align_pos()
                 if pos is not None:
                     align_indent = self._output[-1].offset(pos)
                     if align_indent <= self.max_align_indent:
-                        new_indent = current_indent + align_indent
+                        # the line may be indented deeper than we are now
+                        new_indent = self._output[-1].indent + align_indent
                 self._indent_stack.append(new_indent)
             self._indenters.clear()
 
-- 
2.43.0


From f80fb9df1a64666da1323d2ec9e843a296a6af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 084/109] fix: don't count space before the first text when
 aligning indented lines

---
 quickly/dom/indent.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index e2bf11c..5bd235c 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -228,11 +228,13 @@ class Indenter:
 
     def output_space(self):
         """*(Internal.)* Output whitespace. Newlines start a new output line."""
-        for c in util.collapse_whitespace(self._whitespace):
-            if c == '\n':
-                self.create_new_block()
-            else:
-                self._output[-1].line.append(c)
+        # no space before the very first text
+        if len(self._output) > 1 or self._output[-1].line:
+            for c in util.collapse_whitespace(self._whitespace):
+                if c == '\n':
+                    self.create_new_block()
+                else:
+                    self._output[-1].line.append(c)
         self._whitespace.clear()
 
     def output_head(self, text, index=-1, override=None):
-- 
2.43.0


From d42e1e6bbd1566d35d86065d727662dbd11fda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:13 +0000
Subject: [PATCH 085/109] fix: don't count whitespace nodes at the start when
 aligning indented lines

---
 quickly/dom/indent.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/quickly/dom/indent.py b/quickly/dom/indent.py
index 5bd235c..ed49d84 100644
--- a/quickly/dom/indent.py
+++ b/quickly/dom/indent.py
@@ -226,10 +226,14 @@ class Indenter:
         self._can_dedent = bool(self._indent_stack)
         self._output.append(_Block(current_indent))
 
+    def has_output(self):
+        """*(Internal.)* Return True if there is already any output."""
+        return len(self._output) > 1 or bool(self._output[-1].line)
+
     def output_space(self):
         """*(Internal.)* Output whitespace. Newlines start a new output line."""
         # no space before the very first text
-        if len(self._output) > 1 or self._output[-1].line:
+        if self.has_output():
             for c in util.collapse_whitespace(self._whitespace):
                 if c == '\n':
                     self.create_new_block()
@@ -248,6 +252,8 @@ class Indenter:
         in stead of the current indent.
 
         """
+        if text.isspace() and not self.has_output():
+            return  # a node can also have only whitespace as its text
         self.output_space()
         self._can_dedent = False
         last_line = self._output[-1].line
-- 
2.43.0


From 0899ab7c1f5b9f5f5e367dd91e6caa11be774556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:03 +0000
Subject: [PATCH 086/109] fix: don't read LaTeX commands that start with
 \lilypond as \lilypond

---
 quickly/lang/latex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/lang/latex.py b/quickly/lang/latex.py
index 46b7641..1ff5ba6 100644
--- a/quickly/lang/latex.py
+++ b/quickly/lang/latex.py
@@ -43,7 +43,7 @@ class Latex(parce.lang.tex.Latex):
 
     @classmethod
     def common(cls):
-        yield r'(\\lilypond)\s*(?:(\{)|(\[))?', bygroup(a.Name.Builtin, a.Delimiter.Brace, a.Delimiter), \
+        yield r'(\\lilypond)(?![^\W\d])\s*(?:(\{)|(\[))?', bygroup(a.Name.Builtin, a.Delimiter.Brace, a.Delimiter), \
             ifgroup(2, lilypond.LilyPond.latex_lilypond_environment('short form'),
                 ifgroup(3, cls.option("lilypond")))
         yield from super().common()
-- 
2.43.0


From 79c17eee94ca41555fb2ba29d66e8c2c9dbc9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 087/109] fix: read an assignment that follows a string or
 symbol

---
 quickly/lang/lilypond.py | 45 ++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 68d2a6b..7fdd76f 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -439,32 +439,33 @@ class LilyPondTransform(base.Transform):
         such as layout, header and paper.
 
         """
-        nodes = iter(nodes)
+        variable = []       # nodes that may turn out to form an assignment
+        equalsign = False
         for n in nodes:
-            if isinstance(n, (lily.List, lily.Symbol, lily.String)):
-                variable = [n]
+            if variable and isinstance(n, base.Comment):
+                variable.append(n)
+            elif equalsign:
+                # gotcha!!
+                first, *rest = variable
+                if isinstance(first, lily.List):
+                    identifier = lily.Identifier(*(c.copy_with_origin() for c in first))
+                else:
+                    identifier = lily.Identifier(first)
+                yield lily.Assignment(identifier, *rest, n)
+                variable = []
                 equalsign = False
-                for n in nodes:
+            elif variable and isinstance(n, lily.EqualSign):
+                variable.append(n)
+                equalsign = True
+            else:
+                # not an assignment, but this node may be the start of one
+                yield from variable
+                variable = []
+                if isinstance(n, (lily.List, lily.Symbol, lily.String)):
                     variable.append(n)
-                    if not isinstance(n, base.Comment):
-                        if equalsign:
-                            # gotcha!!
-                            first, *rest = variable
-                            if isinstance(first, lily.List):
-                                identifier = lily.Identifier(*(c.copy_with_origin() for c in first))
-                            else:
-                                identifier = lily.Identifier(first)
-                            yield lily.Assignment(identifier, *rest)
-                            break
-                        elif isinstance(n, lily.EqualSign):
-                            equalsign = True
-                        else:
-                            yield from variable
-                            break
                 else:
-                    yield from variable
-            else:
-                yield n
+                    yield n
+        yield from variable
 
     def create_block(self, element_class, items, *, music=False, assignments=False):
         r"""Return a block element for the items.
-- 
2.43.0


From a9ab75e8c31a30dc68446f12d496c044a9869e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 088/109] fix: ignore \language commands with an unknown
 language name

find_language() and follow_language() raised a KeyError, so e.g. nothing
could be transposed in a document in which a language was not yet typed
completely. They already ignored \include commands with other names.
---
 quickly/pitch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index fd63359..9aa744a 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -454,7 +454,7 @@ class PitchProcessor:
         from .dom import lily
         for n in node < (lily.Language, lily.Include):
             lang = n.language
-            if lang:
+            if lang in pitch_names:
                 self.language = lang
                 break
 
@@ -464,15 +464,16 @@ class PitchProcessor:
         .. currentmodule:: quickly.dom
 
         Yield every node, except for :class:`lily.Language` or
-        :class:`lily.Include` if a language name is included. Sets the language
-        attribute according to the ``\language`` or ``\include`` command.
+        :class:`lily.Include` if a valid language name is included. Sets the
+        language attribute according to the ``\language`` or ``\include``
+        command.
 
         """
         from .dom import lily
         for n in nodes:
             if isinstance(n, (lily.Language, lily.Include)):
                 lang = n.language
-                if lang:
+                if lang in pitch_names:
                     self.language = lang
                     continue
             yield n
-- 
2.43.0


From 4406a136df468a7540dcea0c42f87ab47cefa1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 089/109] fix: don't write long english pitch names when
 prefer_x is set

With prefer_x only the double sharps have a name that ends with x, all
other notes got their long name (c-natural, c-sharp) instead of the short
one.
---
 quickly/pitch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 9aa744a..def8ca7 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -583,9 +583,11 @@ class PitchProcessor:
             for name in names:
                 if "-" in name:
                     return name
-        for name in names:
-            if "-" not in name and self.prefer_x == name.endswith('x'):
+        subset = [name for name in names if "-" not in name]
+        for name in subset:
+            if self.prefer_x == name.endswith('x'):
                 return name
+        return subset[0]
 
     @_suitable("espanol")
     @_suitable("español")
-- 
2.43.0


From 826a52ee7dd79554bb4f4dbaabf9760310d50b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 090/109] fix: the prefer_classic setting was inverted for
 norsk

---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index def8ca7..14b437f 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -615,7 +615,7 @@ class PitchProcessor:
                 return subset[0]
             names = subset
         for name in names:
-            if self.prefer_classic == ('ee' in name or 'ae' in name):
+            if self.prefer_classic == ('ee' not in name and 'ae' not in name):
                 return name
 
     @_suitable("suomi")
-- 
2.43.0


From 1605318355203b9a2b626dc97177a0c643062c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 091/109] =?UTF-8?q?fix:=20use=20the=20same=20pitch=20names?=
 =?UTF-8?q?=20for=20catal=C3=A0=20as=20for=20catalan?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 quickly/pitch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 14b437f..62f7375 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -566,6 +566,7 @@ class PitchProcessor:
                 return name
 
     @_suitable("catalan")
+    @_suitable("català")
     def _catalan(self, names):
         for name in names:
             if self.prefer_deprecated == name.endswith('s'):
-- 
2.43.0


From 4e852554b6fb57925d3cfda231c62042db6ba058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:20 +0000
Subject: [PATCH 092/109] fix: recognize short english pitch names in
 distill_preferences

The note was looked at instead of the alteration.
---
 quickly/pitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 62f7375..983d144 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -517,7 +517,7 @@ class PitchProcessor:
                 elif language == "english":
                     if '-' in name:
                         prefer_long = True
-                    elif not prefer_long and pnames[name][1] in {-1, -0.5, 0.5, 1}:
+                    elif not prefer_long and pnames[name][2] in {-1, -0.5, 0.5, 1}:
                         prefer_long = False
                 elif language == "français":
                     if 'é' in name:
-- 
2.43.0


From fb3f20cec8fb257449cd4f1587dc592cb3405f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 093/109] fix: write_node() failed when the node has a pitch
 name in another language

So using two pitch processors to translate pitch names, like the
documentation recommends, only worked for names that both languages have.
---
 quickly/pitch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quickly/pitch.py b/quickly/pitch.py
index 983d144..809dfb6 100644
--- a/quickly/pitch.py
+++ b/quickly/pitch.py
@@ -380,8 +380,11 @@ class PitchProcessor:
              ╰╴<lily.Octave 3>
 
         """
-        p = self.pitch(node.head)
-        if (p.note, p.alter) == (pitch.note, pitch.alter):
+        try:
+            p = self.pitch(node.head)
+        except KeyError:
+            p = None    # the node has a name in another language
+        if p and (p.note, p.alter) == (pitch.note, pitch.alter):
             # keep the head value, even if there are multiple pitch names
             # in the current language (that can differ in octave)
             node.octave = pitch.octave - p.octave
-- 
2.43.0


From fb7b3fa69dae2d11f7ea1a6f64bf03ea1272b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 094/109] fix: accept any iterable as flats for
 KeySignature.pitch()

The documentation says it is a list, but a list raised a TypeError.
---
 quickly/key.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/key.py b/quickly/key.py
index ec6ccd8..bca4c6f 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -323,7 +323,7 @@ class KeySignature:
         """
         if flats is None:
             flats = self.flats
-        return self._midi_reader(flats)(key)
+        return self._midi_reader(tuple(flats))(key)
 
     @cached_method
     def _midi_reader(self, flats):
-- 
2.43.0


From a2b8897e846acfa3f1676fbb6d8b0587c2d9f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 095/109] fix: MIDI keys were a semitone or octave off in some
 keys

In the key of B double sharp the altered notes were a semitone too high, and
in keys with quarter tones notes just above B or below C could get the wrong
octave.
---
 quickly/key.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quickly/key.py b/quickly/key.py
index bca4c6f..e14f73a 100644
--- a/quickly/key.py
+++ b/quickly/key.py
@@ -166,7 +166,7 @@ def chromatic_scale(note=0, alter=0, scale=None, flats=None):
 
     alter += scale[note] - scale[0]
     notes = list(transpose(chrom_scale()))
-    semitones = int(alter * 2)
+    semitones = int(alter * 2 // 1) % 12
     return notes[-semitones:] + notes[:-semitones]  # rotate so C-based pitch is at start
 
 
@@ -333,11 +333,11 @@ class KeySignature:
         steps = list(chromatic_scale(self.note, self.alter, self.scale, flats))
         # fill in the base tones from the scale (note, alter)
         for note, (base, alter) in enumerate(zip(self.scale, self.accidentals)):
-            step = int((base + alter) * 2) % 12
+            step = int((base + alter) * 2 // 1) % 12
             steps[step] = (note, alter)
         # add octave
-        octave = lambda p: -1 if p > 6 else 1 if p < 0 else 0
-        steps = [(octave(note + alter) - 5, note, alter) for note, alter in steps]
+        octave = lambda note, alter: -int((self.scale[note] + alter) // 6)
+        steps = [(octave(note, alter) - 5, note, alter) for note, alter in steps]
 
         def from_midi(key):
             """Return a Pitch from the MIDI key number."""
-- 
2.43.0


From 53cf4078f481795524f4d02731594d8bcb14631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 096/109] fix: read custom key modes like LilyPond has them

From a list of (note . alteration) pairs only the numbers in the last pair
were used as the alterations of the key signature.
---
 quickly/dom/lily.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index d506022..a47083a 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -2191,13 +2191,38 @@ class Key(element.HeadElement, Music):
                         n, scope = result
                         continue
                 elif isinstance(n, Scheme):
-                    for n in n // scm.List:
-                        mode = [n.head for n in n / scm.Number]
+                    mode = self._get_alterations(n)
                 break
         if pitch and mode:
             from ..key import KeySignature
             return KeySignature(pitch.note, pitch.alter, mode)
 
+    def _get_alterations(self, node):
+        """Return the list of alterations in a Scheme node.
+
+        This can be a list of 7 alterations, or LilyPond's list of 7 pairs
+        ``(note . alteration)``. Returns None if there is no such list.
+
+        """
+        for mode in node // scm.List:
+            pairs = list(mode / scm.List)
+            if not pairs:
+                return [n.head for n in mode / scm.Number]
+            alters = {}
+            for pair in pairs:
+                values = [n.head if isinstance(n, scm.Number) else self._alterations.get(n.head)
+                            for n in pair // (scm.Number, scm.Identifier)]
+                if len(values) == 2:
+                    alters[values[0]] = values[1]
+            mode = [alters.get(note) for note in range(7)]
+            return None if None in mode else mode
+
+    _alterations = {
+        'DOUBLE-FLAT': -1, 'THREE-Q-FLAT': -.75, 'FLAT': -.5, 'SEMI-FLAT': -.25,
+        'NATURAL': 0,
+        'SEMI-SHARP': .25, 'SHARP': .5, 'THREE-Q-SHARP': .75, 'DOUBLE-SHARP': 1,
+    }
+
     def signatures(self):
         yield Pitchable, (Mode, IdentifierRef, Scheme)
 
-- 
2.43.0


From f2300a726e6a2255911b0db0e0a50970d8fbfe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:21 +0000
Subject: [PATCH 097/109] fix: keep octave checks right when the start pitch of
 relative music is transposed

---
 quickly/transpose.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index c96d504..56792be 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -252,8 +252,6 @@ class Transpose(edit.Edit):
                     with processor.process(start_note) as p:
                         self.transposer.transpose(p)
                     last_pitch.transposed = p
-                    last_pitch.octave -= self.transposer.octave
-                    last_pitch.transposed.octave -= self.transposer.octave
             else:
                 last_pitch = Pitch(-1, 3, 0) if relative_first_pitch_absolute else Pitch(0, 0, 0)
 
-- 
2.43.0


From c9fc81c4391d0d24d621d0a1fae136ab1a17bcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:11 +0000
Subject: [PATCH 098/109] fix: dump a node that has next siblings as one Python
 expression

---
 quickly/dom/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index f3885a2..92edbd9 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -307,7 +307,7 @@ class Element(Node, metaclass=ElementType):
                         yield repr(node.head)
                         if len(node):
                             yield ','
-                    text = '),\n' if node.parent and not node.is_last() else ')'
+                    text = '),\n' if node is not self and not node.is_last() else ')'
                     if len(node):
                         yield '\n'
                         stack.append((gen, text))
-- 
2.43.0


From 3586bd93b4111acd4cb1d59bb68c7e69fac02211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 099/109] fix: let the fret diagram markup helpers build their
 nodes

---
 quickly/dom/markup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 656fcda..1581e54 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -111,15 +111,15 @@ def tied_lyric(text):
 
 
 def fret_diagram(s):
-    return c_('fret-diagram', _s(scm.String(s)))
+    return _c('fret-diagram', _s(scm.String(s)))
 
 
 def fret_diagram_terse(s):
-    return c_('fret-diagram-terse', _s(scm.String(s)))
+    return _c('fret-diagram-terse', _s(scm.String(s)))
 
 
 def fret_diagram_verbose(element):
-    return c_('fret-diagram-verbose', element)
+    return _c('fret-diagram-verbose', element)
 
 
 def fromproperty(name):
-- 
2.43.0


From bd5acc0900c13e7029306792b1f1502dba322f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 100/109] fix: build a link with the with_link markup helper

---
 quickly/dom/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 1581e54..9c79047 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -242,7 +242,7 @@ def translate_scaled(x, y, *args):
 
 
 def with_link(label, *args):
-    return _c('with-color', _sym(label), _create_list(args))
+    return _c('with-link', _sym(label), _create_list(args))
 
 
 def with_url(url, *args):
-- 
2.43.0


From f3ddd7a3ce6b485c49f92dc8f6e58d4370ba455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 101/109] fix: let the woodwind diagram markup helper use its
 instrument

---
 quickly/dom/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/markup.py b/quickly/dom/markup.py
index 9c79047..f7d5146 100644
--- a/quickly/dom/markup.py
+++ b/quickly/dom/markup.py
@@ -250,7 +250,7 @@ def with_url(url, *args):
 
 
 def woodwind_diagram(instrument, scheme_commands):
-    return _c('woodwind-diagram', _sym(label), scheme_commands)
+    return _c('woodwind-diagram', _sym(instrument), scheme_commands)
 
 
 def draw_squiggle_line(sqlength, x, y, eqend):
-- 
2.43.0


From 171d7510ba29379d1e9cab7fff30f4117c45de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:19 +0000
Subject: [PATCH 102/109] fix: read markup commands that have five arguments

---
 quickly/lang/lilypond.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/quickly/lang/lilypond.py b/quickly/lang/lilypond.py
index 7fdd76f..4650397 100644
--- a/quickly/lang/lilypond.py
+++ b/quickly/lang/lilypond.py
@@ -46,7 +46,7 @@ import itertools
 from parce import lexicon
 import parce.lang.lilypond
 import parce.action as a
-from parce.rule import ifarg, bygroup
+from parce.rule import ifarg, bygroup, call, select, MATCH
 from parce.util import Dispatcher
 from quickly.dom import base, element, htm, lily, scm, tex, util
 
@@ -59,6 +59,15 @@ class LilyPond(parce.lang.lilypond.LilyPond):
         from .scheme import Scheme
         return Scheme.scheme
 
+    @classmethod
+    def _markup_rules(cls, *extra_target):
+        r"""Reimplemented to support markup commands that have five arguments,
+        such as ``\fill-with-pattern``."""
+        for rule in super()._markup_rules(*extra_target):
+            if extra_target and rule[0] == parce.lang.lilypond.RE_LILYPOND_COMMAND:
+                rule = *rule[:-1], select(call(cls.get_markup_argument_count, MATCH[1]), -1, 0, 1, 2, 3, 4)
+            yield rule
+
     @lexicon
     def html_lilypond_tag(cls):
         """LilyPond from inside Html, contents of a <lilypond> </lilypond> tag."""
-- 
2.43.0


From 6508a9e5419753310a450a3f2b345cba198c0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 103/109] fix: use the given entity resolver for nested
 elements in to_plaintext()

---
 quickly/dom/htm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/htm.py b/quickly/dom/htm.py
index ed385da..f806da6 100644
--- a/quickly/dom/htm.py
+++ b/quickly/dom/htm.py
@@ -183,7 +183,7 @@ class Element(element.Element):
 
         def to_text(obj):
             if isinstance(obj, Element):
-                return obj.to_plaintext()
+                return obj.to_plaintext(entity_resolver)
             elif isinstance(obj, Text):
                 return obj.head
             elif isinstance(obj, EntityRef):
-- 
2.43.0


From e2299edfb3c942a4d67cc47b6922c85701eb9b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:41 +0000
Subject: [PATCH 104/109] fix: write any not-a-number value as +nan.0

---
 quickly/dom/scm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quickly/dom/scm.py b/quickly/dom/scm.py
index 6500848..5461377 100644
--- a/quickly/dom/scm.py
+++ b/quickly/dom/scm.py
@@ -168,7 +168,7 @@ class Number(element.TextElement):
             s = '+inf.0'
         elif v == -math.inf:
             s = '-inf.0'
-        elif v is math.nan:
+        elif v != v:
             s = '+nan.0'
         elif isinstance(v, fractions.Fraction):
             fmt = self._fmt[self.radix]
-- 
2.43.0


From 700c887b812eb8b4d243640fe6ee2f89bace37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:05 +0000
Subject: [PATCH 105/109] fix: write existing nodes that were moved back in the
 tree at their new place

---
 quickly/dom/element.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quickly/dom/element.py b/quickly/dom/element.py
index 92edbd9..9270e93 100644
--- a/quickly/dom/element.py
+++ b/quickly/dom/element.py
@@ -638,13 +638,14 @@ class Element(Node, metaclass=ElementType):
         first = True
         changed = False     # True if the previous text is new or modified
         new = False         # True if the previous text is new
+        last = 0            # where the last existing text ends
         for point in self.points():
             space = collapse_whitespace((insert_after, point.space_before))
             if first and point.pos is not None:
                 space = ''  # what's before our first text is not ours
             first = False
-            if point.pos is None:
-                # new element
+            if point.pos is None or point.pos < last:
+                # new element, or an existing one that was moved back
                 text = point.text()
                 if text:
                     yield pos, pos, space + text
@@ -677,7 +678,7 @@ class Element(Node, metaclass=ElementType):
                 # modified?
                 if point.modified:
                     yield point.pos, point.end, point.text()
-                pos = point.end
+                pos = last = point.end
                 insert_after = point.space_after
                 changed = point.modified
                 new = False
-- 
2.43.0


From 78d2e67b5b895063a6b82eaa4f885018aa0bb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:25 +0000
Subject: [PATCH 106/109] fix: keep a LaTeX command apart from a text that
 would continue its name

---
 quickly/dom/tex.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/quickly/dom/tex.py b/quickly/dom/tex.py
index d3f34ff..0619cf8 100644
--- a/quickly/dom/tex.py
+++ b/quickly/dom/tex.py
@@ -33,27 +33,39 @@ command or an environment.
 
 """
 
+import re
+
 from . import base, element
 
 
-class Document(base.Document):
+class _Contents:
+    """Mixin class for elements that contain text and commands."""
+    def concat_space(self, node, next_node):
+        """Keep a command apart from a text that would continue its name."""
+        if (isinstance(node, Command) and isinstance(next_node, Text)
+                and not len(node) and re.match(r'[^\W\d]', next_node.head)):
+            return ' '
+        return super().concat_space(node, next_node)
+
+
+class Document(_Contents, base.Document):
     """A full LaTeX source document."""
     space_between = ''
 
 
-class Option(element.BlockElement):
+class Option(_Contents, element.BlockElement):
     """An option block: ``[`` ... ``]``."""
     head = '['
     tail = ']'
 
 
-class Brace(element.BlockElement):
+class Brace(_Contents, element.BlockElement):
     """A braced expression: ``{`` ... ``}``."""
     head = '{'
     tail = '}'
 
 
-class Math(element.BlockElement):
+class Math(_Contents, element.BlockElement):
     """Abstract Math block. Subclasses define the start/end delimiters."""
 
 
@@ -94,7 +106,7 @@ class Text(element.TextElement):
     """Common text."""
 
 
-class Environment(element.Element):
+class Environment(_Contents, element.Element):
     """A LaTeX environment.
 
     Starts with a :class:`Command` ``\\begin``, with zero or more
-- 
2.43.0


From 79b7af701b5348d7ce5696391f02d32d36fd5dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 107/109] fix: scale durations by a fraction that is written as
 a quoted Scheme pair

---
 quickly/dom/lily.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quickly/dom/lily.py b/quickly/dom/lily.py
index a47083a..8a498fa 100644
--- a/quickly/dom/lily.py
+++ b/quickly/dom/lily.py
@@ -3521,6 +3521,12 @@ def get_num_value(node):
         if len(node) == 1:
             if isinstance(node[0], scm.Number):
                 return node[0].head
+            # a fraction can also be written as a quoted pair: #'(2 . 3)
+            for pair in node[0] / scm.List:
+                values = [n.head for n in pair / scm.Number
+                          if isinstance(n.head, (int, fractions.Fraction))]
+                if len(pair) == 3 and len(values) == 2 and isinstance(pair[1], scm.Dot) and values[1]:
+                    return fractions.Fraction(*values)
 
 
 def get_int_value(node):
-- 
2.43.0


From 3f0c5154e629579fcf008e7001d93af9290817b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:36 +0000
Subject: [PATCH 108/109] fix: transpose a selection in \relative music as
 relative pitches

When a selection was inside a \relative expression, the edited range started
at the selected list, so its pitches were transposed as if they were absolute.
---
 quickly/transpose.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 56792be..39279f7 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -123,6 +123,9 @@ class Transpose(edit.Edit):
     You may change these attributes after instantiation.
 
     """
+    #: \relative, \fixed and the language before the selection are needed
+    range_from_root = True
+
     def __init__(self, transposer, processor=None, relative_first_pitch_absolute=None):
         #: The :class:`Transposer` that can transpose pitches.
         self.transposer = transposer
-- 
2.43.0


From 693532590fd9245ef4d20c40f0cd3cae5f1503ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:34 +0000
Subject: [PATCH 109/109] fix: transpose a node in \relative music as relative
 pitches

Just like with a selection, the pitches before the node are needed to know the
pitches in the node.
---
 quickly/transpose.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quickly/transpose.py b/quickly/transpose.py
index 39279f7..edd171a 100644
--- a/quickly/transpose.py
+++ b/quickly/transpose.py
@@ -23,6 +23,7 @@ Transpose pitches.
 """
 
 from .dom import edit, lily, util
+from .node import Range
 from .pitch import Pitch, PitchProcessor
 
 
@@ -138,6 +139,15 @@ class Transpose(edit.Edit):
     def edit_range(self, r):
         """Perform the transposing on the specified range."""
         node = r.ancestor()
+        if any(isinstance(n, lily.Relative) for n in node.ancestors()):
+            # the preceding pitches are needed as well
+            start, end = r.start_node() or node, r.end_node() or node
+            if r.end_trail is None:
+                while len(end):
+                    end = end[-1]
+            r = Range.from_nodes(start, end, True)
+            node = r.ancestor()
+
         processor = self.processor or PitchProcessor()
 
         if not node.is_root():
-- 
2.43.0

