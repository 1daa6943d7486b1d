"""C05: writing back a modified model changes the text exactly where it was modified."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, texts

from fractions import Fraction as F
import random

import quickly.dom.util
from quickly.dom import base, htm, lily, read, scm, tex

NEW_MUSIC = ["d", "e'4", "r8", "<c e g>2", "{ c d }", "<< { c } { e } >>", "\\key c \\major", "\\tuplet 3/2 { c8 d e }", "c4-.",
             "f8.\\p(", "\\clef \"bass\"", "s1", "%{ new %}", "\\relative c' { c d }", "|", "\\time 3/4", "a\\rest", "R1*2",
             "\\override X.y = #1", "g4^\"text\"", "#'foo", "\\markup \\bold hi", "\\grace c16", "\\tempo 4 = 60", "\\bar \"|.\""]
NEW_TOP = ["{ c d }", "x = { e f }", "\\markup { a b }", "\\header { title = \"x\" }", "\\score { { c } \\layout { } }", "% new\n",
           "\\version \"2.24.0\"", "#(define z 1)", "\\paper { indent = 0 }", "\\include \"b.ly\"", "\\relative { c }", "y = #'(1 2)",
           "\\new Staff { a }", "<< { c } >>"]
NEW_SCHEME = ["a", "1", "(b c)", "'x", "\"str\"", "#t", "1/2", "#(1 2)", "; new\n", "(a . b)"]
NEW_HTML = ["<b>x</b>", "<p class=\"q\">t</p>", "<br/>", "word", "<lilypond>{ g }</lilypond>", "<!-- new -->", "&amp;",
            "<lilypond: a b />"]
MATH = ["math", "displaymath", "equation", "eqnarray", "equation*", "eqnarray*"]
NEW_LATEX = ["\\foo{bar}", "\\LaTeX", "$z$", "\\lilypond{ g }", "\\begin{lilypond} a \\end{lilypond}", "{x}", "\\foo[o]{x}"]

CONTAINERS = (lily.MusicList, lily.SimultaneousMusicList)
DURABLE = (lily.Durable,)


def alternatives(n):
    """Yield other values for the head of a node, and how to make them."""
    t = type(n)
    if t in (lily.Note, lily.Pitch):
        return ["c", "d", "e", "f", "g", "a"]
    if t is lily.Octave:
        return [1, 2, -1, -2]
    if t is lily.Duration:
        if not isinstance(n.parent, (lily.Music, lily.Tempo)):
            return [F(1, 8), F(1, 16), F(1, 32)]    # of a tremolo
        return [F(1), F(1, 2), F(1, 4), F(3, 8), F(1, 8), F(7, 16), F(2)]
    if t is lily.DurationScaling:
        return [F(1, 2), F(2, 3), F(3)]
    if t is lily.OctCheck:
        return [0, 1, -1]
    if t is lily.Rest:
        return None
    if t in (lily.SinglelineComment, lily.MultilineComment, scm.SinglelineComment, scm.MultilineComment, htm.Comment):
        return ["changed", "other words "]
    if t is lily.String or t is scm.String:
        return ["new", "x \"quoted\" y", "", "back\\slash"]
    if t is lily.Fingering:
        return ["1", "5"]
    if t is lily.Dynamic:
        return ["f", "mp", "ff"]
    if t is lily.MarkupWord:
        return ["word", "other"]
    if t is scm.Identifier:
        return ["ident", "other-ident"]
    if t is scm.Number:
        return [5, 77, -3]
    if t is scm.Bool:
        return [True, False]
    if t is htm.Text:
        return ["text", "a b \n c", "xyz"]     # (special characters become separate nodes)
    if t is tex.Text:
        # (a text may otherwise be an argument or part of the name of a command)
        return [" text ", "\nnew words\n"]
    if t is htm.AttrName:
        return ["id", "width"]
    if t is tex.Command:
        return None
    return None


class Round:
    """The modifications of one round on one model."""

    def __init__(self, model, run, lang):
        self.m, self.run, self.lang = model, run, lang
        self.touched = set()        # id of nodes whose head was changed
        self.undo = []              # inverse operations, in terms of paths

    def path(self, n):
        out = []
        while n is not self.m:
            out.append(n.parent.index(n))
            n = n.parent
        return out[::-1]

    def target(self, sel, pred):
        nodes = [n for n in self.m.descendants() if pred(n)]
        if pred(self.m):
            nodes.insert(0, self.m)
        return nodes[sel % len(nodes)] if nodes else None

    def value(self, a, b):
        n = self.target(a, lambda n: alternatives(n) is not None and getattr(n, "head_origin", ()))
        if n is None:
            return
        alts = alternatives(n)
        new = alts[b % len(alts)]
        if type(n.head) is type(new) or isinstance(new, F):
            if new == n.head:
                return
        self.undo.append(("value", self.path(n), n.head))
        n.head = new
        self.touched.add(id(n))
        self.run.count("values_changed")

    def new_node(self, container, b):
        if isinstance(container, lily.Document):
            return read.lily(NEW_TOP[b % len(NEW_TOP)])
        if isinstance(container, CONTAINERS):
            return read.lily(NEW_MUSIC[b % len(NEW_MUSIC)])
        if isinstance(container, lily.ChordBody):
            return lily.Note("cdefgab"[b % 7])
        if isinstance(container, (scm.List, scm.Document)):
            return read.scm(NEW_SCHEME[b % len(NEW_SCHEME)])
        if isinstance(container, (htm.Document, htm.Element)):
            return read.htm(NEW_HTML[b % len(NEW_HTML)])
        if isinstance(container, (tex.Document, tex.Environment)):
            return read.tex(NEW_LATEX[b % len(NEW_LATEX)])

    def container(self, a):
        return self.target(a, is_container)

    def insert(self, a, b, c):
        n = self.container(a)
        if n is None:
            return
        new = self.new_node(n, b)
        lo, hi = span(n)
        if hi < lo:
            return
        i = lo + c % (hi - lo + 1)
        n.insert(i, new)
        if not fits(n, i) or not fits(n, i + 1):
            del n[i]
            self.run.count("not_applicable")
            return
        self.undo.append(("remove", self.path(new)))
        self.run.count("nodes_inserted")

    def remove(self, a, c):
        n = self.container(a)
        if n is None:
            return
        lo, hi = span(n)
        if hi <= lo:
            return
        i = lo + c % (hi - lo)
        child = n[i]
        path = self.path(child)
        del n[i]
        if not fits(n, i):
            n.insert(i, child)
            self.run.count("not_applicable")
            return
        self.undo.append(("insert", path, child.copy()))
        self.run.count("nodes_removed")

    def replace(self, a, b, c):
        n = self.container(a)
        if n is None:
            return
        lo, hi = span(n)
        if hi <= lo:
            return
        i = lo + c % (hi - lo)
        new = self.new_node(n, b)
        child = n[i]
        path = self.path(child)
        n[i] = new
        if not fits(n, i) or not fits(n, i + 1):
            n[i] = child
            self.run.count("not_applicable")
            return
        self.undo.append(("replace", path, child.copy()))
        self.run.count("nodes_replaced")

    def move(self, a, c, d, e):
        """Move a piece of music to another place."""
        n = self.container(a)
        if n is None or not isinstance(n, CONTAINERS) or not len(n):
            return
        i = c % len(n)
        child = n[i]
        if isinstance(child, (lily.SinglelineComment, lily.VoiceSeparator)):
            return
        inside = set(map(id, child.descendants())) | {id(child)}
        to = self.target(d, lambda x: type(x) in CONTAINERS and is_container(x) and id(x) not in inside)
        p = self.path(child)
        new = child.copy() if not e % 2 else child
        del n[i]
        if not fits(n, i):
            n.insert(i, child)
            return
        j = e // 2 % (len(to) + 1)
        to.insert(j, new)
        if not fits(to, j) or not fits(to, j + 1):
            del to[j]
            n.insert(i, child)
            return
        if new is child and (n is not to or j != i):
            # a moved node may not claim its old place in the text
            del to[j]
            new = child.copy()
            to.insert(j, new)
        self.undo.append(("insert", p, child.copy()))
        self.undo.append(("remove", self.path(new)))
        self.run.count("nodes_moved")

    def property(self, a, b):
        """Use the high level properties of notes."""
        n = self.target(a, lambda n: isinstance(n, (lily.Note, lily.Rest, lily.Chord)) and not isinstance(n.parent, lily.Chord)
                        and type(n.parent) in CONTAINERS)
        if n is None or b % 3 == 2 and not isinstance(n, lily.Note):
            return
        if any(isinstance(c, base.Comment) for c in n):
            return      # a comment before the duration
        old = n.copy()
        p = self.path(n)
        if b % 3 == 0:
            n.duration = [F(1), F(3, 8), F(1, 16)][b // 3 % 3]
        elif b % 3 == 1:
            n.duration = None
            if not fits(n.parent, n.parent.index(n) + 1):
                n.parent[p[-1]] = old
                self.run.count("not_applicable")
                self.undo.append(("replace", p, old.copy()))
                return
        else:
            n.octave = [0, 1, -2, 3][b // 3 % 4]
        for x in [n, *n.descendants()]:
            self.touched.add(id(x))
        self.undo.append(("replace", p, old))
        self.run.count("properties_set")


def is_container(n):
    if isinstance(n, lily.Music) and n.parent is not None and any(
            isinstance(p, lily.InputMode) and not isinstance(p, lily.NoteMode) for p in n.ancestors()):
        return False    # chords, drums, lyrics and figures use other words
    return isinstance(n, (lily.Document, scm.List, scm.Document, htm.Document, tex.Document)) or type(n) in CONTAINERS \
        or type(n) is lily.ChordBody or type(n) in (htm.Element, tex.Environment)


def span(n):
    """Slice of children that may be inserted or removed."""
    if isinstance(n, htm.Element):
        # between the tags
        if len(n) > 1 and isinstance(n[-1], htm.CloseTag) and not any(
                isinstance(x, (lily.Document, lily.MusicList, base.Unknown)) for x in n):
            if n[0][0].head not in ("lilypond", "lilypondfile", "musicxmlfile"):
                return 1, len(n) - 1
        return 1, 0
    if isinstance(n, tex.Environment):
        if len(n) > 1 and isinstance(n[0], tex.Command) and isinstance(n[-1], tex.Command) and not any(
                isinstance(x, lily.Document) for x in n) and not any(
                # in math everything is a text
                x.head in MATH for x in n[0] / tex.EnvironmentName):
            return 1, len(n) - 1
        return 1, 0
    return 0, len(n)


def fits(n, i):
    """False when writing the children before and after index i next to each other can't read back as they are.

    This is a limitation of the languages, not of the library."""
    prev = nxt = None
    for c in n[:i][::-1]:
        prev = c
        if not isinstance(c, base.Comment):
            break
    after = []
    for c in n[i:]:
        nxt = c
        if not isinstance(c, base.Comment):
            break
    if isinstance(n, (htm.Document, htm.Element)):
        a = n[i - 1] if i else None
        b = n[i] if i < len(n) else None
        # adjacent texts are one text
        return not (isinstance(a, htm.Text) and isinstance(b, htm.Text))
    if isinstance(n, (tex.Document, tex.Environment)):
        a = n[i - 1] if i else None
        b = n[i] if i < len(n) else None
        if isinstance(a, tex.Command) and isinstance(b, (tex.Brace, tex.Option)):
            return False
        if isinstance(a, tex.Text) and isinstance(b, tex.Text):
            return False
        # a text may begin like an argument or a continued command name
        if isinstance(a, tex.Command) and isinstance(b, tex.Text) and (b.head[:1].isalpha() or b.head.lstrip()[:1] in "[{"):
            return False
        return True
    if isinstance(n, (scm.List, scm.Document)):
        return not any(isinstance(c, scm.Dot) for c in n)
    if isinstance(n, lily.Document):
        # other things may be appended to, or mean something for, the next statement
        return not (standalone(prev) is False or standalone(nxt) is False)
    if isinstance(prev, lily.Durable) and isinstance(nxt, lily.Unpitched) and not any(
            isinstance(c, lily.Duration) for c in prev):
        return False
    if prev is not None and open_ended(prev):
        return False
    if nxt is not None and open_ended(nxt):
        return False        # (may attach to what's before)
    return True


def standalone(n):
    if n is None or isinstance(n, base.Comment):
        return None
    return isinstance(n, (lily.MusicList, lily.SimultaneousMusicList, lily.Assignment, lily.Header, lily.Paper, lily.Layout,
                          lily.Score, lily.Book, lily.Version, lily.Include, lily.Relative, lily.Markup))


def open_ended(n):
    """True when the last argument is missing or might continue."""
    if isinstance(n, (lily.Tuplet, lily.Times, lily.Relative, lily.Repeat, lily.Fixed, lily.Absolute, lily.Transpose,
                      lily.Grace, lily.Acciaccatura, lily.Appoggiatura)) and not (
            len(n) and isinstance(n[-1], lily.Music) and not open_ended(n[-1])):
        return True
    return not isinstance(n, (lily.Note, lily.Rest, lily.Chord, lily.MusicList, lily.SimultaneousMusicList, lily.Skip,
                              lily.Unpitched, lily.PipeSymbol, lily.Key, lily.Clef, lily.Time, lily.Tuplet, lily.Relative,
                              lily.VoiceSeparator, lily.PitchedRest, lily.Space, lily.MultiMeasureRest, lily.Q, lily.Times,
                              lily.Grace, lily.Acciaccatura, lily.Appoggiatura, lily.Repeat, lily.Bar, base.Comment, lily.Partial,
                              lily.Fixed, lily.Absolute, lily.Transpose, lily.Override))


def normal(d, lang):
    """The plain data of a model, insensitive to what can't be kept apart."""
    out = []
    for item in d:
        if item[1:3] == ("Octave", "int:0"):
            continue        # writes nothing
        if item[1] == "Text" and isinstance(item[2], str):
            item = item[:2] + (" ".join(item[2].split()),) + item[3:]
            if lang == "latex" and not item[2]:
                continue
        elif item[1] in ("SinglelineComment", "MultilineComment", "Comment") and isinstance(item[2], str):
            # a comment may be read as part of the node before it
            item = (0,) + item[1:2] + (item[2].strip(),) + item[3:]
        out.append(item)
    return out


class C05(core.Check):
    id = "C05"
    rule = "at least two modifications were written back, in a model of at least eight nodes"
    assumptions = [
        "Modifications that can't be written in the language are left out (a note without duration before an isolated duration, "
        "two adjacent texts, an argument that would be taken by the command before it).",
        "Blank space in LaTeX and HTML texts, and around the words of a comment, is compared normalised.",
        "A node is moved as a copy, as the documentation prescribes (the original claims its old place in the text).",
    ]
    real = ["quickly.dom.*", "quickly.node", "quickly.lang.*", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct (model, text) after writing back"
    quick_runs = 6000
    thorough_runs = 200000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for d in gen.shrink(case["doc"]):
            yield dict(case, doc=d)
        for i, op in enumerate(case["ops"]):
            if op[0] == "round":
                for j in range(len(op[1])):
                    yield dict(case, ops=case["ops"][:i] + [["round", op[1][:j] + op[1][j + 1:]] + op[2:]] + case["ops"][i + 1:])
                if op[2]:
                    yield dict(case, ops=case["ops"][:i] + [["round", op[1], 0, op[3]]] + case["ops"][i + 1:])

    def sample(self, case):
        return repr({"lang": case["lang"], "text": gen.render(case["doc"]), "ops": case["ops"],
                     "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        lang = rng.choice(["lilypond", "lilypond", "lilypond", "lilypond", "html", "latex", "scheme"])
        doc = texts.wellformed(rng, lang)
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            mods = []
            for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                k = rng.random()
                a, b, c, d = (rng.randrange(1000) for _ in range(4))
                mods.append(["value", a, b] if k < .35 else ["insert", a, b, c] if k < .55 else ["remove", a, c] if k < .7 else
                            ["replace", a, b, c] if k < .8 else ["move", a, b, c, d] if k < .88 else ["property", a, b])
            ops.append(["round", mods, int(rng.random() < .3), rng.randrange(4)])
        return {"lang": lang, "doc": doc, "ops": ops, "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 30]))]}

    def execute(self, case, run):
        text = gen.render(case["doc"])
        lang = case["lang"]
        mods = 0
        with docsim.World(run, case["schedule"]) as w:
            doc = w.open(lang, text)
            for i, (_, changes, undo, how) in enumerate(case["ops"]):
                run.log(i)
                m = w.model(doc)
                if m is None:
                    return
                self.reopen = False
                before = docsim.dump(m, False)
                r = self.round(w, doc, m, lang, run, changes, i, how)
                if self.reopen:
                    doc = w.open(lang, doc.text())
                mods += len(r.undo)
                expect = docsim.dump(m, False)
                if undo and r.undo:
                    m = w.model(doc)
                    if [x[0] for x in docsim.dump(m, False)] != [x[0] for x in expect]:
                        run.count("texts_merged")       # the paths are different now
                        continue
                    for x in reversed(r.undo):
                        self.revert(m, x)
                    self.writeback(w, doc, m, lang, run, None, i, "undo", how)
                    if self.reopen:
                        doc = w.open(lang, doc.text())
                    d = docsim.first_diff(normal(docsim.dump(w.model(doc), False), lang), normal(before, lang))
                    if d:
                        raise core.Violation("undo-differs", "undoing through the model: %s; text %r" % (d, doc.text()[:400]), i)
                    run.count("undone")
            m = w.model(doc)
            run.nontrivial = mods >= 2 and len(docsim.dump(m)) >= 8

    def revert(self, m, x):
        kind, path = x[:2]
        n = m
        if kind == "value":
            for i in path:
                n = n[i]
            n.head = x[2]
            return
        for i in path[:-1]:
            n = n[i]
        if kind == "remove":
            del n[path[-1]]
        elif kind == "insert":
            n.insert(path[-1], x[2].copy())
        else:
            n[path[-1]] = x[2].copy()

    def round(self, w, doc, m, lang, run, changes, i, how):
        old = pieces(m)
        keep = [m, *m.descendants()]    # (their id is used)
        r = Round(m, run, lang)
        for c in changes:
            getattr(r, c[0])(*c[1:])
        self.writeback(w, doc, m, lang, run, (old, r), i, "writing back", how)
        return r

    def writeback(self, w, doc, m, lang, run, info, i, what, how):
        before = doc.text()
        expect = docsim.dump(m, False)
        nodes = [m, *m.descendants()]
        modified = info is None or info[1].undo or info[1].touched
        if how == 3:
            n = m.edit(doc, start=0, end=len(before))
        elif how == 2:
            # the changes are also those of a copy that knows where it came from
            n = m.copy_with_origin().edit(doc)
            run.count("written_from_copy")
        else:
            n = m.edit(doc)
        w.check_threads()
        after = doc.text()
        self.reopen = n > 0 and before == after
        run.log(n, after)
        run.state(lang, after)
        if (n == 0) != (before == after):
            # (replacing text by the same text counts as a change)
            if n == 0 or not modified:
                raise core.Violation("wrong-count", "%s: %d changes reported: %r -> %r" % (what, n, before[:300], after[:300]), i)
        if not modified and n:
            raise core.Violation("changed-unmodified", "%s: nothing was modified, but %d changes made %r of %r" % (
                what, n, after[:300], before[:300]), i)
        f = docsim.fresh(lang, after)
        d = docsim.first_diff(normal(docsim.dump(f, False), lang), normal(expect, lang))
        if d:
            raise core.Violation("reads-back-differently", "%s: %s; %r became %r" % (what, d, before[:400], after[:400]), i)
        m2 = w.model(doc)
        live = docsim.dump(m2)
        d = docsim.first_diff(live, docsim.dump(f))
        if d and docsim.dump(m2, False) == expect:
            # what was written in some part is the same text, so the document
            # keeps the model as it was modified
            run.count("model_kept_as_modified")
            self.reopen = True
        elif any(p.modified for p in m2.points()):
            self.reopen = True
        elif d and lang == "latex" and not docsim.first_diff(
                normal(docsim.dump(m2, False), lang), normal(docsim.dump(f, False), lang)):
            # the same, for a part in which blank text was added or removed
            run.count("model_kept_as_modified")
            self.reopen = True
        elif d:
            raise core.Violation("live-model-differs", "%s: %s; %r" % (what, d, after[:400]), i)
        if info is None or lang == "latex" and any(type(x).__name__ == "Text" for x in nodes) and len(expect) != len(docsim.dump(f)):
            return
        fresh = [f, *f.descendants()]
        if [type(x) for x in fresh] != [type(x) for x in nodes]:
            return
        self.preserved(before, after, info, nodes, fresh, run, i, lang)

    def preserved(self, before, after, info, nodes, fresh, run, i, lang):
        """Text of unmodified nodes, and between these, is as it was."""
        old, r = info
        names = {id(x): id(y) for x, y in zip(fresh, nodes)}
        was = {key: (a, b, n) for n, (a, b, key) in enumerate(old)}
        new = []
        keep = []       # (keeps the nodes alive, as their id is used)
        for x in fresh:
            for which in ("head", "tail"):
                o = getattr(x, which + "_origin", ())
                if o:
                    new.append((o[0].pos, o[-1].end, (names[id(x)], which)))
                    keep.append(x)
        new.sort(key=lambda t: t[:2])

        def same(key):
            return key in was and not (key[0] in r.touched and key[1] == "head")

        last = None
        for n, (a, b, key) in enumerate(new):
            if same(key):
                x, y, j = was[key]
                if before[x:y] != after[a:b] and not lang == "latex":
                    raise core.Violation("unmodified-text-changed", "%r became %r: %r -> %r" % (
                        before[x:y], after[a:b], before[:300], after[:300]), i)
                run.count("pieces_kept")
                if n == 0 and j == 0 and before[:x] != after[:a] and not before[:x].strip():
                    raise core.Violation("spacing-changed", "before the first text: %r became %r: %r -> %r" % (
                        before[:x], after[:a], before[:300], after[:300]), i)
                if n == len(new) - 1 and j == len(old) - 1 and before[y:] != after[b:]:
                    raise core.Violation("spacing-changed", "after the last text: %r became %r: %r -> %r" % (
                        before[y:], after[b:], before[:300], after[:300]), i)
                if last is not None and last[2] + 1 == j:
                    if before[last[1]:x] != after[last[4]:a]:
                        raise core.Violation("spacing-changed", "between %r and %r: %r became %r: %r -> %r" % (
                            before[last[0]:last[1]], before[x:y], before[last[1]:x], after[last[4]:a], before[:300], after[:300]), i)
                    run.count("gaps_kept")
                last = (x, y, j, a, b)
            else:
                last = None


def pieces(m):
    out = []
    for x in [m, *m.descendants()]:
        for which in ("head", "tail"):
            o = getattr(x, which + "_origin", ())
            if o:
                out.append((o[0].pos, o[-1].end, (id(x), which)))
    out.sort(key=lambda t: t[:2])
    return out


CHECK = C05()
