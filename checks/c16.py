"""C16: pitch names are read and written the same way, whatever happened before.

A live document has music with pitch names and commands that set the language,
some of them unknown. Two pitch processors have a history of languages, style
preferences (set, or learned from names), searches for the language of a node,
walks that follow the language (some abandoned), pitches that are changed (some
changes fail half-way, or can't be named in the language) and translations.
After every step the documents, the models and the processors must be as the
reference says.
"""
from sim import env  # noqa: F401
from sim import core, docsim
from sim.ref import pitchnames as ref

from fractions import Fraction as F
import copy

import parce.lang.lilypond_words
import quickly.pitch
from quickly.dom import lily
from quickly.pitch import Pitch, PitchProcessor

from checks.c06 import KINDS, UNCATCHABLE, LineFault

FAULTS = sorted(UNCATCHABLE)
LANGS = sorted(ref.TABLE)
COMMON = ["nederlands", "english", "deutsch", "français", "norsk", "suomi", "català", "español", "italiano", "svenska"]
UNKNOWN = ["klingon", "", "neder", "English", "italiano "]
SHAPES = ["%s", "%s4\\rest", "%s2.", "%s~", "%s!", "%s8-."]
PITCHES = sorted({(n, a) for t in ref.TABLE.values() for _, n, a in t.values()})
NAMES = sorted({n for t in ref.TABLE.values() for n in t})
STYLED = {l: sorted(n for n in t if len(ref.alternatives(l, n)) > 1) for l, t in ref.TABLE.items()}


class Problem(Exception):
    """Raised by the user's code in the body of a with statement."""


def marks(octave):
    return "'" * octave if octave > 0 else "," * -octave


# modes of keys are for C18
SCHEME = {-1: "DOUBLE-FLAT", F(-1, 2): "FLAT", F(-1, 4): "SEMI-FLAT", 0: "NATURAL", F(1, 4): "SEMI-SHARP",
          F(1, 2): "SHARP", 1: "DOUBLE-SHARP"}
VARIABLES = ["modea", "modeb", "modec"]


def mode_text(mode):
    kind, value = mode
    if kind == "name":
        return "\\" + value
    if kind == "var":
        return "\\" + (VARIABLES + ["nomode"])[value]
    v = [F(x) for x in value]
    if kind == "list":
        return "#'(%s)" % " ".join(map(str, v))
    if kind == "decimals":
        return "#'(%s)" % " ".join(str(float(x)) for x in v)
    if kind == "pairs":
        return "#'(%s)" % " ".join("(%d . %s)" % p for p in enumerate(v))
    return "#`(%s)" % " ".join("(%d . ,%s)" % (i, SCHEME[x]) for i, x in enumerate(v))


def render(items):
    """Text of the items."""
    out = []
    for x in items:
        if x[0] == "lang":
            out.append('\\include "%s.ly"' % x[2] if x[1] else '\\language "%s"' % x[2])
        elif x[0] == "n":
            out.append(SHAPES[x[3]] % (x[1] + marks(x[2])))
        elif x[0] == "chord":
            out.append("<" + " ".join(n[1] + marks(n[2]) for n in x[1]) + ">")
        elif x[0] == "key":
            out.append("\\key %s %s" % (x[1][1] + marks(x[1][2]), mode_text(x[2]) if len(x) > 2 else "\\major"))
        else:
            out.append(("{ %s }", "<< %s >>", "\\relative { %s }")[x[1]] % render(x[2]))
    return " ".join(out)


def walk(items):
    """Yield the language and note items in order."""
    for x in items:
        if x[0] in ("lang", "n"):
            yield x
        elif x[0] == "chord":
            yield from x[1]
        elif x[0] == "key":
            yield x[1]
        else:
            yield from walk(x[2])


def groups(items):
    yield items
    for x in items:
        if x[0] == "music":
            yield from groups(x[2])


def random_name(rng, lang):
    if rng.random() < .1:
        return rng.choice(NAMES)
    if STYLED[lang] and rng.random() < .5:
        return rng.choice(STYLED[lang])
    return rng.choice(sorted(ref.TABLE[lang]))


def random_lang(rng):
    return rng.choice(COMMON if rng.random() < .8 else LANGS)


def random_items(rng, lang, top=True, depth=0):
    items = []
    for _ in range(rng.randint(1, 5)):
        k = rng.random()
        if k < .25 or top and k < .4:
            if rng.random() < .2:
                items.append(["lang", rng.randrange(2), rng.choice(UNKNOWN)])
            else:
                lang = random_lang(rng)
                items.append(["lang", rng.randrange(2), lang])
        elif (k < .5 or top) and depth < 3:
            sub, lang = random_items(rng, lang, False, depth + 1)
            items.append(["music", rng.randrange(3), sub])
        elif top:
            pass
        elif k < .6:
            items.append(["chord", [["n", random_name(rng, lang), rng.randint(-2, 2), 0] for _ in range(rng.randint(1, 3))]])
        elif k < .64:
            items.append(["key", ["n", random_name(rng, lang), 0, 0]])
        else:
            items.append(["n", random_name(rng, lang), rng.randint(-2, 3), rng.randrange(len(SHAPES))])
    return items, lang


class Processor:
    """A real processor, and what is known about it."""

    def __init__(self, language=None):
        self.pp = PitchProcessor(language)
        self.language = language or "nederlands"
        self.prefs = dict(ref.DEFAULTS)


class Session:
    def __init__(self, world, run, items, langs):
        self.w, self.run, self.items = world, run, items
        self.procs = [Processor(l) for l in langs]
        self.doc = world.open("lilypond", self.text())
        self.dirty = False
        self.step = None
        self.get_model()

    def text(self):
        """What the text of the document should be."""
        return render(self.items)

    def fail(self, kind, detail):
        raise core.Violation(kind, "%s; document %r" % (detail, self.text()[:300]), self.step)

    def get_model(self):
        self.model = self.w.model(self.doc)

    def notes(self):
        return [x for x in walk(self.items) if x[0] == "n"]

    def nodes(self):
        return list(self.model // lily.Pitchable) if self.model is not None else []

    def language_at(self, k, lang):
        for x in walk(self.items):
            if x[0] == "lang":
                if x[2] in ref.TABLE:
                    lang = x[2]
            else:
                if not k:
                    return lang
                k -= 1
        return lang

    # what must always be true

    def check(self):
        for i, p in enumerate(self.procs):
            if p.pp.language != p.language:
                self.fail("language-differs", "processor %d has language %r instead of %r" % (i, p.pp.language, p.language))
            for a, v in p.prefs.items():
                if getattr(p.pp, a) is not v:
                    self.fail("preference-differs", "%s of processor %d (%s) is %r instead of %r" % (
                        a, i, p.language, getattr(p.pp, a), v))
        new = PitchProcessor()
        if new.language != "nederlands" or any(getattr(new, a) is not v for a, v in ref.DEFAULTS.items()):
            self.fail("new-processor-differs", "a new processor does not have the default language or preferences")
        if self.model is None and not self.items:
            return
        notes, nodes = self.notes(), self.nodes()
        got = [(n.head, n.octave) for n in nodes]
        expect = [(x[1], x[2]) for x in notes]
        if got != expect:
            self.fail("wrong-notes", "the notes are %r, not %r" % (got[:20], expect[:20]))
        langs = [n.language for n in self.model // (lily.Language, lily.Include)]
        expect = [x[2] if x[2] in ref.TABLE or not x[1] else None for x in walk(self.items) if x[0] == "lang"]
        if langs != expect:
            self.fail("wrong-languages", "the languages are %r, not %r" % (langs, expect))
        if not self.dirty and self.doc.text() != self.text():
            self.fail("text-differs", "text is %r" % self.doc.text()[:300])
        self.run.state(tuple((p.language, tuple(p.prefs.values())) for p in self.procs), self.text())

    # operations

    def do(self, i, op):
        self.step = i
        getattr(self, "do_" + op[0])(*op[1:])
        self.run.count("op_" + op[0])
        self.check()

    def do_language(self, i, name):
        p = self.procs[i]
        try:
            if name is None:
                del p.pp.language
            else:
                p.pp.language = name
        except KeyError:
            if name in ref.TABLE:
                self.fail("language-refused", "language %r is refused" % name)
            self.run.count("fault:unknown_language")
        else:
            if name is not None and name not in ref.TABLE:
                self.fail("unknown-language-accepted", "language %r is accepted" % name)
            p.language = name or "nederlands"

    def do_pref(self, i, attr, v):
        setattr(self.procs[i].pp, attr, v)
        self.procs[i].prefs[attr] = v

    def do_new(self, i, lang):
        self.procs[i] = Processor(lang)

    def do_learn(self, i, names, how):
        """Learn the style from names, a generator, or the document."""
        p = self.procs[i]
        if how == "document":
            names = []
            for x in walk(self.items):
                names.append(x[2] if x[0] == "lang" else x[1])
        may = ref.learned(p.language, p.prefs, names)
        p.pp.distill_preferences(iter(names) if how == "iter" else names)
        for a, values in may.items():
            v = getattr(p.pp, a)
            if v not in values:
                self.fail("learned-wrong", "%s of a %s processor is %r after %r" % (a, p.language, v, names[:20]))
            p.prefs[a] = v
        self.run.count("styles_learned")

    def do_name(self, i, octave, note, alter, cls):
        """Name a pitch that need not exist in the language."""
        p = self.procs[i]
        alter = PITCHES[alter % len(PITCHES)][1] if isinstance(alter, int) else alter
        may = ref.written(p.language, p.prefs, octave, note, alter)
        pitch = Pitch(octave, note, alter)
        results = []
        cls = (None, lily.Note, lily.PitchedRest, lily.Pitch)[cls]
        for f in (p.pp.name_octave, p.pp.to_string, lambda x: p.pp.pitchable(x, cls)):
            try:
                results.append(f(pitch))
            except KeyError:
                results.append(None)
                self.run.count("fault:no_name_for_pitch")
        s = format(pitch)
        dutch = {n + marks(o) for n, o in ref.written("nederlands", ref.DEFAULTS, octave, note, alter)} or {"?"}
        if s not in dutch:
            self.fail("format-differs", "pitch %r is formatted as %r" % ((pitch.octave, pitch.note, pitch.alter), s))
        if not may:
            if results != [None] * 3:
                self.fail("name-invented", "%s has no name for %r but %r is given" % (p.language, (octave, note, alter), results))
            return
        if results[0] not in may:
            self.fail("wrong-name", "%s name for %r with %r is %r, not one of %r" % (
                p.language, (octave, note, alter), self.used(p), results[0], sorted(may)))
        if results[1] != results[0][0] + marks(results[0][1]):
            self.fail("wrong-string", "%s name for %r is %r, but as string %r" % (
                p.language, (octave, note, alter), results[0], results[1]))
        n = results[2]
        if type(n) is not (cls or lily.Note) or (n.head, n.octave) != results[0]:
            self.fail("wrong-node", "node for %r is %r" % (results[0], n))
        if (pitch.octave, pitch.note, pitch.alter) != (octave, note, alter):
            self.fail("pitch-changed", "naming %r changed the pitch" % ((octave, note, alter),))
        self.same_pitch(p.pp.read_node(n), (octave, note, alter), "name %r" % (results[0],))
        self.same_pitch(p.pp.pitch(n.head), ref.read(p.language, n.head), "name %r" % n.head)
        self.run.count("pitches_named")

    def used(self, p):
        return [a for a, v in p.prefs.items() if v]

    def same_pitch(self, pitch, expect, what):
        got = pitch.octave, pitch.note, pitch.alter
        if got != tuple(expect):
            self.fail("wrong-pitch", "%s is read as %r instead of %r" % (what, got, tuple(expect)))

    def do_read(self, i, lang, name):
        """Read a name that need not exist in the language."""
        p = self.procs[i]
        try:
            pitch = p.pp.pitch(name)
        except KeyError:
            if name in ref.TABLE[p.language]:
                self.fail("name-refused", "%s does not know %r" % (p.language, name))
            self.run.count("fault:unknown_name")
            return
        if name not in ref.TABLE[p.language]:
            self.fail("unknown-name-accepted", "%s reads %r" % (p.language, name))
        self.same_pitch(pitch, ref.read(p.language, name), "%s %r" % (p.language, name))
        pitch.octave += 1       # may not have an effect on what is read later
        pitch.note = 8
        self.same_pitch(p.pp.pitch(name), ref.read(p.language, name), "%s %r for the second time" % (p.language, name))

    def do_compare(self, a, b):
        p, q = Pitch(*a), Pitch(*b)
        a, b = tuple(a), tuple(b)
        for name, got, expect in (("==", p == q, a == b), ("!=", p != q, a != b), ("<", p < q, a < b), (">", p > q, a > b),
                                  ("<=", p <= q, a <= b), (">=", p >= q, a >= b), ("copy", p.copy() == p, True),
                                  ("== other", p == a, False), ("!= other", p != a, True)):
            if got is not expect:
                self.fail("comparison-wrong", "%r %s %r gives %r" % (a, name, b, got))
        c = p.copy()
        c.octave += 1
        if p.octave != a[0]:
            self.fail("copy-not-independent", "changing a copy of %r changes the pitch" % (a,))
        try:
            p < 1
        except TypeError:
            pass
        else:
            self.fail("comparison-wrong", "a pitch can be compared to a number")

    def do_find(self, i, k):
        nodes = self.nodes()
        if not nodes:
            return
        p = self.procs[i]
        k %= len(nodes)
        p.pp.find_language(nodes[k])
        p.language = self.language_at(k, p.language)
        self.run.count("languages_found")

    def do_follow(self, i, stop):
        """Walk through the document, maybe not to the end."""
        p = self.procs[i]
        notes = [(id(n), x) for n, x in zip(self.nodes(), self.notes())]
        notes = dict(notes)
        if self.model is None:
            return
        seen = 0
        got = []
        skipped = [n for n in self.model // (lily.Language, lily.Include) if n.language in ref.TABLE]
        expect = [n for n in self.model.descendants() if not any(n is x for x in skipped)]
        it = p.pp.follow_language(self.model.descendants())
        start = p.language
        for n in it:
            got.append(n)
            if id(n) in notes:
                lang = self.language_at(seen, start)
                if p.pp.language != lang:
                    self.fail("language-not-followed", "language is %r at note %d, instead of %r" % (p.pp.language, seen, lang))
                seen += 1
                if seen == stop:
                    p.language = lang
                    it.close()
                    self.run.count("fault:walk_abandoned")
                    break
        else:
            p.language = self.language_at(-1, start)
            if len(got) != len(expect) or any(a is not b for a, b in zip(got, expect)):
                self.fail("nodes-not-followed", "%d of %d nodes were seen" % (len(got), len(expect)))
        self.run.count("walks")

    def result(self, p, node, x, pitch):
        """Judge what was written in node, and remember it; p is a Processor."""
        octave, note, alter = pitch
        old = ref.TABLE[p.language].get(x[1])
        if old and tuple(old[1:]) == (note, alter):
            may = {(x[1], octave - old[0])}
        else:
            may = ref.written(p.language, p.prefs, octave, note, alter)
        got = node.head, node.octave
        if got not in may:
            self.fail("wrong-name", "%s pitch %r (was %s) with %r is written as %r, not one of %r" % (
                p.language, pitch, x[1], self.used(p), got, sorted(may)))
        if got != (x[1], x[2]):
            self.dirty = True
        x[1], x[2] = got
        self.run.count("pitches_written")

    def nameable(self, p, x, pitch):
        """True if the pitch can be written in the node of x."""
        old = ref.TABLE[p.language].get(x[1])
        return old and tuple(old[1:]) == pitch[1:] or ref.written(p.language, p.prefs, *pitch)

    def do_change(self, i, k, change, how, search):
        nodes, notes = self.nodes(), self.notes()
        if not nodes:
            return
        k %= len(nodes)
        p, node, x = self.procs[i], nodes[k], notes[k]
        if search:
            p.pp.find_language(node)
            p.language = self.language_at(k, p.language)
        old = ref.TABLE[p.language].get(x[1])
        problem = None
        pitch = None
        try:
            with p.pp.process(node, how != "read") if how == "read" else p.pp.process(node) as pitch:
                self.same_pitch(pitch, (old[0] + x[2],) + tuple(old[1:]) if old else (), "%s %r" % (p.language, x[1]))
                now = self.apply(pitch, change)
                if how == "raise":
                    problem = Problem()
                    raise problem
        except Problem as e:
            if e is not problem:
                raise
            self.run.count("fault:exception_in_change")
            return
        except KeyError:
            if pitch is None:
                if old:
                    self.fail("name-refused", "%s does not know %r" % (p.language, x[1]))
                self.run.count("fault:unknown_name")
                return
            if self.nameable(p, x, now):
                self.fail("pitch-refused", "%s can't write %r" % (p.language, now))
            self.run.count("fault:no_name_for_pitch")
            return
        if problem:
            self.fail("exception-lost", "the exception of the body of the with statement is lost")
        if how == "read":
            return
        if not self.nameable(p, x, now):
            self.fail("name-invented", "%s wrote %r as %r" % (p.language, now, (node.head, node.octave)))
        self.result(p, node, x, now)

    def apply(self, pitch, change):
        """Change the pitch, return the new values."""
        what, *v = change
        if what == "octave":
            pitch.octave += v[0]
        elif what == "step":
            pitch.note = (pitch.note + v[0]) % 7
        elif what == "alter":
            pitch.alter = PITCHES[v[0] % len(PITCHES)][1]
        elif what == "fraction":
            pitch.alter = F(pitch.alter)    # the same value in another type
        else:
            pitch.note, pitch.alter = PITCHES[v[1] % len(PITCHES)]
            pitch.octave = v[0]
        return pitch.octave, pitch.note, pitch.alter

    def do_translate(self, target, stop):
        """Translate the pitch names with two processors."""
        a, b = self.procs
        if self.model is None:
            return
        b.pp.language = b.language = target
        todo = list(zip(self.nodes(), self.notes()))
        n = 0
        start = a.language
        for node in a.pp.follow_language(list(self.model.descendants())):
            if not isinstance(node, lily.Pitchable):
                continue
            x = todo[n][1]
            a.language = self.language_at(n, start)
            n += 1
            old = ref.TABLE[a.language].get(x[1])
            try:
                pitch = a.pp.read_node(node)
            except KeyError:
                if old:
                    self.fail("name-refused", "%s does not know %r" % (a.language, x[1]))
                self.run.count("fault:unknown_name")
                continue
            if not old:
                self.fail("unknown-name-accepted", "%s reads %r" % (a.language, x[1]))
            now = (old[0] + x[2],) + tuple(old[1:])
            self.same_pitch(pitch, now, "%s %r" % (a.language, x[1]))
            try:
                b.pp.write_node(node, pitch)
            except KeyError:
                if self.nameable(b, x, now):
                    self.fail("pitch-refused", "%s can't write %r in a node %r" % (b.language, now, x[1]))
                self.run.count("fault:no_name_for_pitch")
                continue
            if not self.nameable(b, x, now):
                self.fail("name-invented", "%s wrote %r as %r" % (b.language, now, (node.head, node.octave)))
            self.result(b, node, x, now)
            if n == stop:
                self.run.count("fault:translation_stopped")
                return
        a.language = self.language_at(-1, start)
        nodes = list(self.model // (lily.Language, lily.Include))
        for node, x in zip(nodes, [x for x in walk(self.items) if x[0] == "lang"]):
            if x[2] in ref.TABLE:
                node.language = target
                if x[2] != target:
                    self.dirty = True
                x[2] = target
        self.run.count("translations")

    def do_which(self, names, how):
        """Find the languages that have the names."""
        if how == "document":
            names = [x[1] for x in self.notes()]
        elif how == "set":
            names = set(names)
        expect = ref.languages(names)
        got = list(quickly.pitch.determine_language(names))
        if len(got) != len(set(got)) or not set(got) <= expect:
            self.fail("wrong-languages-determined", "%r have the names %r, not %r" % (sorted(expect), sorted(names), got))
        for l in expect:
            if not any(ref.TABLE[l] == ref.TABLE[g] for g in got):
                self.fail("language-not-determined", "%r has the names %r, but found is %r" % (l, sorted(names), got))

    def do_write(self, fault):
        before = self.doc.text()
        exc = None
        if fault:
            exc = KINDS[fault[1]]("injected")
            f = LineFault(fault[0], exc)
            try:
                with f.extent():
                    self.model.edit(self.doc)
            except BaseException as e:
                if e is not exc:
                    raise
                self.run.count("fault:" + fault[1])
        elif self.model is not None:
            self.model.edit(self.doc)
        self.w.check_threads()
        if exc and self.doc.text() == before and self.model is not None:
            self.model.edit(self.doc)
            self.w.check_threads()
        text = self.doc.text()
        if text != self.text():
            self.fail("text-differs", "written is %r" % text[:300])
        self.dirty = False
        self.get_model()
        self.run.count("documents_written")

    def do_type(self, n, k, new, look):
        """Replace, insert or delete an item in the text."""
        if self.dirty:
            self.do_write(None)
        l = list(groups(self.items))
        g = l[n % len(l)]
        k %= len(g) + 1
        if new and (g is self.items) and new[0] not in ("lang", "music"):
            new = ["music", 0, [new]]
        if new is None:
            del g[k:k + 1]
        elif n % 3:
            g[k:k] = [copy.deepcopy(new)]
        else:
            g[k:k + 1] = [copy.deepcopy(new)]
        self.retype()
        if look:
            self.w.sched.point("typing")
        self.get_model()

    def retype(self):
        """Make the text of the document what it should be."""
        old, text = self.doc.text(), self.text()
        i = 0
        while i < min(len(old), len(text)) and old[i] == text[i]:
            i += 1
        z = 0
        while z < min(len(old), len(text)) - i and old[-1 - z] == text[-1 - z]:
            z += 1
        with self.doc:
            self.doc[i:len(old) - z] = text[i:len(text) - z]


class C16(core.Check):
    id = "C16"
    rule = "at least three pitches were named or written, and the language of a processor changed"
    assumptions = [
        "The table of pitch names itself is parce's; the rules for reading, writing, styles and languages are checked.",
        "What is learned from names that show opposite styles, or from a name with a spelling that has no alternative in its language, "
        "is not judged; neither is whether long english names are also preferred for natural notes.",
    ]
    real = ["quickly.pitch", "quickly.dom.lily (pitches, octaves, language commands)", "quickly.node (queries)",
            "Element.edit", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)", "exceptions raised at chosen lines"]
    states_measure = "distinct states of the two processors and the document"
    quick_runs = 8000
    thorough_runs = 200000

    def lists(self):
        return ("ops", "schedule", "items")

    def simplify(self, case):
        def smaller(items):
            for i, x in enumerate(items):
                if x[0] in ("music", "chord"):
                    for j in range(len(x[-1])):
                        if x[0] == "music" or len(x[-1]) > 1:
                            yield items[:i] + [x[:-1] + [x[-1][:j] + x[-1][j + 1:]]] + items[i + 1:]
                    if x[0] == "music":
                        for y in smaller(x[-1]):
                            yield items[:i] + [x[:-1] + [y]] + items[i + 1:]
                elif x[0] == "n" and (x[2] or x[3]):
                    yield items[:i] + [["n", x[1], 0, 0]] + items[i + 1:]
        for y in smaller(case["items"]):
            yield dict(case, items=y)
        for i, op in enumerate(case["ops"]):
            for j, v in enumerate(op):
                if j and isinstance(v, list) and len(v) > 1 and op[0] in ("learn", "which"):
                    for q in range(len(v)):
                        yield dict(case, ops=case["ops"][:i] + [op[:j] + [v[:q] + v[q + 1:]] + op[j + 1:]] + case["ops"][i + 1:])

    def sample(self, case):
        return repr({"text": render(case["items"]), "ops": case["ops"], "langs": case["langs"]})[:1500]

    def generate(self, rng):
        items, lang = random_items(rng, "nederlands")
        langs = [rng.choice([None, random_lang(rng)]) for _ in range(2)]
        ops = []
        for _ in range(rng.choice([6, 12, 24])):
            i = rng.randrange(2)
            k = rng.random()
            if k < .1:
                ops.append(["language", i, rng.choice(UNKNOWN) if rng.random() < .15 else random_lang(rng) if rng.random() < .9 else None])
            elif k < .2:
                ops.append(["pref", i, rng.choice(sorted(ref.DEFAULTS)), rng.random() < .5])
            elif k < .22:
                ops.append(["new", i, rng.choice([None, random_lang(rng)])])
            elif k < .3:
                names = []
                l = random_lang(rng)
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if rng.random() < .25:
                        l = random_lang(rng)
                        names.append(l)
                    names.append(random_name(rng, l) if rng.random() < .9 else rng.choice(UNKNOWN))
                ops.append(["learn", i, names, rng.choice(["list", "iter", "document"])])
            elif k < .42:
                note, alter = rng.choice(PITCHES)
                if rng.random() < .6:
                    alter = rng.choice([-1, -.5, 0, .5, 1])
                ops.append(["name", i, rng.randint(-3, 3), note, float(alter), rng.randrange(4)])
            elif k < .46:
                ops.append(["read", i, None, random_name(rng, random_lang(rng))])
            elif k < .48:
                a = [rng.randint(-1, 1), rng.randint(0, 2), rng.choice([0, .5])]
                b = [rng.choice([x, y]) for x, y in zip(a, [rng.randint(-1, 1), rng.randint(0, 2), rng.choice([0, .5])])]
                ops.append(["compare", a, b])
            elif k < .55:
                ops.append(["find", i, rng.randrange(100)])
            elif k < .61:
                ops.append(["follow", i, rng.choice([0, 0, 1, 2, 4])])
            elif k < .77:
                what = rng.choice(["octave", "step", "alter", "fraction", "set", "set"])
                change = [what] + {"octave": [rng.randint(-2, 2)], "step": [rng.randint(0, 6)], "alter": [rng.randrange(100)],
                                   "fraction": [], "set": [rng.randint(-2, 2), rng.randrange(100)]}[what]
                ops.append(["change", i, rng.randrange(100), change, rng.choice(["write"] * 4 + ["raise", "read"]), rng.random() < .7])
            elif k < .82:
                ops.append(["translate", random_lang(rng), rng.choice([0, 0, 0, 1, 3])])
            elif k < .86:
                l = random_lang(rng)
                names = [random_name(rng, l) for _ in range(rng.randint(0, 4))] + rng.sample(["r", "R", "s", "q"], rng.randint(0, 2))
                ops.append(["which", names, rng.choice(["list", "set", "document"])])
            elif k < .92:
                ops.append(["write", [rng.randint(1, 400), rng.choice(FAULTS)] if rng.random() < .3 else None])
            else:
                new = None
                if rng.random() < .8:
                    l = random_items(rng, random_lang(rng), rng.random() < .5)[0]
                    new = rng.choice(l) if l else None
                ops.append(["type", rng.randrange(100), rng.randrange(100), new, rng.random() < .5])
        return {"items": items, "langs": langs, "ops": ops, "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 40]))]}

    def execute(self, case, run):
        with docsim.World(run, case["schedule"]) as w:
            s = Session(w, run, copy.deepcopy(case["items"]), case["langs"])
            s.check()
            for i, op in enumerate(case["ops"]):
                s.do(i, op)
            s.step = None
            s.do_write(None)
            s.check()
            if parce.lang.lilypond_words.pitch_names != ref.TABLE:
                s.fail("table-changed", "the table of pitch names was changed")
            c = run.counts
            run.nontrivial = c.get("pitches_named", 0) + c.get("pitches_written", 0) >= 3 and \
                c.get("languages_found", 0) + c.get("op_language", 0) + c.get("walks", 0) > 0


CHECK = C16()
