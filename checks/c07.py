"""C07: operations touch exactly the selected music; read-only operations touch nothing."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, musicsession as ms, texts
from . import c04, c06

import io

import parce
import quickly.dom.indent
import quickly.rhythm
import quickly.time
from quickly import node
from quickly.dom import edit, element, htm, lily, scm, tex, util

NAMES = "cdefgab"


class Marker(edit.Edit):
    """Gives all notes another name, and remembers which nodes it got."""
    def edit_range(self, r):
        self.seen = []
        for n in r.nodes():
            self.seen.append((type(n).__name__, c04.ref_pos(n), c04.ref_end(n), bool(getattr(n, "head_origin", ()))))
            if isinstance(n, lily.Note):
                n.head = other(n.head)
        return len(self.seen)


class RootMarker(Marker):
    range_from_root = True


class CursorMarker(Marker):
    range_from_cursor = True


class ReadOnlyMarker(Marker):
    readonly = True


MARKERS = {"marker": Marker, "root-marker": RootMarker, "cursor-marker": CursorMarker, "readonly-marker": ReadOnlyMarker}


def other(name):
    return "d" if name != "d" else "e"


class C07(core.Check):
    id = "C07"
    rule = "an operation with a selection that contains at least three nodes, but not all, changed the text"
    assumptions = [
        "A node lies within the selection when the text of the node and its children does. A node that starts within the "
        "selection and contains the end of it may be processed or not.",
        "Text for which there is no node (after erroneous input) may be deleted within the selection.",
        "Where the selection is judged exactly, blank space added next to a modified text is ignored.",
    ]
    real = ["quickly.dom.edit", "quickly.node.Range", "quickly.transpose", "quickly.relative", "quickly.rhythm", "quickly.time",
            "quickly.dom.indent", "quickly.dom.*", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct (operation, selection, document text)"
    quick_runs = 12000
    thorough_runs = 150000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for d in gen.shrink(case["doc"]):
            yield dict(case, doc=d)

    def sample(self, case):
        return repr({"lang": case["lang"], "text": gen.render(case["doc"]), "ops": case["ops"], "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        lang = rng.choice(["lilypond"] * 6 + ["html", "latex", "scheme"])
        if lang == "lilypond" and rng.random() < .6:
            g = gen.Lily(rng, relative=rng.choice([0, .4, .8]), fixed=rng.choice([0, .2]), transpose=rng.choice([0, .2]),
                         octavecheck=.04, unpitched=rng.choice([0, .1]), size=rng.choice([3, 8, 15]))
            doc = g.document()
        else:
            doc = texts.wellformed(rng, lang)
        ops = []
        for _ in range(rng.choice([2, 3, 5])):
            k = rng.random()
            if k < .15:
                ops.append(["type", rng.randrange(1000), texts.snippet(rng, lang), rng.choice([0, 0, 1, 3])])
            elif k < .3:
                ops.append(["query", rng.randrange(10), rng.randrange(1000), self.selection(rng)])
            elif k < .65:
                ops.append(["op", rng.choice(sorted(MARKERS)), 0, self.selection(rng)])
            else:
                ops.append(["op", rng.choice([t for t in c06.TOOLS if t != "manual"]), rng.randrange(20), self.selection(rng)])
        return {"lang": lang, "doc": doc, "ops": ops, "schedule": ms.schedule(rng)}

    def selection(self, rng):
        k = rng.random()
        if k < .2:
            return None
        if k < .3:
            return ["cursor", rng.randrange(1001)]
        if k < .5:
            return ["chars", rng.randrange(1001), rng.randrange(1001)]
        if k < .9:
            # from the start (or somewhat later) of a node to the end of a node
            return ["nodes", rng.randrange(1000), rng.randrange(1000), rng.choice([0, 0, 0, 1, -1]), rng.choice([0, 0, 0, 1, -1])]
        return ["short", rng.randrange(1001), rng.randint(1, 3)]

    def where(self, sel, m, text):
        """(start, end) of the selection."""
        n = len(text)
        if sel is None:
            return 0, 0
        if sel[0] == "cursor":
            p = sel[1] * (n + 1) // 1001
            return p, p
        if sel[0] == "chars":
            a, b = sorted(sel[1:])
            return a * (n + 1) // 1001, b * (n + 1) // 1001
        if sel[0] == "short":
            p = sel[1] * (n + 1) // 1001
            return p, min(n, p + sel[2])
        nodes = [x for x in m.descendants() if x.pos is not None]
        if not nodes:
            return 0, 0
        a = nodes[sel[1] % len(nodes)].pos + sel[3]
        b = nodes[sel[2] % len(nodes)].end + sel[4]
        a, b = sorted((min(max(a, 0), n), min(max(b, 0), n)))
        return a, b

    def execute(self, case, run):
        text = gen.render(case["doc"])
        lang = case["lang"]
        tools = {}
        c06.Callback.left = None
        with docsim.World(run, case["schedule"]) as w:
            doc = w.open(lang, text)
            for i, op in enumerate(case["ops"]):
                run.log(i, op[0])
                if op[0] == "type":
                    a = op[1] * (len(doc.text()) + 1) // 1001
                    if op[2] or op[3]:
                        doc[a:a + op[3]] = op[2]
                    continue
                before = doc.text()
                if not before:
                    return
                m = w.model(doc)
                f = docsim.fresh(lang, before)
                start, end = self.where(op[3], f, before)
                c = parce.Cursor(doc, start, end)
                dump = docsim.dump(m)
                if op[0] == "query":
                    self.query(m, doc, c, op[1], op[2])
                    self.untouched(w, doc, before, dump, "query %d" % op[1], i)
                    run.count("queries")
                    continue
                name, a = op[1:3]
                key = name, a
                if key not in tools:
                    tools[key] = MARKERS[name]() if name in MARKERS else c06.make_tool(name, a)
                tool = tools[key]
                if getattr(tool, "processor", None) is not None:
                    tool.processor.__init__()
                try:
                    tool.edit(c)
                except Exception as e:
                    if name in MARKERS or not self.rejects(lang, before, f):
                        raise
                    run.count("operation_raised")
                    self.untouched(w, doc, before, dump, name + " failing", i)
                    continue
                w.check_threads()
                after = doc.text()
                what = "%s with selection %s..%s %r" % (name, start, end, before[start:end][:80])
                if tool.readonly:
                    self.untouched(w, doc, before, dump, what, i)
                    if tool.changes():
                        raise core.Violation("wrong-count", "%s: %d changes reported by a read-only operation" % (what, tool.changes()), i)
                elif (tool.changes() == 0) != (before == after):
                    raise core.Violation("wrong-count", "%s: %d changes reported: %r -> %r" % (what, tool.changes(), before[:300], after[:300]), i)
                self.judge(run, what, name, tool, f, before, after, start, end, i)
                run.state(name, start, end, after)
                run.log(start, end, after)

    def rejects(self, lang, text, f):
        """True for texts that are not well-formed, in which an operation may find something unusable."""
        return True

    def untouched(self, w, doc, before, dump, what, i):
        if doc.text() != before:
            raise core.Violation("text-touched", "%s: %r became %r" % (what, before[:300], doc.text()[:300]), i)
        d = docsim.first_diff(docsim.dump(w.model(doc)), dump)
        if d:
            raise core.Violation("model-touched", "%s: %s; text %r" % (what, d, before[:300]), i)

    def judge(self, run, what, name, tool, f, before, after, start, end, i):
        nodes = [(n, c04.ref_pos(n), c04.ref_end(n)) for n in c04.preorder(f)]
        nodes = [(n, p, e) for n, p, e in nodes if p is not None]
        if any(p == e for n, p, e in nodes):
            run.count("zero_length_nodes")
            return
        if start < end:
            within = [x for x in nodes if start <= x[1] and x[2] <= end]
            may = [x for x in nodes if start <= x[1] < end]
            # an operation that goes from the first to the last node within
            run.count("selections")
            clean = self.clean(f, before)
            if not within:
                run.count("selections_without_nodes")
                if after != before and clean:
                    raise core.Violation("changed-without-selection", "%s: no node is selected: %r -> %r" % (what, before[:300], after[:300]), i)
            # notes and chords that are partially selected may be changed as a whole
            # (and also music as a whole by tools that do more than changing notes and durations)
            whole = name.startswith(("abs2rel", "rel2abs"))
            cut = [(p, e) for n, p, e in nodes if p < end and start < e and not (start <= p and e <= end)
                   and (isinstance(n, lily.Pitchable) or hasattr(n, "duration") or whole and not p <= start <= end <= e)]
            if cut:
                run.count("selections_cutting_a_note")
            a = min([start, *(p for p, e in cut)])
            b = max([end, *(e for p, e in cut)])
            # blank space next to modified text may be adjusted
            keep = before[b:].lstrip()
            if not clean:
                # closing brackets may have been added, in between or at the end
                run.count("selections_in_malformed_text")
            elif name.startswith("custom"):
                pass    # these append a note to lists
            elif not after.startswith(before[:a].rstrip()) or not after.endswith(keep) or len(after) < len(before[:a].rstrip()) + len(keep):
                raise core.Violation("changed-outside-selection", "%s: %r -> %r" % (what, before[:400], after[:400]), i)
        elif tool.range_from_cursor:
            within = may = [x for x in nodes if start <= x[1]]
            if not within:
                # from the cursor on there is nothing; the documented default is the whole
                return
        else:
            within = may = nodes
        if name in MARKERS:
            seen = [(t, p, e) for t, p, e, o in tool.seen if o]
            must = [(type(n).__name__, p, e) for n, p, e in within if getattr(n, "head_origin", ())]
            can = {(type(n).__name__, p, e) for n, p, e in may}
            if any(p is not None and (t, p, e) not in can for t, p, e in seen):
                raise core.Violation("processed-outside-selection", "%s: nodes %s were processed; text %r" % (
                    what, [x for x in seen if x not in can][:4], before[:300]), i)
            it = iter(seen)
            if not all(x in it for x in must):
                missed = [x for x in must if x not in seen]
                raise core.Violation("selected-not-processed", "%s: nodes %s were not processed (in order); text %r" % (
                    what, (missed or must)[:4], before[:300]), i)
            if len(seen) != len(set(seen)) and len(seen) > len(can):
                raise core.Violation("processed-twice", "%s: %s" % (what, seen[:5]), i)
            run.count("nodes_processed", len(seen))
            if not tool.readonly:
                self.exact(run, what, within, may, f, before, after, start, end, i)
        if after != before and start < end and 3 <= len(within) < len(nodes):
            run.nontrivial = True

    def exact(self, run, what, within, may, f, before, after, start, end, i):
        """The text must be the old one with exactly the selected notes changed."""
        if not self.clean(f, before):
            run.count("not_exactly_judged")
            return
        sure = {id(n) for n, p, e in within}

        def text(nodes):
            out, pos = [], 0
            for n in nodes:
                o = n.head_origin
                out.append(before[pos:o[0].pos] + other(n.head))
                pos = o[-1].end
            return "".join("".join(out + [before[pos:]]).split())
        notes = [n for n, p, e in may if isinstance(n, lily.Note)]
        got = "".join(after.split())
        if got != text(notes) and got != text([n for n in notes if id(n) in sure]):
            maybe = [n for n in notes if id(n) not in sure]
            if len(maybe) < 2:
                raise core.Violation("wrong-notes-changed", "%s: %r -> %r" % (what, before[:400], after[:400]), i)
        run.count("exactly_judged")

    def clean(self, f, text):
        """True if writing back the unchanged model changes nothing."""
        return not any(True for _ in f.edits(docsim.parse(self.lang_of(f), text)))

    def lang_of(self, f):
        return {lily.Document: "lilypond", htm.Document: "html", tex.Document: "latex", scm.Document: "scheme"}[type(f)]

    def query(self, m, doc, c, kind, n):
        """Read-only things; whatever they give, nothing may change."""
        nodes = [m, *m.descendants()]
        x = nodes[n % len(nodes)]
        unknown = any(type(y).__name__ == "Unknown" for y in nodes)
        music = [y for y in nodes if isinstance(y, lily.Music)]
        if kind == 0:
            t = quickly.time.Time()
            for y in music[:5]:
                t.length(y), t.position(y)
        elif kind == 1:
            t = quickly.time.Time()
            t.cursor_position(c), t.cursor_duration(c)
        elif kind == 2:
            quickly.rhythm.copy(c, bool(n % 2))
        elif kind == 3 and not unknown:
            m.write(), x.write(), m.write_indented()
        elif kind == 4:
            y = x.copy()
            y.append(lily.Note("c"))
            z = x.copy_with_origin()
            z.clear()
        elif kind == 5 and not unknown:
            list(m.edits(doc.get_root(True), c.pos, c.end))
        elif kind == 6:
            for y in m.descendants():
                y.equals(x)
                util.lilypond_version(y)
        elif kind == 7:
            list(node.Range(m).nodes())
        elif kind == 8:
            for y in music[:20]:
                for a in ("duration", "scaling", "duration_scaling", "octave", "oct_check", "head", "tail", "language", "fraction"):
                    try:
                        getattr(y, a, None)
                    except (AttributeError, TypeError, ValueError):
                        pass
                y.signatures(), y.properties() if hasattr(y, "properties") else None
        elif kind == 9:
            for y in music[:20]:
                y.is_pitched() if hasattr(y, "is_pitched") else None
            m.dump(io.StringIO())


CHECK = C07()
