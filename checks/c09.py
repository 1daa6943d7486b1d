r"""C09: converting between relative and absolute notation keeps the music."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, musicsession as ms
from sim.ref import pitches, reader

import quickly.relative
from quickly.dom import lily, read
from quickly.pitch import PitchProcessor


class Failing(PitchProcessor):
    """A processor that fails the n-th time a pitch is read."""
    left = 10 ** 9

    def read_node(self, node):
        self.left -= 1
        if self.left < 0:
            raise RuntimeError("injected")
        return super().read_node(node)


#: music that is not part of the relative music around it
STOP = ("relative", "fixed", "absolute", "transpose")


def relatives(root):
    r"""The ``\relative`` nodes Rel2abs converts, and the others: those in
    e.g. ``\fixed`` or ``\transpose`` in relative music."""
    yes, no = [], []

    def rec(n, rel, stop):
        for c in n.children:
            if c.type == "relative":
                (no if stop else yes).append(c)
                rec(c, True, stop)
            elif c.type in STOP:
                rec(c, rel, rel or stop)
            else:
                rec(c, rel, stop)
    rec(root, False, False)
    return yes, no


def lists(root):
    """(node, whether Abs2rel converts it, whether it is the body of a relative)
    for all lists; a list is converted when it is not in relative music, not in a
    list that is converted, and has notes."""
    out = []

    def rec(n, done):
        for c in n.children:
            if c.type in ("seq", "sim"):
                wrap = not done and any(m.type == "note" for m in c.children)
                out.append((c, wrap, n.type == "relative"))
                rec(c, done or wrap)
            else:
                rec(c, done or c.type == "relative")
    rec(root, False)
    return out


def in_relative(root, sel):
    """Whether the selection is a part of relative music."""
    result = False
    for n in root.walk():
        if n.type in STOP and n.pos <= sel[0] and sel[1] <= n.end and (n.pos, n.end) != sel:
            result = n.type == "relative"
    return result


class C09(core.Check):
    id = "C09"
    rule = "at least one conversion added or removed a \\relative command in music with at least two pitches"
    assumptions = [
        "The reference reader (sim/ref, written from the LilyPond Notation Reference) defines what sounds.",
        "Octave checks are correct; wrong ones have an effect of their own.",
        "\\chordmode is not generated: converting it is meaningless but intended by the existing tests.",
    ]
    real = ["quickly.relative", "quickly.pitch", "quickly.dom.*", "quickly.lang.lilypond", "parce document, tree builder, "
            "transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct (operation, document text) reached"
    quick_runs = 6000
    thorough_runs = 150000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for d in gen.shrink(case["doc"]):
            yield dict(case, doc=d)

    def sample(self, case):
        return repr({"text": gen.render(case["doc"]), "ops": case["ops"], "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        langs = sorted(pitches.LANGUAGES)
        multi = rng.random() < .4
        g = gen.Lily(rng,
            languages=rng.sample(langs, 2) if multi else ("nederlands",),
            language_switch=.04 if multi else 0,
            relative=rng.choice([0, .4, .8]), fixed=rng.choice([0, .2]), transpose=rng.choice([0, .2]),
            absolute=rng.choice([0, .1]), refs=rng.choice([0, .05]), alternate=rng.choice([0, 0, .08]),
            checks=rng.choice([0, .1]), octavecheck=rng.choice([0, .08]), double=rng.choice([0, .1]),
            octaves=rng.choice([.2, .4, .7]), key=.05, lyrics=.05, drums=.03, positioned=.05,
            comments=rng.choice([0, .05]), sim=rng.choice([.08, .2]), nested=rng.choice([.1, .2]),
            size=rng.choice([4, 10, 25]))
        doc = g.document()
        fpa = rng.choice([None, None, True, False])
        ops = []
        for _ in range(rng.randint(1, 7)):
            k = rng.random()
            kind = rng.choice(["rel2abs", "abs2rel"])
            opts = [rng.random() < .6, fpa if rng.random() < .8 else rng.choice([None, True, False]), rng.random() < .5]
            sel = self.selection(rng)
            if k < .7:
                ops.append([kind, opts, sel, rng.randrange(3)])
            elif k < .8:
                ops.append(["fail", opts + [kind], sel, rng.randrange(12)])
            elif k < .88:
                ops.append(["node", opts + [kind], None, rng.randrange(20)])
            else:
                ops.append(["insert", rng.randrange(60), g.pitch_plain() + " ", 0])
        return {"doc": doc, "ops": ops, "schedule": ms.schedule(rng)}

    def selection(self, rng):
        if rng.random() < .1:
            return ["any", rng.randrange(400), rng.randrange(400), 0]
        return ms.random_selection(rng, .3)

    def pick(self, r, spec):
        if spec and spec[0] == "any":
            # any item in the text
            nodes = [n for n in r.root.walk() if n is not r.root]
            if not nodes:
                return None
            n = nodes[spec[1] % len(nodes)]
            return n.pos, n.end
        return ms.pick_selection(r, spec)

    def read(self, text, fpa):
        return reader.sounding(text, fpa, True)

    def reread(self, text, what, fpa):
        try:
            return self.read(text, fpa)
        except reader.Unsupported as e:
            raise core.Violation("unreadable-result", "%s: the result can't be read: %s: %r" % (what, e, text[:400]))

    def execute(self, case, run):
        text = ms.fix_checks(gen.render(case["doc"]))
        try:
            before = self.read(text, None)
        except reader.Unsupported:
            run.count("unsupported")
            return
        tools = {}
        with docsim.World(run, case["schedule"]) as w:
            doc = w.open("lilypond", text)
            for i, op in enumerate(case["ops"]):
                kind, opts, selspec, n = op
                run.log(i, kind)
                if kind == "insert":
                    notes = [n for n in before.pitches if n.type == "note"]
                    if notes:
                        pos = notes[opts % len(notes)].pos
                        doc[pos:pos] = selspec
                    # octave checks in it may be wrong now
                    text = doc.text()
                    try:
                        new = ms.fix_checks(text)
                        if new != text:
                            doc.set_text(new)
                        before = self.read(new, None)
                    except reader.Unsupported:
                        return
                    continue
                start_pitch, fpa, own = opts[:3]
                name = opts[3] if kind in ("fail", "node") else kind
                before = self.read(doc.text(), fpa)
                sel = self.pick(before, selspec)
                if kind == "fail":
                    processor = Failing()
                    tool = self.tool(name, processor, start_pitch, fpa)
                    processor.left = n
                    try:
                        tool.edit(ms.cursor(doc, sel))
                    except RuntimeError:
                        run.count("fault:processor_error")
                        w.check_threads()
                        if doc.text() != before.text:
                            raise core.Violation("text-after-failure", "a failed conversion changed the text", i)
                        continue
                elif kind == "node":
                    self.node(before, name, start_pitch, fpa, n, run)
                    continue
                else:
                    # tools are used again, with other settings
                    tool = tools.get((name, n))
                    if not tool:
                        tool = tools[name, n] = self.tool(name, None, start_pitch, fpa)
                    tool.first_pitch_absolute = fpa
                    if name == "abs2rel":
                        tool.start_pitch = start_pitch
                    tool.processor = PitchProcessor() if own else None
                    if n == 2 and not own and fpa is None and (start_pitch or name == "rel2abs"):
                        # the function of the module does the same
                        getattr(quickly.relative, name)(ms.cursor(doc, sel))
                    else:
                        tool.edit(ms.cursor(doc, sel))
                w.check_threads()
                what = "%s%s%s" % (name, " (first_pitch_absolute %s, start_pitch %s)" % (fpa, start_pitch),
                                   " selection %s" % (sel,) if sel else "")
                after = self.reread(doc.text(), what, fpa)
                self.compare(before, after, name, what, run)
                self.structure(before, after, name, sel if selspec and selspec[0] != "expr" else None, what,
                               sel if selspec and selspec[0] == "expr" else None)
                if after.text != before.text and len(before.pitches) > 1:
                    run.nontrivial = True
                run.state(kind, after.text)
                run.log(after.text)
                before = after

    def tool(self, name, processor, start_pitch, fpa):
        if name == "rel2abs":
            return quickly.relative.Rel2abs(processor, fpa)
        return quickly.relative.Abs2rel(processor, start_pitch, fpa)

    def node(self, before, name, start_pitch, fpa, n, run):
        """Convert in a node tree, without a document."""
        m = read.lily_document(before.text)
        tool = self.tool(name, None, start_pitch, fpa)
        what = "%s node" % name
        if name == "abs2rel" and n % 2:
            # convert one music list
            music = [x for x in m // lily.MusicList if any(x / lily.Pitchable) and not any(isinstance(a, lily.Relative) for a in x.ancestors())]
            if not music:
                return
            x = music[n % len(music)]
            parent, i = x.parent, x.parent.index(x)
            parent[i] = tool.make_relative(x)
            what = "make_relative"
        else:
            tool.edit(m)
        after = self.reread(m.write(), what, fpa)
        self.compare(before, after, name, what, run, node=True)

    def compare(self, before, after, name, what, run, node=False):
        def others(r):
            drop = ("pitch", "dur") if node else ("pitch",)
            spans = []
            for n in r.root.walk():
                if n.type == "relative":
                    spans.append((n.pos, n.children[-1].pos))
                elif n.type == "octavecheck" and name == "rel2abs":
                    spans.append((n.pos, n.end))
            out = [t for t in reader.others(r, drop, spans)]
            return out
        a, b = others(before), others(after)
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise core.Violation("other-text-changed", "%s: token %r became %r (%r -> %r)" % (
                what, " ".join(a[max(0, i-1):i+2]), " ".join(b[max(0, i-1):i+2]), before.text[:300], after.text[:300]))
        skip = ("startpitch", "checkpitch") if name == "rel2abs" else ("startpitch",)
        a = [n for n in before.pitches if n.type not in skip]
        b = [n for n in after.pitches if n.type not in skip]
        if len(a) != len(b):
            raise core.Violation("pitch-count", "%s: %d pitches became %d" % (what, len(a), len(b)))
        for x, y in zip(a, b):
            where = "%s: %s %r at %d became %r (%r -> %r)" % (
                what, x.type, before.text[x.pitch.pos:x.pitch.end], x.pos,
                after.text[y.pitch.pos:y.pitch.end], before.text[:300], after.text[:300])
            if x.type != y.type:
                raise core.Violation("structure", where)
            if x.pitch.name != y.pitch.name or x.pitch.language != y.pitch.language \
                    or x.pitch.caution != y.pitch.caution or x.pitch.check != y.pitch.check:
                raise core.Violation("other-text-changed", where)
            run.count("pitches_compared")
            cut = 1 if x.type == "keypitch" else 0      # the octave has no meaning
            if x.sound and x.sound[cut:] != y.sound[cut:]:
                raise core.Violation("wrong-pitch", "%s: sounding %s, expected %s" % (where, y.sound, x.sound))
            if x.sound is None and x.pitch.octave != y.pitch.octave:
                raise core.Violation("other-text-changed", where)

    def structure(self, before, after, name, sel, what, expr):
        """Is the expected music converted?"""
        what = "%s (%r -> %r)" % (what, before.text[:300], after.text[:300])
        if sel is not None:
            if in_relative(before.root, sel) and before.text != after.text and name == "abs2rel":
                raise core.Violation("structure", "%s: relative music made relative" % what)
            return
        inside = (lambda n: True) if expr is None else (lambda n: expr[0] <= n.pos < expr[1])
        if name == "rel2abs":
            yes, no = relatives(before.root)
            expect = len(no) + sum(not inside(n) for n in yes)
            count = sum(n.type == "relative" for n in after.root.walk())
            if count != expect:
                raise core.Violation("relative-left", "%s: %d relatives instead of %d" % (what, count, expect))
        else:
            a, b = lists(before.root), lists(after.root)
            for (n, wrap, rel), (n1, _, rel1) in zip(a, b):
                if rel1 != (rel or wrap and inside(n)):
                    raise core.Violation("not-made-relative", "%s: list at %d" % (what, n.pos))


CHECK = C09()
