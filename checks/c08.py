r"""C08: transposing changes every pitch by exactly the interval, nothing else."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, musicsession as ms
from sim.ref import pitches, reader

from fractions import Fraction as F
import random

import quickly.transpose
from quickly.dom import lily, read
from quickly.pitch import Pitch, PitchProcessor

NAT = [0, 2, 4, 5, 7, 9, 11]        # half tones


def interval(frm, to):
    """(steps, height) of the interval between two [octave, step, alter*2]."""
    def h(p):
        return F(p[0] * 12 + NAT[p[1]] + p[2], 2)
    return (to[0] - frm[0]) * 7 + to[1] - frm[1], h(to) - h(frm)


def apply(pitch, iv):
    o, s = divmod(pitch[0] * 7 + pitch[1] + iv[0], 7)
    return (o, s, pitches.height(*pitch) + iv[1] - pitches.height(o, s, F(0)))


class Failing(quickly.transpose.Transposer):
    """A transposer that fails the n-th time."""
    left = 0

    def transpose(self, pitch):
        self.left -= 1
        if self.left < 0:
            raise RuntimeError("injected")
        super().transpose(pitch)


class C08(core.Check):
    id = "C08"
    rule = ("the document had at least three pitches, and at least one transposition by a non-zero interval "
            "changed the text")
    assumptions = [
        "The reference reader (sim/ref, written from the LilyPond Notation Reference) defines what sounds.",
        "Selections end at the boundaries of complete items of absolute, relative or fixed music or of complete expressions; "
        "a part of transposed music has no sounding meaning of its own.",
        "What follows a selected part of relative music keeps its text; how it sounds is not judged.",
        "Pitches that need more than a double alteration may be respelled on another step; the sounding height "
        "must be exact.",
    ]
    real = ["quickly.transpose", "quickly.pitch", "quickly.dom.*", "quickly.lang.lilypond", "parce document, tree builder, "
            "transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct (operation, document text) reached"
    quick_runs = 6000
    thorough_runs = 150000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for d in gen.shrink(case["doc"]):
            yield dict(case, doc=d)

    def sample(self, case):
        return repr({"text": gen.render(case["doc"]), "ops": case["ops"], "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        langs = sorted(pitches.LANGUAGES)
        multi = rng.random() < .4
        g = gen.Lily(rng,
            languages=rng.sample(langs, 2) if multi else ("nederlands",) if rng.random() < .9 else (rng.choice(langs),),
            language_switch=.04 if multi else 0,
            relative=rng.choice([0, .4, .8]), fixed=rng.choice([0, .2]), transpose=rng.choice([0, .2]),
            absolute=rng.choice([0, .1]), refs=rng.choice([0, .05]), alternate=rng.choice([0, 0, .08]),
            checks=rng.choice([0, .1]), octavecheck=rng.choice([0, .08]), double=rng.choice([0, .3]),
            key=.08, lyrics=.05, drums=.03, positioned=.03, size=rng.choice([4, 10, 25]))
        doc = g.document()

        def pitch(small=True):
            return [rng.choice([-1, 0, 0, 0, 1]), rng.randrange(7), rng.choice([-1, 0, 0, 0, 1])]
        ops = []
        pairs = [(pitch(), pitch()) for _ in range(2)]
        for _ in range(rng.randint(1, 5)):
            k = rng.random()
            a, b = rng.choice(pairs) if rng.random() < .5 else (pitch(), pitch())
            if rng.random() < .3:
                a, b = b, a
            if k < .6:
                sel = ms.random_selection(rng)
                if sel and rng.random() < .35:
                    sel[0] = "part"
                ops.append(["transpose", [[a, b, 1]], sel, rng.randrange(3)])
            elif k < .75:
                terms = [[pitch(), pitch(), rng.choice([1, -1])] for _ in range(rng.randint(1, 3))]
                terms[0][2] = 1
                ops.append(["transpose", terms, ms.random_selection(rng), rng.randrange(3)])
            elif k < .85:
                ops.append(["fail", [[a, b, 1]], ms.random_selection(rng), rng.randrange(12)])
            elif k < .87:
                # a scale of the user's own, as seven steps that add up to six whole tones
                gaps = [rng.choice([.5, .5, .75, 1, 1, 1.25]) for _ in range(6)]
                if .5 <= 6 - sum(gaps) <= 1.5:
                    terms = [[pitch(), pitch(), 1]] + [[pitch(), pitch(), rng.choice([1, -1])] for _ in range(rng.choice([0, 0, 1]))]
                    ops.append(["scale", terms, gaps, [pitch() for _ in range(4)]])
            elif k < .9:
                ops.append(["node", [[a, b, 1]], None, 0])
            elif k < .93:
                ops.append(["list", [[a, b, 1]], None, rng.randrange(50)])
            else:
                ops.append(["insert", rng.randrange(60), g.pitch_plain() + " ", 0])
        return {"doc": doc, "ops": ops, "schedule": ms.schedule(rng),
                "fpa": rng.choice([None, None, None, True, False]),     # as given by the user
                "processor": rng.choice([None, None, g.o["languages"][0], rng.choice(langs)])}

    def transposer(self, terms, cls=quickly.transpose.Transposer):
        t = None
        steps, height = 0, F(0)
        for frm, to, sign in terms:
            x = cls(*(Pitch(o, s, a / 2) for o, s, a in (frm, to)))
            iv = interval(frm, to)
            steps += sign * iv[0]
            height += sign * iv[1]
            t = x if t is None else t + x if sign == 1 else t - x
        return t, (steps, height)

    def execute(self, case, run):
        fpa = case.get("fpa")
        text = gen.render(case["doc"])
        # a user's own processor: its language counts until the document states one
        own = case.get("processor")
        language = own if own and "\\language" not in text else "nederlands"
        text = ms.fix_checks(text, fpa, language)

        def sounding(text):
            return reader.sounding(text, fpa, language=language)

        try:
            before = sounding(text)
        except reader.Unsupported:
            run.count("unsupported")
            return
        tools = {}
        use_own = own and (language == own or before.pitches and \
            text.find("\\language") < min(n.pos for n in before.pitches))

        def processor():
            return PitchProcessor(own) if use_own else None

        with docsim.World(run, case["schedule"]) as w:
            doc = w.open("lilypond", text)
            for i, op in enumerate(case["ops"]):
                kind, terms, selspec, n = op
                run.log(i, kind)
                if kind == "insert":
                    self.insert(w, doc, before, terms, selspec)
                    try:
                        before = sounding(doc.text())
                    except reader.Unsupported:
                        return
                    continue
                if kind == "scale":
                    self.own_scale(terms, selspec, n, i)
                    run.count("own_scale")
                    continue
                sel = ms.pick_selection(before, selspec)
                c = ms.cursor(doc, sel)
                if kind == "fail":
                    t, iv = self.transposer(terms, Failing)
                    t.left = n
                    try:
                        quickly.transpose.Transpose(t, processor(), fpa).edit(c)
                    except RuntimeError:
                        run.count("fault:transposer_error")
                        w.check_threads()
                        if doc.text() != before.text:
                            raise core.Violation("text-after-failure", "a failed transposition changed the text", i)
                        continue
                elif kind == "node":
                    t, iv = self.transposer(terms)
                    m = read.lily_document(before.text)
                    if fpa is None and language != own:
                        quickly.transpose.transpose(m, t)
                    else:
                        quickly.transpose.Transpose(t, processor(), fpa).edit(m)
                    after = ms.reread(m.write(), "transpose node", fpa, language)
                    self.compare(before, after, iv, None, "transpose node", run, ("pitch", "dur"))
                    continue
                elif kind == "list":
                    # one list in a model, given as a node
                    lists = [x for f in (ms.relative_lists, ms.absolute_lists) for x in f(before.root)]
                    if not lists:
                        continue
                    sel = lists[n % len(lists)]
                    m = w.model(doc).copy_with_origin()
                    found = [x for x in m // lily.MusicList if (x.pos, x.end) == (sel.pos, sel.end)]
                    if not found:
                        continue
                    run.count("list_nodes")
                    t, iv = self.transposer(terms)
                    quickly.transpose.Transpose(t, processor(), fpa).edit(found[0])
                    m.edit(doc)
                    sel, selspec = (sel.pos, sel.end), ["part"]
                else:
                    t, iv = self.transposer(terms)
                    # a tool object may be used again with another transposer
                    tool = tools.setdefault(n, quickly.transpose.Transpose(t, processor(), fpa))
                    tool.transposer = t
                    if own:
                        tool.processor = processor()
                    tool.edit(c)
                w.check_threads()
                what = "transposing by %s%s" % (iv, " selection %s" % (sel,) if sel else "")
                after = ms.reread(doc.text(), what, fpa, language)
                self.compare(before, after, iv, sel, what, run, part=bool(sel and selspec[0] == "part"))
                if after.text != before.text and iv != (0, 0) and len(before.pitches) > 2:
                    run.nontrivial = True
                run.state(kind, after.text)
                run.log(after.text)
                before = after

    def own_scale(self, terms, gaps, numbers, step):
        """Transpose pitches in a scale of the user's own."""
        scale = [0]
        for g in gaps:
            scale.append(scale[-1] + g)

        def height(p):
            return F(scale[p.note]) + F(p.alter) + 6 * p.octave
        t, steps, h = None, 0, F(0)
        for frm, to, sign in terms:
            frm, to = (Pitch(o, s, a / 2) for o, s, a in (frm, to))
            x = quickly.transpose.Transposer(frm, to, scale)
            h += sign * (height(to) - height(frm))
            steps += sign * (to.note - frm.note + 7 * (to.octave - frm.octave))
            t = x if t is None else t + x if sign == 1 else t - x
        for o, s, a in numbers:
            p = Pitch(o, s, a / 2)
            want = height(p) + h
            octave, note = divmod(p.note + 7 * p.octave + steps, 7)
            t.transpose(p)
            if height(p) != want or not 0 <= p.note < 7 or abs(p.alter) > 1:
                raise core.Violation("wrong-pitch", "%s in scale %r became %r, expected height %s" % ((o, s, a / 2), scale, p, want), step)
            alter = want - 6 * octave - F(scale[note])
            if abs(alter) <= 1 and (p.octave, p.note) != (octave, note):
                raise core.Violation("wrong-spelling", "%s in scale %r became %r, expected note %d" % ((o, s, a / 2), scale, p, note), step)

    def insert(self, w, doc, before, at, s):
        notes = [n for n in before.pitches if n.type == "note"]
        if notes:
            pos = notes[at % len(notes)].pos
            doc[pos:pos] = s

    def compare(self, before, after, iv, sel, what, run, drop=("pitch",), part=False):
        ms.same_others(before, after, what, drop)
        a, b = before.pitches, after.pitches
        if len(a) != len(b):
            raise core.Violation("pitch-count", "%s: %d pitches became %d" % (what, len(a), len(b)))
        respelled = False
        for x, y in zip(a, b):
            if x.type in ("startpitch", "fixedpitch", "from", "to"):
                respelled = respelled or abs(apply(reader.written(x.pitch), iv)[2]) > 1
        for x, y in zip(a, b):
            if x.type != y.type:
                raise core.Violation("structure", "%s: %s became %s" % (what, x.type, y.type))
            if x.sound is None:
                continue
            inside = sel is None or sel[0] <= x.pos < sel[1]
            if part and x.pos >= sel[1]:
                if before.text[x.pitch.pos:x.pitch.end] != after.text[y.pitch.pos:y.pitch.end]:
                    raise core.Violation("changed-outside-selection", "%s: %s became %s" % (
                        what, before.text[x.pitch.pos:x.pitch.end], after.text[y.pitch.pos:y.pitch.end]))
                continue
            if part:
                run.count("parts_of_relative_compared")
            expect = apply(x.sound, iv) if inside else x.sound
            hx, hy = pitches.height(*expect), pitches.height(*y.sound)
            if x.type == "keypitch":
                hx, hy = hx % 6, hy % 6
            run.count("pitches_compared")
            where = "%s %r at %d became %r" % (x.type, before.text[x.pitch.pos:x.pitch.end], x.pos,
                                               after.text[y.pitch.pos:y.pitch.end])
            if hx != hy:
                raise core.Violation("wrong-pitch", "%s: %s: sounding %s, expected %s (%r -> %r)" % (
                    what, where, y.sound, expect, before.text[:300], after.text[:300]))
            if x.relative and ms.right_check(x) and not ms.right_check(y):
                raise core.Violation("octave-check", "%s: %s: the octave check was right, and is wrong now "
                                     "(%r -> %r)" % (what, where, before.text[:300], after.text[:300]))
            if not inside and reader.written(x.pitch)[1:] != reader.written(y.pitch)[1:]:
                raise core.Violation("changed-outside-selection", "%s: %s" % (what, where))
            written = apply(reader.written(x.pitch), iv)
            if inside and abs(written[2]) <= 1 and not respelled and y.pitch.step != written[1]:
                raise core.Violation("wrong-spelling", "%s: %s: expected step %d" % (what, where, written[1]))
            if abs(y.pitch.alter) > 1:
                raise core.Violation("wrong-spelling", "%s: %s" % (what, where))
            if x.pitch.caution != y.pitch.caution:
                raise core.Violation("other-text-changed", "%s: %s" % (what, where))


CHECK = C08()
