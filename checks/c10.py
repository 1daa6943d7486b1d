r"""C10: rhythm operations change durations as specified and nothing else."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, musicsession as ms
from sim.ref import pitches, reader

from fractions import Fraction as F

import quickly.rhythm as rhythm
from quickly.duration import Transform
from quickly.dom import read


class Boom(Exception):
    pass


class Function:
    """A function of the module, called like the edit method of a tool."""
    def __init__(self, name, args, copied):
        self.args = ()
        if name == "perline":
            name, self.args = "implicit", (True,)
        elif name == "transform":
            self.args = (args[0], args[1], F(args[2]))
        elif name == "copy":
            self.args = (args,)
        elif name == "paste":
            self.args = (copied if args[0] is None else [d and tuple(map(F, d)) for d in args[0]], args[1])
        self.func = getattr(rhythm, name)

    def edit(self, music):
        return self.func(music, *self.args)


def failing(cls, left):
    """The tool class, failing at the n-th step."""
    class Failing(cls):
        def step(self):
            self.left -= 1
            if self.left < 0:
                raise Boom("injected")

        def process(self, node, prev):
            self.step()
            return super().process(node, prev)

        def durables(self, r):
            for n in super().durables(r):
                self.step()
                yield n
    Failing.left = left
    return Failing


TOOLS = {
    "remove": rhythm.Remove,
    "remove_scaling": rhythm.RemoveScaling,
    "remove_fraction_scaling": rhythm.RemoveFractionScaling,
    "explicit": rhythm.RhythmExplicit,
    "implicit": rhythm.RhythmImplicit,
    "perline": rhythm.RhythmImplicitPerLine,
    "transform": rhythm.RhythmTransform,
    "copy": rhythm.CopyRhythm,
    "paste": rhythm.PasteRhythm,
}

PLAIN = list(TOOLS)[:6]
LONGEST = F(8)      # \maxima


class C10(core.Check):
    id = "C10"
    rule = "at least two rhythm operations changed the text of music with at least four notes, rests or chords"
    assumptions = [
        "The reference reader (sim/ref, written from the LilyPond Notation Reference) defines the duration of every note.",
        "Selections end at the boundaries of complete items or expressions.",
        "The duration of a positioned rest (c4\\rest) directly before a bare duration may be kept or removed.",
    ]
    real = ["quickly.rhythm", "quickly.duration", "quickly.dom.*", "quickly.lang.lilypond", "parce document, tree builder, "
            "transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct (operation, document text) reached"
    quick_runs = 6000
    thorough_runs = 150000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for d in gen.shrink(case["doc"]):
            yield dict(case, doc=d)

    def sample(self, case):
        return repr({"text": gen.render(case["doc"]), "ops": case["ops"], "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        g = gen.Lily(rng,
            relative=rng.choice([0, .3]), fixed=rng.choice([0, .1]), transpose=rng.choice([0, .1]),
            refs=rng.choice([0, .05]), durations=rng.choice([.2, .5, .9]), dots=rng.choice([.1, .3]),
            scaling=rng.choice([0, .1, .3]), unpitched=rng.choice([0, .05, .2]), skips=rng.choice([.02, .1]),
            q=rng.choice([0, .1]), rests=rng.choice([.05, .2]), chords=rng.choice([.1, .3]), emptychord=.1,
            lyrics=rng.choice([0, .3]), drums=rng.choice([0, .2]), positioned=.05, aftergrace=.02,
            tuplets=rng.choice([.05, .15]), comments=rng.choice([.02, .08]), newlines=rng.choice([.05, .2]),
            partial=.05, shift=.02, size=rng.choice([4, 10, 25]))
        doc = g.document()
        few = [(g.dur()) for _ in range(3)]
        ops = []
        for _ in range(rng.randint(1, 8)):
            k = rng.random()
            op = self.operation(rng)
            if k < .7:
                ops.append(op)
            elif k < .8:
                ops.append(["fail", op, rng.randrange(12), 0])
            elif k < .88:
                ops.append(["node", op, 0, 0])
            else:
                ops.append(["insert", rng.randrange(60),
                            rng.choice(["c", "r", "<c e>", "s", "\n", "f-.", ""]) + rng.choice(few + ["", "", ""]) + " ", 0])
        return {"doc": doc, "ops": ops, "schedule": ms.schedule(rng)}

    def operation(self, rng):
        sel = ms.random_selection(rng)
        t = rng.randrange(3)
        k = rng.random()
        if k < .6:
            return [rng.choice(PLAIN), None, sel, t]
        if k < .75:
            return ["transform", [rng.choice([-2, -1, 0, 0, 1, 2]), rng.choice([-1, 0, 0, 1, 2]),
                                  rng.choice(["1", "1", "2", "1/2", "1/3", "3/2", "3"])], sel, t]
        if k < .87:
            return ["copy", rng.random() < .5, sel, t]
        durs = [rng.choice([None, None, [rng.choice(["1/4", "1/8", "3/8", "1", "2", "7/16"]), rng.choice(["1", "1", "2", "2/3"])]])
                for _ in range(rng.randrange(5))]
        return ["paste", [rng.choice([None, durs, durs]), rng.random() < .7], sel, t]

    def execute(self, case, run):
        text = ms.fix_checks(gen.render(case["doc"]))
        try:
            before = reader.sounding(text)
        except reader.Unsupported:
            run.count("unsupported")
            return
        self.tools = {}
        self.copied = [(F(1, 8), F(1)), None]
        changed = 0
        with docsim.World(run, case["schedule"]) as w:
            doc = w.open("lilypond", text)
            for i, op in enumerate(case["ops"]):
                kind = op[0]
                run.log(i, kind)
                if kind == "insert":
                    D = [d for d in before.durables if d.type not in ("lyric", "drum")]
                    if D:
                        pos = D[op[1] % len(D)].pos
                        doc[pos:pos] = op[2]
                    try:
                        before = reader.sounding(doc.text())
                    except reader.Unsupported:
                        return
                    continue
                if kind == "fail":
                    self.fail(w, doc, before, op, run, i)
                    continue
                if kind == "node":
                    name, args, selspec, t = op[1]
                    m = read.lily_document(before.text)
                    tool, expect = self.prepare(name, args, before, None, None, True)
                    what = "%s %s node" % (name, args)
                    if expect is IndexError:
                        continue
                    result = tool.edit(m)
                    self.compare(before, reader_of(m.write(), what), name, expect, result, None, what, run, True)
                    continue
                name, args, selspec, t = op
                sel = ms.pick_selection(before, selspec)
                tool, expect = self.prepare(name, args, before, sel, t)
                if t == 2:
                    # the function of the module instead of a tool that is used again
                    tool = Function(name, args, self.copied)
                what = "%s %s%s" % (name, args, " selection %s" % (sel,) if sel else "")
                if expect is IndexError:
                    # too long to write
                    try:
                        tool.edit(ms.cursor(doc, sel))
                    except (IndexError, ValueError):
                        run.count("fault:unwritable_duration")
                    else:
                        raise core.Violation("unwritable", "%s: a duration longer than \\maxima did not fail" % what)
                    w.check_threads()
                    if doc.text() != before.text:
                        raise core.Violation("text-after-failure", "%s: text changed" % what)
                    continue
                result = tool.edit(ms.cursor(doc, sel))
                w.check_threads()
                after = reader_of(doc.text(), what)
                self.compare(before, after, name, expect, result, sel, what, run)
                changed += after.text != before.text
                run.state(name, after.text)
                run.log(after.text)
                before = after
        if changed > 1 and len(before.durables) > 3:
            run.nontrivial = True

    def fail(self, w, doc, before, op, run, i):
        name, args, selspec, t = op[1]
        cls = failing(TOOLS[name], op[2])
        if name == "transform":
            class cls(rhythm.RhythmTransform):
                left = op[2]
                def __init__(self, transform):
                    def f(*args):
                        self.left -= 1
                        if self.left < 0:
                            raise Boom("injected")
                        return transform.transform(*args)
                    self._transform = f
        sel = ms.pick_selection(before, selspec)
        tool, _ = self.prepare(name, args, before, sel, None, True, cls)
        try:
            tool.edit(ms.cursor(doc, sel))
        except (Boom, IndexError, ValueError):
            run.count("fault:tool_error")
        else:
            # restore
            w.check_threads()
            if doc.text() != before.text:
                doc.set_text(before.text)
            return
        w.check_threads()
        if doc.text() != before.text:
            raise core.Violation("text-after-failure", "a failed %s changed the text" % name, i)

    def prepare(self, name, args, before, sel, t, new=False, cls=None):
        """Return the tool and what is to be expected of it."""
        cls = cls or TOOLS[name]
        D = before.durables
        inside = [sel is None or sel[0] <= d.pos < sel[1] for d in D]
        old = [d.dur for d in D]
        removable = self.removable(before)

        def tool(*a):
            if new:
                return cls(*a)
            x = self.tools.get((name, t, a))
            if x is None:
                x = self.tools[name, t, a] = cls(*a)
            return x

        if name == "remove":
            return tool(), [removed(d, r) if i else {d} for d, r, i in zip(old, removable, inside)]
        if name == "remove_scaling":
            return tool(), [{(d[0], F(1)) if d and i else d} for d, i in zip(old, inside)]
        if name == "remove_fraction_scaling":
            return tool(), [{(d[0], F(1)) if d and i and d[1].denominator > 1 else d} for d, i in zip(old, inside)]
        if name == "explicit":
            return tool(), [{d.eff if i else d.dur} for d, i in zip(D, inside)]
        if name == "implicit":
            prev, expect = None, []
            for d, r, i in zip(D, removable, inside):
                e = {d.dur, None}
                if not i:
                    e = {d.dur}
                elif d.dur:
                    if d.dur == prev:
                        e = removed(d.dur, r)
                    elif d.type != "skip":
                        prev = d.dur
                expect.append(e)
            return tool(), expect
        if name == "perline":
            line, expect, eff = None, [], None
            for d, r, i in zip(D, removable, inside):
                e = {d.dur}
                if i:
                    l = before.text.count("\n", 0, d.pos)
                    if new:
                        l = 0       # no document
                        e = {d.dur, None}
                        if d.dur and d.dur == eff:
                            e = removed(d.dur, r)
                    elif line != l:
                        # first on the line: present, or added
                        e = {d.eff}
                        first = True
                    elif first:
                        # (e.g. after \skip)
                        e = {d.dur, None} if r is not False else {d.dur}
                        if not d.dur:
                            e.add(d.eff)
                    elif d.dur and d.dur == eff:
                        e = removed(d.dur, r)
                    line = l
                    if d.type != "skip":
                        first = False
                        if not new or d.dur:
                            eff = d.eff
                expect.append(e)
            return tool(), expect
        if name == "transform":
            log, dots, scale = args
            scale = F(scale)
            def f(d):
                if not (log or dots):
                    return d[0], d[1] * scale
                return reader.shifted(d[0], log, dots), d[1] * scale
            self.tdurs = [((f(n.tdur)[0], n.tdur[1]) if n.type == "tempo" else f(n.tdur)) if sel is None or sel[0] <= n.pos < sel[1]
                          else n.tdur
                          for n in before.root.walk() if getattr(n, "tdur", None)]
            expect = [{f(d) if d and i else d} for d, i in zip(old, inside)]
            key = (log, dots, scale)
            if not new:
                x = self.tools.setdefault(("transform", t, key), cls(Transform(*key)))
            else:
                x = cls(Transform(*key))
            for e in [d for s in expect for d in s if d] + [d if isinstance(d, tuple) else (d, 1) for d in self.tdurs]:
                if e[0] >= 2 * LONGEST:
                    return x, IndexError
            return x, expect
        if name == "copy":
            out, prev = [], None
            for d, i in zip(D, inside):
                if i:
                    out.append(d.eff if args else d.dur)
            return tool(args), out
        if name == "paste":
            durs, cycle = args
            if durs is None:
                durs = self.copied
            else:
                durs = [d and tuple(map(F, d)) for d in durs]
            expect, j, prev = [], 0, None
            for d, r, i in zip(D, removable, inside):
                e = {d.dur}
                if i and durs and (cycle or j < len(durs)):
                    x = durs[j % len(durs)]
                    j += 1
                    if x:
                        e = {x}
                        prev = x
                    else:
                        e = set()
                        if r is not False:
                            e.add(None)
                        if r is not True:
                            e.add(prev or d.dur)
                expect.append(e)
            if new:
                return cls(durs, cycle), expect
            # one tool pastes the same rhythm several times
            return self.tools.setdefault((name, t, str(durs), cycle), cls(durs, cycle)), expect

    def removable(self, r):
        """Whether the duration of each durable may be removed (None: unsure)."""
        follow = {}
        for n in r.root.walk():
            for a, b in zip(n.children, n.children[1:]):
                follow[id(a)] = b
        out = []
        for d in r.durables:
            x = follow.get(id(d))
            before_unpitched = x is not None and x.type == "unpitched" and d.type != "unpitched"
            if d.type in ("unpitched", "skip"):
                out.append(False)
            elif before_unpitched:
                if d.type == "note" and d.rest:
                    out.append(None)
                else:
                    out.append(bool(d.events))
            else:
                out.append(True)
        return out

    def compare(self, before, after, name, expect, result, sel, what, run, node=False):
        ms.same_others(before, after, what, ("dur", "pitch") if node else ("dur",))
        if name == "copy":
            result = [None if d is None else tuple(map(F, d)) for d in result]
            if result != expect:
                raise core.Violation("copied", "%s of %r: got %s, expected %s" % (what, before.text[:300], result, expect))
            if after.text != before.text and not node:
                raise core.Violation("copied", "%s changed the text" % what)
            self.copied = result
            return
        A, B = before.durables, after.durables
        if [d.type for d in A] != [d.type for d in B]:
            raise core.Violation("structure", "%s: %r became %r" % (what, before.text[:300], after.text[:300]))
        if len(before.pitches) != len(after.pitches) or any(
                x.pitch.name != y.pitch.name or x.sound != y.sound for x, y in zip(before.pitches, after.pitches)):
            raise core.Violation("pitch-changed", "%s: %r became %r" % (what, before.text[:300], after.text[:300]))
        for x, y, e in zip(A, B, expect):
            run.count("durations_compared")
            if y.dur not in e:
                raise core.Violation("wrong-duration", "%s: %s at %d has %s, expected %s (%r -> %r)" % (
                    what, x.type, x.pos, show(y.dur), " or ".join(map(show, e)), before.text[:300], after.text[:300]))
            if name in ("explicit", "implicit", "perline") and x.eff != y.eff:
                raise core.Violation("length-changed", "%s: %s at %d lasts %s, was %s (%r -> %r)" % (
                    what, x.type, x.pos, show(y.eff), show(x.eff), before.text[:300], after.text[:300]))
        t = [n.tdur for n in before.root.walk() if getattr(n, "tdur", None)]
        if name == "transform":
            t = self.tdurs
        u = [n.tdur for n in after.root.walk() if getattr(n, "tdur", None)]
        if t != u:
            raise core.Violation("wrong-duration", "%s: durations of commands are %s, expected %s (%r -> %r)" % (
                what, u, t, before.text[:300], after.text[:300]))


def removed(d, removable):
    return {None} if removable else {d} if removable is False else {d, None}


def show(d):
    return "none" if d is None else "%s*%s" % d


def reader_of(text, what):
    return ms.reread(text, what)


CHECK = C10()
