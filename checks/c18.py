"""C18: keys of a MIDI keyboard become the pitches the key signature implies.

A live document has key signatures in many forms (also custom modes, and modes
in variables), commands that set the pitch language, and music. Keys are
pressed at places in the music: the key signature and the language there are
found, and the pitch is inserted and written back, while the document is edited
and while other key signatures are held, got other flats, were interrupted and
are used again.
"""
from sim import env  # noqa: F401
from sim import core, docsim
from sim.ref import pitchnames as ref

from fractions import Fraction as F
import copy

import quickly.key
from quickly.dom import lily
from quickly.key import KeySignature
from quickly.pitch import Pitch

from checks import c16
from checks.c06 import KINDS, UNCATCHABLE, LineFault

#: heights of the white keys, in whole tones
MAJOR_FLATS = [F(3, 2), F(5)]
WHITE = [F(0), F(1), F(2), F(5, 2), F(7, 2), F(9, 2), F(11, 2)]
BLACK = [.5, 1.5, 3, 4, 5]
#: the steps of the modes in half tones
MODES = {
    "major": [0, 2, 4, 5, 7, 9, 11], "minor": [0, 2, 3, 5, 7, 8, 10], "ionian": [0, 2, 4, 5, 7, 9, 11],
    "dorian": [0, 2, 3, 5, 7, 9, 10], "phrygian": [0, 1, 3, 5, 7, 8, 10], "lydian": [0, 2, 4, 6, 7, 9, 11],
    "mixolydian": [0, 2, 4, 5, 7, 9, 10], "aeolian": [0, 2, 3, 5, 7, 8, 10], "locrian": [0, 1, 3, 5, 6, 8, 10],
}


class Key:
    """What a key signature is."""

    def __init__(self, note, alter, mode):
        self.note, self.alter = note, F(alter)
        if isinstance(mode, str):
            heights = [F(n, 2) for n in MODES[mode]]
        else:
            heights = [w + F(m) for w, m in zip(WHITE, mode)]
        tonic = WHITE[note] + self.alter
        #: alteration of every note
        self.scale = {}
        for i, h in enumerate(heights):
            o, n = divmod(note + i, 7)
            self.scale[n] = tonic + h - WHITE[n] - 6 * o
        self.tonic = tonic
        self.halftones = all((a * 2).denominator == 1 for a in (*self.scale.values(), self.alter))

    def pitches(self, midi, flats):
        """The (octave, note, alter) that are right for a MIDI key."""
        height = F(midi, 2)
        found = []
        for n, a in self.scale.items():
            o, rest = divmod(height - WHITE[n] - a, 6)
            if rest == 0:
                found.append((int(o), n, a))
        if not found:
            # a sharpened or flattened step of the major scale
            o, rest = divmod(height - self.tonic, 6)
            step = 0
            while step < 6 and WHITE[step + 1] <= rest:
                step += 1
            if WHITE[step] != rest and rest in flats:
                step += 1
            i, n = divmod(self.note + step, 7)
            for o in range(-3, 18):
                a = height - WHITE[n] - 6 * o
                if abs(a) < 3:
                    found.append((o, n, a))
        return [(o - 5, n, a) for o, n, a in found]


def mode_value(mode, variables):
    kind, value = mode
    if kind == "var":
        return mode_value(variables[value], ()) if value < len(variables) else None
    return value


def random_mode(rng, var=True):
    k = rng.random()
    if k < .55:
        return ["name", rng.choice(sorted(MODES))]
    if var and k < .7:
        return ["var", rng.randrange(4)]
    choices = ["-1/2", "0", "0", "0", "1/2"] + (["1", "-1", "-1/4", "1/4"] if rng.random() < .3 else [])
    return [rng.choice(["list", "decimals", "pairs", "names"]), [rng.choice(choices) for _ in range(7)]]


def random_key(rng, lang):
    names = sorted(ref.TABLE[lang])
    if rng.random() < .8:
        names = [n for n in names if abs(ref.TABLE[lang][n][2]) in (0, .5)]
    return ["key", ["n", rng.choice(names), 0, 0], random_mode(rng)]


def random_items(rng, lang, top=True, depth=0):
    items, lang = c16.random_items(rng, lang, top, depth)
    cur = lang
    for g in c16.groups(items):
        for i, x in enumerate(g):
            if x[0] == "key":
                if len(x) < 3:
                    x.append(random_mode(rng))
        if g is items and top:
            continue
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.randint(0, len(g))
            cur = lang
            for x in g[:i]:
                if x[0] == "lang" and x[2] in ref.TABLE:
                    cur = x[2]
            g.insert(i, random_key(rng, cur))
    return items, lang


class Session(c16.Session):
    def __init__(self, world, run, items, langs, variables):
        self.variables = variables
        self.held = []
        super().__init__(world, run, items, langs)

    def text(self):
        return "".join("%s = %s\n" % v for v in zip(c16.VARIABLES, map(c16.mode_text, self.variables))) + c16.render(self.items)

    def keys(self):
        """Yield (item, number of notes before, language items before)."""
        seen = 0
        todo = list(reversed(self.items))
        while todo:
            x = todo.pop()
            if x[0] == "key":
                yield x, seen
                seen += 1
            elif x[0] == "n":
                seen += 1
            elif x[0] == "chord":
                seen += len(x[1])
            elif x[0] == "music":
                todo.extend(reversed(x[2]))

    def judge(self, pitch, key, midi, flats, what):
        got = pitch.octave, pitch.note, F(pitch.alter)
        height = 6 * (got[0] + 5) + WHITE[got[1]] + got[2]
        if key.halftones:
            if height * 2 != midi:
                self.fail("sounds-wrong", "%s: MIDI key %d is named %r, which sounds like %s" % (what, midi, got, height * 2))
            may = key.pitches(midi, flats)
            if got not in may and abs(key.alter) <= 1:
                self.fail("does-not-fit-key", "%s: MIDI key %d is named %r, not %r" % (what, midi, got, may))
            if pitch.to_midi() != midi:
                self.fail("wrong-midi", "%r is MIDI key %r, not %d" % (got, pitch.to_midi(), midi))
        elif abs(height * 2 - midi) >= 1:
            self.fail("sounds-wrong", "%s: MIDI key %d is named %r, which sounds like %s" % (what, midi, got, float(height * 2)))
        self.run.count("keys_named")

    def same_key(self, sig, key, what):
        got = [F(a).limit_denominator(1000) for a in sig.accidentals]
        expect = [key.scale[n] for n in range(7)]
        if got != expect:
            self.fail("wrong-accidentals", "%s has accidentals %s, not %s" % (what, list(map(str, got)), list(map(str, expect))))

    def signature(self, p, node, x):
        """The key signature of node and its description, or (None, None)."""
        known = ref.TABLE[p.language].get(x[1][1])
        mode = mode_value(x[2], self.variables)
        try:
            sig = node.key_signature(p.pp)
        except KeyError:
            if known:
                self.fail("name-refused", "%s does not know %r" % (p.language, x[1][1]))
            self.run.count("fault:unknown_name")
            return None, None
        if not known:
            self.fail("unknown-name-accepted", "%s reads %r" % (p.language, x[1][1]))
        if (sig is None) != (mode is None):
            self.fail("wrong-signature", "the signature of %s is %r" % (c16.render([x]), sig))
        if sig is None:
            self.run.count("fault:undefined_mode")
            return None, None
        key = Key(known[1], known[2], mode)
        self.same_key(sig, key, c16.render([x]))
        self.run.count("signatures_read")
        return sig, key

    def do_press(self, i, k, midi, flats, hold):
        """A MIDI key is pressed with the cursor after a note."""
        nodes, notes = self.nodes(), self.notes()
        places = [j for j, n in enumerate(nodes) if isinstance(n.parent, (lily.MusicList, lily.SimultaneousMusicList))]
        if not places:
            return
        p = self.procs[i]
        j = places[k % len(places)]
        node = nodes[j]
        sig, key = KeySignature(0), Key(0, 0, "major")
        for n in node < lily.Key:
            x, at = [(x, at) for x, at in self.keys() if at < j][-1]
            p.pp.find_language(n)
            p.language = self.language_at(at, p.language)
            sig, key = self.signature(p, n, x)
            break
        else:
            if any(at < j for x, at in self.keys()):
                self.fail("key-not-found", "the key signature before note %d is not found" % j)
        if sig is None:
            return
        pitch = sig.pitch(midi) if flats is None else sig.pitch(midi, flats)
        self.judge(pitch, key, midi, [1.5, 5] if flats is None else flats, "key of note %d" % j)
        if hold and len(self.held) < 4:
            self.held.append([sig, key, [1.5, 5]])
        p.pp.find_language(node)
        p.language = self.language_at(j, p.language)
        may = ref.written(p.language, p.prefs, pitch.octave, pitch.note, pitch.alter)
        try:
            new = p.pp.pitchable(pitch)
        except KeyError:
            if may:
                self.fail("pitch-refused", "%s can't write %r" % (p.language, (pitch.octave, pitch.note, pitch.alter)))
            self.run.count("fault:no_name_for_pitch")
            return
        if (new.head, new.octave) not in may:
            self.fail("wrong-name", "%s name for %r is %r" % (p.language, (pitch.octave, pitch.note, pitch.alter), (new.head, new.octave)))
        # find the list that has this note
        for g in c16.groups(self.items):
            for q, y in enumerate(g):
                if y is notes[j]:
                    node.parent.insert(node.parent.index(node) + 1, new)
                    g.insert(q + 1, ["n", new.head, new.octave, 0])
                    self.dirty = True
                    self.run.count("notes_played")
                    return
        raise core.HarnessError("note is not in a list")

    def do_make(self, note, alter, mode):
        sig = KeySignature(note, float(F(alter)), mode if isinstance(mode, str) else [F(m) for m in mode])
        key = Key(note, F(alter), mode)
        self.same_key(sig, key, "%d %s %s" % (note, alter, mode))
        self.held.append([sig, key, [1.5, 5]])
        del self.held[:-4]

    def do_flats(self, j, flats):
        if self.held:
            h = self.held[j % len(self.held)]
            h[0].flats = tuple(flats)
            h[2] = flats

    def do_use(self, j, midi, flats, how, fault):
        """Use a key signature again, maybe interrupted."""
        if not self.held:
            return
        sig, key, default = self.held[j % len(self.held)]

        def use():
            if flats is None:
                return sig.pitch(midi)
            return sig.pitch(midi, tuple(flats) if how else flats)
        if fault:
            exc = KINDS[fault[1]]("injected")
            f = LineFault(fault[0], exc)
            try:
                with f.extent():
                    use()
            except BaseException as e:
                if e is not exc:
                    raise
                self.run.count("fault:" + fault[1])
        pitch = use()
        self.judge(pitch, key, midi, default if flats is None else flats, "held signature")
        pitch.octave += 2       # may not have an effect later
        pitch.note = 0
        self.judge(use(), key, midi, default if flats is None else flats, "held signature, for the second time")
        self.same_key(sig, key, "held signature")

    def do_midi(self, midi, flats):
        """Without a key signature."""
        pitch = Pitch.from_midi(midi) if flats is None else Pitch.from_midi(midi, flats=flats)
        self.judge(pitch, Key(0, 0, "major"), midi, [1.5, 5] if flats is None else flats, "without a key")

    def do_tonic(self, n):
        """The key with n sharps or flats."""
        note, alter = quickly.key.tonic(n)
        key = Key(note, F(alter), "major")
        if sum(key.scale.values()) * 2 != n:
            self.fail("wrong-tonic", "%r does not have %d accidentals" % ((note, alter), n))
        got = [F(a) for a in quickly.key.accidentals(note, alter)]
        if got != [key.scale[i] for i in range(7)]:
            self.fail("wrong-accidentals", "%r has accidentals %r" % ((note, alter), got))

    def do_scale(self, scale, note, alter, mode, offset):
        """The accidentals in a scale of the user's own."""
        steps = [F(x) for x in scale]
        got = quickly.key.accidentals(note, alter, mode, scale)
        sig = quickly.key.KeySignature(note, alter, mode, scale) if mode else None
        expect = [None] * 7
        for k in range(7):
            o, n = divmod(note + k, 7)
            expect[n] = steps[note] + F(alter) + steps[k] - steps[0] + (F(mode[k]) if mode else 0) - steps[n] - 6 * o
        if [F(x) for x in got] != expect or sig and [F(x) for x in sig.accidentals] != expect:
            self.fail("wrong-accidentals", "%r in scale %r has accidentals %r" % ((note, alter, mode), scale, got))
        got = quickly.key.alterations(offset, scale)
        i = offset % 7
        if [F(x) for x in got] != [steps[(i + k) % 7] + 6 * ((i + k) // 7) - steps[i] - steps[k] + steps[0] for k in range(7)]:
            self.fail("wrong-accidentals", "step %d of scale %r has alterations %r" % (offset, scale, got))

    def do_chromatic(self, note, alter, flats):
        """The names of the twelve half tones."""
        got = quickly.key.chromatic_scale(note, alter, flats=flats)
        tonic = WHITE[note] + F(alter)
        if len(got) != 12:
            self.fail("wrong-pitch", "chromatic scale of %d notes" % len(got))
        for i, (n, a) in enumerate(got):
            rest = (F(i, 2) - tonic) % 6
            step = max(k for k in range(7) if WHITE[k] <= rest)
            if WHITE[step] != rest and rest in (MAJOR_FLATS if flats is None else flats):
                step += 1
            if n != (note + step) % 7 or (WHITE[n] + F(a) - F(i, 2)) % 6 or abs(a) > 3:
                self.fail("wrong-pitch", "%r is half tone %d in the chromatic scale of %r" % ((n, a), i, (note, alter, flats)))

    def do_variable(self, k, mode):
        """Give a variable another mode."""
        if self.dirty:
            self.do_write(None)
        self.variables[k] = mode
        self.retype()
        self.get_model()

    def do_mode(self, k, mode):
        """Type another mode."""
        if self.dirty:
            self.do_write(None)
        keys = [x for x, at in self.keys()]
        if keys:
            keys[k % len(keys)][2] = mode
            self.retype()
            self.get_model()


class C18(core.Check):
    id = "C18"
    rule = "at least three keys were named in two or more key signatures"
    assumptions = [
        "Altered notes that are not in the key are the sharpened or, if listed in flats, flattened steps of the major scale on the "
        "tonic, as the documentation of flats describes and its examples show.",
        "For keys with quarter tones only that the named pitch is less than half a tone off is judged.",
    ]
    real = ["quickly.key", "quickly.pitch", "quickly.dom.lily (Key, variables, pitches)", "quickly.dom.scope, quickly.node (queries)",
            "Element.edit", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)", "exceptions raised at chosen lines", "MIDI keyboard (numbers)"]
    states_measure = "distinct states of the processors and the document"
    quick_runs = 8000
    thorough_runs = 200000

    def lists(self):
        return ("ops", "schedule", "items")

    def simplify(self, case):
        for c in c16.CHECK.simplify(case):
            yield c

    def sample(self, case):
        return repr({"text": c16.render(case["items"]), "ops": case["ops"]})[:1500]

    def generate(self, rng):
        items, lang = random_items(rng, "nederlands")
        ops = []

        def flats():
            return None if rng.random() < .5 else [b for b in BLACK if rng.random() < .5]
        for _ in range(rng.choice([6, 12, 24])):
            i = rng.randrange(2)
            k = rng.random()
            midi = rng.randint(36, 84) if rng.random() < .8 else rng.randint(0, 127)
            if k < .42:
                ops.append(["press", i, rng.randrange(100), midi, flats(), rng.random() < .3])
            elif k < .52:
                ops.append(["make", rng.randrange(7), rng.choice(["-1/2", "0", "0", "1/2", "1", "-1", "1/4", "-1/4"]),
                            mode_value(random_mode(rng, False), ())])
            elif k < .57:
                ops.append(["flats", rng.randrange(4), flats() or []])
            elif k < .72:
                fault = [rng.randint(1, 60), rng.choice(sorted(UNCATCHABLE))] if rng.random() < .3 else None
                ops.append(["use", rng.randrange(4), midi, flats(), rng.random() < .5, fault])
            elif k < .75:
                ops.append(["midi", midi, flats()])
            elif k < .77:
                if rng.random() < .5:
                    ops.append(["tonic", rng.randint(-12, 12)])
                elif rng.random() < .5:
                    ops.append(["scale", [0] + sorted(rng.sample([x / 4 for x in range(1, 24)], 6)), rng.randrange(7),
                                rng.choice([-.5, -.25, 0, .5]), rng.choice([None, [rng.choice([-.5, 0, 0, .25, .5]) for _ in range(7)]]),
                                rng.randint(-7, 12)])
                else:
                    ops.append(["chromatic", rng.randrange(7), rng.choice([-1, -.5, 0, 0, .5, 1]),
                                rng.choice([None, [x for x in (.5, 1.5, 3, 4, 5) if rng.random() < .5]])])
            elif k < .8:
                ops.append(["variable", rng.randrange(3), random_mode(rng, False)])
            elif k < .84:
                ops.append(["mode", rng.randrange(100), random_mode(rng)])
            elif k < .9:
                ops.append(["write", [rng.randint(1, 400), rng.choice(sorted(UNCATCHABLE))] if rng.random() < .3 else None])
            elif k < .92:
                ops.append(["pref", i, rng.choice(sorted(ref.DEFAULTS)), rng.random() < .5])
            elif k < .93:
                ops.append(["language", i, c16.random_lang(rng)])
            else:
                new = None
                if rng.random() < .8:
                    l = random_items(rng, c16.random_lang(rng), rng.random() < .3)[0]
                    new = rng.choice(l) if l else None
                ops.append(["type", rng.randrange(100), rng.randrange(100), new, rng.random() < .5])
        return {"items": items, "langs": [None, None], "variables": [random_mode(rng, False) for _ in range(3)], "ops": ops,
                "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 40]))]}

    def execute(self, case, run):
        with docsim.World(run, case["schedule"]) as w:
            s = Session(w, run, copy.deepcopy(case["items"]), case["langs"], copy.deepcopy(case["variables"]))
            s.check()
            for i, op in enumerate(case["ops"]):
                s.do(i, op)
            s.step = None
            s.do_write(None)
            s.check()
            c = run.counts
            run.nontrivial = c.get("keys_named", 0) >= 3 and c.get("signatures_read", 0) + c.get("op_make", 0) >= 2


CHECK = C18()
