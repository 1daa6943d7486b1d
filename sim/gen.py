r"""Generators of LilyPond, HTML, LaTeX and Scheme text.

A generated document is a nested list of strings ("parts"), so that the
minimiser can drop pieces of it; ``render()`` joins them with single spaces,
the way quickly itself spaces its output.
"""
from fractions import Fraction as F

from .ref import pitches, vocab


def render(parts):
    out = []

    def rec(p):
        if isinstance(p, str):
            if out and p != "\n" and out[-1][-1:] not in ("\n", ""):
                out.append(" ")
            if p:
                out.append(p)
        else:
            for x in p:
                rec(x)
    rec(parts)
    return "".join(out)


def shrink(parts):
    """Yield variants of the nested parts with something left out."""
    if not isinstance(parts, list):
        return
    n = len(parts)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            yield parts[:i] + parts[i + size:]
        size //= 2
    for i, p in enumerate(parts):
        if isinstance(p, list):
            if n > 1 and len(p) > 2:
                # replace by contents
                yield parts[:i] + p + parts[i + 1:]
            for q in shrink(p):
                yield parts[:i] + [q] + parts[i + 1:]
        elif len(p) > 1 and p[:1].isalpha() and p[1:].strip("',"):
            pass


#: more kinds of items, for the checks that don't need to know what they mean
EXTRA = [x.split(" ") for x in r'''\tweak color #red c4
\tweak Stem.color #red d
\tag #'foo e
\tag foo { c d }
\once \override Staff.Clef.color = #blue
\revert NoteHead.color
\unset Staff.instrumentName
\textLengthOn
\repeat tremolo 4 { c16 d }
\repeat volta 2 { c } \alternative { { d } { e } }
\after 4 \p c2
\unfoldRepeats { c d }
\keepWithTag #'foo { c }
\removeWithTag foo { c }
\ottava #1
\clef treble
\time 2,2,3 7/8
\tempo Allegro
\tempo "Fast" 4. = 60-72
\mark "A"
\mark \markup \bold X
\stopStaff
\context Voice = "one" { c d }
\new Voice \with { \consists Foo } { c }
\change Staff = "up"
\applyContext #(lambda (c) #t)
\autoBeamOff
\parallelMusic #'(a b) { c | d }
\addQuote "x" { c }
\cueDuring "x" #UP { r }
\transposition bes
\tuplet 3/2 8 { c8 d e }
\crossStaff { c }
\alterBroken positions #'((3 . 3)) c
\shape #'((0 . 0)) Slur
c\=1( d\=1)
c'4-\tweak color #red -.
d-"text" e^\markup { \bold x } f_\fermata
c4~ c ( d ) [ e ]
e\< f\! g\> a\!
c\glissando d
<c\tweak color #red e>
<c-1 e-3>4
\partCombine { c } { e }
\grace c16 d
\slashedGrace d8
\musicMap #(lambda (x) x) { c }
\lyricsto "one" { foo -- bar __ }
\new FretBoards { c }
\relative { c }
\etc
$music
\displayMusic { c }
\hideNotes
\magnifyMusic 0.5 { c }
\footnote #'(1 . 2) "x" NoteHead
\inherit-acceptability A B
\markLengthOn
\skip 1*2
\voiceOne
\omit Stem
\hide Staff.Clef
\temporary \override Stem.length = 3.5
\bookOutputName "foo"
\vshape #'((0 . 0)) Slur
\propertySet x #1
\arpeggioArrowUp
\stringTuning <c' e'>
\compressMMRests { R1*3 }
\barNumberCheck #5
\pitchedTrill c2\startTrillSpan d
\harmonicByFret #5 c
\withMusicProperty #'x #1 c
\rightHandFinger #1
\notemode { c }
\figures { <6 4>4 <5+ 3->8 }
\chords { c4:m7 d2/fis }
\drums { bd4 sn8 }
\lyrics { foo4 bar }
\chordmode { c2:maj7/+e r4 }'''.split("\n")]


class Lily:
    """Well-formed LilyPond documents, in the subset of sim.ref.reader."""

    defaults = dict(
        languages=("nederlands",), language_switch=0.0,
        relative=0.0, fixed=0.0, transpose=0.0, absolute=0.0,
        chords=0.15, rests=0.12, durations=0.4, dots=0.2, scaling=0.08,
        unpitched=0.0, q=0.05, skips=0.05, events=0.15, comments=0.05,
        alter=0.35, double=0.0, octaves=0.4, checks=0.05, caution=0.05,
        octavecheck=0.03, key=0.05, commands=0.08, tuplets=0.06, grace=0.03,
        sim=0.08, nested=0.1, repeat=0.05, refs=0.0, lyrics=0.0, drums=0.0,
        schemes=0.03, newlines=0.1, new=0.1, header=0.2, score=0.25, version=0.7,
        shift=0.0, size=10, exprs=2, positioned=0.02, strings=0.05, emptychord=0.02,
        alternate=0.0, aftergrace=0.0, partial=0.03, extra=0.0,
    )

    def __init__(self, rng, **opts):
        self.r = rng
        self.o = dict(self.defaults)
        bad = set(opts) - set(self.o)
        assert not bad, bad
        self.o.update(opts)
        self.language = "nederlands"
        self.vars = []
        self.depth = 0
        self.in_relative = False
        self.in_chord = False

    def p(self, name):
        return self.r.random() < self.o[name]

    # -- atoms

    def name(self):
        r = self.r
        while True:
            n, s, a = r.choice(pitches.names(self.language))
            if a and not self.p("alter"):
                continue
            if abs(a) > F(1, 2) and not self.p("double"):
                continue
            return n

    def octave(self):
        if not self.p("octaves"):
            return ""
        return self.r.choice(["'", "'", "''", ",", ",", "'''", ",,"] if not self.in_relative
                             else ["'", "'", ",", ",", "''"])

    def pitch(self):
        s = self.name() + self.octave()
        if self.p("caution"):
            s += self.r.choice("!?")
        if self.p("checks"):
            s += "=" + self.r.choice(["", "'", "''", ","])
        return s

    def dur(self):
        r = self.r
        s = r.choice(["1", "2", "4", "4", "8", "8", "16", "32"] + ["\\breve"] * (r.random() < .1))
        if self.p("dots"):
            s += r.choice([".", ".", ".."])
        if self.p("scaling"):
            s += r.choice(["*2", "*1/2", "*2/3", "*3/4", "*1/2*3", "*3"])
        return s

    def maybe_dur(self):
        return self.dur() if self.p("durations") else ""

    def post(self):
        r = self.r
        s = ""
        if self.p("events"):
            s += r.choice(["-.", "->", "--", "\\f", "\\p", "-4", "^\"text\"", "(", ")", "[", "]", "~",
                           "\\fermata", "\\<", "\\!", "_\\markup { hi \\bold there }", ":16", "-\\trill"])
            if r.random() < .2:
                s += r.choice(["-.", "\\p", "->"])
        return s

    def comment(self):
        r = self.r
        return r.choice(["%{ multi %}", "%{ c4 %}", "% note c8\n", "%{%}", "% }\n"])

    # -- items of a list

    def note(self):
        r = self.r
        if self.p("positioned"):
            return self.pitch_plain() + self.maybe_dur() + "\\rest"
        if self.p("chords"):
            if self.p("emptychord"):
                return "<>" + self.post()
            n = r.choice([1, 2, 2, 3, 3, 4])
            self.in_chord = True
            s = "<" + " ".join(self.pitch() for _ in range(n)) + ">"
            self.in_chord = False
            return s + self.maybe_dur() + self.post()
        if self.p("rests"):
            return r.choice(["r", "r", "s", "R"]) + self.maybe_dur()
        if self.p("q"):
            return "q" + self.maybe_dur()
        if self.p("unpitched"):
            return self.dur() + self.post()
        return self.pitch() + self.maybe_dur() + self.post()

    def pitch_plain(self):
        return self.name() + self.octave()

    def item(self):
        r = self.r
        o = self.o
        if self.p("comments"):
            return self.comment()
        if self.p("newlines"):
            return "\n"
        if self.p("schemes"):
            return r.choice(["#(ly:progress)", "#(x '1)", "#'foo"][:2])
        if self.p("commands"):
            return r.choice([["\\time", "3/4"], ["\\clef", '"bass"'], ["\\break"], ["|"], ["\\bar", '"|."'],
                             ["\\mark", "\\default"], ["\\stemUp"], ["\\tempo", "4", "=", "96"],
                             ["\\tempo", '"Fast"', "8", "=", "60"],
                             ["\\override", "NoteHead.color", "=", "#red"],
                             ["\\set", "Staff.instrumentName", "=", '"V"']])
        if self.p("extra"):
            return r.choice(EXTRA) if r.random() < .5 else [r.choice(vocab.WORDS["music"])]
        if self.p("partial"):
            return ["\\partial", r.choice(["4", "8.", "2"])]
        if self.p("skips"):
            return ["\\skip", self.dur()]
        if self.p("octavecheck"):
            return ["\\octaveCheck", self.pitch_plain()]
        if self.p("key"):
            return ["\\key", self.name(), r.choice(["\\major", "\\minor", "\\dorian"])]
        if self.p("language_switch"):
            return self.lang()
        if self.depth < 4:
            if self.p("tuplets"):
                return self.tuplet()
            if self.p("grace"):
                return [r.choice(["\\grace", "\\acciaccatura", "\\appoggiatura"]), self.seq(2)]
            if self.p("aftergrace"):
                return ["\\afterGrace", self.note_only(), self.seq(2)]
            if self.p("sim"):
                return self.sim()
            if self.p("nested"):
                return self.seq()
            if self.p("repeat"):
                return ["\\repeat", r.choice(["volta", "unfold", "percent"]), r.choice("23"), self.seq()]
            if self.p("shift"):
                return ["\\shiftDurations", "#" + r.choice(["1", "0", "-1"]), "#" + r.choice(["0", "1"]), self.seq()]
            if self.vars and self.p("refs"):
                return "\\" + r.choice(self.vars)
            if self.p("alternate"):
                old = self.in_relative
                e = r.choice([self.relative, self.fixed, self.transpose_, self.absolute_])()
                self.in_relative = old
                return e
        return self.note()

    def note_only(self):
        while True:
            s = self.note()
            if s[0] not in "0123456789\\":
                return s

    def tuplet(self):
        r = self.r
        k = r.random()
        if k < .5:
            return ["\\tuplet", r.choice(["3/2", "5/4"])] + ([r.choice(["4", "8."])] if r.random() < .2 else []) \
                + [self.seq(3)]
        if k < .8:
            return ["\\times", r.choice(["2/3", "4/5"]), self.seq(3)]
        return ["\\scaleDurations", r.choice(["2/3", "1/2", "2/3", "1/2", "#2/3", "#'(2 . 3)", "#'(1 . 2)"]), self.seq(3)]

    def lang(self):
        self.language = self.r.choice(self.o["languages"])
        return ["\\language", '"%s"' % self.language]

    def items(self, n=None):
        r = self.r
        n = n or r.randint(1, self.o["size"])
        return [self.item() for _ in range(n)]

    def seq(self, n=None):
        self.depth += 1
        x = ["{"] + self.items(n or self.r.randint(1, 5)) + ["}"]
        self.depth -= 1
        return x

    def sim(self):
        r = self.r
        self.depth += 1
        if r.random() < .4:
            x = ["<<", self.seq(), "\\\\", self.seq(), ">>"]
        else:
            x = ["<<"] + [self.seq() for _ in range(r.randint(1, 3))] + [">>"]
        self.depth -= 1
        return x

    # -- expressions

    def relative(self):
        r = self.r
        old, self.in_relative = self.in_relative, True
        start = [self.pitch_plain()] if r.random() < .6 else []
        x = ["\\relative"] + start + [self.body()]
        self.in_relative = old
        return x

    def fixed(self):
        old, self.in_relative = self.in_relative, False
        x = ["\\fixed", self.pitch_plain(), self.body()]
        self.in_relative = old
        return x

    def absolute_(self):
        old, self.in_relative = self.in_relative, False
        x = ["\\absolute", self.body()]
        self.in_relative = old
        return x

    def transpose_(self):
        old, self.in_relative = self.in_relative, False
        x = ["\\transpose", self.pitch_plain(), self.pitch_plain(), self.expr()]
        self.in_relative = old
        return x

    def body(self):
        self.depth += 1
        r = self.r
        if r.random() < .12:
            x = self.sim()
        else:
            x = ["{"] + self.items(r.randint(1, self.o["size"])) + ["}"]
        self.depth -= 1
        return x

    def expr(self):
        r = self.r
        pre = []
        if self.p("new"):
            pre = ["\\new", r.choice(["Staff", "Voice"])]
            if r.random() < .4:
                pre += ["=", '"x"']
        self.depth += 1
        try:
            if self.depth < 4 and self.p("relative"):
                return pre + self.relative()
            if self.depth < 4 and self.p("fixed"):
                return pre + self.fixed()
            if self.depth < 4 and self.p("transpose"):
                return pre + self.transpose_()
            if self.depth < 4 and self.p("absolute"):
                return pre + self.absolute_()
            if self.depth < 4 and self.p("lyrics"):
                return self.lyrics()
            if self.depth < 4 and self.p("drums"):
                return self.drums()
            return pre + self.body()
        finally:
            self.depth -= 1

    def lyrics(self):
        r = self.r
        out = []
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < .7:
                out.append(r.choice(["la", "foo", "bar", '"x y"', "_"]) + self.maybe_dur())
            elif k < .9 and out:
                out.append("--")
            else:
                out.append("ba" + self.maybe_dur())
        return ["\\new", "Lyrics", "\\lyricmode", ["{"] + out + ["}"]]

    def drums(self):
        r = self.r
        out = [r.choice(["bd", "sn", "hh"]) + self.maybe_dur() + (self.post() if r.random() < .2 else "")
               for _ in range(r.randint(1, 6))]
        return ["\\new", "DrumStaff", "\\drummode", ["{"] + out + ["}"]]

    def document(self):
        r = self.r
        out = []
        if self.p("version"):
            out.append(["\\version", '"%s"' % r.choice(["2.18.0", "2.20.0", "2.16.2", "2.24.1", "2.17.30", "2.18", "2.17.99", "3.0", "2.9.1"]), "\n"])
        if len(self.o["languages"]) > 1 or self.o["languages"][0] != "nederlands":
            if r.random() < .8:
                out.append([self.lang(), "\n"])
        if self.p("header"):
            out.append([["\\header", "{", "title", "=", '"Title"', "}"], "\n"])
        if self.p("comments"):
            out.append(self.comment())
        if self.o["refs"]:
            for name in ("music", "voiceA", "motif")[:r.randint(0, 3)]:
                e = self.expr()
                out.append([name, "=", e, "\n"])
                self.vars.append(name)
        for _ in range(r.randint(1, self.o["exprs"])):
            e = self.expr()
            if self.p("score"):
                e = ["\\score", "{", e, ["\\layout", "{", "}"], "}"]
            out.append([e, "\n"])
        if self.p("comments"):
            out.append(self.comment())
        return out
