r"""Reference reader for a subset of LilyPond.

Written from the LilyPond Notation Reference, independent of quickly and parce.
It gives a plain syntax tree, and on top of that

* the sounding pitch of every note, in any nesting of absolute, ``\relative``,
  ``\fixed`` and ``\transpose`` music, following the pitch language,
* the duration every note, rest, chord etc. gets,
* the musical length of every expression,
* the other tokens (everything that is not the pitch or the duration).

Raises :exc:`Unsupported` on anything outside the subset.
"""
import re
from fractions import Fraction as F

from . import pitches


class Unsupported(Exception):
    pass


TOKEN = re.compile(r"""
    (?P<space>\s+)
  | (?P<comment>%\{(?:.|\n)*?%\}|%[^\n]*\n?)
  | (?P<string>"(?:[^"\\]|\\.)*")
  | (?P<scheme>\#(?:\([^()]*\)|'\([^()]*\)|'?[^\s{}()"]+|"[^"]*"))
  | (?P<command>\\(?:[A-Za-z]+(?:-[A-Za-z]+)*|[<>!()\[\]\\=]))
  | (?P<word>[A-Za-zé]+(?:-(?:sharpsharp|flatflat|sharp|flat|natural))?)
  | (?P<oct>'+|,+)
  | (?P<number>\d+)
  | (?P<symbol><<|>>|--|__|[-<>{}()\[\]~|=!?.*/:^_+])
""", re.X)

BLOCKS = {"\\header", "\\paper", "\\layout", "\\midi", "\\with", "\\context"}
EVENT_COMMANDS = {"\\p", "\\f", "\\mf", "\\pp", "\\ff", "\\<", "\\>", "\\!", "\\fermata", "\\trill",
                  "\\staccato", "\\accent", "\\turn", "\\laissezVibrer", "\\(", "\\)", "\\[", "\\]",
                  "\\startTrillSpan", "\\stopTrillSpan", "\\rest"}
SHIFT = {"\\breve": F(2), "\\longa": F(4), "\\maxima": F(8)}


class Tok:
    __slots__ = ("kind", "text", "pos", "end", "role")

    def __init__(self, kind, text, pos, end):
        self.kind, self.text, self.pos, self.end, self.role = kind, text, pos, end, None

    def __repr__(self):
        return "%s%r@%d" % (self.kind, self.text, self.pos)


def tokenize(text):
    out = []
    pos = 0
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Unsupported("token at %d: %r" % (pos, text[pos:pos+10]))
        out.append(Tok(m.lastgroup, m.group(), pos, m.end()))
        pos = m.end()
    return out


class N:
    """A syntax node."""
    def __init__(self, type, pos, **kw):
        self.type = type
        self.pos = pos
        self.end = pos
        self.children = []
        self.dur = None         # (Fraction, scaling) when written
        self.scale_text = False
        self.dur_pos = None
        self.eff = None         # the effective one
        self.pitch = None       # P
        self.sound = None       # (octave, step, alter), octave 0 is that of c'
        self.relative = False   # whether a note is in relative music
        self.__dict__.update(kw)

    def __repr__(self):
        return "<%s %d:%d>" % (self.type, self.pos, self.end)

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


class P:
    """A written pitch."""
    __slots__ = ("step", "alter", "octave", "pos", "end", "language", "check", "caution", "name")

    def __repr__(self):
        return "P%s" % ((self.octave, self.step, self.alter),)


DURABLE = {"note", "chord", "rest", "mmrest", "space", "skip", "q", "unpitched", "lyric", "drum"}


class Reader:
    def __init__(self, text, names=("undefinedMusic",), language="nederlands"):
        self.text = text
        self.names = names          # variables known to be elsewhere
        self.all = tokenize(text)
        self.toks = [t for t in self.all if t.kind not in ("space", "comment")]
        self.i = 0
        self.language = language
        self.version = None
        self.vars = {}
        self.mode = "note"
        self.durables = []
        self.pitches = []           # all pitch occurrences in text order: (node)
        self.prev = (F(1, 4), F(1))
        self.root = N("doc", 0)
        while not self.eof():
            self.root.children.append(self.toplevel())
        self.root.end = len(text)

    # -- tokens

    def eof(self):
        return self.i >= len(self.toks)

    def peek(self, n=0):
        if self.i + n < len(self.toks):
            return self.toks[self.i + n]
        return Tok("eof", "", len(self.text), len(self.text))

    def next(self, *texts):
        if self.eof():
            raise Unsupported("unexpected end")
        t = self.toks[self.i]
        if texts and t.text not in texts:
            raise Unsupported("expected %r, got %r" % (texts, t))
        self.i += 1
        self.last = t
        return t

    def adjacent(self):
        """The next token follows the last one without space."""
        return self.peek().pos == self.last.end

    # -- structure

    def toplevel(self):
        t = self.peek()
        if t.text == "\\version":
            n = N("version", t.pos)
            self.next()
            s = self.next()
            if s.kind != "string":
                raise Unsupported("version")
            self.version = tuple(map(int, s.text[1:-1].split(".")))
            n.end = s.end
            return n
        if t.text == "\\language":
            return self.lang()
        if t.text == "\\include":
            n = N("include", t.pos)
            self.next()
            s = self.next()
            if s.kind != "string":
                raise Unsupported("include")
            n.end = s.end
            return n
        if t.text in BLOCKS:
            return self.block()
        if t.text in ("\\score", "\\book", "\\bookpart"):
            n = N("score", t.pos)
            self.next()
            self.next("{")
            while self.peek().text != "}":
                n.children.append(self.toplevel())
            n.end = self.next("}").end
            return n
        if t.kind == "word" and self.peek(1).text == "=":
            n = N("assignment", t.pos, name=t.text)
            self.next()
            self.next()
            v = self.peek()
            if v.kind in ("string", "scheme", "number"):
                self.next()
                n.value = v.text
            else:
                if v.kind == "word" or v.text == "<":
                    # a single note; the language definition (parce) has no support for it
                    raise Unsupported("assignment of %r" % v)
                n.value = self.music()
                n.children.append(n.value)
            self.vars[n.name] = n
            n.end = self.last.end
            return n
        if t.kind == "scheme":
            n = N("scheme", t.pos)
            n.end = self.next().end
            return n
        return self.music()

    def lang(self):
        t = self.next()
        n = N("language", t.pos)
        s = self.next()
        lang = s.text[1:-1]
        if s.kind != "string" or lang not in pitches.LANGUAGES:
            raise Unsupported("language")
        self.language = lang
        n.end = s.end
        return n

    def block(self):
        """A balanced block whose contents don't matter."""
        t = self.next()
        n = N("block", t.pos)
        self.next("{")
        depth = 1
        while depth:
            x = self.next()
            depth += (x.text == "{") - (x.text == "}")
        n.end = self.last.end
        return n

    # -- pitches and durations

    def is_pitch(self, t):
        return t.kind == "word" and t.text in pitches.LANGUAGES[self.language]

    def read_pitch(self, marks=True):
        t = self.next()
        if not self.is_pitch(t):
            raise Unsupported("pitch %r" % t)
        t.role = "pitch"
        p = P()
        p.name = t.text
        p.step, p.alter = pitches.LANGUAGES[self.language][t.text]
        p.language = self.language
        p.pos = t.pos
        p.octave = -1
        p.check = None
        p.caution = ""
        if self.peek().kind == "oct":
            o = self.next()
            o.role = "pitch"
            p.octave += len(o.text) if o.text[0] == "'" else -len(o.text)
        p.end = self.last.end
        if marks:
            while self.peek().text in ("!", "?"):
                p.caution += self.next().text
            if self.peek().text == "=":
                self.next()
                p.check = -1
                if self.peek().kind == "oct":
                    o = self.next()
                    o.role = "pitch"
                    p.check += len(o.text) if o.text[0] == "'" else -len(o.text)
        return p

    def read_duration(self):
        """Return (dur, scaling) or None."""
        t = self.peek()
        if t.kind == "number":
            v = int(t.text)
            if not v or v & (v - 1):
                raise Unsupported("duration %s" % t.text)
            d = F(1, v)
        elif t.text in SHIFT:
            d = SHIFT[t.text]
        else:
            return None
        self.next().role = "dur"
        self.dur_start = t.pos
        dots = 0
        while self.peek().text == ".":
            self.next().role = "dur"
            dots += 1
        self.plain_end = self.last.end
        d = d * (2 - F(1, 2 ** dots))
        s = F(1)
        n = 0
        while self.peek().text == "*":
            self.next().role = "dur"
            a = self.next()
            a.role = "dur"
            if a.kind != "number":
                raise Unsupported("scaling")
            v = F(int(a.text))
            if self.peek().text == "/":
                self.next().role = "dur"
                b = self.next()
                b.role = "dur"
                if b.kind != "number" or not int(b.text):
                    raise Unsupported("scaling")
                v /= int(b.text)
            s *= v
            n += 1
        self.scalings = n
        return d, s

    def durable(self, n):
        d = self.read_duration()
        if d:
            n.dur = d
            n.dur_pos = (self.dur_start, self.last.end)
        n.core_end = self.last.end
        self.set_eff(n)
        self.durables.append(n)

    def set_eff(self, n):
        if n.dur:
            n.eff = n.dur
            if n.type != "skip":
                self.prev = n.dur
        else:
            n.eff = self.prev

    def post_events(self, n):
        n.events = 0
        while True:
            t = self.peek()
            if t.text in ("-", "^", "_") and self.mode != "lyric":
                self.next()
                x = self.next()
                if x.text == "\\markup":
                    self.markup_arg()
                elif x.kind not in ("string", "symbol", "command", "number", "word"):
                    raise Unsupported("event %r" % x)
            elif t.text == "--" and self.mode != "lyric":
                self.next()
            elif t.text in EVENT_COMMANDS:
                if t.text == "\\rest" and n.type == "note":
                    n.rest = True
                self.next()
            elif t.text in ("(", ")", "[", "]", "~"):
                self.next()
            elif t.text == ":" and self.adjacent():
                self.next()
                if self.peek().kind == "number" and self.adjacent():
                    self.next()
            else:
                break
            n.events += 1
        n.end = self.last.end

    def markup_arg(self):
        t = self.next()
        while t.kind == "command":
            t = self.next()
        if t.text == "{":
            depth = 1
            while depth:
                x = self.next()
                depth += (x.text == "{") - (x.text == "}")
        elif t.kind not in ("string", "word"):
            raise Unsupported("markup")

    # -- music

    def items(self, n, close):
        while self.peek().text != close:
            n.children.append(self.music(True))
        n.end = self.next(close).end

    def music(self, item=False):
        n = self._music()
        n.end = max(n.end, self.last.end)
        return n

    def _music(self):
        t = self.peek()
        if t.kind == "eof":
            raise Unsupported("unexpected end")
        x = t.text
        if x == "{":
            n = N("seq", t.pos)
            self.next()
            self.items(n, "}")
            return n
        if x == "<<":
            n = N("sim", t.pos)
            self.next()
            while self.peek().text != ">>":
                if self.peek().text == "\\\\":
                    self.next()
                    continue
                n.children.append(self.music())
            n.end = self.next(">>").end
            return n
        if x == "<" and self.mode == "note":
            return self.chord()
        if t.kind == "command" and x not in SHIFT:
            return self.command()
        if (t.kind == "number" or x in SHIFT) and self.mode == "note":
            n = N("unpitched", t.pos)
            self.durable(n)
            self.post_events(n)
            return n
        if x in ("|",):
            n = N("other", t.pos)
            self.next()
            return n
        if t.kind == "scheme":
            n = N("other", t.pos)
            self.next()
            return n
        if self.mode == "lyric":
            if x in ("--", "__"):
                n = N("other", t.pos)
                self.next()
                return n
            if t.kind in ("word", "string") or x == "_":
                n = N("lyric", t.pos, text=x)
                self.next()
                if t.kind == "word" and self.peek().kind == "symbol" and self.adjacent() \
                        and self.peek().text not in ("{", "}", "--", "__"):
                    raise Unsupported("lyric %r" % self.peek())
                self.durable(n)
                n.events = 0
                n.end = self.last.end
                return n
            raise Unsupported("lyric %r" % t)
        if self.mode == "drum" and t.kind == "word" and x in ("bd", "sn", "hh", "cymc"):
            n = N("drum", t.pos, text=x)
            self.next()
            self.durable(n)
            self.post_events(n)
            return n
        if x in ("r", "R", "s", "q") and (self.mode == "note" or x in "rs"):
            n = N({"r": "rest", "R": "mmrest", "s": "space", "q": "q"}[x], t.pos)
            self.next()
            self.durable(n)
            self.post_events(n)
            return n
        if self.is_pitch(t) and self.mode == "note":
            n = N("note", t.pos, rest=False)
            n.pitch = self.read_pitch()
            self.pitches.append(n)
            self.durable(n)
            self.post_events(n)
            return n
        raise Unsupported("unexpected %r" % t)

    def chord(self):
        t = self.next("<")
        n = N("chord", t.pos)
        while self.peek().text != ">":
            m = N("chordnote", self.peek().pos)
            m.pitch = self.read_pitch()
            self.pitches.append(m)
            if self.peek().text in ("-", "^"):
                self.next()
                if self.peek().kind not in ("number",):
                    raise Unsupported("chord event")
                self.next()
            m.end = self.last.end
            n.children.append(m)
        self.next(">")
        self.durable(n)
        self.post_events(n)
        return n

    def fraction(self):
        a = self.next()
        self.next("/")
        b = self.next()
        if a.kind != "number" or b.kind != "number":
            raise Unsupported("fraction")
        return F(int(a.text), int(b.text))

    def arg_pitch(self, type):
        n = N(type, self.peek().pos)
        n.pitch = self.read_pitch(False)
        if self.peek().kind == "number" or self.peek().text in SHIFT:
            # quickly reads a bare duration as belonging to the pitch
            raise Unsupported("duration after pitch argument")
        self.pitches.append(n)
        n.end = self.last.end
        return n

    def command(self):
        t = self.next()
        x = t.text
        n = N("command", t.pos, name=x)
        if x == "\\language":
            self.i -= 1
            return self.lang()
        if x in BLOCKS:
            self.i -= 1
            return self.block()
        if x == "\\relative":
            n.type = "relative"
            n.start = None
            if self.is_pitch(self.peek()) and self.peek().text not in ("r", "s", "q"):
                n.start = self.arg_pitch("startpitch")
                n.children.append(n.start)
            n.children.append(self.music())
        elif x == "\\fixed":
            n.type = "fixed"
            n.start = self.arg_pitch("fixedpitch")
            n.children.append(n.start)
            n.children.append(self.music())
        elif x == "\\absolute":
            n.type = "absolute"
            n.children.append(self.music())
        elif x == "\\transpose":
            n.type = "transpose"
            n.children.append(self.arg_pitch("from"))
            n.children.append(self.arg_pitch("to"))
            n.children.append(self.music())
        elif x == "\\repeat":
            self.next("volta", "unfold", "percent", "tremolo")
            if self.next().kind != "number":
                raise Unsupported("repeat")
            n.type = "repeat"
            n.children.append(self.music())
        elif x == "\\tuplet":
            n.type = "tuplet"
            n.scale = 1 / self.fraction()
            d = self.read_duration()
            if d:
                n.tdur = d
            n.children.append(self.music())
        elif x == "\\times":
            n.type = "tuplet"
            n.scale = self.fraction()
            n.children.append(self.music())
        elif x == "\\scaleDurations":
            n.type = "tuplet"
            t = self.peek()
            if t.kind == "scheme":
                m = re.fullmatch(r"#(?:'\(\s*(\d+)\s+\.\s+(\d+)\s*\)|(\d+)(?:/(\d+))?)", t.text)
                if not m:
                    raise Unsupported("scaling")
                self.next()
                n.scale = F(int(m[1] or m[3]), int(m[2] or m[4] or 1))
            else:
                n.scale = self.fraction()
            n.children.append(self.music())
        elif x == "\\shiftDurations":
            n.type = "shift"
            a, b = self.next(), self.next()
            n.log, n.dots = int(a.text.lstrip("#")), int(b.text.lstrip("#"))
            n.children.append(self.music())
        elif x in ("\\grace", "\\acciaccatura", "\\appoggiatura", "\\slashedGrace"):
            n.type = "grace"
            n.children.append(self.music())
        elif x == "\\afterGrace":
            n.type = "aftergrace"
            if self.peek().kind == "number" and self.peek(1).text == "/":
                self.fraction()
            n.children.append(self.music())
            n.children.append(self.music())
        elif x in ("\\simultaneous", "\\sequential") and self.peek().text == "{":
            n.type = "wrap"
            n.children.append(self.music())
            if x == "\\simultaneous":
                n.children[0].type = "sim"
        elif x == "\\partcombine":
            n.type = "wrap2"
            n.children.append(self.music())
            n.children.append(self.music())
        elif x in ("\\unfoldRepeats", "\\oneVoice {"):
            n.type = "wrap"
            n.children.append(self.music())
        elif x == "\\tag":
            n.type = "wrap"
            self.next()
            n.children.append(self.music())
        elif x in ("\\new", "\\context"):
            n.type = "wrap"
            self.next()
            if self.peek().text == "=":
                self.next()
                self.next()
            if self.peek().text == "\\with":
                n.children.append(self.block())
            old = self.mode
            n.children.append(self.music())
            self.mode = old
        elif x in ("\\lyricmode", "\\drummode"):
            n.type = "wrap"
            old, self.mode = self.mode, {"\\lyricmode": "lyric", "\\drummode": "drum"}[x]
            if self.peek().text != "{":
                raise Unsupported(x)
            n.children.append(self.music())
            self.mode = old
        elif x == "\\skip":
            if self.peek().text in ("{", "<<") or self.peek().kind == "command" and self.peek().text not in SHIFT:
                n.type = "wrap"
                n.children.append(self.music())
                n.end = self.last.end
                return n
            n.type = "skip"
            self.durable(n)
            if not n.dur:
                raise Unsupported("skip")
            n.events = 0
        elif x == "\\octaveCheck":
            n.type = "octavecheck"
            n.children.append(self.arg_pitch("checkpitch"))
        elif x == "\\key":
            n.type = "key"
            n.children.append(self.arg_pitch("keypitch"))
            m = self.next()
            if m.text not in ("\\major", "\\minor", "\\dorian", "\\lydian"):
                raise Unsupported("mode")
            n.mode = m.text
        elif x == "\\time":
            self.fraction()
        elif x == "\\clef":
            if self.next().kind != "string":
                raise Unsupported("clef")
        elif x == "\\bar":
            if self.next().kind != "string":
                raise Unsupported("bar")
        elif x == "\\mark":
            if self.next().text != "\\default":
                raise Unsupported("mark")
        elif x == "\\tempo":
            n.type = "tempo"
            if self.peek().kind == "string":
                self.next()
            if self.peek().kind == "number" or self.peek().text in SHIFT:
                n.tdur = self.read_duration()
                self.next("=")
                if self.next().kind != "number":
                    raise Unsupported("tempo")
        elif x == "\\partial":
            n.type = "partial"
            n.tdur = self.read_duration()
            if not n.tdur:
                raise Unsupported("partial")
        elif x in ("\\override", "\\set"):
            while self.peek().text != "=":
                if self.next().kind not in ("word", "symbol"):
                    raise Unsupported(x)
            self.next("=")
            if self.next().kind not in ("scheme", "string"):
                raise Unsupported(x)
        elif x in ("\\stemUp", "\\stemDown", "\\break", "\\voiceOne", "\\oneVoice"):
            pass
        elif x[1:] in self.vars or x[1:] in self.names:
            n.type = "ref"
            n.name = x[1:]
            n.value = self.vars.get(n.name)
        else:
            raise Unsupported("command %s" % x)
        n.end = self.last.end
        return n


# -- pitches ------------------------------------------------------------------

C0 = (0, 0, F(0))       # c'
F3 = (-1, 3, F(0))      # f


def relative_to(p, last):
    """Absolute (octave, step, alter) of written pitch p after last."""
    octave = last[0]
    d = p.step - last[1]
    if d > 3:
        octave -= 1
    elif d < -3:
        octave += 1
    return (octave + p.octave + 1, p.step, p.alter)


def transposed(pitch, frm, to):
    """Pitch transposed by the interval frm -> to, unlimited alteration."""
    steps = (to[0] - frm[0]) * 7 + to[1] - frm[1]
    dh = pitches.height(*to) - pitches.height(*frm)
    o, s = divmod(pitch[0] * 7 + pitch[1] + steps, 7)
    return (o, s, pitches.height(*pitch) + dh - pitches.height(o, s, F(0)))


def written(p):
    return (p.octave, p.step, p.alter)


class Sounding:
    """Computes the sound attribute of all pitch nodes."""

    def __init__(self, reader, first_pitch_absolute=None, nested_fixed=False):
        self.r = reader
        self.nested_fixed = nested_fixed
        if first_pitch_absolute is None:
            first_pitch_absolute = (reader.version or (0,)) >= (2, 18)
        self.fpa = first_pitch_absolute
        self.absolute(reader.root, ())

    def sound(self, n, pitch, trans):
        n.plain = pitch         # not taking \transpose into account
        for frm, to in reversed(trans):
            pitch = transposed(pitch, frm, to)
        n.sound = pitch

    def absolute(self, n, trans, shift=0, fixed=False):
        for c in n.children:
            t = c.type
            if fixed and t in ("relative", "fixed", "absolute"):
                # LilyPond also shifts the octave of those; quickly considers
                # them independent (not something that is seen in real files)
                if not self.nested_fixed:
                    raise Unsupported("%s in fixed music" % t)
                self.absolute_children(c, trans + ((C0, (shift, 0, F(0))),))
                continue
            if t in ("note", "chordnote"):
                p = written(c.pitch)
                self.sound(c, (p[0] + shift, p[1], p[2]), trans)
            elif t == "keypitch":
                self.sound(c, written(c.pitch), trans)
            elif t == "checkpitch":
                p = written(c.pitch)
                self.sound(c, (p[0] + shift, p[1], p[2]), trans)
            elif t == "relative":
                self.relative(c, trans)
            elif t == "fixed":
                self.absolute_children(c.children[1], trans, c.start.pitch.octave + 1, True)
            elif t == "absolute":
                self.absolute(c, trans)
            elif t == "transpose":
                a, b = written(c.children[0].pitch), written(c.children[1].pitch)
                self.absolute_children(c.children[2], trans + ((a, b),), shift, fixed)
            else:
                self.absolute(c, trans, shift, fixed)

    def absolute_children(self, n, trans, shift=0, fixed=False):
        m = N("wrap", n.pos)
        m.children = [n]
        self.absolute(m, trans, shift, fixed)

    def relative(self, n, trans):
        if n.start:
            last = written(n.start.pitch)
        else:
            last = F3 if self.fpa else C0
        self._rel(n.children[-1], last, trans)

    def _rel(self, n, last, trans):
        """Return the new last pitch."""
        t = n.type
        if t == "note":
            p = relative_to(n.pitch, last)
            self.sound(n, p, trans)
            n.relative = True
            return p
        if t == "chord":
            first, l = None, last
            for c in n.children:
                l = relative_to(c.pitch, l)
                self.sound(c, l, trans)
                c.relative = True
                first = first or l
            return first or last
        if t == "octavecheck":
            c = n.children[0]
            p = written(c.pitch)
            self.sound(c, p, trans)
            return p
        if t == "key":
            self.sound(n.children[0], written(n.children[0].pitch), trans)
            return last
        if t in ("relative", "fixed", "absolute", "transpose"):
            self.absolute_children(n, trans)
            return last
        for c in n.children:
            last = self._rel(c, last, trans)
        return last


def sounding(text, first_pitch_absolute=None, nested_fixed=False, language="nederlands"):
    """Read text; return the reader with all sounds computed."""
    r = Reader(text, language=language)
    Sounding(r, first_pitch_absolute, nested_fixed)
    return r


def others(reader, drop=("pitch",), skip=()):
    """All tokens except space and those with a role in ``drop``; comments
    included. Tokens within the (pos, end) spans in ``skip`` are left out."""
    out = []
    for t in reader.all:
        if t.kind == "space" or t.role in drop:
            continue
        if any(a <= t.pos < b for a, b in skip):
            continue
        out.append(t.text.rstrip("\n") if t.kind == "comment" else t.text)
    return out


# -- time ---------------------------------------------------------------------

def length(n, resolve=None, scale=F(1), shift=(0, 0)):
    """Musical length of the syntax node."""
    t = n.type
    if t in DURABLE:
        if t == "chord" and not n.children:
            return F(0)
        d, s = n.eff
        log, dots = shift
        if dots or log:
            d = shifted(d, log, dots)
        return d * s * scale
    if t == "seq":
        return sum((length(c, resolve, scale, shift) for c in n.children), F(0))
    if t in ("sim", "wrap2"):
        return max((length(c, resolve, scale, shift) for c in n.children), default=F(0))
    if t == "tuplet":
        return length(n.children[-1], resolve, scale * n.scale, shift)
    if t == "shift":
        return length(n.children[-1], resolve, scale, (shift[0] + n.log, shift[1] + n.dots))
    if t == "grace":
        return F(0)
    if t == "aftergrace":
        return length(n.children[0], resolve, scale, shift)
    if t == "ref":
        if resolve:
            return resolve(n, scale, shift)
        if n.value is not None and isinstance(n.value.value, N):
            return length(n.value.value, resolve, scale, shift)
        return F(0)
    if t in ("relative", "fixed", "absolute", "transpose", "wrap", "repeat"):
        return length(n.children[-1], resolve, scale, shift)
    return F(0)


def log_dots(d):
    """(log, dots) of a duration: log 0 is a whole note, 2 a quarter, -1 a breve."""
    base = F(1)
    log = 0
    while base > d:
        base /= 2
        log += 1
    while base * 2 <= d:
        base *= 2
        log -= 1
    dots = 0
    rest, part = d - base, base / 2
    while rest > 0:
        rest -= part
        part /= 2
        dots += 1
    if rest:
        raise Unsupported("duration %s" % d)
    return log, dots


def from_log_dots(log, dots):
    base = F(1, 2 ** log) if log >= 0 else F(2 ** -log)
    return base * (2 - F(1, 2 ** dots))


def shifted(d, log, dots):
    a, b = log_dots(d)
    return from_log_dots(a + log, max(0, b + dots))
