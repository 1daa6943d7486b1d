"""C22: content built with the construction helpers is what the document then says.

A document is described by plain data (the "spec"): markup, Scheme values, HTML
elements and LaTeX environments. The parts are built with the helper functions
of the model (or typed), put at any place of the model of an open document,
copied, moved, changed and removed, and the model is written back; building and
writing are interrupted at random lines. After every step the model, and the
text when it is read again, must be what the spec says.
"""
from sim import env  # noqa: F401
from sim import core, docsim

from fractions import Fraction as F
import copy
import html
import keyword
import math
import re

import parce.lang.lilypond_words as words
from quickly.dom import base, element, htm, lily, markup, read, scm, tex

from checks.c06 import KINDS, UNCATCHABLE, LineFault

STRINGS = ["a", "foo", "Title", "two words", "", "q\"uo\"te", "b\\s", "\\", "#x", "$y", "{", "}", "a{b", "%not", ";semi", "ü€", "a.b", "--", "1", "-3",
           "c4", "4.", "\\bold", "x_y", "two\nlines", "tab\tbed", "it's", "<<", "~", "''", " lead", "trail ", "a=b", "(p)", "#(x)", "\"", "a#b", "!", "?",
           "\U0001d11e", "a,b", "x:y", "#f", "*", "\\\"", "n\\n", "&amp;", "|", "[x]", "^", "_", "@", "a\\", "%{ c %}", "-", "+", "=", "…"]
WORDS = ["a", "foo", "hello", "Title", "x"]
IDS = ["a", "foo", "if", "ly:make-pitch", "set!", "null?", "x->y", "<", "<=", "font-size", "list", "define", "string-append", "a.b", "*x*", "/"]
NUMBERS = [0, 1, 2, -3, 12, 10 ** 12, 0.5, -2.25, 100.0, 1e-7, 1e22, 1.5e300, -0.5, 3.14159]
PROPS = ["font-size", "baseline-skip", "line-width", "word-space", "thickness"]
LENGTHS = ["4", "4.", "8..", "16", "2", "1", "\\breve"]
MUSIC = ["{ c4 d }", "{ g'8 a b2 }", "{ <c e g>1 }", "\\new Staff { c4 }"]
ELEMENTS = ["c4", "d'8.", "<e g>2", "r8", "s1", "g,4\\fermata", "a4^\"x\"", "\\new Voice { c4 }", "\\clef \"bass\"", "\\time 3/4", "R1", "|", "b16->",
            "\\tuplet 3/2 { c8 d e }", "c4~", "\\key d \\minor", "es'4-.", "\\bar \"|.\""]


# --- markup helpers: what LilyPond's own manual gives as the arguments ---

def strings(n):
    return [("str",)] * n


SIG = {
    "char": ["hex"],
    "tied_lyric": ["str"],
    "fret_diagram": ["str"],
    "fret_diagram_terse": ["str"],
    "fret_diagram_verbose": ["elem"],
    "fromproperty": ["sym"],
    "harp_pedal": ["str"],
    "justify_field": ["sym"],
    "justify_string": ["str"],
    "lookup": ["str"],
    "musicglyph": ["str"],
    "postscript": ["str"],
    "rest": ["len"],
    "verbatim_file": ["str"],
    "wordwrap_field": ["sym"],
    "wordwrap_string": ["str"],
    "note": ["len", "num"],
    "override": ["prop", "val", "text"],
    "override_lines": ["prop", "val", "text"],
    "translate": ["num", "num", "text"],
    "translate_scaled": ["num", "num", "text"],
    "with_link": ["sym", "text"],
    "with_url": ["str", "text"],
    "woodwind_diagram": ["sym", "elem"],
    "draw_squiggle_line": ["num", "num", "num", "bool"],
    "epsfile": ["num", "num", "str"],
    "filled_box": ["num", "num", "num", "num", "num"],
    "note_by_number": ["num", "num", "num"],
    "pad_to_box": ["num", "num", "num", "num", "text"],
    "with_dimensions": ["num", "num", "num", "num", "text"],
    "page_ref": ["sym", "auto", "text"],
    "fill_with_pattern": ["num", "num", "auto", "auto", "auto"],
    "score": ["music"],
    "score_lines": ["music"],
}


def children_of(name, kinds, args):
    """What the command's arguments must be: [(kind, value...)]."""
    if name in ("override", "override_lines"):
        return [("pair", {"id": args[0]}, args[1]), ("text", 2)]
    if name in ("translate", "translate_scaled"):
        return [("pair", args[0], args[1]), ("text", 2)]
    if name == "draw_squiggle_line":
        return [("val", args[0]), ("pair", args[1], args[2]), ("val", args[3])]
    if name in ("filled_box", "pad_to_box", "with_dimensions"):
        return [("pair", args[0], args[2]), ("pair", args[1], args[3]), ("val", args[4]) if name == "filled_box" else ("text", 4)]
    out = []
    for i, k in enumerate(kinds):
        if k == "text":
            out.append(("text", i))
        elif k == "auto" or k == "elem":
            out.append(("mk", i))
        elif k == "hex":
            out.append(("hex", args[i]))
        elif k in ("num", "bool"):
            out.append(("val", args[i]))
        else:
            out.append((k, args[i]))
    return out


def function_name(cmd):
    name = cmd.replace("-", "_")
    return name + "_" if keyword.iskeyword(name) else name


COMMANDS = {}       # function name -> (command, argument kinds)
for _n, _cmds in enumerate(words.markup_commands_nargs):
    for _c in sorted(_cmds):
        _f = function_name(_c)
        if _f in SIG:
            COMMANDS[_f] = (_c, SIG[_f])
        elif _n < 5:
            COMMANDS[_f] = (_c, ["auto"] * (_n - 1) + ["text"] if _n else [])
for _f in SIG:
    COMMANDS.setdefault(_f, (_f.replace("_", "-"), SIG[_f]))
NAMES = sorted(COMMANDS)
SPECIALS = sorted(SIG)


# --- Scheme values ---

class Wrong(Exception):
    pass


def need(cond, what, *args):
    if not cond:
        raise Wrong(what % args if args else what)


def pyvalue(v):
    """The Python value (or node) a user gives to the helpers."""
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "fr":
            return F(*x)
        if k == "l":
            return [pyvalue(y) for y in x]
        if k == "p":
            return tuple(pyvalue(y) for y in x)
        if k == "id":
            return scm.i(x)
        if k in ("q", "qq", "uq"):
            return getattr(scm, k)(pyvalue(x))
        if k in ("hex", "oct", "bin"):
            return getattr(scm, k.capitalize())(F(*x) if isinstance(x, list) else x)
        if k == "ch":
            return scm.Char(x)
        if k == "vec":
            return scm.Vector(*(scm.s(pyvalue(y)) for y in x))
        if k == "inf":
            return x * math.inf
        if k == "nan":
            return float("nan") if x else math.nan
        if k == "cx":
            return scm.Number(complex(*x))
        raise core.HarnessError("value %r" % v)
    return v


QUOTES = {"q": "'", "qq": "`", "uq": ","}
RADIX = {"hex": scm.Hex, "oct": scm.Oct, "bin": scm.Bin}
FMT = {"hex": "x", "oct": "o", "bin": "b"}


def quoted(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def scheme_text(v):
    """The Scheme text as a user would type it."""
    if isinstance(v, bool):
        return "#t" if v else "#f"
    if isinstance(v, str):
        return quoted(v)
    if isinstance(v, (int, float)):
        return repr(v)
    (k, x), = v.items()
    if k == "fr":
        return "%d/%d" % tuple(x)
    if k == "l":
        return "(" + " ".join(map(scheme_text, x)) + ")"
    if k == "p":
        return "(" + " ".join(map(scheme_text, x[:-1])) + " . " + scheme_text(x[-1]) + ")"
    if k == "vec":
        return "#(" + " ".join(map(scheme_text, x)) + ")"
    if k == "id":
        return x
    if k in QUOTES:
        return QUOTES[k] + scheme_text(x)
    if k in FMT:
        f = lambda n: format(n, FMT[k])     # noqa: E731
        return {"hex": "#x", "oct": "#o", "bin": "#b"}[k] + (f(x[0]) + "/" + f(x[1]) if isinstance(x, list) else f(x))
    if k == "ch":
        return "#\\" + x
    if k == "inf":
        return "+inf.0" if x > 0 else "-inf.0"
    if k == "nan":
        return "+nan.0"
    if k == "cx":
        return "%r%si" % (float(x[0]), "%+r" % 0 if 0 else ("+" if x[1] >= 0 else "") + repr(float(x[1])))


def match_scheme(n, v):
    """Check that the node is the value."""
    name = type(n).__name__
    if isinstance(v, bool):
        need(type(n) is scm.Bool and n.head is v, "%r instead of %r", n, v)
    elif isinstance(v, str):
        need(type(n) is scm.String and n.head == v, "%r instead of the string %r", n, v)
    elif isinstance(v, (int, float)):
        need(type(n) is scm.Number and type(n.head) in (int, float, F) and n.head == v, "%r instead of %r", n, v)
    else:
        (k, x), = v.items()
        if k == "fr":
            need(type(n) is scm.Number and n.head == F(*x), "%r instead of %s/%s", n, *x)
        elif k == "id":
            need(type(n) is scm.Identifier and n.head == x, "%r instead of the identifier %s", n, x)
        elif k in ("l", "vec"):
            need(type(n) is (scm.List if k == "l" else scm.Vector) and len(n) == len(x), "%s of %d instead of %s of %d", name, len(n), k, len(x))
            for c, y in zip(n, x):
                match_scheme(c, y)
        elif k == "p":
            need(type(n) is scm.List and len(n) == len(x) + 1, "%s of %d instead of a pair", name, len(n))
            need(type(n[-2]) is scm.Dot, "no dot in %r", n)
            for c, y in zip(list(n[:-2]) + [n[-1]], x):
                match_scheme(c, y)
        elif k in QUOTES:
            need(type(n) is scm.Quote and n.head == QUOTES[k] and len(n) == 1, "%r instead of %s", n, QUOTES[k])
            match_scheme(n[0], x)
        elif k in RADIX:
            need(type(n) is RADIX[k] and n.head == (F(*x) if isinstance(x, list) else x), "%r instead of %s %s", n, k, x)
        elif k == "ch":
            need(type(n) is scm.Char and n.head == x, "%r instead of the character %s", n, x)
        elif k == "inf":
            need(type(n) is scm.Number and n.head == x * math.inf, "%r instead of inf", n)
        elif k == "nan":
            need(isinstance(n, scm.Number) and n.head != n.head, "%r instead of nan", n)
        elif k == "cx":
            need(type(n) is scm.Number and n.head == complex(*x), "%r instead of %r", n, complex(*x))


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def string(self):
        rng = self.rng
        r = rng.random()
        if r < .3:
            return rng.choice(WORDS)
        if r < .85:
            return rng.choice(STRINGS)
        return "".join(rng.choice("ab \\\"'#{}%;$<>&~.,=-_1|\n()[]!?*/^é") for _ in range(rng.randrange(1, 7)))

    def number(self):
        rng = self.rng
        return rng.choice(NUMBERS) if rng.random() < .8 else rng.choice([rng.randrange(-999, 999), round(rng.uniform(-9, 9), 3), rng.uniform(-1, 1) * 10 ** rng.randrange(-9, 9)])

    def scheme(self, depth=0, atoms=False):
        rng = self.rng
        r = rng.random()
        if r < .5 or depth > 2 or atoms:
            k = rng.randrange(14)
            if k < 3:
                return self.string()
            if k < 7:
                return self.number()
            if k < 8:
                return rng.random() < .5
            if k < 10:
                return {"id": rng.choice(IDS)}
            if k == 10:
                return {"fr": rng.choice([[1, 2], [-3, 4], [5, 1], [22, 7]])}
            if k == 11:
                return {rng.choice(["hex", "oct", "bin"]): rng.choice([0, 1, 10, 255, 0x266d, -15, [1, 12], [-5, 7]])}
            if k == 12:
                return {"ch": rng.choice(["a", "space", "newline", "A", "1", "(", "\"", ";", "é"])}
            return rng.choice([{"inf": 1}, {"inf": -1}, {"nan": 1}, {"nan": 0}, {"cx": [1, 2]}, {"cx": [0.5, -1.5]}, {"cx": [3.14159265, -1234567.5]}])
        kids = [self.scheme(depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        if r < .7:
            return {"l": kids}
        if r < .83:
            return {"p": (kids + [1, "x"])[:max(2, len(kids))]}
        if r < .88:
            return {"vec": kids}
        return {rng.choice(["q", "qq", "uq"]): self.scheme(depth + 1)}

    # markup: str, numbers and Scheme values as they are; {"m": [function, args]} a command; {"sc": value} a Scheme node

    def text(self, depth):
        return [self.mk(depth + 1) for _ in range(self.rng.choice([1, 1, 1, 2, 2, 3, 0]))]

    def mk(self, depth=0):
        rng = self.rng
        r = rng.random()
        if depth > 3 or r < .4:
            return self.string()
        if r < .5:
            return self.number() if rng.random() < .8 else rng.random() < .5
        if r < .55:
            return {"sc": self.scheme()}
        if r < .6:
            # given as Python data, which becomes a Scheme expression
            return rng.choice([{"fr": [1, 2]}, {"l": [1, 2, "x"]}, {"p": [1, -2.5]}])
        return self.command(depth)

    def command(self, depth=0):
        rng = self.rng
        f = rng.choice(NAMES) if rng.random() < .6 else rng.choice(SPECIALS)
        args = []
        for k in COMMANDS[f][1]:
            if k == "text":
                args += self.text(depth)
            elif k == "music":
                args += [rng.choice(MUSIC) for _ in range(rng.choice([1, 1, 2]))]
            else:
                args.append(self.arg(k, depth))
        return {"m": [f, args]}

    def arg(self, k, depth):
        rng = self.rng
        if k == "hex":
            return rng.choice([0x41, 0x266d, 255, 8364, 10])
        if k == "str":
            return self.string()
        if k == "elem":
            return {"sc": self.scheme()}
        if k in ("sym", "prop"):
            return rng.choice(["title", "composer", "header:title", "flute", "my-label"] if k == "sym" else PROPS)
        if k == "len":
            return rng.choice(LENGTHS) if rng.random() < .7 else {"sc": rng.choice(LENGTHS[:-1])}
        if k == "num":
            return self.number()
        if k == "val":
            return self.scheme()
        if k == "bool":
            return rng.random() < .5
        return self.mk(depth + 1)


# --- languages ---

class Lilypond:
    name = "lilypond"
    sep = "\n"

    @classmethod
    def element(cls, g, depth):
        rng = g.rng
        if depth < 3 and rng.random() < .25:
            return {rng.choice(["seq", "sim"]): [cls.element(g, depth + 1) for _ in range(rng.choice([0, 1, 2, 3]))]}
        return rng.choice(ELEMENTS)

    @classmethod
    def element_text(cls, e):
        if isinstance(e, str):
            return e
        (k, x), = e.items()
        return " ".join(["{" if k == "seq" else "<<", *map(cls.element_text, x), "}" if k == "seq" else ">>"])

    @classmethod
    def music(cls, e):
        if isinstance(e, str):
            n = read.lily(e)
            # nodes to build with have no places; asked for, they have those of the text
            need(all(x.pos is None for x in (n, *n.descendants())), "places in %r, read without", n)
            o = read.lily(e, True)
            need(o.pos == 0 and o.equals(n), "%r is at %s", o, o.pos)
            return n
        (k, x), = e.items()
        return (lily.MusicList if k == "seq" else lily.SimultaneousMusicList)(*map(cls.music, x))

    @classmethod
    def match_music(cls, n, e, pairs):
        if isinstance(e, str):
            need(n.equals(read.lily(e)), "%r instead of %s", n.write(), e)
            return
        (k, x), = e.items()
        need(type(n) is (lily.MusicList if k == "seq" else lily.SimultaneousMusicList), "%r instead of %s", n, k)
        need(len(n) == len(x), "%d elements (%r) instead of %d", len(n), n.write()[:200], len(x))
        for j, c in enumerate(n):
            pairs.append((x, j, c, "music"))
            cls.match_music(c, x[j], pairs)

    @classmethod
    def item(cls, g):
        rng = g.rng
        r = rng.random()
        if r < .12:
            return {"raw": rng.choice(["{ c4 d e }", "\\version \"2.24.0\"", "\\paper { indent = 3\\mm }", "foo = { c }", "\\score { { g } }"])}
        if r < .2:
            return {"place": "scm", "v": g.scheme()}
        if r < .3:
            return {"place": "music", "els": [cls.element(g, 0) for _ in range(rng.choice([1, 2, 3, 5]))]}
        place = rng.choice(["top", "top", "list", "post", "mark", "var", "header", "layout"])
        item = {"place": place, "text": g.text(0)}
        if place in ("post",):
            item["dir"] = rng.choice([1, -1, 0])
        if place == "var":
            item["name"] = rng.choice(["foo", "barText", "label", "titleMarkup"])
        if place == "header":
            item["name"] = rng.choice(["title", "composer", "tagline"])
        if place == "layout":
            item["v"] = g.scheme()
            del item["text"]
        return item

    # the text a user would type

    @classmethod
    def mk_text(cls, v):
        if isinstance(v, str):
            return v if re.fullmatch("[A-Za-z]+", v) else quoted(v)
        if isinstance(v, dict) and "m" in v:
            f, args = v["m"]
            cmd, kinds = COMMANDS[f]
            if kinds == ["music"]:
                return "\\" + cmd + " { " + " ".join(args) + " }"
            out = ["\\" + cmd]
            for c in children_of(f, kinds, args):
                k = c[0]
                if k == "pair":
                    out.append("#'" + scheme_text({"p": c[1:]}))
                elif k == "text":
                    out.append(cls.list_text(args[c[1]:]))
                elif k == "mk":
                    out.append(cls.mk_text(args[c[1]]))
                elif k == "hex":
                    out.append("#" + scheme_text({"hex": c[1]}))
                elif k == "sym":
                    out.append("#'" + c[1])
                elif k == "len":
                    out.append("{ " + c[1] + " }" if isinstance(c[1], str) else cls.mk_text(c[1]))
                elif k == "str":
                    out.append("#" + quoted(c[1]))
                else:
                    out.append("#" + scheme_text(c[1]))
            return " ".join(out)
        if isinstance(v, dict) and "sc" in v:
            v = v["sc"]
        return "#" + scheme_text(v)

    @classmethod
    def list_text(cls, args):
        return cls.mk_text(args[0]) if len(args) == 1 else "{ " + " ".join(map(cls.mk_text, args)) + " }"

    @classmethod
    def text(cls, item):
        if "raw" in item:
            return item["raw"]
        p = item["place"]
        if p == "music":
            return cls.element_text({"seq": item["els"]})
        if p == "scm":
            return "#" + scheme_text(item["v"])
        if p == "layout":
            return "\\layout { foo = #" + scheme_text(item["v"]) + " }"
        if p == "list":
            return "\\markuplist { " + " ".join(map(cls.mk_text, item["text"])) + " }"
        t = "\\markup " + cls.list_text(item["text"])
        if p == "top":
            return t
        if p == "post":
            return "{ c4" + {1: "^", -1: "_", 0: "-"}[item["dir"]] + t + " d }"
        if p == "mark":
            return "{ \\mark " + t + " c }"
        if p == "var":
            return item["name"] + " = " + t
        return "\\header { " + item["name"] + " = " + t + " }"

    # building

    @classmethod
    def mk(cls, v):
        if isinstance(v, dict):
            if "m" in v:
                f, args = v["m"]
                func = getattr(markup, f, None)
                if func is None:
                    raise core.Violation("no-helper", "there is no markup helper %s" % f)
                if COMMANDS[f][1] == ["music"]:
                    return func(*map(read.lily, args))
                return func(*map(cls.mk, args))
            if "sc" in v:
                return lily.Scheme("#", scm.s(pyvalue(v["sc"])))
        return pyvalue(v)

    @classmethod
    def build(cls, item):
        if "raw" in item:
            return read.lily_document(item["raw"])[0].copy()
        p = item["place"]
        if p == "music":
            return cls.music({"seq": item["els"]})
        if p == "scm":
            return lily.Scheme("#", scm.s(pyvalue(item["v"])))
        if p == "layout":
            b = lily.Layout()
            b.set_variable("foo", lily.Scheme("#", scm.s(pyvalue(item["v"]))))
            return b
        args = [cls.mk(v) for v in item["text"]]
        if p == "list":
            return markup.markuplist(*args)
        m = markup.markup(*args)
        if p == "top":
            return m
        if p == "post":
            return lily.MusicList(lily.Note("c", lily.Duration(F(1, 4)), lily.Articulations(lily.Direction(item["dir"], m))), lily.Note("d"))
        if p == "mark":
            return lily.MusicList(lily.Mark(m), lily.Note("c"))
        if p == "var":
            return lily.Assignment(lily.Identifier(lily.Symbol(item["name"])), lily.EqualSign(), m)
        b = lily.Header()
        b.set_variable(item["name"], m)
        return b

    # reading

    @classmethod
    def match_mk(cls, n, holder, i, pairs):
        """The argument holder[i] of a markup command."""
        v = holder[i]
        pairs.append((holder, i, n, "mk"))
        if isinstance(v, str):
            need(type(n) in (lily.MarkupWord, lily.String) and n.head == v, "%r instead of the text %r", n, v)
        elif isinstance(v, dict) and "m" in v:
            f, args = v["m"]
            cmd, kinds = COMMANDS[f]
            if kinds == ["music"]:
                need(type(n) is {"score": lily.MarkupScore, "score-lines": lily.MarkupScoreLines}[cmd], "%r instead of \\%s", n, cmd)
                need(len(n) == len(args), "%d parts in \\%s instead of %d", len(n), cmd, len(args))
                for c, t in zip(n, args):
                    need(c.equals(read.lily(t)), "%r instead of %s", c.write(), t)
                return
            need(type(n) is lily.MarkupCommand and n.head == cmd, "%r instead of \\%s", n, cmd)
            want = children_of(f, kinds, args)
            need(len(n) == len(want), "\\%s has %d arguments (%r), expected %d", cmd, len(n), n.write()[:200], len(want))
            for c, w in zip(n, want):
                cls.match_arg(c, w, args, pairs, cmd)
        else:
            cls.match_number(n, v["sc"] if isinstance(v, dict) and "sc" in v else v)

    @classmethod
    def match_number(cls, n, v):
        need(type(n) is lily.Scheme and len(n) == 1, "%r instead of Scheme %s", n, scheme_text(v))
        match_scheme(n[0], v)

    @classmethod
    def match_arg(cls, c, w, args, pairs, cmd):
        k = w[0]
        if k == "mk":
            cls.match_mk(c, args, w[1], pairs)
        elif k == "text":
            cls.match_list(c, args, w[1], pairs)
        elif k == "pair":
            cls.match_number(c, {"q": {"p": list(w[1:])}})
        elif k == "sym":
            cls.match_number(c, {"q": {"id": w[1]}})
        elif k == "hex":
            cls.match_number(c, {"hex": w[1]})
        elif k == "str":
            if type(c) is lily.Scheme and len(c) == 1:
                c = c[0]
            need(type(c) in (lily.MarkupWord, lily.String, scm.String) and c.head == w[1], "%r instead of the string %r of \\%s", c, w[1], cmd)
        elif k == "len":
            if isinstance(w[1], str):
                if type(c) is lily.MarkupList and len(c) == 1:
                    c = c[0]
                need(isinstance(c, element.HeadElement) and c.write() == w[1], "%r instead of the length %s", c, w[1])
            else:
                cls.match_number(c, w[1]["sc"])
        else:
            cls.match_number(c, w[1])

    @classmethod
    def match_list(cls, n, holder, start, pairs):
        if len(holder) == start + 1:
            cls.match_mk(n, holder, start, pairs)
        else:
            need(type(n) is lily.MarkupList, "%r instead of a markup list", n)
            need(len(n) == len(holder) - start, "list of %d markups (%r) instead of %d", len(n), n.write()[:200], len(holder) - start)
            for j, c in enumerate(n):
                cls.match_mk(c, holder, start + j, pairs)

    @classmethod
    def match(cls, n, item, pairs):
        if "raw" in item:
            need(n.equals(cls.build(item)), "%r instead of %r", n.write(), item["raw"])
            return
        p = item["place"]
        if p == "music":
            cls.match_music(n, {"seq": item["els"]}, pairs)
            return
        if p == "scm":
            cls.match_number(n, item["v"])
            return
        if p == "layout":
            need(type(n) is lily.Layout and len(n) == 1 and type(n[0]) is lily.Assignment and len(n[0]) == 3, "%r instead of layout", n)
            cls.match_number(n[0][2], item["v"])
            return
        if p == "post":
            need(type(n) is lily.MusicList and len(n) == 2 and len(n[0]) == 2, "%r instead of music", n)
            need(n[0].head == "c" and n[0].duration == F(1, 4) and n[1].head == "d", "%r: other notes", n)
            d = n[0][1]
            need(type(d) is lily.Articulations and len(d) == 1 and type(d[0]) is lily.Direction and d[0].head == item["dir"], "%r instead of direction", d)
            need(len(d[0]) == 1, "direction with %d nodes", len(d[0]))
            n = d[0][0]
        elif p == "mark":
            need(type(n) is lily.MusicList and len(n) == 2 and type(n[0]) is lily.Mark and len(n[0]) == 1, "%r instead of a mark", n)
            n = n[0][0]
        elif p in ("var", "header"):
            if p == "header":
                need(type(n) is lily.Header and len(n) == 1, "%r instead of header", n)
                n = n[0]
            need(type(n) is lily.Assignment and len(n) == 3 and [x.head for x in n[0]] == [item["name"]], "%r instead of %s", n, item["name"])
            n = n[2]
        need(type(n) is lily.Markup and n.head == ("markuplist" if p == "list" else "markup") and len(n) == 1, "%r instead of markup", n)
        if p == "list":
            need(type(n[0]) is lily.MarkupList and len(n[0]) == len(item["text"]), "%r instead of list of %d", n[0], len(item["text"]))
            for j, c in enumerate(n[0]):
                cls.match_mk(c, item["text"], j, pairs)
        else:
            cls.match_list(n[0], item["text"], 0, pairs)

    @classmethod
    def match_all(cls, nodes, spec, pairs):
        need(len(nodes) == len(spec), "%d parts instead of %d", len(nodes), len(spec))
        for n, i in zip(nodes, spec):
            cls.match(n, i, pairs)

    @classmethod
    def new_arg(cls, g):
        return g.mk(1)


class Scheme:
    name = "scheme"
    sep = "\n"

    @staticmethod
    def item(g):
        return {"v": g.scheme()}

    @staticmethod
    def text(item):
        return scheme_text(item["v"])

    @staticmethod
    def build(item):
        return scm.s(pyvalue(item["v"]))

    @classmethod
    def match_all(cls, nodes, spec, pairs):
        need(len(nodes) == len(spec), "%d values instead of %d", len(nodes), len(spec))
        for n, i in zip(nodes, spec):
            match_scheme(n, i["v"])
            pairs.append((i, "v", n, "scheme"))
            cls.pairs(n, i["v"], pairs)

    @classmethod
    def pairs(cls, n, v, pairs):
        if isinstance(v, dict):
            (k, x), = v.items()
            if k in ("l", "vec"):
                for j, c in enumerate(n):
                    pairs.append((x, j, c, "list"))
                    cls.pairs(c, x[j], pairs)
            elif k in QUOTES:
                pairs.append((v, k, n[0], "scheme"))
                cls.pairs(n[0], x, pairs)

    @staticmethod
    def new_arg(g):
        return g.scheme(1)

    @staticmethod
    def make(v):
        return scm.s(pyvalue(v))


class Html:
    name = "html"
    sep = ""
    TAGS = ["div", "p", "b", "span", "h1", "ul", "li", "a", "table", "td", "x:y", "my-tag", "em"]
    VOID = ["br", "img", "hr"]
    ATTRS = ["id", "class", "title", "href", "xml:lang", "data-x", "alt"]
    BARE = ["hidden", "checked"]
    ENTS = ["euml", "amp", "lt", "quot", "#123", "#x20ac", "nbsp", "copy"]

    @classmethod
    def item(cls, g, depth=0):
        rng = g.rng
        r = rng.random()
        if depth and r < .35 or r < .12:
            return {"s": g.string()}
        if r < .45:
            return {"ent": rng.choice(cls.ENTS)}
        if r < .49:
            return {"cdata": rng.choice(["a", "<b>", "x & y", "]]", "]]>", "a]]>b]]>", ""])}
        if r < .53:
            return {"comment": rng.choice([" c ", "<b>", "x", " &amp; "])}
        if r < .58:
            return {"ly": rng.choice(MUSIC)}
        attrs = {}
        for _ in range(rng.choice([0, 0, 1, 2])):
            if rng.random() < .2:
                attrs[rng.choice(cls.BARE)] = None
            else:
                attrs[rng.choice(cls.ATTRS)] = g.string()
        attrs = [[k, v] for k, v in attrs.items()]
        if rng.random() < .15:
            return {"e": rng.choice(cls.VOID), "a": attrs, "c": []}
        return {"e": rng.choice(cls.TAGS), "a": attrs, "c": [cls.item(g, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth < 4 else 1)]
                if depth < 5 else [{"s": "x"}]}

    @classmethod
    def text(cls, item):
        (k, x) = next(iter(item.items()))
        if k == "s":
            return x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        if k == "ent":
            return "&%s;" % x
        if k == "cdata":
            return "<![CDATA[" + x.replace("]]>", "]]>]]&gt;<![CDATA[") + "]]>"
        if k == "comment":
            return "<!--" + x + "-->"
        if k == "ly":
            return "<lilypond>" + x + "</lilypond>"
        t = "<" + x
        for a, v in item["a"]:
            t += " " + a
            if v is not None:
                if '"' in v:
                    t += "='" + v.replace("&", "&amp;").replace("<", "&lt;").replace("'", "&#39;") + "'"
                else:
                    t += '="' + v.replace("&", "&amp;").replace("<", "&lt;") + '"'
        if not item["c"]:
            return t + "/>"
        return t + ">" + "".join(map(cls.text, item["c"])) + "</" + x + ">"

    @classmethod
    def build(cls, item, top=True):
        (k, x) = next(iter(item.items()))
        if k == "s":
            return htm.Text(x) if top else x
        if k == "ent":
            return htm.EntityRef(x)
        if k == "cdata":
            return htm.CData(x)
        if k == "comment":
            return htm.Comment(x)
        if k == "ly":
            return htm.m.lilypond(lily.Document(read.lily(x)))
        children = [cls.build(c, False) for c in item["c"]]
        attrs = dict(map(tuple, item["a"]))
        if x.isidentifier() and len(x) % 2:
            return getattr(htm.m, x)(*children, **attrs)
        return htm.m(x, *children, **attrs)

    @staticmethod
    def runs(things):
        """Join pieces of text."""
        out = []
        for k, x in things:
            if k == "text" and out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + x)
            elif k != "text" or x:
                out.append((k, x))
        return out

    @classmethod
    def content(cls, nodes):
        def things():
            for n in nodes:
                if type(n) is htm.Text:
                    yield "text", n.head
                elif type(n) is htm.EntityRef:
                    yield "text", html.unescape("&%s;" % n.head)
                elif type(n) is htm.CData:
                    yield "text", n.head
                else:
                    yield "node", n
        return cls.runs(things())

    @classmethod
    def wanted(cls, items):
        def things():
            for i in items:
                if "s" in i:
                    yield "text", i["s"]
                elif "ent" in i:
                    yield "text", html.unescape("&%s;" % i["ent"])
                elif "cdata" in i:
                    yield "text", i["cdata"]
                else:
                    yield "node", i
        return cls.runs(things())

    @classmethod
    def plain(cls, items, resolve):
        return "".join(i["s"] if "s" in i else resolve(i["ent"]) if "ent" in i else cls.plain(i["c"], resolve) if "e" in i else "" for i in items)

    @classmethod
    def has_cdata(cls, items):
        return any("cdata" in i or "e" in i and cls.has_cdata(i["c"]) for i in items)

    @classmethod
    def match_all(cls, nodes, spec, pairs):
        got, want = cls.content(nodes), cls.wanted(spec)
        need(len(got) == len(want), "contents %r instead of %r", [g[1] for g in got], [w[1] for w in want])
        for (k, n), (k1, i) in zip(got, want):
            need(k == k1, "%r instead of %r", n, i)
            if k == "text":
                need(n == i, "text %r instead of %r", n, i)
            else:
                cls.match(n, i, pairs)
        if len(nodes) == len(spec) and all(
                type(n) is htm.Text and n.head == i["s"] if "s" in i else type(n) is htm.EntityRef if "ent" in i
                else type(n) is htm.CData if "cdata" in i else True for n, i in zip(nodes, spec)):
            for j, i in enumerate(spec):
                if "e" in i or "s" in i:
                    pairs.append((spec, j, nodes[j], "list"))

    @classmethod
    def match(cls, n, i, pairs):
        if "comment" in i:
            need(type(n) is htm.Comment and n.head == i["comment"], "%r instead of comment %r", n, i["comment"])
            return
        need(type(n) is htm.Element and len(n), "%r instead of %r", n, i)
        tag = n[0]
        name, attrs, inside = ("lilypond", [], True) if "ly" in i else (i["e"], i["a"], bool(i["c"]))
        need(len(tag) and type(tag[0]) is htm.TagName and tag[0].head == name, "%r instead of <%s>", tag, name)
        if inside or len(n) > 1:
            # (what was in an element can have been moved elsewhere)
            need(type(tag) is htm.OpenTag and type(n[-1]) is htm.CloseTag, "%r has no open and close tag", n)
            need(len(n[-1]) == 1 and n[-1][0].head == name, "close tag %r of %s", n[-1].write(), name)
        else:
            need(type(tag) is htm.SingleTag, "%r instead of a single tag", n)
        need(len(tag) == len(attrs) + 1, "%d attributes instead of %d: %r", len(tag) - 1, len(attrs), tag.write())
        for a, (k, v) in zip(tag[1:], attrs):
            need(type(a) is htm.Attribute and a[0].head == k, "%r instead of attribute %s", a, k)
            if v is None:
                need(len(a) == 1, "%r has a value", a.write())
            else:
                need(len(a) == 3 and isinstance(a[2], htm.String), "%r has no string value", a.write())
                got = "".join(x for _, x in cls.content(a[2]))
                need(got == v, "value %r instead of %r", got, v)
        if "ly" in i:
            need(len(n) == 3 and type(n[1]) is lily.Document and len(n[1]) == 1, "%r instead of music", n)
            need(n[1][0].equals(read.lily(i["ly"])), "%r instead of %s", n[1].write(), i["ly"])
            return
        cls.match_all(n[1:-1], i["c"], pairs)
        if not cls.has_cdata(i["c"]):
            got, want = n.to_plaintext(), cls.plain(i["c"], lambda e: html.unescape("&%s;" % e))
            need(got == want or any("&" in x.head for x in n // htm.Text), "plain text %r instead of %r", got, want)

    @classmethod
    def resolved(cls, n, i):
        """Built nodes: entities given to the user's own resolver."""
        if "e" in i and not cls.has_cdata(i["c"]):
            got, want = n.to_plaintext(lambda e: "[%s]" % e), cls.plain(i["c"], lambda e: "[%s]" % e)
            need(got == want, "plain text with own resolver %r instead of %r", got, want)

    @classmethod
    def new_arg(cls, g):
        return cls.item(g, 2)

    make = build


class Latex:
    name = "latex"
    sep = "\n"
    ENVS = ["center", "document", "itemize", "quote", "my-env", "figure*", "Foo"]
    COMMANDS = ["textbf", "emph", "section", "foo", "hbox"]
    BARE = ["item", "newpage", "LaTeX", "par"]
    TEXT = ["foo", "a b", "Hello, world", "x.", " lead", "trail ", "été", "1", "two\nlines", "(p)", "a; b", "it's"]

    @classmethod
    def item(cls, g, depth=0):
        rng = g.rng
        r = rng.random()
        if r < .3 or depth > 4:
            return {"s": rng.choice(cls.TEXT)}
        if r < .38:
            return {"bare": rng.choice(cls.BARE)}
        if r < .55:
            return {"cmd": rng.choice(cls.COMMANDS), "opt": rng.choice([None, None, "x", "a b"]), "c": cls.items(g, depth)}
        if r < .6:
            return {"comment": rng.choice([" c", "x", "", " \\begin{center}"])}
        if r < .66:
            return {"math": rng.choice(["inline", "paren"]), "x": rng.choice(["x", "a + b", "1"])}
        if r < .72:
            return {"ly": rng.choice(MUSIC)}
        return {"env": rng.choice(cls.ENVS), "c": cls.items(g, depth)}

    @classmethod
    def items(cls, g, depth):
        return [cls.item(g, depth + 1) for _ in range(g.rng.choice([0, 1, 1, 2, 3]))]

    @classmethod
    def text(cls, i):
        (k, x) = next(iter(i.items()))
        if k == "s":
            return x
        if k == "bare":
            return "\\" + x + " "
        if k == "cmd":
            return "\\" + x + ("[%s]" % i["opt"] if i["opt"] else "") + "{" + "".join(map(cls.text, i["c"])) + "}"
        if k == "comment":
            return "%" + x + "\n"
        if k == "math":
            return "$%s$" % i["x"] if x == "inline" else "\\(%s\\)" % i["x"]
        if k == "ly":
            return "\\begin{lilypond}\n" + x + "\n\\end{lilypond}"
        return "\\begin{%s}" % x + "".join(map(cls.text, i["c"])) + "\\end{%s}" % x

    @classmethod
    def build(cls, i):
        (k, x) = next(iter(i.items()))
        if k == "s":
            return tex.Text(x)
        if k == "bare":
            return tex.Command(x)
        if k == "cmd":
            c = tex.Command(x)
            if i["opt"]:
                c.append(tex.Option(tex.Text(i["opt"])))
            c.append(tex.Brace(*map(cls.build, i["c"])))
            return c
        if k == "comment":
            return tex.Comment(x)
        if k == "math":
            return (tex.MathInlineDollar if x == "inline" else tex.MathInlineParen)(tex.Text(i["x"]))
        if k == "ly":
            return tex.Environment.with_name("lilypond", lily.Document(read.lily(x)))
        return tex.Environment.with_name(x, *map(cls.build, i["c"]))

    @classmethod
    def match_all(cls, nodes, spec, pairs):
        def things(l, text):
            for n in l:
                t = text(n)
                yield ("text", t) if t is not None else ("node", n)

        def clean(l):
            # white space between the parts is a matter of layout
            l = [(k, "".join(x.split()) if k == "text" else x) for k, x in Html.runs(l)]
            return [(k, x) for k, x in l if x != ""]
        got = clean(things(nodes, lambda n: n.head if type(n) is tex.Text else None))
        want = clean(things(spec, lambda i: i.get("s")))
        need(len(got) == len(want), "contents %r instead of %r", [g[1] for g in got], [w[1] for w in want])
        for (k, n), (k1, i) in zip(got, want):
            need(k == k1, "%r instead of %r", n, i)
            if k == "text":
                need(n == i, "text %r instead of %r", n, i)
            else:
                cls.match(n, i, pairs)
        if len(nodes) == len(spec) and all((type(n) is tex.Text) == ("s" in i) for n, i in zip(nodes, spec)):
            for j, n in enumerate(nodes):
                if "s" not in spec[j]:
                    pairs.append((spec, j, n, "list"))

    @classmethod
    def match(cls, n, i, pairs):
        (k, x) = next(iter(i.items()))
        if k == "bare":
            need(type(n) is tex.Command and n.head == x and not len(n), "%r instead of \\%s", n, x)
        elif k == "cmd":
            need(type(n) is tex.Command and n.head == x, "%r instead of \\%s", n, x)
            need(len(n) == (2 if i["opt"] else 1), "%r has %d arguments", n, len(n))
            if i["opt"]:
                need(type(n[0]) is tex.Option and len(n[0]) == 1 and n[0][0].head == i["opt"], "%r instead of [%s]", n[0], i["opt"])
            need(type(n[-1]) is tex.Brace, "%r instead of { }", n[-1])
            cls.match_all(n[-1], i["c"], pairs)
        elif k == "comment":
            need(type(n) is tex.Comment and n.head == x, "%r instead of comment %r", n, x)
        elif k == "math":
            need(type(n) is (tex.MathInlineDollar if x == "inline" else tex.MathInlineParen), "%r instead of math", n)
            need("".join(c.head for c in n).split() == i["x"].split(), "%r instead of %s", n.write(), i["x"])
        else:
            name = "lilypond" if k == "ly" else x
            need(type(n) is tex.Environment and len(n) >= 2, "%r instead of environment %s", n, name)
            for c, h in ((n[0], "begin"), (n[-1], "end")):
                need(type(c) is tex.Command and c.head == h and len(c) == 1 and type(c[0]) is tex.EnvironmentName and c[0].head == name,
                     "%r instead of \\%s{%s}", c.write(), h, name)
            if k == "ly":
                body = [c for c in n[1:-1] if not (type(c) is tex.Text and not c.head.strip())]
                need(len(body) == 1 and type(body[0]) is lily.Document and len(body[0]) == 1, "%r instead of music", body)
                need(body[0][0].equals(read.lily(x)), "%r instead of %s", body[0].write(), x)
            else:
                cls.match_all(n[1:-1], i["c"], pairs)

    @classmethod
    def new_arg(cls, g):
        i = cls.item(g, 3)
        while "s" in i:
            i = cls.item(g, 3)
        return i

    make = build


LANGS = {c.name: c for c in (Lilypond, Scheme, Html, Latex)}
DOCS = {"lilypond": lily.Document, "scheme": scm.Document, "html": htm.Document, "latex": tex.Document}


class Session:
    def __init__(self, run, case, w):
        self.run, self.w = run, w
        self.lang = LANGS[case["lang"]]
        self.spec = copy.deepcopy(case["spec"])
        self.dirty = False
        if case["built"]:
            d = DOCS[case["lang"]](*map(self.lang.build, self.spec))
            self.compare(-1, d, "built document")
            text = d.write()
            run.count("built_from_scratch")
        else:
            text = self.lang.sep.join(map(self.lang.text, self.spec))
        self.doc = w.open(case["lang"], text)
        self.reread(-1)

    def compare(self, i, nodes, what, spec=None):
        pairs = []
        stack = list(nodes)
        while stack:
            n = stack.pop()
            for c in n:
                if c.parent is not n:
                    raise core.Violation("shared-node", "%s: %r is also the child of another node" % (what, c), i)
            stack.extend(n)
        try:
            self.lang.match_all(list(nodes), self.spec if spec is None else spec, pairs)
        except Wrong as e:
            raise core.Violation("other-content", "%s: %s" % (what, e), i)
        self.pairs = pairs

    def reread(self, i):
        self.model = self.w.model(self.doc)
        if self.model is None:
            return
        self.compare(i, docsim.fresh(self.lang.name, self.doc.text()), "text %r" % self.doc.text()[:300])
        self.compare(i, self.model, "model of the document")

    def aligned(self):
        """True if every node is one part (texts can be joined, and have entities)."""
        if len(self.model) != len(self.spec):
            return False
        try:
            for n, i in zip(self.model, self.spec):
                self.lang.match_all([n], [i], [])
        except Wrong:
            return False
        return True

    def attempt(self, func, fault):
        if fault is None:
            return False, func()
        line, kind = fault
        exc = KINDS[kind]("injected")
        f = LineFault(line, exc)
        try:
            with f.extent():
                return False, func()
        except core.Violation:
            raise
        except BaseException as e:
            if e is not exc:
                raise
            self.run.count("fault:" + kind)
            self.run.log("interrupted", f.fired)
            return True, None

    def build(self, item, fault, i):
        """Build a part with the helpers; building may be interrupted and is then done again."""
        spec = copy.deepcopy(item)
        failed, node = self.attempt(lambda: self.lang.build(spec), fault)
        if failed:
            self.run.count("built_again")
            node = self.lang.build(spec)
        if spec != item:
            raise core.Violation("arguments-changed", "building changed the arguments: %r" % (item,), i)
        self.compare(i, [node], "built %r" % node.write()[:200], [copy.deepcopy(item)])
        if self.lang is Html:
            try:
                Html.resolved(node, item)
            except Wrong as e:
                raise core.Violation("other-content", str(e), i)
        # on its own
        text = node.write()
        d = docsim.fresh(self.lang.name, text)
        if text:
            self.compare(i, d if d is not None else [], "text of the part, %r" % text[:300], [copy.deepcopy(item)])
        return node

    def writeback(self, how, fault, i):
        before = self.doc.text()
        m = self.model

        def write():
            if how == 3:
                m.edit(self.doc, start=0, end=len(before))
            else:
                m.edit(self.doc)
        failed, _ = self.attempt(write, fault)
        if failed:
            self.w.check_threads()
            if self.doc.text() == before:
                write()
        self.w.check_threads()
        if self.doc.text() == before and self.dirty:
            self.doc = self.w.open(self.lang.name, before)
        self.dirty = False
        self.reread(i)

    def replace_part(self, a, v, e, fault):
        """Replace a part somewhere inside."""
        pairs = [p for p in self.pairs if p[2].parent is not None]
        if not pairs:
            return False
        holder, key, node, kind = pairs[a % len(pairs)]
        v = copy.deepcopy(e if kind == "music" else v)
        make = Lilypond.music if kind == "music" else Lilypond.mk if kind == "mk" else self.lang.make
        failed, new = self.attempt(lambda: make(v), fault)
        if failed:
            new = make(v)
        if not isinstance(new, element.Element):
            if self.lang is Lilypond:
                new = markup.markup(new)[0].copy()
            else:
                new = htm.Text(new)
        node.replace_with(new)
        holder[key] = v
        return True


    def swap_parts(self, a, b):
        """Exchange two parts."""
        pairs = [p for p in self.pairs if p[2].parent is not None]
        if not pairs:
            return False
        holder, key, node, kind = pairs[a % len(pairs)]
        pairs = [p for p in pairs if p[3] == kind and p[2] is not node and not within(p[2], node) and not within(node, p[2])]
        if not pairs:
            return False
        holder1, key1, node1, _ = pairs[b % len(pairs)]
        place, place1 = element.Element(), element.Element()
        node.replace_with(place)
        node1.replace_with(place1)
        place.replace_with(node1)
        place1.replace_with(node)
        holder[key], holder1[key1] = holder1[key1], holder[key]
        return True

    def shift_part(self, a, b):
        """Move a part of a list elsewhere, or to another list."""
        pairs = [p for p in self.pairs if p[2].parent is not None and p[3] in ("list", "music")]
        if not pairs:
            return False
        holder, key, node, kind = pairs[a % len(pairs)]
        pairs = [p for p in pairs if p[3] == kind and p[2] is not node and not within(p[2], node)]
        if not pairs:
            return False
        holder1, key1, node1, _ = pairs[b % len(pairs)]
        v = holder[key]
        holder1.insert(key1, v)
        del holder[key + (holder is holder1 and key1 <= key)]
        node.parent.remove(node)
        node1.parent.insert(node1.parent.index(node1), node)
        return True


def within(node, other):
    """True if the node is a descendant of the other."""
    while node is not None:
        if node is other:
            return True
        node = node.parent
    return False


class C22(core.Check):
    id = "C22"
    rule = "at least two parts were built and the model was written back"
    assumptions = [
        "Names (commands, tags, identifiers, environments) are valid ones; texts, strings and numbers are any.",
        "LaTeX text is put in as it must be typed; white space around LaTeX parts is layout.",
        "Building that was interrupted is done again; only what it then gives is judged.",
    ]
    real = ["quickly.dom.*", "quickly.node", "quickly.lang.*", "parce document, tree builder, transformer"]
    stubs = ["threading (deterministic scheduler)", "exceptions raised at chosen lines"]
    states_measure = "distinct document texts reached"
    quick_runs = 5000
    thorough_runs = 100000

    def lists(self):
        return ("spec", "ops", "schedule")

    def simplify(self, case):
        for j, op in enumerate(case["ops"]):
            if op[1] is not None:
                yield dict(case, ops=case["ops"][:j] + [[op[0], None]] + case["ops"][j + 1:])
            if op[0][0] in ("insert", "replace", "type"):
                for y in smaller(op[0][2]):
                    yield dict(case, ops=case["ops"][:j] + [[[op[0][0], op[0][1], y], op[1]]] + case["ops"][j + 1:])
        for j, x in enumerate(case["spec"]):
            for y in smaller(x):
                yield dict(case, spec=case["spec"][:j] + [y] + case["spec"][j + 1:])

    def sample(self, case):
        lang = LANGS[case["lang"]]
        return repr({"lang": case["lang"], "text": lang.sep.join(map(lang.text, case["spec"])), "ops": case["ops"]})[:1500]

    def generate(self, rng):
        g = Gen(rng)
        lang = LANGS[rng.choice(["lilypond", "lilypond", "lilypond", "scheme", "html", "latex"])]
        spec = [lang.item(g) for _ in range(rng.choice([1, 1, 2, 3]))]
        ops = []
        for _ in range(rng.choice([2, 4, 6, 10])):
            fault = [int(2 ** rng.uniform(0, 8)), rng.choice(UNCATCHABLE)] if rng.random() < .12 else None
            k = rng.random()
            a, b = rng.randrange(100), rng.randrange(100)
            if k < .4:
                op = ["insert", a, lang.item(g)]
            elif k < .5:
                op = ["replace", a, lang.item(g)]
            elif k < .6:
                op = ["part", a, lang.new_arg(g), Lilypond.element(g, 1)]
            elif k < .63:
                op = ["swap", a, b]
            elif k < .66:
                op = ["shift", a, b]
            elif k < .7:
                op = ["remove", a]
            elif k < .75:
                op = ["copy", a, b]
            elif k < .8:
                op = ["move", a, b]
            elif k < .86:
                op = ["type", a, lang.item(g)]
            else:
                op = ["write", rng.randrange(4)]
                if fault:
                    fault[0] = int(2 ** rng.uniform(0, 11))
            ops.append([op, fault])
        ops.append([["write", rng.randrange(4)], None])
        return {"lang": lang.name, "spec": spec, "built": int(rng.random() < .3), "ops": ops,
                "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 30]))]}

    def execute(self, case, run):
        built = written = 0
        with docsim.World(run, case["schedule"]) as w:
            s = Session(run, case, w)
            if s.model is None:
                return
            for i, (op, fault) in enumerate(case["ops"]):
                kind, *args = op
                run.log(i, kind)
                n = len(s.spec)
                if kind == "write":
                    s.writeback(args[0], fault, i)
                    if s.model is None:
                        break
                    written += 1
                    run.state(case["lang"], s.doc.text())
                    continue
                if kind == "type":
                    if s.dirty:
                        s.writeback(0, None, i)
                        if s.model is None:
                            break
                    end = args[0] % 2
                    t, text = s.doc.text(), s.lang.text(args[1])
                    item = copy.deepcopy(args[1])
                    if end:
                        s.doc[len(t):] = s.lang.sep + text
                        s.spec.append(item)
                    else:
                        s.doc[0:0] = text + s.lang.sep
                        s.spec.insert(0, item)
                    run.count("typed")
                    s.reread(i)
                    if s.model is None:
                        break
                    continue
                aligned = s.aligned()
                if kind not in ("insert", "part", "swap", "shift") and not (n and aligned):
                    run.count("not_applicable")
                    continue
                if kind == "insert":
                    node = s.build(args[1], fault, i)
                    item = copy.deepcopy(args[1])
                    if aligned:
                        j = args[0] % (n + 1)
                        s.model.insert(j, node)
                        s.spec.insert(j, item)
                    elif args[0] % 2:
                        s.model.append(node)
                        s.spec.append(item)
                    else:
                        s.model.insert(0, node)
                        s.spec.insert(0, item)
                    built += 1
                elif kind == "replace":
                    node = s.build(args[1], fault, i)
                    j = args[0] % n
                    s.model[j] = node
                    s.spec[j] = copy.deepcopy(args[1])
                    built += 1
                elif kind == "part":
                    if not s.replace_part(args[0], args[1], args[2], fault):
                        run.count("not_applicable")
                        continue
                    built += 1
                elif kind in ("swap", "shift"):
                    if not getattr(s, kind + ("_parts" if kind == "swap" else "_part"))(*args):
                        run.count("not_applicable")
                        continue
                elif kind == "remove":
                    j = args[0] % n
                    del s.model[j]
                    del s.spec[j]
                elif kind == "copy":
                    j, k = args[0] % n, args[1] % (n + 1)
                    node = s.model[j].copy()
                    item = copy.deepcopy(s.spec[j])
                    s.model.insert(k, node)
                    s.spec.insert(k, item)
                elif kind == "move":
                    j, k = args[0] % n, args[1] % n
                    node = s.model[j]
                    del s.model[j]
                    s.model.insert(k, node)
                    s.spec.insert(k, s.spec.pop(j))
                run.count("op:" + kind)
                s.dirty = True
                s.compare(i, s.model, "model after %s" % kind)
            run.nontrivial = built >= 2 and written > 0


def smaller(x):
    """Smaller versions of the description of a part."""
    if isinstance(x, list):
        for j in range(len(x)):
            for y in smaller(x[j]):
                yield x[:j] + [y] + x[j + 1:]
    elif isinstance(x, dict):
        for k, v in x.items():
            if k in ("text", "c", "a", "l", "vec", "els", "seq", "sim") and v:
                for j in range(len(v)):
                    yield dict(x, **{k: v[:j] + v[j + 1:]})
            if k == "m":
                f, args = v
                kinds = COMMANDS[f][1]
                if "text" in kinds:
                    q = kinds.index("text")
                    for j in range(q, len(args)):
                        yield {"m": [f, args[:j] + args[j + 1:]]}
                for j, y in enumerate(args):
                    if isinstance(y, dict):
                        for z in smaller(y):
                            yield {"m": [f, args[:j] + [z] + args[j + 1:]]}
                        if j >= len(kinds) - 1 and kinds and kinds[-1] == "text":
                            yield y
            elif isinstance(v, (dict, list)):
                for y in smaller(v):
                    yield dict(x, **{k: y})


CHECK = C22()
