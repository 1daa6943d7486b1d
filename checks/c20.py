"""C20: values set through the properties of the model are the values of the document.

A document is described by plain data (the "spec"). Operations set, delete and
read values through the convenience properties of the model (variables,
version, language, octaves, durations, names, toggles, ...), write the model
back to the live document, or type new parts; operations are interrupted at
random lines and tried again. After every step every value of the model must be
that of the spec, and the text that of the spec as well.
"""
from sim import env  # noqa: F401
from sim import core, docsim

from fractions import Fraction as F
import copy
import decimal
import re

import quickly.pitch
from quickly.dom import element, lily, read, scm

from checks.c06 import KINDS, UNCATCHABLE, LineFault

SIMPLE = ["title", "composer", "opus", "indent", "music", "melody", "top-margin", "ragged-last", "violinPart", "tagline", "piece", "subtitle"]
QUOTED = ["my name", "x1", "c", "cis", "1st", "a\"b", "back\\slash", "a.b"]
DOTTED = [["part", 1], ["part", "one"], ["violin", "solo"], ["part", "a b"], ["my part", 2], ["music", 12], ["part", "one", "two"]]
#: parce has no tokens for these in a block
NOT_IN_BLOCK = [["my part", 2]]
BLOCKS = {"header": lily.Header, "paper": lily.Paper, "layout": lily.Layout, "midi": lily.Midi}
ATTRS = {"header": ["title", "composer", "tagline", "subtitle"], "paper": ["indent", "top-margin", "ragged-last"],
         "layout": ["indent", "ragged-last"]}
VALUES = [0, 1, 3, 120, "x", "two words", "", "q\"uo\"te", "b\\s", "%not", 2.5, 0.125, 1e-7, 1e22, 12.0, True, False,
          [3, "mm"], [2.5, "cm"], [10, "pt"], [0.5, "in"]]
ELEMENTS = ["\\markup \\bold hi", "#'(1 2)", "##f", "#5", "#\"foo\"", "#1/2", "3/4", "\\markup { a b }"]
SCM_VALUES = {"##f": False, "#5": 5, "#\"foo\"": "foo", "#1/2": F(1, 2), "3/4": F(3, 4)}
PITCHES = ["c", "d", "e", "f", "g", "a", "bes", "fis"]
LANGS = ["nederlands", "english", "deutsch", "italiano", "svenska"]
DURS = [[1, 4], [1, 2], [1, 1], [2, 1], [4, 1], [1, 8], [3, 8], [7, 16], [3, 4], [1, 64], [15, 32], [8, 1], [1, 128]]
SCALES = [[2, 3], [1, 2], [3, 1], [1, 3], [5, 7]]
TOGGLES = ["autoBeam", "cadenza", "textLength", "xNotes", "improvisation"]
GROBS = ["slur", "stem", "tie", "phrasingSlur", "dots"]
DIRS = {1: "Up", 0: "Neutral", -1: "Down"}
STYLED = ["slur", "tie", "phrasingSlur"]
STYLES = {"dashed": "Dashed", "dotted": "Dotted", "solid": "Solid", "half_dashed": "HalfDashed",
          "half_solid": "HalfSolid"}
MODES = {"major": 0, "minor": 0, "dorian": 0}
SPANS = ["(", ")", "\\(", "\\)", "[", "]", "\\=1(", "\\=1)", "\\=2(", "\\=2)", "\\=\"a\"(", "\\=\"a\")"]
MUSIC_FILES = ["english.ly", "italiano.ly", "part.ily", "other.ly", "x \"y\".ily"]


# --- the text of the spec ---

def quoted(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def atom(x):
    if isinstance(x, int):
        return str(x)
    if re.fullmatch(r"[a-zA-Z]+(-[a-zA-Z]+)*", x) and x not in ("c", "cis"):
        return x
    return quoted(x)


def name_text(name):
    return atom(name) if isinstance(name, str) else ".".join(map(atom, name))


def ref_text(name):
    return "\\" + name_text(name)


def number_text(x):
    if isinstance(x, float):
        return format(decimal.Decimal(repr(x)), "f")
    return str(x)


def value_text(v):
    if isinstance(v, dict):
        return element_text(v) if "k" in v else v["el"]
    if isinstance(v, bool):
        return "##t" if v else "##f"
    if isinstance(v, str):
        return quoted(v)
    if isinstance(v, list):
        return number_text(v[0]) + "\\" + v[1]
    return number_text(v)


def dur_text(dur, sc):
    if dur is None:
        return ""
    base = F(dur[0], dur[1])
    dots = 0
    while base.numerator not in (1, 2, 4, 8) or base.denominator & (base.denominator - 1):
        dots += 1
        base = F(dur[0], dur[1]) * 2 ** dots / (2 ** (dots + 1) - 1)
    t = {F(2): "\\breve", F(4): "\\longa", F(8): "\\maxima"}.get(base) or str(1 / base)
    t += "." * dots
    if sc and sc != [1, 1]:
        t += "*%d" % sc[0] + ("/%d" % sc[1] if sc[1] != 1 else "")
    return t


def marks(n):
    return "'" * n if n > 0 else "," * -n


def pitch_text(e):
    return (e["p"] + marks(e["oct"]) + {None: "", "forced": "!", "cautionary": "?"}[e["acc"]]
            + ("=" + marks(e["chk"]) if e["chk"] is not None else ""))


def element_text(e):
    k = e["k"]
    if k == "note":
        return pitch_text(e) + dur_text(e["dur"], e["sc"]) + "".join(e["post"])
    if k == "chord":
        return "<" + " ".join(map(pitch_text, e["notes"])) + ">" + dur_text(e["dur"], e["sc"]) + "".join(e["post"])
    if k in ("r", "s"):
        return k + dur_text(e["dur"], e["sc"])
    if k == "toggle":
        return "\\" + e["prop"] + ("On" if e["val"] else "Off")
    if k == "dir":
        return "\\" + e["grob"] + DIRS[e["val"]]
    if k == "style":
        return "\\" + e["grob"] + STYLES[e["val"]]
    if k == "ref":
        return ref_text(e["name"])
    if k == "key":
        return "\\key " + e["p"] + " \\" + e["mode"]
    if k == "clef":
        return "\\clef " + quoted(e["v"])
    if k == "time":
        return "\\time " + (",".join(map(str, e["list"])) + " " if e["list"] else "") + "%d/%d" % tuple(e["v"])
    if k == "comment":
        return "%{ " + e["v"] + " %}"
    if k == "sub":
        return "{ " + " ".join(map(element_text, e["els"])) + " }"
    if k == "new":
        return "\\new Voice { " + " ".join(map(element_text, e["els"])) + " }"


def item_text(i):
    t = i["t"]
    if t == "version":
        return "\\version " + quoted(".".join(map(str, i["v"])))
    if t == "language":
        return "\\language " + quoted(i["v"])
    if t == "include":
        return "\\include " + quoted(i["v"])
    if t == "comment":
        return "%{ " + i["v"] + " %}" if i["multi"] else "% " + i["v"] + "\n"
    if t == "block":
        return "\\" + i["b"] + " {\n" + "".join("%s = %s\n" % (name_text(n), value_text(v)) for n, v in i["vars"]) + "}"
    if t == "assign":
        return name_text(i["name"]) + " = " + ("%{ c %} " if i.get("c") else "") + value_text(i["v"])
    if t == "music":
        return element_text(i["v"])
    if t == "score":
        return "\\score { " + element_text(i["v"]) + " }"


def text_of(spec):
    return "\n".join(map(item_text, spec)) + "\n"


def squeeze(t):
    return re.sub(r"\s+", "", t)


# --- random specs ---

class Gen:
    def __init__(self, rng):
        self.r = rng

    def value(self):
        r = self.r
        return copy.deepcopy(r.choice(VALUES)) if r.random() < .8 else {"el": r.choice(ELEMENTS)}

    def name(self, dotted=True):
        k = self.r.random()
        return self.r.choice(SIMPLE if k < .6 else QUOTED if k < .8 or not dotted else DOTTED)

    def ref(self):
        r = self.r
        return r.choice(r.choice([["music", "melody", "violinPart", "piece"], QUOTED, DOTTED]))

    def dur(self):
        r = self.r
        d = r.choice([None, *DURS])
        return d, (r.choice(SCALES) if d and r.random() < .25 else None)

    def pitch(self):
        r = self.r
        return {"p": r.choice(PITCHES), "oct": r.choice([0, 0, 1, 2, -1, -2]), "acc": r.choice([None, None, None, "forced", "cautionary"]),
                "chk": r.choice([None, None, None, 0, 1, -1])}

    def element(self, depth=0):
        r = self.r
        k = r.random()
        post = [r.choice(SPANS) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        dur, sc = self.dur()
        if k < .45:
            return dict(self.pitch(), k="note", dur=dur, sc=sc, post=post)
        if k < .53:
            return {"k": "chord", "notes": [self.pitch() for _ in range(r.choice([1, 2, 3]))], "dur": dur, "sc": sc, "post": post}
        if k < .59:
            return {"k": r.choice("rs"), "dur": dur, "sc": sc}
        if k < .64:
            return {"k": "toggle", "prop": r.choice(TOGGLES), "val": r.random() < .5}
        if k < .69:
            return {"k": "dir", "grob": r.choice(GROBS), "val": r.choice([1, 0, -1])}
        if k < .73:
            return {"k": "style", "grob": r.choice(STYLED), "val": r.choice(["dashed", "dotted", "solid"])}
        if k < .78:
            return {"k": "ref", "name": self.ref()}
        if k < .82:
            return {"k": "key", "p": r.choice(PITCHES), "mode": r.choice(sorted(MODES))}
        if k < .85:
            return {"k": "clef", "v": r.choice(["bass", "treble_8"])}
        if k < .89:
            return {"k": "time", "list": r.choice([None, None, [3, 2]]), "v": r.choice([[3, 4], [5, 8]])}
        if k < .92:
            return {"k": "comment", "v": r.choice("xyz")}
        if depth < 2:
            return {"k": r.choice(["sub", "new"]), "els": [self.element(depth + 1) for _ in range(r.choice([0, 1, 3]))]}
        return {"k": "r", "dur": None, "sc": None}

    def music(self):
        return {"k": "sub", "els": [self.element() for _ in range(self.r.choice([1, 2, 4, 8]))]}

    def block(self):
        b = self.r.choice(["header", "header", "paper", "paper", "layout", "midi"])
        vars, seen = [], []
        for _ in range(self.r.choice([0, 1, 2, 4])):
            n = self.name()
            if n not in seen and n not in NOT_IN_BLOCK:
                seen.append(n)
                vars.append([n, self.value()])
        return {"t": "block", "b": b, "vars": vars}

    def item(self, used=()):
        r = self.r
        k = r.random()
        if k < .1:
            return {"t": "language", "v": r.choice(LANGS)}
        if k < .18:
            return {"t": "include", "v": r.choice(MUSIC_FILES)}
        if k < .28:
            return {"t": "comment", "v": r.choice(["x", "some words"]), "multi": r.random() < .5}
        if k < .5:
            return self.block()
        if k < .7:
            n = self.name()
            if n not in used:
                v = self.music() if r.random() < .5 else self.value()
                return {"t": "assign", "name": n, "v": v, "c": int(r.random() < .2 and not numeric(v))}
        if k < .78:
            return {"t": "score", "v": self.music()}
        return {"t": "music", "v": self.music()}

    def spec(self):
        r = self.r
        out = []
        if r.random() < .5:
            out.append({"t": "version", "v": r.choice([[2, 24, 0], [2, 19], [2, 22, 2]])})
        for _ in range(r.choice([0, 1, 2, 4, 6])):
            i = self.item([x["name"] for x in out if x["t"] == "assign"])
            if not swallows(out[-1:], [i]):
                out.append(i)
        if not out:
            out.append({"t": "version", "v": [2, 20]})
        return out

    def op(self):
        r = self.r
        k = r.random()
        a, b, c = (r.randrange(1000) for _ in range(3))
        if k < .2:
            return ["setvar", a, self.name() if r.random() < .5 else None, self.music() if r.random() < .1 else self.value(), b]
        if k < .27:
            return ["unset", a, b, c]
        if k < .31:
            return ["version", r.choice([[2, 24, 1], [2, 18], [2, 23, 10], [3]])]
        if k < .34:
            return ["language", a, r.choice(LANGS)]
        if k < .38:
            return ["include", a, r.choice(MUSIC_FILES), b]
        if k < .43:
            return ["rename", a, self.name()]
        if k < .47:
            return ["ref", a, self.ref()]
        if k < .58:
            return ["pitch", a, r.choice(["oct", "oct", "acc", "acc", "chk", "chk", "p"]), b, r.random() < .25]
        if k < .72:
            return ["duration", a, r.choice(["dur", "dur", "sc", "sc", "both", "string"]), b, c]
        if k < .8:
            return ["command", a, b, c]
        return ["writeback", r.randrange(4)]


# --- the model ---

def kinds(m):
    """The nodes of the model, in document order, by kind."""
    out = {"pitch": [], "durable": [], "ref": [], "command": [], "key": [], "span": [], "language": [], "include": [], "assign": [],
           "block": []}
    for n in m.descendants():
        t = type(n)
        if t is lily.Note:
            out["pitch"].append(n)
            if not isinstance(n.parent, lily.ChordBody):
                out["durable"].append(n)
        elif t in (lily.Rest, lily.Space, lily.Chord):
            out["durable"].append(n)
        elif t is lily.IdentifierRef:
            out["ref"].append(n)
        elif t in (lily.Toggle, lily.GrobDirection, lily.GrobStyle, lily.Clef, lily.Time):
            out["command"].append(n)
        elif t is lily.Key:
            out["key"].append(n)
        elif isinstance(n, lily.Spanner):
            out["span"].append(n)
        elif t is lily.Language:
            out["language"].append(n)
        elif t is lily.Include:
            out["include"].append(n)
        elif t is lily.Assignment:
            out["assign"].append(n)
        elif t in BLOCKS.values():
            out["block"].append(n)
    return out


def walk(spec):
    """The elements of the spec by kind, in document order."""
    out = {"pitch": [], "durable": [], "ref": [], "command": [], "key": [], "span": [], "language": [], "include": [], "assign": [],
           "block": []}

    def posts(e, box):
        for p in e["post"]:
            out["span"].append((p, box))

    def rec(e, box):
        k = e["k"]
        if k == "note":
            out["pitch"].append(e)
            out["durable"].append(e)
            posts(e, box)
        elif k == "chord":
            out["durable"].append(e)
            out["pitch"].extend(e["notes"])
            posts(e, box)
        elif k in ("r", "s"):
            out["durable"].append(e)
        elif k == "ref":
            out["ref"].append(e)
        elif k in ("toggle", "dir", "style", "clef", "time"):
            out["command"].append(e)
        elif k == "key":
            out["key"].append(e)
        elif k == "sub":
            for x in e["els"]:
                rec(x, box)
        elif k == "new":
            box = box + [len(out["span"])]      # where it starts; unique with its depth
            box[-1] = (len(out["span"]), next(fresh))
            for x in e["els"]:
                rec(x, box)

    fresh = iter(range(10 ** 6))
    for i in spec:
        t = i["t"]
        if t in ("language", "include"):
            out[t].append(i)
        elif t == "block":
            out["block"].append(i)
            for v in i["vars"]:
                out["assign"].append((i, v))
        elif t == "assign":
            out["assign"].append((None, i))
            v = i["v"]
            if isinstance(v, dict):
                if "k" in v:
                    rec(v, [(0, next(fresh))])
        elif t == "music":
            rec(i["v"], [])
        elif t == "score":
            rec(i["v"], [(0, next(fresh))])
    return out


def partner(spans, i):
    """The index of the other end of span i, or None."""
    text, box = spans[i]
    m = re.match(r"(\\=(?:\d|\"a\"))?(.*)", text)
    sid, sym = m.groups()
    other = (sid or "") + {"(": ")", ")": "(", "\\(": "\\)", "\\)": "\\(", "[": "]", "]": "["}[sym]
    order = range(i + 1, len(spans)) if sym in ("(", "\\(", "[") else range(i - 1, -1, -1)
    for j in order:
        t, b = spans[j]
        if t == other and b[:len(box)] == box:
            return j
    return None


def pyvalue(v):
    """The Python value to set, and the value expected when reading."""
    if isinstance(v, list):
        return tuple(v)
    return v


def numeric(v):
    return isinstance(v, (int, float, list)) and not isinstance(v, bool) or v == {"el": "3/4"}


def swallows(before, after):
    """A comment after a number is read as belonging to the number."""
    return before and after and before[-1]["t"] == "assign" and after[0]["t"] == "comment"


def simple(name):
    return name if isinstance(name, str) else tuple(name)


class Failed(Exception):
    pass


class Session:
    def __init__(self, run, case, w):
        self.run, self.w = run, w
        self.spec = copy.deepcopy(case["spec"])
        self.dirty = False
        self.model = None
        if case["built"]:
            self.model = self.build()
            text = self.model.write()
        else:
            text = text_of(self.spec)
        self.doc = w.open("lilypond", text)
        self.compare_text(-1)
        self.model = w.model(self.doc)

    # building a model from scratch

    def build(self):
        d = lily.Document()
        for i in self.spec:
            t = i["t"]
            if t == "version":
                d.version = tuple(i["v"])
            elif t == "language":
                d.append(lily.Language(language=i["v"]))
            elif t == "include":
                d.append(lily.Include(filename=i["v"]))
            elif t == "comment":
                d.append((lily.MultilineComment if i["multi"] else lily.SinglelineComment)(" " + i["v"] + (" " if i["multi"] else "")))
            elif t == "block":
                b = BLOCKS[i["b"]]()
                for n, v in i["vars"]:
                    b.set_variable(simple(n), self.new_value(v))
                d.append(b)
            elif t == "assign":
                i["c"] = 0
                d.set_variable(simple(i["name"]), self.new_value(i["v"]))
            elif t == "music":
                d.append(read.lily(element_text(i["v"])))
            elif t == "score":
                d.append(lily.Score(read.lily(element_text(i["v"]))))
        self.run.count("built_from_scratch")
        return d

    def new_value(self, v):
        if isinstance(v, dict) and "k" in v:
            return read.lily(element_text(v))
        if isinstance(v, dict):
            return read.lily_document("x = " + v["el"])[0].get_value().copy()
        return pyvalue(v)

    # looking

    def compare_text(self, i):
        got = self.doc.text()
        want = text_of(self.spec)
        if squeeze(got) != squeeze(want):
            raise core.Violation("wrong-text", "the text is %r, expected %r" % (got[-700:], want[-700:]), i)

    def compare(self, i, m=None, live=True):
        m = m if m is not None else self.model
        w = walk(self.spec)
        k = kinds(m)

        def bad(what, got, want):
            raise core.Violation("wrong-value", "%s is %r, expected %r; spec %r" % (what, got, want, text_of(self.spec)[-500:]), i)

        for x in w:
            if x == "span":
                continue
            if len(w[x]) != len(k[x]):
                bad("the number of %s nodes" % x, len(k[x]), len(w[x]))
        version = next((tuple(x["v"]) for x in self.spec if x["t"] == "version"), ())
        if m.version != version:
            bad("version", m.version, version)
        for n, x in zip(k["language"], w["language"]):
            if n.language != x["v"]:
                bad("language", n.language, x["v"])
        for n, x in zip(k["include"], w["include"]):
            if n.filename != x["v"]:
                bad("filename", n.filename, x["v"])
            lang = x["v"][:-3] if x["v"] in ("english.ly", "italiano.ly") else None
            if n.language != lang:
                bad("included language", n.language, lang)
        self.compare_vars(m, [[x["name"], x["v"]] for x in self.spec if x["t"] == "assign"], "document", bad)
        for n, x in zip(k["block"], w["block"]):
            if type(n) is not BLOCKS[x["b"]]:
                bad("block", type(n).__name__, x["b"])
            self.compare_vars(n, x["vars"], x["b"], bad)
            for a in ATTRS.get(x["b"], ()):
                got = getattr(n, a.replace("-", "_"))
                want = next((v for nm, v in x["vars"] if nm == a), None)
                self.compare_value(got, want, x["b"] + "." + a, bad)
        for n, (block, x) in zip(k["assign"], w["assign"]):
            name = simple(x[0] if block else x["name"])
            if n.get_name() != name:
                bad("name of assignment", n.get_name(), name)
        for n, x in zip(k["pitch"], w["pitch"]):
            got = (n.head, n.octave, n.accidental, n.oct_check)
            want = (x["p"], x["oct"], x["acc"], x["chk"])
            if got != want:
                bad("pitch", got, want)
            got = tuple(len(list(n / t)) for t in (lily.Octave, lily.Accidental, lily.OctCheck))
            want = (x["oct"] != 0, x["acc"] is not None, x["chk"] is not None)
            if got != want:
                bad("the number of octave, accidental and octave check nodes", got, want)
        for n, x in zip(k["durable"], w["durable"]):
            d = F(*x["dur"]) if x["dur"] else None
            s = None if d is None else F(*x["sc"]) if x["sc"] else 1
            got = (n.duration, n.scaling, n.duration_scaling)
            want = (d, s, None if d is None else (d, s))
            if got != want:
                bad("duration", got, want)
        for n, x in zip(k["ref"], w["ref"]):
            if n.get_name() != simple(x["name"]):
                bad("name of reference", n.get_name(), x["name"])
        for n, x in zip(k["command"], w["command"]):
            if x["k"] == "toggle":
                got, want = (n.prop, n.value), (x["prop"], x["val"])
            elif x["k"] == "dir":
                got, want = (n.grob, n.direction), (x["grob"][0].upper() + x["grob"][1:], x["val"])
                if got == want and type(n).grobs.get(n.grob) != (-1, 0, 1):
                    bad("directions of " + n.grob, type(n).grobs.get(n.grob), (-1, 0, 1))
            elif x["k"] == "style":
                got, want = (n.grob, n.style), (x["grob"][0].upper() + x["grob"][1:], x["val"])
                styles = "dashed", "dotted", "half_dashed", "half_solid", "solid"
                if got == want and type(n).grobs.get(n.grob) != styles:
                    bad("styles of " + n.grob, type(n).grobs.get(n.grob), styles)
            elif x["k"] == "clef":
                got, want = n[0].head, x["v"]
            else:
                got = ([c.get_list() for c in n / lily.List], [c.head for c in n / lily.Fraction])
                want = ([tuple(x["list"])] if x["list"] else [], [tuple(x["v"])])
            if got != want:
                bad(x["k"], got, want)
        p = quickly.pitch.PitchProcessor()
        for n, x in zip(k["key"], w["key"]):
            sig = n.key_signature(p)
            got = sig and (sig.note, sig.alter, sig.mode)
            want = ("cdefgab".index(x["p"][0]), F({"bes": -1, "fis": 1}.get(x["p"], 0), 2), x["mode"])
            if not sig or got[:2] != want[:2]:
                bad("key", got, want)
        self.compare_spans(k["span"], w["span"], i, bad)
        text = m.write()
        if squeeze(text) != squeeze(text_of(self.spec)):
            bad("the text of the model", text[-500:], "that of the spec")

    def compare_spans(self, nodes, spans, i, bad):
        if len(nodes) != len(spans):
            bad("the number of spanners", len(nodes), len(spans))
        for j, n in enumerate(nodes):
            want = partner(spans, j)
            got = n.find_parallel()
            g = next((x for x, y in enumerate(nodes) if y is got), None)
            if got is not None and g is None or g != want:
                bad("the other end of spanner %d (%s)" % (j, spans[j][0]), g, want)
            self.run.count("spanners_matched" if want is not None else "spanners_alone")

    def compare_value(self, got, want, what, bad):
        if isinstance(want, dict):
            if "k" in want:
                if not isinstance(got, lily.MusicList):
                    bad(what, got, "music")
                got, want = squeeze(got.write()), squeeze(element_text(want))
            elif want["el"] in SCM_VALUES:
                want = SCM_VALUES[want["el"]]
            else:
                if not isinstance(got, element.Element):
                    bad(what, got, want)
                got, want = squeeze(got.write()), squeeze(want["el"])
        else:
            want = pyvalue(want)
        if type(got) is not type(want) and not {type(got), type(want)} <= {int, float} or got != want:
            bad(what, got, want)

    def compare_vars(self, n, vars, what, bad):
        names = [simple(x) for x, _ in vars]
        if n.variables() != names:
            bad("variables of " + what, n.variables(), names)
        for name, v in vars:
            self.compare_value(n.get_variable(simple(name)), v, "variable %r" % (name,), bad)
        if n.get_variable("notThere") is not None:
            bad("missing variable", n.get_variable("notThere"), None)

    # operations: change the spec and return a function that does the same to
    # a model

    def holder(self, a, plain=False):
        """Document or block; returns (vars, append, find node)"""
        blocks = [x for x in self.spec if x["t"] == "block"]
        j = a % (len(blocks) + 1)
        if j == len(blocks):
            return None, (lambda m: m)
        return blocks[j], (lambda m: kinds(m)["block"][j])

    def op_setvar(self, a, name, value, how):
        block, find = self.holder(a)
        if block is None:
            vars = [x for x in self.spec if x["t"] == "assign"]
            names = [x["name"] for x in vars]
        else:
            names = [x[0] for x in block["vars"]]
        if block is not None and (isinstance(value, dict) and "k" in value or name in NOT_IN_BLOCK):
            return
        if name is None:
            if not names:
                return
            name = names[how % len(names)]
        attr = block is not None and name in ATTRS.get(block["b"], ()) and how % 2
        if block is None:
            if name in names:
                x = vars[names.index(name)]
                if x["c"] and numeric(value):
                    return      # (parce reads a number after a comment differently)
                x["v"] = value
            else:
                self.spec.append({"t": "assign", "name": name, "v": value, "c": 0})
        elif name in names:
            block["vars"][names.index(name)][1] = value
        else:
            block["vars"].append([name, value])
        self.run.count("variable_replaced" if name in names else "variable_added")

        def do(m):
            n = find(m)
            v = self.new_value(value)
            if attr:
                self.run.count("by_attribute")
                setattr(n, name.replace("-", "_"), v)
            else:
                n.set_variable(simple(name), v)
        return do

    def op_unset(self, a, b, how):
        block, find = self.holder(a)
        names = [x["name"] for x in self.spec if x["t"] == "assign"] if block is None else [x[0] for x in block["vars"]]
        if not names:
            return
        name = names[b % len(names)]
        if block is None:
            self.spec.remove(next(x for x in self.spec if x["t"] == "assign" and x["name"] == name))
        else:
            block["vars"][:] = [x for x in block["vars"] if x[0] != name]
        attr = block is not None and name in ATTRS.get(block["b"], ())

        def do(m):
            n = find(m)
            if attr and how % 3 == 0:
                delattr(n, name.replace("-", "_"))
            elif attr and how % 3 == 1:
                setattr(n, name.replace("-", "_"), None)
            else:
                n.unset_variable(simple(name))
        self.run.count("variable_removed")
        return do

    def op_version(self, v):
        for x in self.spec:
            if x["t"] == "version":
                x["v"] = v
                break
        else:
            self.spec.insert(0, {"t": "version", "v": v})
        return lambda m: setattr(m, "version", tuple(v))

    def pick(self, kind, a):
        w = walk(self.spec)[kind]
        if not w:
            return None, None
        j = a % len(w)
        return w[j], (lambda m: kinds(m)[kind][j])

    def op_language(self, a, v):
        x, find = self.pick("language", a)
        if x:
            x["v"] = v
            return lambda m: setattr(find(m), "language", v)

    def op_include(self, a, v, how):
        x, find = self.pick("include", a)
        if not x:
            return
        if how % 3 == 0:
            lang = LANGS[how % len(LANGS)]
            if lang + ".ly" not in MUSIC_FILES:
                lang = "english"
            x["v"] = lang + ".ly"
            return lambda m: setattr(find(m), "language", lang)
        x["v"] = v
        return lambda m: setattr(find(m), "filename", v)

    def op_rename(self, a, name):
        x, find = self.pick("assign", a)
        if not x:
            return
        block, v = x
        names = [y["name"] for y in self.spec if y["t"] == "assign"] if block is None else [y[0] for y in block["vars"]]
        if name in names or block is not None and name in NOT_IN_BLOCK:
            return
        if block is None:
            v["name"] = name
        else:
            v[0] = name
        self.run.count("renamed")
        return lambda m: next(iter(find(m) / lily.Identifier)).set_name(simple(name))

    def op_ref(self, a, name):
        x, find = self.pick("ref", a)
        if x:
            x["name"] = name
            return lambda m: find(m).set_name(simple(name))

    def op_pitch(self, a, prop, b, delete):
        x, find = self.pick("pitch", a)
        if not x:
            return
        attr = {"oct": "octave", "acc": "accidental", "chk": "oct_check", "p": "head"}[prop]
        if delete and prop != "p":
            x[prop] = 0 if prop == "oct" else None
            return lambda m: delattr(find(m), attr)
        v = {"oct": [0, 1, -1, 2, 3], "acc": [None, "forced", "cautionary"], "chk": [None, 0, 1, -1], "p": PITCHES}[prop]
        v = x[prop] = v[b % len(v)]
        return lambda m: setattr(find(m), attr, v)

    def op_duration(self, a, prop, b, c):
        x, find = self.pick("durable", a)
        if not x:
            return
        d = (DURS + [None])[b % (len(DURS) + 1)]
        s = (SCALES + [None, None])[c % (len(SCALES) + 2)]
        fd = d and F(*d)
        fs = s and F(*s)
        if b % 3 == 0 and fd:
            fd = float(fd)
        elif fd and fd.denominator == 1 and b % 3 == 1:
            fd = int(fd)
        if c % 2 and fs:
            fs = float(fs)
        if prop == "dur":
            x["dur"] = d
            if d is None:
                x["sc"] = None
                if c % 2:
                    return lambda m: delattr(find(m), "duration")
            return lambda m: setattr(find(m), "duration", fd)
        if prop == "sc":
            if not x["dur"]:
                if fs is None:
                    return

                def refuse(m):
                    try:
                        find(m).scaling = fs
                    except ValueError:
                        self.run.count("refused")
                    else:
                        raise core.Violation("not-refused", "setting a scaling without duration")
                return refuse
            x["sc"] = s
            if s is None:
                if b % 3 == 0:
                    return lambda m: delattr(find(m), "scaling")
                if b % 3 == 1:
                    return lambda m: setattr(find(m), "scaling", 1)
            return lambda m: setattr(find(m), "scaling", fs)
        if prop == "both":
            x["dur"], x["sc"] = d, s if d else None
            if d is None:
                if b % 2:
                    return lambda m: delattr(find(m), "duration_scaling")
                return lambda m: setattr(find(m), "duration_scaling", None)
            return lambda m: setattr(find(m), "duration_scaling", (fd, fs or 1))
        if d is None:
            return
        x["dur"], x["sc"] = d, s

        def do(m):
            n = find(m)
            new = (lily.Duration.from_string(dur_text(d, s)) if c % 3 else lily.Duration.from_duration(fd, fs or 1))
            for old in n / lily.Duration:
                old.replace_with(new)
                break
            else:
                n.add(new)
        return do

    def op_command(self, a, b, c):
        x, find = self.pick("command", a)
        if not x:
            return
        k = x["k"]
        if k == "toggle":
            if b % 2:
                v = x["val"] = not x["val"]
                return lambda m: setattr(find(m), "value", v)
            v = x["prop"] = TOGGLES[c % len(TOGGLES)]
            return lambda m: setattr(find(m), "prop", v)
        if k == "dir":
            if b % 2:
                v = x["val"] = [1, 0, -1][c % 3]
                return lambda m: setattr(find(m), "direction", v)
            v = x["grob"] = GROBS[c % len(GROBS)]
            return lambda m: setattr(find(m), "grob", v[0].upper() + v[1:])
        if k == "style":
            if b % 2:
                v = x["val"] = ["dashed", "dotted", "solid"][c % 3]
                return lambda m: setattr(find(m), "style", v)
            v = x["grob"] = STYLED[c % len(STYLED)]
            return lambda m: setattr(find(m), "grob", v[0].upper() + v[1:])
        if k == "clef":
            v = x["v"] = ["bass", "alto", "G_8"][c % 3]
            return lambda m: setattr(find(m)[0], "head", v)
        if x["list"] and b % 2:
            v = x["list"] = [[3, 2], [2, 3], [1, 2, 2], [5]][c % 3]
            return lambda m: find(m)[0].set_list(v)
        v = x["v"] = [[3, 4], [6, 8], [2, 2]][c % 3]
        return lambda m: setattr(next(iter(find(m) / lily.Fraction)), "head", tuple(v))

    # doing

    def attempt(self, func, fault, i):
        """Call func, maybe interrupted; return True if it was interrupted."""
        if fault is None:
            func()
            return False
        line, kind = fault
        exc = KINDS[kind]("injected")
        f = LineFault(line, exc)
        try:
            with f.extent():
                func()
        except core.Violation:
            raise
        except BaseException as e:
            if e is not exc:
                raise
            self.run.count("fault:" + kind)
            self.run.log("interrupted", f.fired)
            return True
        return False

    def writeback(self, how, fault, i):
        before = self.doc.text()
        m = self.model

        def write():
            if how == 3:
                m.edit(self.doc, start=0, end=len(before))
            else:
                m.edit(self.doc)
        if self.attempt(write, fault, i):
            self.w.check_threads()
            if self.doc.text() == before:
                write()
            else:
                self.run.count("interrupted_after_writing")
        self.w.check_threads()
        self.compare_text(i)
        if self.doc.text() != before or not self.dirty:
            self.model = self.w.model(self.doc)
        else:
            # what was written is the same text: the document keeps its model
            self.doc = self.w.open("lilypond", self.doc.text())
            self.model = self.w.model(self.doc)
        self.dirty = False


class C20(core.Check):
    id = "C20"
    rule = "at least two values were set and the model was written back"
    assumptions = [
        "Negative numbers and variable names that are pitch names in some language are not read from text (parce has no tokens for "
        "them), the latter are written quoted.",
        "A setter that was interrupted is tried again; only what it then gives is judged.",
    ]
    real = ["quickly.dom.*", "quickly.node", "quickly.pitch", "quickly.lang.lilypond", "parce document, tree builder, transformer"]
    stubs = ["threading (deterministic scheduler)", "exceptions raised at chosen lines"]
    states_measure = "distinct document descriptions reached"
    quick_runs = 8000
    thorough_runs = 120000

    def lists(self):
        return ("spec", "ops", "schedule")

    def simplify(self, case):
        for j, x in enumerate(case["spec"]):
            def put(y):
                return dict(case, spec=case["spec"][:j] + [y] + case["spec"][j + 1:])
            if x["t"] == "block":
                for q in range(len(x["vars"])):
                    yield put(dict(x, vars=x["vars"][:q] + x["vars"][q + 1:]))
            v = x.get("v")
            if isinstance(v, dict) and "els" in v:
                for y in self.shrunk(v):
                    yield put(dict(x, v=y))
        for j, op in enumerate(case["ops"]):
            if op[1] is not None:
                yield dict(case, ops=case["ops"][:j] + [[op[0], None]] + case["ops"][j + 1:])

    def shrunk(self, e):
        for q, y in enumerate(e["els"]):
            yield dict(e, els=e["els"][:q] + e["els"][q + 1:])
            if "els" in y:
                for z in self.shrunk(y):
                    yield dict(e, els=e["els"][:q] + [z] + e["els"][q + 1:])
            elif y.get("post"):
                yield dict(e, els=e["els"][:q] + [dict(y, post=y["post"][1:])] + e["els"][q + 1:])

    def sample(self, case):
        return repr({"text": text_of(case["spec"]), "ops": case["ops"], "built": case["built"]})[:1500]

    def generate(self, rng):
        g = Gen(rng)
        spec = g.spec()
        ops = []
        for _ in range(rng.choice([2, 4, 8, 12])):
            k = rng.random()
            fault = [int(2 ** rng.uniform(0, 7)), rng.choice(UNCATCHABLE)] if rng.random() < .12 else None
            if k < .06:
                item = g.item()
                ops.append([["type", item, rng.random() < .5], None])
            else:
                op = g.op()
                if fault and op[0] == "writeback":
                    fault[0] = int(2 ** rng.uniform(0, 11))
                ops.append([op, fault])
        ops.append([["writeback", rng.randrange(4)], None])
        return {"spec": spec, "built": int(rng.random() < .25), "ops": ops,
                "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 30]))]}

    def execute(self, case, run):
        done = written = 0
        if not case["spec"]:
            return      # (the model of an empty document is None)
        with docsim.World(run, case["schedule"]) as w:
            s = Session(run, case, w)
            s.compare(-1)
            for i, (op, fault) in enumerate(case["ops"]):
                kind, *args = op
                run.log(i, kind)
                if kind == "writeback":
                    s.writeback(args[0], fault, i)
                    if s.model is None:
                        break       # (an empty document)
                    s.compare(i)
                    written += 1
                    run.state(text_of(s.spec))
                    continue
                if kind == "type":
                    self.typing(s, args, i, run)
                    continue
                do = getattr(s, "op_" + kind)(*args)
                if do is None:
                    run.count("not_applicable")
                    continue
                s.dirty = True
                if s.attempt(lambda: do(s.model), fault, i):
                    run.count("tried_again")
                    do(s.model)
                run.count("set:" + kind)
                done += 1
                s.compare(i)
            run.nontrivial = done >= 2 and written

    def typing(self, s, args, i, run):
        """The user types a new part of the document."""
        item, at_end = args
        if s.dirty:
            s.writeback(0, None, i)
            if s.model is None:
                return
        if item["t"] == "assign" and any(x["t"] == "assign" and x["name"] == item["name"] for x in s.spec):
            return
        if item["t"] == "version":
            return
        if swallows(s.spec, [item]) if at_end else swallows([item], s.spec):
            return
        text = item_text(item) + "\n"
        doc = s.doc
        if at_end:
            doc[len(doc.text()):] = "\n" + text
            s.spec.append(copy.deepcopy(item))
        else:
            doc[0:0] = text
            s.spec.insert(0, copy.deepcopy(item))
        run.count("typed")
        s.model = s.w.model(doc)
        s.compare_text(i)
        s.compare(i)


CHECK = C20()
