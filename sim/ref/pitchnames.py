"""How pitch names are read, written and learned from, in every language.

The table of names is the one of parce (a copy, made before quickly uses it);
the rules for the styles are written down here a second time."""
import copy

from parce.lang.lilypond_words import pitch_names

TABLE = copy.deepcopy(pitch_names)

#: style preferences and their documented defaults
DEFAULTS = {"prefer_long": False, "prefer_accented": False, "prefer_x": False, "prefer_double_s": False,
            "prefer_classic": True, "prefer_deprecated": False}

X = ("prefer_x", lambda n: n.endswith("x"))
CLASSIC = ("prefer_classic", lambda n: n.startswith(("es", "as")))
DEPRECATED = {
    "deutsch": {"eeh", "ases", "aseh", "aeh"},
    "suomi": {"ases", "bb", "heses"},
}


def styles(lang):
    """The preferences that apply to a language, the first decides first."""
    if lang == "nederlands":
        return [CLASSIC]
    if lang == "norsk":
        return [("prefer_double_s", lambda n: "ss" in n), CLASSIC]
    if lang == "english":
        return [("prefer_long", lambda n: "-" in n), X]
    if lang == "français":
        return [("prefer_accented", lambda n: "é" in n), X]
    if lang in ("espanol", "español"):
        return [X]
    if lang in ("catalan", "català"):
        return [("prefer_deprecated", lambda n: n.endswith("s"))]
    if lang in DEPRECATED:
        return [("prefer_deprecated", DEPRECATED[lang].__contains__)]
    return []


def read(lang, name):
    """(octave, note, alter), or a KeyError."""
    return tuple(TABLE[lang][name])


def written(lang, prefs, octave, note, alter):
    """The (name, octave marks) that may be written for a pitch."""
    groups = {}
    for name, (o, n, a) in TABLE[lang].items():
        if (n, a) == (note, alter):
            groups.setdefault(o, []).append(name)
    return {(name, octave - o) for o, names in groups.items() for name in styled(lang, prefs, names, alter)}


def styled(lang, prefs, names, alter):
    if len(names) == 1:
        return names
    if lang == "english" and not alter:
        short = [n for n in names if "-" not in n]
        return names if prefs["prefer_long"] else short
    for attr, pred in styles(lang):
        names = [n for n in names if pred(n) == prefs[attr]] or names
    return names


def alternatives(lang, name):
    value = TABLE[lang][name]
    return [n for n, v in TABLE[lang].items() if v == value]


def evidence(lang, name):
    """Yield (attr, value, certain) for what a name tells about the style."""
    others = alternatives(lang, name)
    alter = TABLE[lang][name][2]
    for attr, pred in styles(lang):
        v = pred(name)
        if attr == "prefer_x" and lang == "english" and "-" in name:
            continue
        same = others
        if attr == "prefer_x":
            # compare with names that are alike in the other respect
            same = [n for n in others if ("-" in n) == ("-" in name) and ("é" in n) == ("é" in name)]
        if any(pred(n) != v for n in same):
            certain = not (lang == "english" and not alter) and lang not in ("catalan", "català")
            yield attr, v, certain
        elif attr == "prefer_classic" and name[:2] in ("es", "as", "ee", "ae"):
            yield attr, v, False        # no other name in this language
        elif attr == "prefer_x" and name.endswith(("x", "ss", "dd")):
            yield attr, v, False
    if lang == "persian" and name.endswith(("x", "ss")):
        yield "prefer_x", name.endswith("x"), False


def learned(lang, prefs, names):
    """Dict of the values that every preference may have after the names."""
    certain = {a: set() for a in DEFAULTS}
    maybe = {a: set() for a in DEFAULTS}
    for name in names:
        if name in TABLE[lang]:
            for attr, v, sure in evidence(lang, name):
                (certain if sure else maybe)[attr].add(v)
        elif name in TABLE:
            lang = name
    return {a: (certain[a] or {prefs[a]}) | maybe[a] for a in DEFAULTS}


def languages(names):
    """The languages that have all the names."""
    names = set(names) - set("rRsq")
    return {lang for lang, table in TABLE.items() if names <= set(table)}
