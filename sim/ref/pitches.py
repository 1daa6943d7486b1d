"""Pitch names of some LilyPond languages, from the LilyPond Notation Reference
("Note names in other languages"); independent of quickly's own table."""
from fractions import Fraction as F

H = F(1, 2)
STEP_HEIGHT = [F(0), F(1), F(2), F(5, 2), F(7, 2), F(9, 2), F(11, 2)]   # whole tones


def _suffixes(steps, table, extra=None):
    d = {}
    for i, s in enumerate(steps):
        for suffix, alter in table.items():
            d[s + suffix] = (i, alter)
    if extra:
        for name, value in extra.items():
            if value is None:
                d.pop(name, None)
            else:
                d[name] = value
    return d


_NL = {"": F(0), "is": H, "es": -H, "isis": F(1), "eses": F(-1)}
_IT = {"": F(0), "d": H, "b": -H, "dd": F(1), "bb": F(-1)}

LANGUAGES = {
    "nederlands": _suffixes("cdefgab", _NL, {
        "es": (2, -H), "as": (5, -H), "eses": (2, F(-1)), "ases": (5, F(-1))}),
    "deutsch": _suffixes("cdefgah", _NL, {
        "es": (2, -H), "as": (5, -H), "ees": None, "aes": None, "eeses": None, "aeses": None,
        "eses": (2, F(-1)), "ases": (5, F(-1)), "asas": (5, F(-1)),
        "b": (6, -H), "hes": None, "heses": (6, F(-1))}),
    "english": _suffixes("cdefgab", {
        "": F(0), "s": H, "f": -H, "ss": F(1), "x": F(1), "ff": F(-1),
        "-sharp": H, "-flat": -H, "-sharpsharp": F(1), "-flatflat": F(-1),
        "-natural": F(0)}),
    "italiano": _suffixes(["do", "re", "mi", "fa", "sol", "la", "si"], _IT),
    "espanol": _suffixes(["do", "re", "mi", "fa", "sol", "la", "si"], {
        "": F(0), "s": H, "b": -H, "ss": F(1), "x": F(1), "bb": F(-1)}),
    "vlaams": _suffixes(["do", "re", "mi", "fa", "sol", "la", "si"], {
        "": F(0), "k": H, "b": -H, "kk": F(1), "bb": F(-1)}),
    "svenska": _suffixes("cdefgah", {
        "": F(0), "iss": H, "ess": -H, "ississ": F(1), "essess": F(-1)}, {
        "ess": (2, -H), "eess": None, "ass": (5, -H), "aess": None,
        "essess": (2, F(-1)), "eessess": None, "assess": (5, F(-1)), "aessess": None,
        "b": (6, -H), "hess": None, "hessess": (6, F(-1))}),
}


def height(octave, step, alter):
    """Sounding height in whole tones; octave 0 is the one of c'."""
    return 6 * octave + STEP_HEIGHT[step] + alter


def names(language, simple=False):
    """List of (name, step, alter) a generator may choose from."""
    return sorted((n, s, a) for n, (s, a) in LANGUAGES[language].items()
                  if not simple or abs(a) <= H)
