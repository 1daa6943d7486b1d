"""What the checks on music tools share: an open document, an editing session
over it, and the reference reader as the oracle."""
from fractions import Fraction as F

from . import core, docsim, gen
from .ref import pitches, reader

import parce


def schedule(rng, n=30):
    """Choices for the scheduler."""
    if rng.random() < .3:
        return []
    return [rng.randrange(4) for _ in range(rng.randrange(n))]


def right_check(n):
    """Whether the octave check of a note is right (None when there is none)."""
    if n.pitch.check is not None and n.sound is not None:
        return n.pitch.check == n.plain[0]


def fix_checks(text, fpa=None, language="nederlands"):
    """Make all octave checks (=) correct, following the reference reader."""
    try:
        r = reader.sounding(text, fpa, language=language)
    except reader.Unsupported:
        return text
    edits = []
    for n in r.pitches:
        if n.pitch.check is not None and n.sound is not None:
            i = next(i for i, t in enumerate(r.toks) if t.pos == n.pitch.pos)
            while r.toks[i].text != "=":
                i += 1
            a = r.toks[i].end
            b = r.toks[i + 1].end if r.toks[i + 1].kind == "oct" and r.toks[i + 1].role == "pitch" else a
            # the octave as sounding without \transpose around it
            o = n.plain[0] + 1
            edits.append((a, b, "'" * o if o > 0 else "," * -o))
    for a, b, s in reversed(edits):
        text = text[:a] + s + text[b:]
    return text


def absolute_lists(root):
    """Yield lists ({ ... }) that are not within relative, fixed, transposed music."""
    def rec(n):
        for c in n.children:
            if c.type in ("relative", "fixed", "transpose", "absolute"):
                continue
            if c.type == "seq":
                yield c
            yield from rec(c)
    yield from rec(root)


def relative_lists(root, relative=False):
    """Yield lists ({ ... }) in relative or fixed music, not within transposed music."""
    for c in root.children:
        if c.type == "transpose":
            continue
        if c.type == "seq" and relative:
            yield c
        yield from relative_lists(c, relative or c.type in ("relative", "fixed", "absolute"))


def top_expressions(root):
    for n in root.children:
        if n.type == "score":
            yield from top_expressions(n)
        elif n.type == "assignment":
            if n.children:
                yield n.children[0]
        elif n.type not in ("version", "language", "block", "scheme", "other"):
            yield n


def pick_selection(r, sel):
    """Turn the numbers in the case into a (pos, end) on boundaries of items.

    A comment may be read as a part of what comes before it, so comments after
    the end are included.

    """
    s = _pick_selection(r, sel)
    if s and sel[0] != "empty":
        pos, end = s
        for t in r.all:
            if t.pos >= end and t.kind != "space":
                if t.kind != "comment":
                    break
                end = t.end
        s = pos, end
    return s


def _pick_selection(r, sel):
    if sel is None:
        return None
    kind, a, b, c = sel
    if kind == "expr":
        e = list(top_expressions(r.root))
        if e:
            n = e[a % len(e)]
            return n.pos, n.end
    elif kind in ("items", "part"):
        lists = [n for n in (absolute_lists if kind == "items" else relative_lists)(r.root) if n.children]
        if lists:
            n = lists[a % len(lists)]
            i, j = sorted((b % len(n.children), c % len(n.children)))
            return n.children[i].pos, n.children[j].end
    elif kind == "empty":
        # between two items: only space
        lists = [n for n in absolute_lists(r.root) if len(n.children) > 1]
        if lists:
            n = lists[a % len(lists)]
            i = b % (len(n.children) - 1)
            x, y = n.children[i].end, n.children[i + 1].pos
            if x < y and not r.text[x:y].strip():
                return x, y
    return None


def random_selection(rng, p=.4):
    if rng.random() > p:
        return None
    return [rng.choice(["expr", "items", "items", "items", "empty"]), rng.randrange(50), rng.randrange(50), rng.randrange(50)]


def cursor(doc, sel):
    if sel:
        return parce.Cursor(doc, *sel)
    # the whole document, as a cursor or itself
    return doc if len(doc.text()) % 3 == 0 else parce.Cursor(doc)


def same_others(before, after, what, drop=("pitch",), skip_before=(), skip_after=()):
    a = reader.others(before, drop, skip_before)
    b = reader.others(after, drop, skip_after)
    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise core.Violation("other-text-changed", "%s: token %r became %r (in %r)" % (
            what, " ".join(a[max(0, i-1):i+2]), " ".join(b[max(0, i-1):i+2]), after.text[:300]))


def reread(text, what, fpa=None, language="nederlands"):
    try:
        return reader.sounding(text, fpa, language=language)
    except reader.Unsupported as e:
        raise core.Violation("unreadable-result", "%s: the result can't be read: %s: %r" % (what, e, text[:400]))
