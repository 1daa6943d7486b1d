"""C19: indented output has the same contents and consistent indentation.

A session: documents are read, edited, reformatted (the indented output replaces
the text of the live document, which is then read in the background) with
indenters that are reused, get other settings, and are interrupted at random
lines of their work.
"""
from sim import env  # noqa: F401
from sim import core, docsim, gen, texts

from quickly.dom import base, indent, lily, scm, tex, util

import checks.c05
from checks.c06 import KINDS, UNCATCHABLE, LineFault


#: between the children of these nodes a comment can be typed
COMMENT_PARENTS = base.Document, lily.MusicList, lily.Header, lily.Paper, lily.Layout, scm.List, scm.Vector, tex.Environment


def pieces(node):
    """Yield (text, depth, node, what, index) for all texts the node writes; depth
    lists the indenting nodes around it, as (node, is open)."""
    stack = []

    def rec(n, index):
        head, tail = n.write_head(), n.write_tail()
        if head:
            yield head, tuple(stack), n, "head", index
        ind = n.indent_children()
        if ind:
            stack.append(n)
        for i, c in enumerate(n):
            yield from rec(c, i)
        if ind:
            stack.pop()
        if tail:
            yield tail, tuple(stack), n, "tail", index
    yield from rec(node, -1)


def normal(items, lang):
    out = checks.c05.normal(items, lang)
    if lang in ("html", "latex"):
        out = [x for x in out if x[1:3] != ("Text", "")]
    return out


class Layout:
    """Compares the indented output with the tree it was made of."""

    def __init__(self, node, out, width, start, align):
        self.node, self.out = node, out
        self.width, self.start, self.align = width, start, align
        self.places = []        # (node, what, position in the output) of every text

    def check(self):
        """Return None, or what is wrong."""
        out = self.out
        if out and not out.endswith("\n"):
            return "the output does not end with a newline"
        pos = 0                 # in the output
        line = 0                # the position where the text of the current line starts
        actual = 0              # the indent of the current line
        level = {}              # id(node): the indent of what is inside (known at the first line break inside it)
        opened = []             # indenting nodes opened on this line, still open, with what is around them
        seen = set()            # id of nodes that have written something
        column = {}             # id(node): {index: offset in the line of its child}
        blank = False           # there was a text of blank space only
        pending = None          # (text, expected indent) of a line that starts with closing texts

        def inner(path):
            return next((level[id(x)] for x in reversed(path) if id(x) in level), self.start)

        def wrong(text, want):
            if actual != want:
                return "%r is indented %d, expected %d" % (text[:40], actual, want)

        for text, path, n, what, index in pieces(self.node):
            q = pos
            while q < len(out) and out[q] in " \n":
                q += 1
            k = text.lstrip(" \n")      # (the text itself may start with blank space)
            if not k:
                blank = True
                continue        # (will be seen as part of a gap)
            if not out.startswith(k, q):
                return "%r is not in its place; found %r" % (text[:40], out[q:q + 40])
            gap = out[pos:q]
            newline = "\n" in gap
            if pending and (newline or what == "head"):
                w = wrong(*pending)
                if w:
                    return w
                pending = None
            # (a node may have been left before the line ends, its level is not needed then)
            inside = path + ((n,) if what == "tail" and n.indent_children() else ())
            opened = [x for x in opened if any(x[0] is y for y in (path if what == "tail" else inside))]
            if newline:
                for x, around in opened:
                    new = inner(around) + self.width
                    for i in x.indent_align_indices():
                        if i in column.get(id(x), {}):
                            c = column[id(x)][i]
                            if c <= self.align:
                                new = actual + c
                            break
                    level[id(x)] = new
                opened = []
            if newline or pos == 0:
                actual = q - (pos + gap.rindex("\n") + 1 if newline else 0)
                line = q
                certain = not blank and k == text
                if certain:
                    if what == "tail":
                        pending = text, inner(path)
                    else:
                        override = n.indent_override()
                        w = wrong(text, inner(path) if override is None else override)
                        if w:
                            return w
            elif pending and what == "tail":
                pending = text, inner(path)
            if what == "head":
                if path and opened and opened[-1][0] is path[-1]:
                    # the first text of the child of the node that indents
                    p, c = path[-1], n
                    while c.parent is not p:
                        c = c.parent
                    if id(c) not in seen:
                        column.setdefault(id(p), {})[p.index(c)] = q - line
                c = n
                while c is not None and id(c) not in seen:
                    seen.add(id(c))
                    c = c.parent
                if n.indent_children():
                    opened.append((n, path))
            pos = q + len(k)
            blank = False
            self.places.append((n, what, q))
        if pending:
            w = wrong(*pending)
            if w:
                return w
        if out[pos:].strip(" \n"):
            return "superfluous text %r" % out[pos:][:40]


def lost_newlines(places, text, out, most):
    """Return None, or which text is not anymore on a new line.

    Between two texts that were in the document, there must be as many newlines as
    there were in the document, up to ``most``.

    """
    last = None
    for n, what, q in places:
        origin = getattr(n, what + "_origin", None)
        if not origin:
            continue
        p = origin[0].pos
        if last:
            want = min(text.count("\n", last[0], p), most)
            got = out.count("\n", last[1], q)
            if got < want:
                return "%d newlines before %r, expected %d" % (got, out[q:q + 20], want)
        last = p, q


class C19(core.Check):
    id = "C19"
    rule = "a model of at least eight nodes was written with indentation on at least two lines"
    assumptions = [
        "Blank space in LaTeX and HTML texts is compared normalised.",
        "Unknown parts are replaced by their text first, as the documentation prescribes.",
    ]
    real = ["quickly.dom.indent", "quickly.dom.util", "quickly.dom.*", "quickly.lang.*", "parce document, tree builder, transformer"]
    stubs = ["threading (deterministic scheduler)", "exceptions raised at chosen lines"]
    states_measure = "distinct (settings, output)"
    quick_runs = 8000
    thorough_runs = 100000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for d in gen.shrink(case["doc"]):
            yield dict(case, doc=d)

    def sample(self, case):
        return repr({"lang": case["lang"], "text": gen.render(case["doc"]), "ops": case["ops"]})[:1500]

    def generate(self, rng):
        lang = rng.choice(["lilypond", "lilypond", "lilypond", "scheme", "scheme", "html", "latex"])
        ops = []
        for _ in range(rng.choice([1, 2, 4, 6])):
            k = rng.random()
            settings = [rng.choice([0, 1, 2, 2, 3, 4, 8]), rng.choice([0, 0, 0, 1, 5]), rng.choice([0, 4, 16, 16, 24, 100])]
            if k < .3:
                ops.append(["write", settings, rng.randrange(100)])
            elif k < .6:
                ops.append(["reformat", settings, rng.choice([None, 0, 1, 2, 10]), rng.randrange(100)])
            elif k < .75:
                ops.append(["interrupted", settings, rng.randrange(100), int(2 ** rng.uniform(0, 12)), rng.choice(UNCATCHABLE)])
            elif k < .85:
                ops.append(["break", rng.randrange(1000), rng.choice([1, 1, 2])])
            elif k < .93:
                ops.append(["comment", rng.randrange(1000), rng.choice([1, 2, 3, 3, 4]), rng.choice([" ", "\n"])])
            else:
                ops.append(["edit", rng.randrange(1000)])
        return {"lang": lang, "doc": texts.wellformed(rng, lang), "ops": ops,
                "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 30]))]}

    def execute(self, case, run):
        lang = case["lang"]
        shared = indent.Indenter()
        with docsim.World(run, case["schedule"]) as w:
            doc = w.open(lang, gen.render(case["doc"]))
            for i, (kind, *args) in enumerate(case["ops"]):
                run.log(i, kind)
                run.count("op:" + kind)
                m = w.model(doc)
                if m is None:
                    return
                text = doc.text()
                if kind in ("break", "comment"):
                    # the user breaks a line or types a comment between two nodes
                    spots = sorted({n.pos for n in m.descendants() if n.pos and (
                        kind == "break" or isinstance(n.parent, COMMENT_PARENTS))})
                    spots = [p for p in spots if text[p - 1:p] == " "]
                    if spots:
                        p = spots[args[0] % len(spots)]
                        if kind == "break":
                            doc[p:p] = "\n" * args[1]
                        elif lang != "html":    # (there it can be in a tag)
                            doc[p:p] = args[2] + {"scheme": ";"}.get(lang, "%") * args[1] + " comment\n"
                    continue
                if kind == "edit":
                    doc[0:0] = {"lilypond": "{ c }\n", "scheme": "(a b)\n", "html": "<p>x</p>\n", "latex": "\\foo{x}\n"}[lang]
                    continue
                self.reformat(w, doc, m, text, lang, kind, args, shared, run, i)

    def reformat(self, w, doc, m, text, lang, kind, args, shared, run, i):
        width, start, align = args[0]
        tree = m.copy_with_origin()
        util.replace_unknown(tree, text)
        before = docsim.dump(tree, False)
        if kind == "reformat" and args[1] is not None:
            util.add_newlines(tree, text, max_blank_lines=args[1])
        how = args[-1] if kind != "interrupted" else args[1]
        if kind == "interrupted":
            line, name = args[2], args[3]
            exc = KINDS[name]("injected")
            f = LineFault(line, exc)
            try:
                with f.extent():
                    shared.indent_width, shared.start_indent, shared.max_align_indent = width, start, align
                    shared.write(tree)
            except BaseException as e:
                if e is not exc:
                    raise
                run.count("fault:" + name)
            if docsim.dump(tree, False) != before:
                raise core.Violation("changed-by-writing", "writing changed the tree", i)
        if how % 3 == 0:
            out = tree.write_indented(indent_width=width, start_indent=start, max_align_indent=align)
        else:
            shared.indent_width, shared.start_indent, shared.max_align_indent = width, start, align
            out = shared.write(tree)
            if how % 3 == 1:
                other = indent.Indenter(width, start, align).write(tree)
                if other != out:
                    raise core.Violation("differs-from-fresh-indenter", "%r, expected %r" % (out[:500], other[:500]), i)
        if docsim.dump(tree, False) != before:
            raise core.Violation("changed-by-writing", "writing changed the tree", i)
        run.state(lang, width, start, align, out)
        if len(before) >= 8 and out.count("\n") >= 2:
            run.nontrivial = True
        layout = Layout(tree, out, width, start, align)
        wrong = layout.check()
        if not wrong and kind == "reformat" and args[1] is not None:
            wrong = lost_newlines(layout.places, text, out, args[1])
        if wrong:
            raise core.Violation("wrong-indentation", "%s; settings %s; output %r" % (wrong, args[0], out[-700:]), i)
        f = docsim.fresh(lang, out)
        d = docsim.first_diff(normal(docsim.dump(f, False), lang), normal(docsim.dump(m, False), lang))
        if d:
            raise core.Violation("reads-back-differently", "%s; %r was written as %r" % (d, text[:500], out[:500]), i)
        if kind == "reformat":
            doc[0:len(text)] = out
            m2 = w.model(doc)
            d = docsim.first_diff(normal(docsim.dump(m2, False), lang), normal(docsim.dump(m, False), lang))
            if d:
                raise core.Violation("live-differs", "%s; %r was reformatted as %r" % (d, text[:500], out[:500]), i)


CHECK = C19()
