"""C02: any text can be read, broken text never wedges an editing session."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, session, texts

import parce.transform
import quickly
from quickly.dom import read

TRANSFORMER = parce.transform.Transformer()

#: what is left of the kinds of node that are not recognized any more when the
#: construct they belong to is not finished
UNFINISHED = {
    "html": {"OpenTag", "SingleTag", "CloseTag", "Text", "TagName", "Colon", "Attribute", "EqualSign", "String", "SqString",
             "DqString"},
    "latex": {"Text", "Command", "Brace", "EnvironmentName", "Option"},
    "scheme": {"Quote"},
    "lilypond": {"Markup", "PitchedRest", "Direction"},
}


class C02(core.Check):
    id = "C02"
    rule = ("a broken text of at least three tokens was read in the background while being typed, and the repaired text was "
            "compared with a fresh reading")
    assumptions = [
        "'Preceding the broken place' leaves out the last three tokens before it: a token may get another meaning from what follows.",
        "A run that uses more than 20 s of processor time on a text of at most a few thousand characters counts as hanging.",
        "Fragments of HTML that contain style sheets, scripts or document types are only read as documents (upstream defect).",
        "parce's own defects (see sim/env.py) are worked around.",
    ]
    real = ["quickly.lang.*", "quickly.dom.*", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct models of broken texts"
    quick_runs = 6000
    thorough_runs = 300000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for name in ("doc",):
            if case[name]:
                for d in gen.shrink(case[name]):
                    yield dict(case, **{name: d})
        for i, op in enumerate(case["ops"]):
            if op[0] == "break" and len(op[2]) > 1:
                s = op[2]
                for t in (s[:len(s) // 2], s[len(s) // 2:], s[1:], s[:-1]):
                    yield dict(case, ops=case["ops"][:i] + [[op[0], op[1], t] + op[3:]] + case["ops"][i + 1:])
            if op[0] == "read" and len(op[2]) > 1:
                s = op[2]
                for t in (s[:len(s) // 2], s[len(s) // 2:], s[1:], s[:-1]):
                    yield dict(case, ops=case["ops"][:i] + [[op[0], op[1], t]] + case["ops"][i + 1:])

    def sample(self, case):
        return repr({"lang": case["lang"], "text": gen.render(case["doc"]), "ops": case["ops"],
                     "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        lang = rng.choice(["lilypond", "lilypond", "html", "latex", "scheme"])
        doc = texts.wellformed(rng, lang)
        ops = []
        for _ in range(rng.choice([2, 4, 8])):
            k = rng.random()
            if k < .3:
                ops.append(["read", rng.choice([lang, lang, rng.choice(texts.LANGS)]),
                            texts.broken(rng, lang, rng.choice([2, 4, 8, 15])) if rng.random() < .9 else
                            texts.deep(rng, lang)])
            elif k < .7:
                ops.append(["break", rng.randrange(1000), texts.broken(rng, lang, rng.choice([0, 1, 1, 3, 6]))[:60],
                            rng.randrange(4), rng.random() < .6])
            elif k < .8:
                ops.append(["cut", rng.randrange(1000)])
            elif k < .9:
                ops.append(["delete", rng.randrange(1000), rng.randint(1, 10)])
            else:
                ops.append(["repair"])
        return {"lang": lang, "doc": doc, "ops": ops, "schedule": [rng.randrange(3) for _ in range(rng.choice([0, 10, 60]))]}

    def execute(self, case, run):
        well = gen.render(case["doc"])
        lang = case["lang"]
        full = docsim.fresh(lang, well)
        nodes = heads(full)
        tokens = docsim.tokens(docsim.parse(lang, well))
        broken = False
        with docsim.World(run, case["schedule"], guard=False) as w:
            s = session.Session(w, run, lang, well)
            for i, op in enumerate(case["ops"]):
                s.step = i
                run.log(i, op[0])
                if op[0] == "read":
                    self.read(run, op[1], op[2])
                    continue
                elif op[0] == "break":
                    # break the text off, and type something else there
                    at, junk, waits, rest = op[1:]
                    p = at * (len(well) + 1) // 1000
                    s.set_text(well[:p] + (well[p:] if rest else ""))
                    for j, c in enumerate(junk):
                        s.replace(p + j, p + j, c)
                        w.sched.point("typing")
                        if waits and (j + at) % (waits * 5) == 0:
                            s.do_wait()
                            self.kept(s, nodes, tokens, p, lang)
                        elif (j + at) % 3 == 0:
                            s.do_peek()
                    s.do_wait()
                    self.kept(s, nodes, tokens, p, lang)
                    broken = broken or len(tokens) >= 3
                    continue
                elif op[0] == "cut":
                    p = op[1] * (len(well) + 1) // 1000
                    s.set_text(well[:p])
                    s.do_wait()
                    self.kept(s, nodes, tokens, p, lang)
                elif op[0] == "delete":
                    p = op[1] * (len(well) + 1) // 1000
                    s.set_text(well[:p] + well[p + op[2]:])
                elif op[0] == "repair":
                    s.set_text(well)
                    m = s.do_wait()
                    self.same(s, m, lang, well)
                self.read(run, lang, s.doc.text(), False)
                w.check_threads()
            s.step = None
            s.set_text(well)
            s.finish()
            m = s.do_wait()
            self.same(s, m, lang, well)
            run.nontrivial = broken and w.sched.switches > 0

    def same(self, s, m, lang, well):
        if m is None:
            if well:
                s.fail("no-model", "after repairing the text there is no model")
            return
        tree = s.doc.get_root(True)
        if docsim.contexts(tree) != docsim.contexts(docsim.parse(lang, well)):
            s.run.count("upstream_tree_divergence")
            return
        d = docsim.first_diff(docsim.dump(m), docsim.dump(docsim.fresh(lang, well)))
        s.run.count("repairs_compared")
        if d:
            s.fail("repaired-model-differs", d)

    def kept(self, s, nodes, tokens, p, lang):
        """The nodes before the broken place are still represented."""
        before = [t for t in tokens if t[0] + len(t[1]) <= p]
        if len(before) < 4:
            return
        limit = before[-3][0]
        text = s.doc.text()
        m = s.w.model(s.doc)
        if m is None:
            s.fail("no-model", "broken text has no model")
        tree = s.doc.get_root(True)
        if docsim.contexts(tree) != docsim.contexts(docsim.parse(lang, text)):
            m = docsim.fresh(lang, text)
        got = {n[:3] for n in heads(m)}
        for n in nodes:
            if n[3] <= limit and n[:3] not in got:
                if n[0] in UNFINISHED[lang] and (n[4] is None or n[4] > limit):
                    continue
                if lang in ("html", "latex") and (n[5] > limit or n[0] == "Text" and n[3] >= limit):
                    continue
                s.fail("statement-lost", "%s %r at %d is not in the model of the text that is broken at %d" % (
                    n[0], n[1], n[2], p))
        s.run.count("nodes_kept", len(nodes))

    def read(self, run, lang, text, more=True):
        m = docsim.fresh(lang, text)
        if m is None:
            if text:
                raise core.Violation("no-model", "reading %r gives no model" % text[:200])
            return
        with core.quiet():
            run.state(docsim.dump(m))
            nodes = list(m.descendants())
            if not any(type(n).__name__ == "Unknown" for n in nodes):
                list(m.points())
                m.write()
                m.write_indented()
            m.pos, m.end
            for p in range(0, len(text) + 1, max(1, len(text) // 5)):
                m.find_descendant_left(p), m.find_descendant_right(p), list(m.find_descendants(p))
            m.copy_with_origin()
            if more and not foreign(docsim.parse(lang, text)):
                x, y = {"lilypond": (read.lily_document, read.lily), "html": (read.htm_document, read.htm),
                        "latex": (read.tex_document, read.tex), "scheme": (read.scm_document, read.scm)}[lang]
                for wo in (False, True):
                    if docsim.dump(x(text, wo), False) != docsim.dump(m, False):
                        raise core.Violation("reading-differs", "reading %r as fragment gives another model" % text[:300])
                    y(text, wo)
                quickly.find(contents=text)
        run.count("texts_read")


def foreign(tree):
    """Whether other languages (style sheets, scripts) are in the text.

    transform_text() of parce 0.33 can't handle these."""
    todo = [tree]
    while todo:
        c = todo.pop()
        if not getattr(TRANSFORMER.get_transform(c.lexicon.language), c.lexicon.name, None):
            return True
        todo.extend(n for n in c if n.is_context)
    return False


def heads(m):
    """(class, head, start, end of head, end of node or None, end of the outermost node that starts a construct)."""
    out = []
    if m is None:
        return out

    def rec(n, outer):
        for c in n:
            o = getattr(c, "head_origin", ())
            e = c.end
            oo = max(outer, e or 0) if type(c).__name__ in ("OpenTag", "SingleTag", "CloseTag", "Command", "Environment", "Element") \
                or outer else outer
            if o:
                out.append((type(c).__name__, docsim.value(c.head), o[0].pos, o[-1].end, e, oo))
            rec(c, oo)
    rec(m, 0)
    return out


CHECK = C02()
