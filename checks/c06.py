"""C06: a failed or interrupted operation leaves document, tool and session unaffected."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, musicsession as ms, texts

from fractions import Fraction as F
import contextlib
import linecache
import sys

import parce
import quickly.duration
import quickly.pitch
import quickly.relative
import quickly.rhythm
import quickly.transpose
from quickly import node
from quickly.dom import edit, element, lily, read


class Interrupt(BaseException):
    """Like KeyboardInterrupt."""


class Injected(Exception):
    """Some error."""


KINDS = {"interrupt": Interrupt, "keyboard": KeyboardInterrupt, "memory": MemoryError, "error": Injected,
         "value": ValueError, "key": KeyError, "attribute": AttributeError, "stop": StopIteration, "os": OSError,
         "unicode": UnicodeError, "index": IndexError}
#: these may not be caught by any code on the way
UNCATCHABLE = ("interrupt", "keyboard", "memory", "error")


class LineFault:
    """Counts the lines of quickly code executed within the extents of an
    operation (making the copy, editing the range, writing back), and raises an
    exception at the given line."""

    def __init__(self, at=None, exc=None):
        self.at, self.exc = at, exc
        self.lines = 0
        self.fired = None
        self.depth = 0

    def trace(self, frame, event, arg):
        if event == "call":
            name = frame.f_code.co_filename
            return self.trace if name.startswith(env.REPO + "/quickly/") else None
        if event == "line" and self.fired is None:
            self.lines += 1
            if self.at is not None and self.lines >= self.at > 0:
                f = frame.f_code
                if linecache.getline(f.co_filename, frame.f_lineno).lstrip().startswith("with "):
                    # an interruption between the body and the end of a
                    # "with" block is something Python can't protect against
                    return self.trace
                self.fired = "%s:%s" % (f.co_filename.rsplit("/", 1)[-1], f.co_name)
                raise self.exc
        return self.trace

    @contextlib.contextmanager
    def extent(self):
        self.depth += 1
        if self.depth == 1 and self.fired is None:
            old = sys.gettrace()
            sys.settrace(self.trace)
        try:
            yield
        finally:
            self.depth -= 1
            if self.depth == 0:
                sys.settrace(None)

    def wrap(self, func):
        def wrapper(*args, **kwargs):
            with self.extent():
                return func(*args, **kwargs)
        return wrapper

    @contextlib.contextmanager
    def installed(self, tool):
        """Make the extents known, while the operation runs."""
        undo = []

        def patch(obj, name):
            old = obj.__dict__.get(name)
            setattr(obj, name, self.wrap(getattr(obj, name)))
            undo.append((obj, name, old))
        patch(element.Element, "edit")
        for cls in all_subclasses(element.Element):
            if "copy_with_origin" in cls.__dict__:
                patch(cls, "copy_with_origin")
        if tool is not None:
            patch(tool, "edit_range")
        old_hook = sys.unraisablehook
        self.lost = False

        def hook(info):
            if info.exc_value is self.exc:
                self.lost = True        # raised while Python finalized an object
            else:
                old_hook(info)
        sys.unraisablehook = hook
        try:
            yield
        finally:
            sys.unraisablehook = old_hook
            for obj, name, old in reversed(undo):
                if old is None:
                    delattr(obj, name)
                else:
                    setattr(obj, name, old)


def all_subclasses(cls):
    out = [cls]
    for c in out:
        out.extend(s for s in c.__subclasses__() if s not in out)
    return out


# -- the tools, with callbacks that can fail

class Callback:
    left = None     # fails when it gets zero
    exc = None
    fired = False

    @classmethod
    def tick(cls):
        c = Callback
        if c.left is not None:
            if c.left <= 0:
                c.fired = True
                c.left = None
                raise c.exc
            c.left -= 1


class Transposer(quickly.transpose.Transposer):
    def transpose(self, pitch):
        Callback.tick()
        super().transpose(pitch)
        Callback.tick()


class Processor(quickly.pitch.PitchProcessor):
    """Does what a processor does, but can fail."""
    def read_node(self, node):
        Callback.tick()
        return super().read_node(node)

    def write_node(self, node, pitch):
        Callback.tick()
        super().write_node(node, pitch)


class Transform(quickly.duration.Transform):
    def transform(self, duration, scaling=1):
        Callback.tick()
        return super().transform(duration, scaling)


class Durations(list):
    def __iter__(self):
        for d in super().__iter__():
            Callback.tick()
            yield d


class Custom(edit.Edit):
    """An operation as an application could have it: changes all kinds of things."""
    def __init__(self, n):
        self.n = n

    def edit_range(self, r):
        done = []
        for i, x in enumerate(list(r.nodes())):
            Callback.tick()
            if isinstance(x, lily.Note) and (i + self.n) % 3 == 0:
                x.head = "g"
            elif isinstance(x, lily.Octave) and self.n % 2:
                x.head = 2
            elif type(x) is lily.MusicList and (i + self.n) % 2:
                x.append(lily.Note("a"))
                x.append(Fragile("b", lily.Duration(F(1, 4))))
            elif isinstance(x, lily.Rest) and isinstance(x.parent, lily.MusicList) and self.n % 4 == 0:
                x.parent.remove(x)
            done.append(i)
        return len(done)


class FromRoot(Custom):
    range_from_root = True


class FromCursor(Custom):
    range_from_cursor = True


class ReadOnly(Custom):
    readonly = True


class Fragile(lily.Note):
    """Can fail while it is being written."""
    def write_head(self):
        Callback.tick()
        return super().write_head()


def make_tool(name, a):
    t = quickly
    if name == "transpose":
        return t.transpose.Transpose(Transposer(t.pitch.Pitch(0, 0, 0), t.pitch.Pitch(a % 3 - 1, a % 7, F(a % 3 - 1, 2))))
    if name == "transpose-processor":
        return t.transpose.Transpose(t.transpose.Transposer(t.pitch.Pitch(0, 0, 0), t.pitch.Pitch(0, a % 7, 0)), FreshProcessor())
    if name == "rel2abs":
        return t.relative.Rel2abs()
    if name == "rel2abs-processor":
        return t.relative.Rel2abs(FreshProcessor())
    if name == "abs2rel":
        return t.relative.Abs2rel(None, bool(a % 2))
    if name == "abs2rel-processor":
        return t.relative.Abs2rel(FreshProcessor())
    if name == "transform":
        return t.rhythm.RhythmTransform(Transform(a % 3 - 1, a % 2, [1, F(1, 3), 2][a % 3]))
    if name == "paste":
        durs = [(F(1, 4), 1), None, (F(3, 8), F(2, 3)), (F(1, 8), 1)]
        if a % 5 == 0:
            durs.insert(a % 4, (F(1, 5), 1))        # not a duration that can be written
        return t.rhythm.PasteRhythm(Durations(durs), bool(a % 2))
    if name == "copy":
        return t.rhythm.CopyRhythm(bool(a % 2))
    if name == "custom":
        return Custom(a)
    if name == "custom-root":
        return FromRoot(a)
    if name == "custom-cursor":
        return FromCursor(a)
    if name == "readonly":
        return ReadOnly(a)
    return {"explicit": t.rhythm.RhythmExplicit, "implicit": t.rhythm.RhythmImplicit, "per-line": t.rhythm.RhythmImplicitPerLine,
            "remove": t.rhythm.Remove, "remove-scaling": t.rhythm.RemoveScaling,
            "remove-fraction": t.rhythm.RemoveFractionScaling}[name]()


class FreshProcessor(Processor):
    """A processor that is in the default language each time it is used by an
    operation (a processor supplied by the caller keeps its language)."""


TOOLS = ["transpose", "transpose-processor", "rel2abs", "rel2abs-processor", "abs2rel", "abs2rel-processor", "transform", "paste",
         "copy", "custom", "custom-root", "custom-cursor", "readonly", "explicit", "implicit", "per-line", "remove",
         "remove-scaling", "remove-fraction", "manual"]
CALLBACKS = ("transpose", "transpose-processor", "rel2abs-processor", "abs2rel-processor", "transform", "paste", "custom",
             "custom-root", "custom-cursor", "readonly", "manual")


class Manual:
    """Not a tool: the caller modifies a copy of the model and writes it back."""
    def __init__(self, n):
        self.n = n

    def edit(self, cursor):
        doc = cursor.document()
        m = doc.get_transform(True)
        if m is None:
            return
        m = m.copy_with_origin()
        for i, x in enumerate(list(m.descendants())):
            if type(x) in (lily.MusicList, lily.Document) and (i + self.n) % 2 == 0:
                x.insert(0, Fragile("c"))
                x.append(Fragile("d"))
            elif isinstance(x, lily.Note) and (i + self.n) % 3 == 0:
                x.head = "f"
        return m.edit(doc)

    def document(self):
        return None

    def changes(self):
        return None


class C06(core.Check):
    id = "C06"
    rule = "an operation was made to fail after it had run some lines, and a later operation changed the text"
    assumptions = [
        "An interruption after the changes were handed to the document (which applies them as one transaction) leaves the complete "
        "result instead of the old text.",
        "Faults are injected while quickly copies the model, edits the range or writes back; not within parce's document transaction.",
        "A pitch processor supplied by the caller keeps the language of the last document; tests that use one stay in one language.",
    ]
    real = ["quickly.dom.edit", "quickly.transpose", "quickly.relative", "quickly.rhythm", "quickly.dom.*", "quickly.node",
            "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)", "the failing callbacks (transposer, pitch processor, duration transform, "
             "durations, node being written)"]
    states_measure = "distinct (operation, place of failure, document text)"
    quick_runs = 4000
    thorough_runs = 120000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        for d in gen.shrink(case["doc"]):
            yield dict(case, doc=d)

    def sample(self, case):
        return repr({"text": gen.render(case["doc"]), "ops": case["ops"], "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        multi = rng.random() < .15
        k = rng.random()
        if k < .7:
            g = gen.Lily(rng, languages=("nederlands", "english") if multi else ("nederlands",),
                         language_switch=.05 if multi else 0, relative=rng.choice([0, .4, .8]), fixed=rng.choice([0, .2]),
                         transpose=rng.choice([0, .2]), octavecheck=.04, unpitched=rng.choice([0, .1]),
                         size=rng.choice([3, 8, 15]))
            doc = g.document()
        else:
            doc = texts.wellformed(rng, "lilypond")
        ops = []
        for _ in range(rng.choice([2, 3, 4, 6])):
            if rng.random() < .2:
                ops.append(["type", rng.randrange(1000), rng.choice(["c4 ", "{ d }", " e'8. ", "<c e>", "% x\n", "}", "r"]),
                            rng.choice([0, 0, 1, 3])])
                continue
            name = rng.choice([t for t in TOOLS if not (multi and "processor" in t)])
            k = rng.random()
            fault = None
            if k < .35:
                fault = ["line", rng.random(), rng.choice(["interrupt", "interrupt", "keyboard", "memory", "error"])]
            elif k < .75 and name in CALLBACKS:
                fault = ["callback", int(rng.expovariate(.2)), rng.choice(sorted(KINDS))]
            sel = None if rng.random() < .5 else sorted([rng.randrange(1001), rng.randrange(1001)])
            ops.append(["op", name, rng.randrange(20), sel, fault])
        return {"doc": doc, "ops": ops, "schedule": ms.schedule(rng)}

    def execute(self, case, run):
        text = gen.render(case["doc"])
        Callback.left = None
        tools = ({}, {})
        failed = False
        with docsim.World(run, case["schedule"]) as w:
            doc, shadow = w.open("lilypond", text), w.open("lilypond", text)
            for i, op in enumerate(case["ops"]):
                run.log(i, op[0])
                if op[0] == "type":
                    for d in (doc, shadow):
                        a = op[1] * (len(d.text()) + 1) // 1001
                        d[a:a + op[3]] = op[2]
                    continue
                if not doc.text():
                    return
                _, name, a, sel, fault = op
                key = (name, a)
                t1 = tools[0].setdefault(key, None) or tools[0].__setitem__(key, self.make(name, a)) or tools[0][key]
                before = doc.text()
                if fault:
                    m = w.model(doc)
                    dump = docsim.dump(m)
                    f = self.failing(w, doc, t1, op, run, i)
                    if f is None:
                        # the fault was not reached; the operation took place
                        self.perform(shadow, tools[1].setdefault(key, self.make(name, a)), sel)
                    elif doc.text() != before:
                        # the changes were already in the document
                        self.perform(shadow, tools[1].setdefault(key, self.make(name, a)), sel)
                        run.count("failed_after_writing")
                    else:
                        failed = True
                        m = w.model(doc)
                        d = docsim.first_diff(docsim.dump(m), dump)
                        if d:
                            raise core.Violation("model-after-failure", "%s failing at %s: %s" % (name, f, d), i)
                        if not any(type(x).__name__ == "Unknown" for x in m.descendants()) and any(p.modified for p in m.points()):
                            raise core.Violation("model-after-failure", "%s failing at %s: nodes of the document are marked modified" % (
                                name, f), i)
                    if doc.text() != shadow.text():
                        raise core.Violation("text-after-failure", "%s failing at %s: %r became %r, expected %r" % (
                            name, f, before[:300], doc.text()[:300], shadow.text()[:300]), i)
                    if t1.document() is not None:
                        raise core.Violation("tool-after-failure", "%s failing at %s: the tool still refers to the document" % (name, f), i)
                    run.state(name, f, doc.text())
                else:
                    t2 = tools[1].setdefault(key, self.make(name, a))
                    r1 = self.perform(doc, t1, sel)
                    r2 = self.perform(shadow, t2, sel)
                    w.check_threads()
                    if r1 != r2 or doc.text() != shadow.text():
                        raise core.Violation("later-operation-differs", "%s: gives %r and text %r; without the earlier failures %r and %r" % (
                            name, r1, doc.text()[:300], r2, shadow.text()[:300]), i)
                    if t1.document() is not None:
                        raise core.Violation("tool-after-operation", "%s: the tool still refers to the document" % name, i)
                    if r1[0] == "raised":
                        run.count("operation_raised_by_itself")
                        if doc.text() != before:
                            raise core.Violation("text-after-failure", "%s raised %s: %r became %r" % (
                                name, r1[1], before[:300], doc.text()[:300]), i)
                    elif failed and doc.text() != before:
                        run.nontrivial = True
                    run.log(doc.text())
            m1, m2 = w.model(doc), w.model(shadow)
            d = docsim.first_diff(docsim.dump(m1), docsim.dump(m2))
            if d:
                raise core.Violation("later-operation-differs", "the models differ: %s" % d)

    def make(self, name, a):
        return Manual(a) if name == "manual" else make_tool(name, a)

    def cursor(self, doc, sel):
        if sel is None:
            return parce.Cursor(doc)
        n = len(doc.text()) + 1
        return parce.Cursor(doc, *(x * n // 1001 for x in sel))

    def perform(self, doc, tool, sel):
        """Do the operation. Return what can be seen of it."""
        Callback.left = None
        for p in (getattr(tool, "processor", None),):
            if p is not None:
                p.__init__()
        try:
            r = tool.edit(self.cursor(doc, sel))
        except Exception as e:
            return "raised", type(e).__name__ + ": " + str(e)
        return "done", repr(r), tool.changes()

    def failing(self, w, doc, tool, op, run, i):
        """Do the operation, which must fail. Returns where it failed."""
        _, name, a, sel, (kind, n, exc) = op
        error = KINDS[exc]("injected")
        if kind == "line":
            # how many lines does this operation have?
            scratch = docsim.settled("lilypond", doc.text())
            counter = LineFault()
            t = self.make(name, a)
            with counter.installed(t if name != "manual" else None):
                self.perform(scratch, t, sel)
            if not counter.lines:
                self.perform(doc, tool, sel)
                return None
            fault = LineFault(1 + int(n * counter.lines), error)
        else:
            fault = LineFault()
            fault.at = -1
        Callback.fired = False
        with fault.installed(tool if name != "manual" else None) if kind == "line" else contextlib.nullcontext():
            if getattr(tool, "processor", None) is not None:
                tool.processor.__init__()
            Callback.left = n if kind == "callback" else None
            Callback.exc = error
            try:
                tool.edit(self.cursor(doc, sel))
                raised = None
            except BaseException as e:
                if isinstance(e, (core.Hang, core.Violation)) or type(e).__name__ in ("Killed", "SystemExit"):
                    raise
                raised = e
            finally:
                Callback.left = None
        w.check_threads()
        where = fault.fired if kind == "line" else "callback %d" % n if Callback.fired else None
        if where is None:
            if raised is not None:
                # an error of the operation itself
                run.count("operation_raised_by_itself")
            return None
        run.count("fault:%s at %s" % (exc, kind if kind == "callback" else "a line"))
        run.log("failed", where, type(raised).__name__)
        if raised is None:
            if kind == "line" and fault.lost:
                run.count("fault_lost_in_finalizer")
                return None
            if exc in UNCATCHABLE:
                raise core.Violation("error-swallowed", "%s: %s at %s did not reach the caller" % (name, exc, where), i)
            run.count("error_handled")
            return None
        e = raised
        seen = set()
        while e is not None and e is not error and id(e) not in seen:
            seen.add(id(e))
            e = e.__cause__ or e.__context__
        if e is not error or (raised is not error and exc in UNCATCHABLE):
            raise core.Violation("other-error", "%s: %s at %s reached the caller as %s" % (name, exc, where, core.describe_exc(raised)), i)
        return where


CHECK = C06()
