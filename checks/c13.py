"""C13: threads that read, query and edit at the same time do not influence each other."""
from sim import env
from sim import core, docsim, fs, gen, texts

import gc
import os
import pickle
import signal
import sys
import traceback

import parce
import quickly
import quickly.dom.edit
import quickly.dom.indent
import quickly.key
import quickly.pitch
import quickly.relative
import quickly.rhythm as rhythm
import quickly.time
import quickly.transpose
from quickly.dom import base, lily, read
from quickly.dom.scope import Scope
from quickly.pitch import Pitch

READERS = {
    "lily_document": "lilypond", "lily": "lilypond", "scm_document": "scheme", "scm": "scheme",
    "htm_document": "html", "htm": "html", "tex_document": "latex", "tex": "latex",
}
TOOLS = {
    "transpose": lambda p: quickly.transpose.Transpose(quickly.transpose.Transposer(
        *(Pitch(o, s, a / 2) for o, s, a in (p[:3], p[3:6])))),
    "rel2abs": lambda p: quickly.relative.Rel2abs(),
    "abs2rel": lambda p: quickly.relative.Abs2rel(),
    "remove": lambda p: rhythm.Remove(),
    "remove_scaling": lambda p: rhythm.RemoveScaling(),
    "explicit": lambda p: rhythm.RhythmExplicit(),
    "implicit": lambda p: rhythm.RhythmImplicit(),
    "perline": lambda p: rhythm.RhythmImplicitPerLine(),
    "transform": lambda p: rhythm.RhythmTransform(p[0], p[3] % 2),
    "copy": lambda p: rhythm.CopyRhythm(bool(p[1] % 2)),
    "paste": lambda p: rhythm.PasteRhythm([(quickly.duration.duration(1 + p[1] % 3), 1)]),
}
QUERIES = ["lengths", "walk", "write", "indent", "pitches", "equals", "reverse"]
WARM = {"lilypond": r'a = { c4\p ( d )-"x" <c e>8 } \score { \new Staff \with { x = 1 } \relative c { a4 } \layout { } } '
                    r'\header { t = \markup { \bold "x" } } #(a . "b") \lyricmode { a -- b } \drummode { sn } \chordmode { c:7 }',
        "scheme": '(a "b" #t #{ c4 #} \'x)', "html": '<html><p class="x"><lilypond>{ c }</lilypond></p></html>',
        "latex": '\\a{b}[c] $x$ \\begin{lilypond}{ c }\\end{lilypond} % x\n'}
for _lang, _text in WARM.items():
    parce.root(quickly.find(_lang), _text)      # build the lexicons; everything of quickly itself stays cold


class Boom(Exception):
    """Injected failure in the middle of an operation."""


class Thread:
    """What one thread does; collects plain data that can be compared."""
    def __init__(self, w, ops, shared, skip=()):
        self.w, self.ops, self.shared, self.skip = w, ops, shared, skip
        self.doc = None
        self.results = []
        self.aborted = []
        self.step = -1

    def run(self):
        for self.step, op in enumerate(self.ops):
            if self.step in self.skip:
                self.doc = None
                self.results.append("aborted")
                continue
            try:
                r = getattr(self, op[0])(*op[1:])
            except Boom:
                r = "aborted"
                self.aborted.append(self.step)
                self.doc = None
            except (core.Violation, core.HarnessError):
                raise
            except RecursionError:
                r = "error", "RecursionError"
            except Exception as e:
                r = "error", type(e).__name__, core.in_quickly(e.__traceback__)
                e.__traceback__ = None
            self.results.append(r)

    # operations

    def read(self, name, text, origin):
        node = getattr(read, name)(text, origin)
        return docsim.dump(node, origin) if node is not None else None

    def model(self, lang, text):
        return docsim.dump(parce.transform.Transformer().transform_tree(docsim.parse(lang, text)))

    def open(self, lang, text, background):
        self.doc = (self.w.open if background else docsim.settled)(lang, text)

    def get(self):
        return self.doc.get_transform(True) if self.doc else None

    def type(self, pos, removed, text):
        if self.doc:
            self.doc.get_transform(True)
            n = len(self.doc)
            pos = pos * n // 1000
            self.doc[pos:min(n, pos + removed)] = text
            return self.doc.text()

    def result(self):
        return docsim.dump(self.get())

    def tool(self, name, params, sel):
        if not self.doc:
            return
        self.doc.get_transform(True)
        n = len(self.doc)
        tool = TOOLS[name](params)
        if sel:
            r = tool.edit_cursor(parce.Cursor(self.doc, *sorted(x * n // 1000 for x in sel)))
        else:
            r = tool.edit_document(self.doc)
        return self.doc.text(), repr(r) if isinstance(r, (list, int)) else None

    def query(self, what, seed, shared):
        m = self.shared if shared else self.get()
        return None if m is None else getattr(self, "q_" + what)(m, seed)

    def q_lengths(self, m, seed):
        t = quickly.time.Time()
        out = []
        for n in list(m // lily.Music)[seed % 5::3][:12]:
            out.append((str(t.length(n)), str(t.position(n))))
        return out

    def q_walk(self, m, seed):
        nodes = list(m.descendants())
        if not nodes:
            return []
        n = nodes[seed % len(nodes)]
        o = nodes[seed * 7 % len(nodes)]
        a = n.common_ancestor(o)
        return [
            [str(x) for x in n.forward()][:30], [str(x) for x in n.backward()][:30],
            [str(x) for x in n << base.Document], str(a), n.trail(), [str(x) for x in n.range(o)][:30] if a is not None else 0,
            n.depth(), [str(x) for x in m / lily.Music][:9], sum(1 for x in m // (lily.Note, lily.Chord)), n.is_last(),
        ]

    def q_write(self, m, seed):
        return m.write(), [n.write() for n in m][:9]

    def q_indent(self, m, seed):
        return list(quickly.dom.indent.Indenter(indent_width=seed % 4).write(m))

    def q_pitches(self, m, seed):
        p = quickly.pitch.PitchProcessor()
        out = []
        for n in p.follow_language(m.descendants()):
            if isinstance(n, lily.Pitchable):
                with p.process(n, write=False) as pitch:
                    out.append(repr(pitch))
        return out

    def q_equals(self, m, seed):
        c = m.copy()
        return c.equals(m), c.body_equals(m), len(list(c.descendants()))

    def q_reverse(self, m, seed):
        return [str(n) for n in m.descendants(reverse=True)][seed % 9::5][:30]

    def pitch(self, language, name, octave, alter):
        p = quickly.pitch.PitchProcessor(language)
        pitch = Pitch(octave, name, alter / 2)
        s = p.to_string(pitch)
        return s, p.distill_preferences([s]), p.to_string(pitch), list(quickly.pitch.determine_language([s.strip(",'")]))

    def key(self, note, alter, mode, keys, flats):
        k = quickly.key.KeySignature(note, alter / 2, mode)
        return [repr(k.pitch(n, flats)) for n in keys]

    def lookup(self, n):
        """Read lengths of variables that come from other files."""
        doc = self.w.open("lilypond", '\\include "a.ly"\n\\include "b.ly"\n{ \\va \\vb \\vc c%d }' % (1 << n % 3))
        doc.url = "/s/p/root.ly"
        t = quickly.time.Time()
        t.scope, t.wait = Scope(doc), True
        m = doc.get_transform(True)
        return [(str(t.length(x)), str(t.position(x))) for x in m // lily.Music]


class C13(core.Check):
    id = "C13"
    rule = "two or more threads were interleaved at least once in the middle of code of the library, and got results"
    assumptions = [
        "Threads switch between source lines of quickly, at synchronisation operations and at file system calls. Code of parce "
        "that fills its own caches of lexicons is never interrupted.",
        "A failing operation is not continued or repeated with the same document.",
    ]
    real = ["all of quickly", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler), preemption", "file system below /s/"]
    states_measure = "distinct pairs of (source line preempted, source line that is continued)"
    quick_runs = 1500
    thorough_runs = 40000

    def generate(self, rng):
        def music(size=None):
            g = gen.Lily(rng, relative=.3, lyrics=.1, drums=.05, fixed=.1, tuplets=.1, chords=.2, refs=.05, languages=rng.choice(
                [("nederlands",), ("nederlands",), ("english", "deutsch"), ("italiano", "nederlands")]),
                language_switch=.03, size=size or rng.choice([2, 4, 8]))
            return gen.render(g.document())

        def text(lang):
            k = rng.random()
            if k < .15:
                return texts.broken(rng, lang, rng.choice([2, 4, 8]))[:200]
            if lang == "lilypond" and k < .8:
                return music()
            if lang == "scheme":
                return " ".join(gen.render(texts.scheme_doc(rng)) for _ in range(rng.choice([1, 2, 4])))
            return gen.render(texts.wellformed(rng, lang))[:500]
        threads = rng.choice([2, 2, 2, 3, 3, 4])
        ops = []
        pool = [(lang, text(lang)) for lang in (rng.choice(texts.LANGS), rng.choice(texts.LANGS), "lilypond")]
        like = rng.random() < .5        # often the same work in all threads
        kinds = rng.sample(["read", "read", "model", "doc", "shared", "pitch", "key", "lookup"], rng.choice([1, 1, 2, 3, 5]))
        docs = {}
        for i in range(rng.randint(threads, threads * 4)):
            t = i % threads
            if not t or not like:
                k = rng.choice(kinds)
                lang, s = rng.choice(pool)
            if not like and rng.random() < .5 or like and t and rng.random() < .3:
                if not like:
                    lang = rng.choice(texts.LANGS)
                s = text(lang)
            if k == "read":
                op = ["read", rng.choice([f for f in READERS if READERS[f] == lang]), s, rng.random() < (.1 if like else .5)]
            elif k == "model":
                op = ["model", lang, s]
            elif k == "doc":
                if t not in docs or rng.random() < .2:
                    docs[t] = lang
                    op = ["open", lang, s, rng.random() < .5]
                else:
                    op = rng.choice([
                        ["type", rng.randrange(1000), rng.randrange(4), texts.snippet(rng, docs[t])[:20]],
                        ["query", rng.choice(QUERIES), rng.randrange(1000), False],
                        self.tool(rng), self.tool(rng), ["result"]])
            elif k == "shared":
                op = ["query", rng.choice(QUERIES), rng.randrange(1000), True]
            elif k == "pitch":
                op = ["pitch", rng.choice(sorted(quickly.pitch.pitch_names)), rng.randrange(7), rng.randint(-2, 2),
                      rng.choice([-2, -1, 0, 1, 2])]
            elif k == "key":
                op = ["key", rng.randrange(7), rng.choice([-1, 0, 0, 1]), rng.choice(["major", "minor", "dorian"]),
                      [rng.randrange(30, 90) for _ in range(rng.randint(1, 6))], rng.choice([None, True, False])]
            else:
                op = ["lookup", rng.randrange(3)]
            ops.append([t] + op)

        high = rng.choice([2, 3, 4, 6, 8, 12])      # how fine the threads are interleaved

        def gap():
            return int(2 ** rng.uniform(0, high if rng.random() < .8 else rng.choice([4, 8, 12])))
        case = {"threads": threads, "ops": ops, "shared": music(6),
                "files": {"/s/p/a.ly": "va = { c4 d }\n" + music(2), "/s/p/b.ly": rng.choice(["vb = \\va vc = { \\vb e2 }", "vb = { c1", "é"])},
                "preempt": [[gap(), rng.randrange(4)] for _ in range(rng.choice([1, 2, 4, 10, 30] if high > 6 else [10, 100, 300, 600]))],
                "schedule": [rng.randrange(4) for _ in range(rng.randrange(20))],
                "aborts": [[rng.randrange(threads), gap() * 2] for _ in range(rng.choice([0, 0, 0, 1, 2]))]}
        return case

    def tool(self, rng):
        return ["tool", rng.choice(list(TOOLS)), [rng.choice([-1, 0, 0, 1]), rng.randrange(7), rng.choice([-1, 0, 1]),
                                                  rng.choice([-1, 0, 0, 1]), rng.randrange(7), rng.choice([-1, 0, 1])],
                [rng.randrange(1001), rng.randrange(1001)] if rng.random() < .3 else None]

    def lists(self):
        return ("ops", "preempt", "schedule", "aborts")

    def simplify(self, case):
        def halves(s):
            n = len(s)
            for a, b in ((n // 2, n), (0, n // 2), (n // 4, n // 2), (n // 2, n * 3 // 4), (n - 1, n), (0, 1)):
                if b > a:
                    yield s[:a] + s[b:]
        for i, op in enumerate(case["ops"]):
            for j, x in enumerate(op):
                if isinstance(x, str) and op[1] in ("read", "model", "open") and j == 3 and x:
                    for h in halves(x):
                        yield dict(case, ops=case["ops"][:i] + [op[:j] + [h] + op[j + 1:]] + case["ops"][i + 1:])
        for h in halves(case["shared"]):
            yield dict(case, shared=h)
        for i, (gap, choice) in enumerate(case["preempt"]):
            for g, c in ((gap // 2, choice), (gap - 1, choice), (gap, 0)):
                if g > 0 and (g, c) != (gap, choice):
                    yield dict(case, preempt=case["preempt"][:i] + [[g, c]] + case["preempt"][i + 1:])

    # execution: every part in its own process, in which quickly has not run anything yet

    def execute(self, case, run):
        got = self.fork(run, lambda r: self.concurrent(case, r))
        if got is None:
            return
        results, aborted = got
        for t in range(case["threads"]):
            ops = [op[1:] for op in case["ops"] if op[0] == t]
            if not ops:
                continue
            alone = self.fork(core.Run(), lambda r: self.alone(case, ops, aborted[t], r))
            if alone is None:
                continue
            for i, (a, b) in enumerate(zip(results[t], alone)):
                if a != b and a != "aborted":
                    raise core.Violation("influenced", "thread %d: %s gave %s, alone it gives %s" % (
                        t, str(ops[i])[:200], *self.difference(a, b)), i)

    @staticmethod
    def difference(a, b):
        if isinstance(a, (list, str)) and type(a) is type(b):
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            a, b = a[max(0, i - 3):i + 20], b[max(0, i - 3):i + 20]
        return repr(a)[:300], repr(b)[:300]

    def fork(self, run, func):
        """Call func(run) in a child process, return what it returns."""
        sys.stdout.flush()
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                try:
                    signal.setitimer(signal.ITIMER_PROF, self.cpu_limit)
                    value, vio, err = func(run), None, None
                except core.Violation as v:
                    value, vio, err = None, (v.kind, v.detail, v.step), None
                except core.Hang as e:
                    value, vio, err = None, ("no-progress", "no result after %s s of processor time (at %s)" % (
                        self.cpu_limit, core.in_quickly(e.__traceback__)), None), None
                except BaseException as e:
                    value, vio, err = None, None, traceback.format_exc()
                signal.setitimer(signal.ITIMER_PROF, 0)
                data = pickle.dumps((value, vio, err, run.counts, run.states, run.time, run.nontrivial,
                                     run.log.digest(), run.log.events))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        value, vio, err, run.counts, run.states, run.time, run.nontrivial, digest, events = pickle.loads(data)
        for e in events or ():
            run.log.events.append(e)
        run.log("part", digest)
        if err:
            raise core.HarnessError(err)
        if vio:
            raise core.Violation(*vio)
        return value

    def files(self, case, log):
        f = fs.SimFS(log)
        f.cwd = "/s/p"
        for p, text in case["files"].items():
            f.write(p, text.encode("latin-1", "replace"))
        return f

    def concurrent(self, case, run):
        gc.disable()
        f = self.files(case, run.log)
        shared = docsim.fresh("lilypond", case["shared"])
        with docsim.World(run, case["schedule"], guard=False) as w, f:
            threads = [Thread(w, [op[1:] for op in case["ops"] if op[0] == t], shared) for t in range(case["threads"])]
            s = w.sched
            s.preempt = [list(p) for p in case["preempt"]]
            prefix = env.REPO + "/quickly/"
            s.trace_filter = lambda name: name.startswith(prefix)
            aborts = {}
            for t, n in case["aborts"]:
                aborts.setdefault(t, []).append(n)
            where = {}
            tasks = []

            def on_line(task, frame):
                place = frame.f_code.co_filename[len(prefix):], frame.f_lineno
                if task in where and where["last"] is not task:
                    run.state(where[where["last"]], place)
                where[task] = place
                where["last"] = task
                if task in tasks:
                    i = tasks.index(task)
                    if task.lines in aborts.get(i, ()):
                        run.count("fault:exception")
                        raise Boom("injected")

            def on_point(frame):
                run.count("fault:preemption")
            s.on_line = on_line
            f.hook = lambda stage, path: s.point("io")
            for t in threads:
                tasks.append(s.spawn(t.run))
            s.on_point = lambda tag: run.count("fault:preemption") if not isinstance(tag, str) else None
            w.seam.sched.wait_all("threads")
            for task in tasks:
                e = task.exception
                if e is not None:
                    raise e
            for task in w.tasks:
                if task.exception is not None and not isinstance(task.exception, (OSError, UnicodeError)):
                    where = core.in_quickly(task.exception.__traceback__)
                    if where:
                        run.count("background_error")
            run.count("lines", s.lines)
            if run.counts.get("fault:preemption") and len([t for t in threads if t.results]) > 1:
                run.nontrivial = True
            return [t.results for t in threads], [t.aborted for t in threads]

    def alone(self, case, ops, aborted, run):
        gc.disable()
        f = self.files(case, run.log)
        shared = docsim.fresh("lilypond", case["shared"])
        with docsim.World(run, (), guard=False) as w, f:
            t = Thread(w, ops, shared, aborted)
            t.run()
            w.sched.wait_all("alone")
            return t.results


CHECK = C13()
