"""C01: the live model equals the model read from scratch."""
from sim import env  # noqa: F401
from sim import core, docsim, gen, musicsession as ms, session, texts


class C01(core.Check):
    id = "C01"
    rule = ("at least three edits were made, the background reader was interleaved with the session at least once, and the "
            "final model has at least five nodes")
    assumptions = [
        "Editing while the transforming stage of the reader runs is left out: parce 0.33 races there itself.",
        "When parce's incremental token tree differs from a fresh one, the model is compared with one made afresh from that tree.",
        "Three parce 0.33 defects are worked around in sim/env.py and sim/docsim.py.",
    ]
    real = ["quickly.lang.*", "quickly.dom.*", "parce document, tree builder, transformer, background worker"]
    stubs = ["threading (deterministic scheduler)"]
    states_measure = "distinct models (structure, values, positions) compared"
    quick_runs = 6000
    thorough_runs = 300000

    def lists(self):
        return ("ops", "schedule")

    def simplify(self, case):
        if isinstance(case["doc"], list):
            for d in gen.shrink(case["doc"]):
                yield dict(case, doc=d)
        for i, op in enumerate(case["ops"]):
            if op[0] in ("edit", "type") and len(op[-1]) > 1:
                s = op[-1]
                for t in (s[:len(s) // 2], s[len(s) // 2:], s[1:], s[:-1]):
                    yield dict(case, ops=case["ops"][:i] + [op[:-1] + [t]] + case["ops"][i + 1:])
            if op[0] == "multi":
                for j in range(len(op[1])):
                    yield dict(case, ops=case["ops"][:i] + [["multi", op[1][:j] + op[1][j + 1:]]] + case["ops"][i + 1:])

    def sample(self, case):
        return repr({"lang": case["lang"], "text": gen.render(case["doc"]), "ops": case["ops"],
                     "schedule": case["schedule"]})[:1500]

    def generate(self, rng):
        lang = rng.choice(["lilypond", "lilypond", "lilypond", "html", "latex", "scheme"])
        k = rng.random()
        doc = [] if k < .1 else [texts.broken(rng, lang, rng.randint(1, 5))] if k < .35 else texts.wellformed(rng, lang)
        ops = session.random_ops(rng, lang, rng.choice([3, 8, 20]), typing=.1)
        schedule = [rng.randrange(3) for _ in range(rng.choice([0, 10, 60, 200]))]
        return {"lang": lang, "doc": doc, "ops": ops, "schedule": schedule}

    def execute(self, case, run):
        text = gen.render(case["doc"])
        with docsim.World(run, case["schedule"], guard=False) as w:
            s = session.Session(w, run, case["lang"], text)
            for i, op in enumerate(case["ops"]):
                s.do(i, op)
            m = s.finish()
            n = len(s.history)
            run.nontrivial = n > 3 and w.sched.switches > 0 and m is not None and sum(1 for _ in m.descendants()) >= 5
            run.count("texts", n)


CHECK = C01()
