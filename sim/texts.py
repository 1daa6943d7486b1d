r"""Texts in the four languages: snippets to assemble broken texts from, and
well-formed documents in the spacing quickly itself writes."""
from . import gen
from .ref import vocab

SNIPPETS = {
"lilypond": r'''{ <c e g>4 d8.( e) f } | \relative c' { c4 d e\f \< f\! } | music = { c d e } | \new Staff = "x" { \music } | % comment
| %{ multi %} | \score { \new Staff { a b c } \layout { indent = 0 } } | \header { title = "Foo" composer = \markup { \bold hi } }
| \lyricmode { foo -- bar __ baz2 } | \addlyrics { a b c } | \drummode { bd4 sn <bd sn>8 } | \chordmode { c4:maj7 d:m/f } | \figuremode { <6 4>4 <5+ _> }
| #(define x '(1 . 2)) | ##t | \markup \bold { one \italic two } | \tweak color #red c4 | \repeat volta 2 { c } \alternative { { d } { e } }
| \tuplet 3/2 { c8 d e } | \key c \major | \time 4/4 | \clef "treble" | \override Staff.NoteHead.color = #blue | \set Staff.instrumentName = "V"
| c4\rest r1*3/4 R1 s2 q | \skip 4 | \grace { c16 } | \tempo "Allegro" 4 = 120 | \partial 4 | << { c } \\ { d } >> | c'4-.\p^"text" | c\=1( d\=1) | \include "a.ly" | \version "2.20.0" | \language "deutsch" | \tag #'foo c | \unfoldRepeats c | a.b.c = 3 | c:16 | \mark \default | \bar "|." | \after 4 \p c | \lyricsto "a" { x y } | \with { \consists Foo } | { | } | < | > | ( | " | % | \ | # | ' | << | >> | %{ | %} | 1 | 4 | . | , | ! | ? | = | \breve | \markup | \score | \repeat | \tuplet | \tweak | \lyricmode | \chordmode | \figuremode | \key | \markup \fill-with-pattern #1 #RIGHT . a b | \markup \fill-with-pattern | \markup \pattern #2 #X #1 x | \fill-with-pattern | c^\markup \put-adjacent''',
"html": r'''<p>hi</p> | <lilypond> | </lilypond> | <lilypond staffsize=3 fragment>{ c d }</lilypond> | <lilypond: c d e /> | <lilypond relative=2 verbatim: <c e>4 d'8. /> | <lilypondfile staffsize=12>foo.ly</lilypondfile> | <musicxmlfile>x</musicxmlfile> | <br/> | <a href="x">y</a> | <div class='q' style="color: red"> | </div> | <!-- c --> | &amp; | <script>var x=1;</script> | <style>p { color: red }</style> | <?php a "b" ?> | <![CDATA[ a ]]> | <!DOCTYPE html> | < | > | " | ' | / | = | : | { c4 d } | <c e g>4 | staffsize | 2\cm | <lilypondfile | <lilypond | &#x; | -- | ]]> | \relative c' { c d } | <p class="a" | <p style="a''',
"latex": r'''\documentclass[a4paper]{article} | \begin{document} | \end{document} | \begin{lilypond}[staffsize=3] { c d } \end{lilypond} | \lilypond[a=b]{ c4 d } | \lilypond{ <c e>4 d } | \begin[quote]{lilypond} c d \end{lilypond} | \begin | \end | \begin{x} | \end{x} | \[ a \] | $x$ | $$y$$ | \( z \) | % com
| \foo[bar]{baz} | { | } | [ | ] | \ | $ | \begin{math} a \end{math} | \begin{equation} x=1 \end{equation} | text here | \lilypond | \lilypond[ | \begin[ | \begin{lilypond} | \end{lilypond} | ][ | \foo[a][b]{c} | \relative c' { c d }''',
"scheme": r'''(define x 1) | '(a b . c) | #(1 2 3) | "str\"x" | ; com
| #! multi !# | #t | #f | # | #xff | #b101 | #o17 | 1/2 | 1.5e3 | ( | ) | ' | ` | , | ,@ | . | #{ c4 d #} | #{ | #} | a | foo-bar | #:key | #\x | 1/0 | + | -1 | +inf.0 | \ | " | #(define | $ | #e1.5 | 1+2i | #b2 | #xf/a | #x1.8''',
}
SNIPPETS = {k: [s for s in v.replace("\n|", "\n |").split(" | ")] for k, v in SNIPPETS.items()}
LANGS = ("lilypond", "html", "latex", "scheme")


def snippet(rng, lang):
    s = rng.choice(SNIPPETS[lang] if rng.random() < .9 else SNIPPETS["lilypond"])
    return " " + s + " " if rng.random() < .5 else s


def broken(rng, lang, n=None):
    """Any text."""
    return "".join(snippet(rng, lang) for _ in range(n or rng.randint(1, 12)))


# -- well-formed ---------------------------------------------------------------

def markup_word(r):
    k = r.random()
    if k < .4:
        return r.choice(["one", "two", "hi", "there"])
    if k < .5:
        return '"a b"'
    if k < .7:
        return [r.choice(["\\bold", "\\italic", "\\sans"]), markup_word(r)]
    if k < .8:
        return ["\\with-color", "#red", markup_word(r)]
    if k < .85:
        return ["\\fontsize", "#2", markup_word(r)]
    if k < .9:
        return ["\\note", "#\"4\"", "#1"] if r.random() < .5 else "\\natural"
    return ["{"] + [markup_word(r) for _ in range(r.randint(1, 3))] + ["}"]


def markup(r):
    k = r.random()
    if k < .5:
        return ["\\markup", "{"] + [markup_word(r) for _ in range(r.randint(1, 3))] + ["}"]
    return ["\\markup", r.choice(["\\bold", "\\italic"]), markup_word(r)]


def scheme_value(r, depth=0):
    k = r.random()
    if k < .25 or depth > 2:
        return r.choice(["a", "x1", "foo-bar", "1", "-2", "3.5", "1/2", "#t", "#f", '"str"', "#xff", "#b101", "#o17", "car"])
    if k < .6:
        return "(" + " ".join([r.choice(["define", "list", "+", "lambda", "cons"])] +
                              [scheme_value(r, depth + 1) for _ in range(r.randint(0, 3))]) + ")"
    if k < .75:
        return "'" + scheme_value(r, depth + 1)
    if k < .85:
        return "(" + scheme_value(r, depth + 1) + " . " + scheme_value(r, depth + 1) + ")"
    if k < .92:
        return "#(" + " ".join(scheme_value(r, depth + 1) for _ in range(r.randint(1, 3))) + ")"
    return "#{ " + " ".join(r.choice(["c4", "d8", "e'", "r"]) for _ in range(r.randint(1, 3))) + " #}"


def scheme_item(r, depth=0):
    if r.random() < .15:
        # (two not-a-numbers are never equal)
        return r.choice([w for w in vocab.WORDS["scheme"] if w != "+nan.0"])
    if r.random() < .1:
        return r.choice(["; comment\n", "#! multi !#"])
    return scheme_value(r)


def scheme_doc(r):
    return [scheme_item(r) for _ in range(r.randint(1, 8))]


def lily_top(g):
    """One top level statement."""
    r = g.r
    k = r.random()
    if r.random() < .15:
        return [r.choice(vocab.WORDS["top"])]
    if k < .12:
        return ["\\header", "{"] + [x for _ in range(r.randint(1, 3)) for x in
            [[r.choice(["title", "composer", "opus"]), "=", r.choice(['"Text"', '"A \\"q\\" b"', markup(r)])]]] + ["}"]
    if k < .2:
        return ["\\paper", "{", [r.choice(["indent", "line-width"]), "=", r.choice(["0", "10\\mm", "#5"])], "}"]
    if k < .27:
        return ["\\layout", "{", ["\\context", "{", "\\Score", ["\\override", "NoteHead.color", "=", "#red"],
                                  ["\\consists", r.choice(['"Foo_engraver"', "Foo_engraver"])], "}"], "}"]
    if k < .32:
        return [r.choice(["x", "myVar", "foo.bar"]), "=", r.choice(["5", '"text"', "#'(1 2)", "#(list 1 2)", "##t", "\\markup hi"])]
    if k < .37:
        return markup(r)
    if k < .42:
        return "#" + r.choice(["(define x 1)", "(set! y '(1 . 2))", "(display #{ c4 d #})"])
    if k < .47:
        return ["\\include", '"other.ily"']
    if k < .52:
        return ["\\chordmode", "{"] + [r.choice(["c4:maj7", "d:m", "e2:7/g", "f1", "r4", "g:sus4"]) for _ in range(r.randint(1, 4))] + ["}"]
    if k < .56:
        return ["\\figuremode", "{"] + [r.choice(["<6 4>4", "<5+ 3>8", "<_>", "<7->2"]) for _ in range(r.randint(1, 4))] + ["}"]
    if k < .6:
        return g.drums()
    if k < .66:
        return [g.expr(), "\\addlyrics", "{"] + [r.choice(["la", "--", "ho", "__", '"x y"']) for _ in range(r.randint(1, 4))] + ["}"]
    if k < .7:
        return ["\\book", "{", ["\\bookpart", "{", ["\\score", "{", g.expr(), "\\midi", "{", "}", "}"], "}"], "}"]
    if k < .76:
        return [r.choice(["music", "voice"]), "=", g.expr()]
    if k < .8:
        return ["\\new", "Staff", "\\with", "{", ["instrumentName", "=", '"V"'], "}", g.expr()]
    return g.expr()


def lily(r, size=None, **opts):
    o = dict(size=size or r.choice([4, 10]), exprs=1, alternate=.06, relative=.3, fixed=.1, transpose=.1, lyrics=.08, drums=.05,
             refs=.1, unpitched=.05, shift=.03, aftergrace=.03, checks=.05, extra=.06)
    o.update(opts)
    g = gen.Lily(r, **o)
    g.vars = ["music"]
    out = []
    if r.random() < .5:
        out.append(["\\version", '"2.20.0"', "\n"])
    for _ in range(r.randint(1, 4)):
        if r.random() < .12:
            out.append(g.comment())
        out.append([lily_top(g), r.choice(["\n", ""])])
    return out


def inline_lily(r):
    """LilyPond text without > or " trouble, for inside other languages."""
    return " ".join(r.choice(["c4", "d8.", "e'", "<c e g>2", "r", "g16", "\\key c \\major", "f\\p"]) for _ in range(r.randint(1, 5)))


def html_item(r, depth=0):
    k = r.random()
    if r.random() < .1:
        return r.choice(vocab.WORDS["html"])
    if k < .2:
        return r.choice(["text", "more words", "&amp;", "&eacute;", "x"])
    if k < .3:
        return "<lilypond" + r.choice(["", " fragment", " staffsize=3", " fragment relative=2"]) + ">{ " + inline_lily(r) + " }</lilypond>"
    if k < .4:
        return "<lilypond: " + " ".join(r.choice(["c4", "d8.", "e'", "r"]) for _ in range(r.randint(1, 3))) + " />"
    if k < .47:
        return "<lilypondfile" + r.choice(["", " staffsize=12"]) + ">foo.ly</lilypondfile>"
    if k < .52:
        return "<musicxmlfile>foo.xml</musicxmlfile>"
    if k < .58:
        return r.choice(["<br/>", "<br>", '<img src="x.png"/>', "<hr>"])
    if k < .63:
        return r.choice(["<!-- comment -->", "<![CDATA[ a < b ]]>", "<?php a \"b\" ?>"])
    t = r.choice(["p", "div", "b", "a"])
    attr = r.choice(["", "", ' class="x"', " id='y'", ' href="z" title="t"'])
    inner = " ".join(html_item(r, depth + 1) for _ in range(r.randint(0, 2) if depth < 3 else 0))
    return "<%s%s>%s</%s>" % (t, attr, inner, t)


def html_doc(r):
    return [html_item(r) for _ in range(r.randint(1, 5))]


def latex_item(r, depth=0):
    k = r.random()
    if r.random() < .1:
        return r.choice(vocab.WORDS["latex"])
    if k < .2:
        return r.choice(["Text", "more words", "x y z"])
    if k < .32:
        return "\\begin{lilypond}" + r.choice(["", "[staffsize=3]", "[quote,fragment]"]) + " { " + inline_lily(r) + " } \\end{lilypond}"
    if k < .44:
        return "\\lilypond" + r.choice(["", "[quote]", "[staffsize=11]"]) + "{ " + inline_lily(r) + " }"
    if k < .5:
        return "% comment\n"
    if k < .6:
        return r.choice(["$x$", "$$y + z$$", "\\[ a \\]", "\\( b \\)"])
    if k < .75:
        return r.choice(["\\emph", "\\textbf", "\\section", "\\foo"]) + r.choice(["", "[opt]"]) + "{" + r.choice(["text", "a b"]) + "}"
    if k < .9 and depth < 3:
        e = r.choice(["document", "quote", "center"])
        return "\\begin{%s}\n%s\n\\end{%s}" % (e, " ".join(latex_item(r, depth + 1) for _ in range(r.randint(1, 3))), e)
    return "\\LaTeX"


def latex_doc(r):
    out = []
    if r.random() < .4:
        out.append("\\documentclass[a4paper]{article}\n")
    return out + [latex_item(r) for _ in range(r.randint(1, 5))]


def wellformed(r, lang, **opts):
    """A document, as nested parts (see gen.render)."""
    if lang == "lilypond":
        return lily(r, **opts)
    return {"html": html_doc, "latex": latex_doc, "scheme": scheme_doc}[lang](r)


def deep(rng, lang):
    """Deeply nested text, possibly not closed."""
    n = rng.randint(20, 60)
    a, b = rng.choice({
        "lilypond": [("{ ", "} "), ("<< ", ">> "), ("\\markup { ", "} "), ("#(a ", ") "), ("#{ ", "#} "), ("\\score { ", "} "),
                     ("\\tuplet 3/2 { ", "} "), ("< ", "> "), ("\\new Staff { ", "} "), ("\\relative ", ""), ("\\repeat volta 2 ", "")],
        "html": [("<p>", "</p>"), ("<div class=\"x\">", "</div>"), ("<lilypond: ", "/>"), ("<lilypond>{ ", "} </lilypond>")],
        "latex": [("{", "}"), ("\\begin{x} ", "\\end{x} "), ("\\foo[", "]"), ("\\lilypond{ ", "} "), ("$", ""), ("\\begin{lilypond} { ", "} \\end{lilypond}")],
        "scheme": [("(a ", ") "), ("'(", ")"), ("#(", ")"), ("#{ { ", "} #} "), ("'", ""), ("`(,@", ")")],
    }[lang])
    return a * n + rng.choice(["x", "c4", "", '"']) + b * rng.choice([n, n - 1, 0, n + 2])
