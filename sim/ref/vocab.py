"""What every construct is read as: a table of snippets with the tree each of
them gives, and of boxes around them.

The table was written down once and reviewed by hand against the documentation
of LilyPond and of quickly's node classes; nothing here is computed by the code
under test. A tree is noted as ``Class:head(children)``."""
import os

SNIPPETS = {}       # category: {text: tree}

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vocab.txt"), encoding="utf-8") as f:
    for line in f:
        cat, text, tree = line.rstrip("\n").split("\t")
        SNIPPETS.setdefault(cat, {})[text.replace("⏎", "\n")] = tree

WORDS = {c: sorted(t) for c, t in SNIPPETS.items()}

#: name: (category it is of, category of the contents, text before, after, tree)
BOXES = {
    "list": ("music", "music", "{", "}", "MusicList(%s)"),
    "sim": ("music", "music", "<<", ">>", "SimultaneousMusicList(%s)"),
    "relative": ("music", "music", "\\relative c' {", "}", "Relative(Pitch:'c'(Octave:1) MusicList(%s))"),
    "relative0": ("music", "music", "\\relative {", "}", "Relative(MusicList(%s))"),
    "fixed": ("music", "music", "\\fixed c, {", "}", "Fixed(Pitch:'c'(Octave:-1) MusicList(%s))"),
    "new": ("music", "music", "\\new Voice {", "}", "New(Symbol:'Voice' MusicList(%s))"),
    "newwith": ("music", "music", "\\new Staff = \"a\" \\with { fontSize = #1 } {", "}",
                "New(Symbol:'Staff' EqualSign String:'a' With(Assignment(Identifier(Symbol:'fontSize') EqualSign Scheme:'#'(Number:1))) MusicList(%s))"),
    "context": ("music", "music", "\\context Staff = up <<", ">>", "Context(Symbol:'Staff' EqualSign Symbol:'up' SimultaneousMusicList(%s))"),
    "tuplet": ("music", "music", "\\tuplet 3/2 {", "}", "Tuplet(Fraction:(3, 2) MusicList(%s))"),
    "times": ("music", "music", "\\times 2/3 {", "}", "Times(Fraction:(2, 3) MusicList(%s))"),
    "repeat": ("music", "music", "\\repeat unfold 2 {", "}", "Repeat(Symbol:'unfold' Int:2 MusicList(%s))"),
    "alternative": ("music", "music", "\\repeat volta 2 { c } \\alternative { {", "} { d } }",
                    "Repeat(Symbol:'volta' Int:2 MusicList(Note:'c') Alternative(MusicList(MusicList(%s) MusicList(Note:'d'))))"),
    "grace": ("music", "music", "\\grace {", "}", "Grace(MusicList(%s))"),
    "aftergrace": ("music", "music", "\\afterGrace c4 {", "}", "AfterGrace(Note:'c'(Duration:1/4) MusicList(%s))"),
    "transpose": ("music", "music", "\\transpose c d {", "}", "Transpose(Pitch:'c' Pitch:'d' MusicList(%s))"),
    "tag": ("music", "music", "\\tag #'x {", "}", "Tag(Scheme:'#'(Quote:\"'\"(Identifier:'x')) MusicList(%s))"),
    "keep": ("music", "music", "\\keepWithTag x {", "}", "KeepWithTag(Symbol:'x' MusicList(%s))"),
    "unfold": ("music", "music", "\\unfoldRepeats {", "}", "UnfoldRepeats(MusicList(%s))"),
    "notemode": ("music", "music", "\\notemode {", "}", "NoteMode(MusicList(%s))"),
    "quote": ("music", "music", "\\addQuote \"q\" {", "}", "AddQuote(String:'q' MusicList(%s))"),
    "once": ("music", "music", "\\sequential {", "}", "Sequential(MusicList(%s))"),
    "simultaneous": ("music", "music", "\\simultaneous {", "}", "Simultaneous(MusicList(%s))"),
    "scaled": ("music", "music", "\\scaleDurations 4/5 {", "}", "ScaleDurations(Fraction:(4, 5) MusicList(%s))"),
    "schememusic": ("music", "music", "#(f #{ {", "} #} 'a)", "Scheme:'#'(List(Identifier:'f' LilyPond(MusicList(%s)) Quote:\"'\"(Identifier:'a')))"),
    "schemeval": ("music", "scheme", "$(let (", ") x)", "Scheme:'$'(List(Identifier:'let' List(%s) Identifier:'x'))"),
    "note": ("music", "post", "g'4", "", "Note:'g'(Octave:1 Duration:1/4 Articulations(%s))"),
    "chord": ("music", "post", "<c e>8", "", "Chord(ChordBody(Note:'c' Note:'e') Duration:1/8 Articulations(%s))"),
    "rest": ("music", "post", "r2", "", "Rest(Duration:1/2 Articulations(%s))"),
    "lyricmode": ("music", "lyric", "\\lyricmode {", "}", "LyricMode:'lyricmode'(MusicList(%s))"),
    "lyricsto": ("music", "lyric", "\\lyricsto \"v\" {", "}", "LyricMode:'lyricsto'(String:'v' MusicList(%s))"),
    "newlyrics": ("music", "lyric", "\\new Lyrics \\lyricmode {", "}", "New(Symbol:'Lyrics' LyricMode:'lyricmode'(MusicList(%s)))"),
    "drummode": ("music", "drum", "\\drummode {", "}", "DrumMode:'drummode'(MusicList(%s))"),
    "drums": ("music", "drum", "\\new DrumVoice \\drummode {", "}", "New(Symbol:'DrumVoice' DrumMode:'drummode'(MusicList(%s)))"),
    "chordmode": ("music", "chord", "\\chordmode {", "}", "ChordMode:'chordmode'(MusicList(%s))"),
    "chords": ("music", "chord", "\\chords {", "}", "ChordMode:'chords'(MusicList(%s))"),
    "figuremode": ("music", "figure", "\\figuremode {", "}", "FigureMode:'figuremode'(MusicList(%s))"),
    "figures": ("music", "figure", "\\figures {", "}", "FigureMode:'figures'(MusicList(%s))"),
    "lyriclist": ("lyric", "lyric", "{", "}", "MusicList(%s)"),
    "drumlist": ("drum", "drum", "{", "}", "MusicList(%s)"),
    "drumsim": ("drum", "drum", "<<", ">>", "SimultaneousMusicList(%s)"),
    "chordlist": ("chord", "chord", "{", "}", "MusicList(%s)"),
    "mark": ("music", "markup", "\\mark \\markup {", "}", "Mark(Markup:'markup'(MarkupList(%s)))"),
    "tempo": ("music", "markup", "\\tempo \\markup \\bold {", "} 4 = 60",
              "Tempo(Markup:'markup'(MarkupCommand:'bold'(MarkupList(%s))) Duration:1/4 EqualSign Int:60)"),
    "setname": ("music", "markup", "\\set Staff.instrumentName = \\markup {", "}",
                "Set(List(Symbol:'Staff' Separator:'.' Symbol:'instrumentName') EqualSign Markup:'markup'(MarkupList(%s)))"),
    "markuplist": ("markup", "markup", "{", "}", "MarkupList(%s)"),
    "bold": ("markup", "markup", "\\bold {", "}", "MarkupCommand:'bold'(MarkupList(%s))"),
    "color": ("markup", "markup", "\\with-color #blue \\italic {", "}",
              "MarkupCommand:'with-color'(Scheme:'#'(Identifier:'blue') MarkupCommand:'italic'(MarkupList(%s)))"),
    "markscore": ("markup", "music", "\\score { {", "} \\layout { } }", "MarkupScore(MusicList(%s) Layout)"),
    "posttext": ("post", "markup", "^\\markup {", "}", "Direction:1(Markup:'markup'(MarkupList(%s)))"),
    "topmarkup": ("top", "markup", "\\markup {", "}", "Markup:'markup'(MarkupList(%s))"),
    "topmarkuplist": ("top", "markup", "\\markuplist {", "}", "Markup:'markuplist'(MarkupList(%s))"),
    "topmusic": ("top", "music", "{", "}", "MusicList(%s)"),
    "assign": ("top", "music", "voice = {", "}", "Assignment(Identifier(Symbol:'voice') EqualSign MusicList(%s))"),
    "assignrel": ("top", "music", "part.b = \\relative {", "}",
                  "Assignment(Identifier(Symbol:'part' Separator:'.' Symbol:'b') EqualSign Relative(MusicList(%s)))"),
    "assignmark": ("top", "markup", "mark = \\markup \\bold {", "}",
                   "Assignment(Identifier(Symbol:'mark') EqualSign Markup:'markup'(MarkupCommand:'bold'(MarkupList(%s))))"),
    "header": ("top", "markup", "\\header { title = \\markup {", "} }",
               "Header(Assignment(Identifier(Symbol:'title') EqualSign Markup:'markup'(MarkupList(%s))))"),
    "score": ("top", "music", "\\score { {", "} \\layout { } \\midi { } }", "Score(MusicList(%s) Layout Midi)"),
    "scorestaff": ("top", "music", "\\score { \\new Staff <<", ">> }", "Score(New(Symbol:'Staff' SimultaneousMusicList(%s)))"),
    "book": ("top", "music", "\\book { \\score { {", "} } }", "Book(Score(MusicList(%s)))"),
    "bookpart": ("top", "music", "\\bookpart { {", "} \\paper { } }", "BookPart(MusicList(%s) Paper)"),
    "layoutcontext": ("top", "ctx", "\\layout { \\context { \\Voice", "} }", "Layout(LayoutContext(MusicFunction:'Voice' %s))"),
    "midicontext": ("top", "ctx", "\\midi { tempo = 3 \\context { \\Score", "} }",
                    "Midi(Assignment(Identifier(Symbol:'tempo') EqualSign Int:3) LayoutContext(MusicFunction:'Score' %s))"),
    "newctx": ("music", "ctx", "\\new Staff \\with {", "} { c }", "New(Symbol:'Staff' With(%s) MusicList(Note:'c'))"),
    "withvar": ("top", "ctx", "v = \\with {", "}", "Assignment(Identifier(Symbol:'v') EqualSign With(%s))"),
    "scorewith": ("top", "ctx", "\\score { \\new Staff \\with {", "} { c } \\layout { } }",
                  "Score(New(Symbol:'Staff' With(%s) MusicList(Note:'c')) Layout)"),
    "headerblock": ("top", "block", "\\header {", "}", "Header(%s)"),
    "paperblock": ("top", "block", "\\paper {", "}", "Paper(%s)"),
    "layoutblock": ("top", "block", "\\layout {", "}", "Layout(%s)"),
    "midiblock": ("top", "block", "\\midi {", "}", "Midi(%s)"),
    "scoreheader": ("top", "block", "\\score { { c } \\header {", "} }", "Score(MusicList(Note:'c') Header(%s))"),
    "bookpaper": ("top", "block", "\\book { \\paper {", "} \\score { { c } } }", "Book(Paper(%s) Score(MusicList(Note:'c')))"),
    "define": ("top", "scheme", "#(begin", ")", "Scheme:'#'(List(Identifier:'begin' %s))"),
    "musicfunction": ("top", "music", "fun = #(define-music-function () () #{ {", "} #})",
                      "Assignment(Identifier(Symbol:'fun') EqualSign Scheme:'#'(List(Identifier:'define-music-function' List List LilyPond(MusicList(%s)))))"),
    "addlyrics": ("top", "lyric", "\\addlyrics {", "}", "LyricMode:'addlyrics'(MusicList(%s))"),
    "schemelist": ("scheme", "scheme", "(", ")", "List(%s)"),
    "schemequote": ("scheme", "scheme", "'(", ")", "Quote:\"'\"(List(%s))"),
    "schemevector": ("scheme", "scheme", "#(", ")", "Vector(%s)"),
    "schemelily": ("scheme", "music", "#{ \\new Staff {", "} #}", "LilyPond(New(Symbol:'Staff' MusicList(%s)))"),
    "schemelist2": ("scheme", "music", "#{ {", "} #}", "LilyPond(MusicList(%s))"),
    "p": ("html", "html", "<p>", "</p>", "Element(OpenTag(TagName:'p') %s CloseTag(TagName:'p'))"),
    "div": ("html", "html", "<div class=\"x\">", "</div>",
            "Element(OpenTag(TagName:'div' Attribute(AttrName:'class' EqualSign DqString(Text:'x'))) %s CloseTag(TagName:'div'))"),
    "htmllily": ("html", "top", "<lilypond>", "</lilypond>", "Element(OpenTag(TagName:'lilypond') %D CloseTag(TagName:'lilypond'))"),
    "htmlfragment": ("html", "music", "<lilypond fragment>{", "}</lilypond>",
                     "Element(OpenTag(TagName:'lilypond' Attribute(AttrName:'fragment')) Document(MusicList(%s)) CloseTag(TagName:'lilypond'))"),
    "brace": ("latex", "latex", "{", "}", "Brace(%s)"),
    "emph": ("latex", "latex", "\\emph{", "}", "Command:'emph'(Brace(%s))"),
    "environment": ("latex", "latex", "\\begin{x}", "\\end{x}",
                    "Environment(Command:'begin'(EnvironmentName:'x') %s Command:'end'(EnvironmentName:'x'))"),
    "latexlily": ("latex", "music", "\\lilypond{ {", "} }", "Command:'lilypond'(Brace(Document(MusicList(%s))))"),
    "latexenv": ("latex", "top", "\\begin{lilypond}", "\\end{lilypond}",
                 "Environment(Command:'begin'(EnvironmentName:'lilypond') %D Command:'end'(EnvironmentName:'lilypond'))"),
    "latexopt": ("latex", "music", "\\lilypond[quote]{ {", "} }", "Command:'lilypond'(Option(Text:'quote') Brace(Document(MusicList(%s))))"),
}


def fill(tree, inner):
    """Put the contents in the tree of a box."""
    if "%D" in tree:
        return tree.replace("%D", "Document(%s)" % inner if inner else "Document")
    if inner:
        return tree.replace("%s", inner)
    return tree.replace(" Articulations(%s)", "").replace("(%s)", "").replace(" %s", "").replace("%s ", "")


def tree(node):
    """The tree of a model, in the same notation."""
    from quickly.dom import element
    out = []
    stack = [(node, False)]
    while stack:
        n, close = stack.pop()
        if close:
            out.append(")")
            continue
        if out and out[-1] not in ("(",):
            out.append(" ")
        s = type(n).__name__
        if isinstance(n, element.TextElement):
            s += ":%s" % ((repr(n.head) if isinstance(n.head, str) else n.head),)
        out.append(s)
        if len(n):
            out.append("(")
            stack.append((n, True))
            stack.extend((c, False) for c in reversed(n))
    return "".join(out)
