import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
EL='quickly/dom/element.py'
p("C01","A live document's model equals the model read from scratch from its text",
"After any sequence of edits to an open document, however those edits interleave with the background reading they trigger, the document model handed out once reading has settled equals, in structure, values and source positions, the model obtained by reading the resulting text from scratch. A model that is handed out before reading has settled (non-waiting access) is either absent or a complete model of a text the document had, never a mixture; models handed out earlier are not changed by later edits.",
["histories","schedules"],"Every edit history (insert, delete, replace, undo, several edits in one transaction, language switch) of documents in the four supported languages, and every interleaving of edits, waiting and non-waiting reads and the stages of the background reader, except edits that arrive while the reader is in its transforming stage (there the upstream library itself races, see DESIGN.md).",
"Tests read a handful of fixed texts once; none of them edits a document twice and looks at the incrementally maintained model, none uses the background reader with a controlled schedule.",
["quickly/lang/lilypond.py","quickly/lang/html.py","quickly/lang/latex.py","quickly/lang/scheme.py","quickly/dom/element.py","quickly/dom/base.py"],
[("language transforms build nodes from lexicon contents only, and don't modify nodes of child contexts that the reader caches","quickly/lang/lilypond.py LilyPondTransform, MusicBuilder; quickly/lang/html.py; latex.py; scheme.py"),("nodes keep origin tokens, whose positions the incremental reader updates","quickly/dom/element.py Element.with_origin, pos, end")],
[("transform cache","per-context results the reader reuses for unchanged parts of the text","parce.transform.Transformer, filled by quickly/lang/*.py")],["Document.get_transform(True) / get_transform(False)"])
p("C02","Any text can be read, and broken text never wedges an editing session",
"Reading any text in a supported language, however malformed or half-typed, completes with a model and without an exception, both directly and in the background of an open document. After any history of broken intermediate texts, making the text well-formed again gives the same model as reading it fresh, and every statement that precedes the broken place is still represented in the model.",
["inputs","histories","schedules"],"Every text assembled from the languages' token alphabets, truncated at every place, and every history of single-character typing and deletion that leads through it.",
"Tests only read well-formed texts; the space of half-typed texts and of the histories that lead there is unbounded.",
["quickly/lang/lilypond.py","quickly/lang/html.py","quickly/lang/latex.py","quickly/lang/scheme.py","quickly/dom/element.py","quickly/dom/lily.py"],
[("transform methods tolerate missing and unexpected items","quickly/lang/*.py"),("build_tree places items with signatures and leaves what does not fit","quickly/dom/element.py build_tree")],None,["Document.get_transform(True)","exceptions of the background reader"])
p("C03","The node tree stays consistent under any history of tree operations",
"In every tree, read or built, and after any sequence of tree operations (append, insert, add, replace, remove, slice assignment and deletion, move to another parent, copy, wrap, unwrap, clear), every node occurs exactly once under the parent it reports and nowhere else, siblings, indices, trails, ancestors and root agree with that, and a failing operation leaves the tree as consistent. A copy is equal to and shares no node with the original, keeps each node's values and spacing, and changing one never changes the other; two trees compare equal exactly when they have the same structure and values; the Python code that is printed for a tree builds an equal tree.",
["histories","fault_sequences"],"Every sequence of node operations over several trees, including operations that are interrupted by an exception from their argument iterator.",
"test_node checks a few operations on one tree; the invariant is about every history.",
["quickly/node.py","quickly/dom/element.py"],
[("parent is set and reset by the overridden list operations","quickly/node.py Node"),("copies are made node by node","quickly/dom/element.py Element.copy, copy_with_origin, TextElement.copy")],
[("_parent","weak reference to the parent node","quickly/node.py Node")],["Node API"])
p("C04","Positions in the model follow the text, and position lookups are exact",
"After any history of edits, every node of the settled model that stems from the text reports a start and end position whose text denotes that node, child nodes lie inside their parent's extent in text order without overlap. Looking up the node (or the chain of nodes) at a position, or the first node right of or last node left of a position, always gives what a plain scan over the whole model gives.",
["histories","inputs"],"Every settled model of C01's sessions and every position in its text, also for models to which nodes without a position were added and from which nodes were removed.",
"Tests look up a few positions in one fixed text and never after an edit.",
["quickly/dom/element.py"],[("positions come from origin tokens or descendants","quickly/dom/element.py Element.pos, end"),("lookups","quickly/dom/element.py find_child, find_descendant(s), find_descendant_left, find_descendant_right")],None,["Element.pos/end/find_*"])
p("C05","Writing back a modified model changes the text exactly where it was modified",
"For a well-formed document, after any sequence of modifications of its model, writing the model back gives a text whose fresh reading equals the modified model, leaves every piece of text that belongs to unmodified nodes, including comments and spacing between them, as it was, and reports the number of changes made, which is zero when nothing was modified. Modifications made by one round of editing are the base of the next, and undoing them through the model restores an equal model.",
["histories","inputs"],"Every well-formed document from the generators (all four languages, music embedded in HTML and LaTeX) and every history of rounds of node modifications (change a value, insert, remove, replace, move nodes) each followed by a write-back.",
"test_dom_edit changes one note in three texts; fidelity has to hold for every place, kind of node and sequence of write-backs.",
["quickly/dom/element.py","quickly/dom/edit.py","quickly/dom/util.py","quickly/dom/base.py"],
[("points describe every piece of text of a model with origin and modification state","quickly/dom/element.py Element.points, head_point, tail_point"),("edits compares points and tokens and yields the minimal text changes","quickly/dom/element.py Element.edits, edit"),("whitespace is collapsed between points","quickly/dom/util.py collapse_whitespace")],
[("_modified","which of head and tail value was changed since reading","quickly/dom/element.py")],["Element.edit(document), Element.write()"])
p("C06","A failed or interrupted operation leaves document, tool and session unaffected",
"When an editing operation on an open document ends in an error at any point, whatever the error (a failing callback, bad music, an interrupt, memory exhaustion), the document's text and model are exactly what they were before (or, when the failure comes after the changes were handed to the document, exactly what the completed operation gives), the tool object no longer refers to the document, and the operation's error reaches the caller. The next operations on that document, with the same or another tool, give the same result as when the failed operation had never been started.",
["crash_points","fault_sequences","histories"],"Every editing tool and every program point (line) in the editing code at which an exception may be raised, in sessions of several operations of which some fail.",
"No test makes an operation fail. The number of failure points times histories cannot be enumerated by hand-written cases.",
["quickly/dom/edit.py","quickly/dom/element.py","quickly/transpose.py","quickly/relative.py","quickly/rhythm.py"],
[("operations work on a copy of the document's model and the document reference is reset in a finally clause","quickly/dom/edit.py Edit.edit_cursor"),("write-back happens in one transaction of the text document","quickly/dom/element.py Element.edit")],
[("_document","the document being edited","quickly/dom/edit.py Edit")],["Document.text(), get_transform(True), Edit.document(), Edit.changes()"])
p("C07","Operations touch exactly the selected music; read-only operations touch nothing",
"An editing operation started with a selection processes all nodes that lie within the selection and changes only text that belongs to those, a selection without nodes changes nothing, and no selection means the whole document (or from the cursor on, for tools that say so). Read-only operations never change text or model, whatever they compute; the reported number of changes is zero exactly when the text did not change.",
["histories","inputs","configurations"],"Every selection start and end in every document of a session, for every editing tool and range configuration, also right after edits that moved the selected text.",
"Tests never use a selection with an editing tool.",
["quickly/dom/edit.py","quickly/node.py","quickly/dom/element.py"],
[("the selection is converted to a node range","quickly/dom/edit.py Edit.edit_cursor"),("ranges iterate and test membership between trails","quickly/node.py Range"),("write-back is limited to the range","quickly/dom/element.py Element.edits")],None,["Edit.edit_cursor, Document.text()"])
p("C08","Transposing changes every pitch by exactly the interval and nothing else",
"Transposing music in an open document by an interval gives music in which every sounding pitch, in absolute, relative, fixed and nested music, in chords and in every pitch name language, is the original one transposed by that interval, key signatures and chord names included, and octave checks that were right still right, while rhythm, order and all other text stay the same. In any session, transposing by an interval and later by its opposite restores the sounding pitches, and successive transpositions add up to the combined transposition, also when these are combined by adding or subtracting transposers. When only a selection is transposed, also one within relative or fixed music, the same holds for the selected pitches, and the text outside the selection stays the same.",
["histories","inputs","configurations"],"Every generated piece of music, interval, language and selection (of absolute, relative or fixed music), in sessions of several transpositions through the same or new tool objects mixed with other edits and failing operations.",
"There is no test at all for transposing whole music.",
["quickly/transpose.py","quickly/pitch.py","quickly/dom/lily.py"],
[("Transposer computes step, alteration and octave","quickly/transpose.py Transposer"),("Transpose follows language, relative, fixed and transpose contexts","quickly/transpose.py Transpose.edit_range"),("PitchProcessor reads and writes pitch names","quickly/pitch.py")],None,["Document.text() read by an independent reference reader"])
p("C09","Converting between relative and absolute notation keeps the sounding music",
"Converting relative music to absolute, or absolute music to relative, in an open document never changes any sounding pitch, whatever the mixture of notes, chords, rests, octave checks, nested music, start pitches and the document's version, and keeps everything but pitch octaves and the relative commands. After converting to absolute, no relative music is left; converting there and back any number of times keeps the sounding pitches.",
["histories","inputs","configurations"],"Every generated piece of music with every relative setting (start pitch, first pitch absolute or not, version statement), in sessions of several conversions mixed with other edits and operations.",
"There is no test of these conversions in the suite.",
["quickly/relative.py","quickly/pitch.py"],[("Rel2abs","quickly/relative.py"),("Abs2rel","quickly/relative.py"),("make_absolute, make_relative","quickly/pitch.py Pitch")],None,["Document.text() read by an independent reference reader"])
p("C10","Rhythm operations change durations as specified and keep everything else",
"Making durations explicit or implicit (also per line) never changes the musical duration of any note, rest or chord; removing, transforming, copying and pasting durations and scalings give each note exactly the duration their description says, and pitches, order and all other text are unchanged. In a session, operations through reused tool objects and copied rhythms do not depend on what those tools were used for before.",
["histories","inputs","configurations"],"Every generated piece of music (notes, chords, rests, skips, unpitched and lyric items, tuplets), every operation and parameter, whole document or selection, in sessions of several operations mixed with other edits.",
"test_rhythm checks each function on one text line.",
["quickly/rhythm.py","quickly/duration.py","quickly/dom/lily.py"],[("rhythm operations","quickly/rhythm.py"),("duration properties of music nodes","quickly/dom/lily.py HandleDuration"),("previous duration lookup","quickly/dom/lily.py previous_duration, duration_getter")],None,["Document.text() read by an independent reference reader"])
p("C11","Include files are found in the documented order, fresh, and without hanging",
"Resolving an include finds the first existing readable file in the documented order (directory of the including file, of the main file, then the include path), never follows a file into itself, and treats missing, unreadable and undecodable files as not found instead of failing. A lookup made after a file was changed, created, removed or made (un)readable reflects the files as they are at that moment; variables are looked up in the text order of the including and included files.",
["fault_sequences","histories","configurations"],"Every tree of files including each other (cycles, diamonds, same name in several directories), every sequence of file changes with the I/O errors the simulated file system injects at each stat, open and read, and every order of lookups in between.",
"No test reads an included file or has a failing file system.",
["quickly/dom/scope.py","quickly/dom/lily.py","quickly/__init__.py"],
[("Scope resolves urls and loads documents through a cache on modification time","quickly/dom/scope.py"),("Lookup walks preceding nodes through include files and parent scopes","quickly/dom/lily.py Lookup")],
[("file cache","documents by file name and modification time","quickly/dom/scope.py Scope.factory")],["Scope.include_scope, Reference.get_value_with_scope"])
p("C12","Musical lengths and positions equal those of the music as LilyPond plays it",
"The computed length of any music, the position of any node in it and the duration between two nodes or of a selection equal those given by the durations, scalings, tuplets, simultaneous music and duration-changing functions in the text (repeated music counts once, as it is written; the default duration is that of the preceding music in the same file), with variables resolved where they are defined, also in other files; unresolvable variables count as zero. Computations never fail or hang, do not depend on which were asked before, and without waiting give what is known from the files that were read already.",
["histories","schedules","fault_sequences"],"Every generated piece of music with variables within and across files, every order of queries through the same or several calculators, while files are being read in the background and fail to be read.",
"test_time computes a dozen lengths in fixed music without include files.",
["quickly/time.py","quickly/duration.py","quickly/dom/lily.py","quickly/dom/scope.py"],
[("TimeContext carries transforms and properties into music","quickly/time.py"),("time_length of music nodes","quickly/dom/lily.py Music"),("duration_getter caches previous durations","quickly/dom/lily.py duration_getter")],
[("duration cache","durables without own duration seen last","quickly/dom/lily.py duration_getter")],["Time.length, position, duration, cursor_position, cursor_duration"])
p("C13","Concurrent readers and tools do not influence each other",
"When several threads at the same time read music fragments, read and query their own documents, or apply tools to their own documents, each gets exactly the result it gets when running alone, whatever the interleaving. No thread fails or blocks because of another one.",
["schedules"],"Every interleaving, at the level of source lines of the library, of up to four threads that each perform a few read, query or edit operations on their own text.",
"No test uses more than one thread of its own; interleavings are beyond tests.",
["quickly/dom/read.py","quickly/lang/lilypond.py","quickly/pitch.py","quickly/dom/element.py"],[("readers keep no state between or during calls that another thread can see","quickly/dom/read.py; quickly/lang/*.py transforms")],None,["quickly.dom.read functions, Document.get_transform(True)"])
p("C14","Tree walks, ranges and queries give exactly the nodes they describe",
"Walking or searching a tree or a range of it, in any direction and with any query, yields exactly the nodes in the described region in the described order, each once, and membership and intersection tests agree with that. Replacing, inserting and removing nodes through a range during its iteration adjusts its boundaries so that the walk continues with exactly the not yet visited nodes of the region and stays within it.",
["histories","inputs"],"Every tree, every pair of start and end nodes and ancestor, and every history of partial walks, direction changes, enters, leaves and modifications during a walk.",
"test_node walks one small tree; boundaries times interleaved modification is a product space.",
["quickly/node.py"],[("Range keeps a stack of levels with boundary trails and adjusts them on modification","quickly/node.py Range, Range._Level"),("Node iterators and query operators","quickly/node.py Common, Node")],[("start_trail, end_trail, _stack","boundaries and current position","quickly/node.py Range")],["Node and Range API"])
p("C15","Loading a file gives its exact text and language, or a clean error",
"Loading a document from a file yields exactly the decoded text of the file and the language that belongs to its name and contents, with its model available, for every supported encoding and line ending; when opening or reading fails at any point an input/output error (or decoding error) is raised and nothing is half loaded or left open. Loading after a failure, or after the file was changed, gives the new contents.",
["fault_sequences","inputs"],"Every file content, name, encoding and every place in the sequence of open, read and close calls where an error, a short read or a concurrent change can be injected.",
"No test loads a file.",
["quickly/__init__.py","quickly/lang/html.py","quickly/lang/latex.py"],[("load delegates to the document class with an absolute path and a transformer","quickly/__init__.py load"),("registry entries give languages by file name and contents","quickly/__init__.py register")],None,["quickly.load"])
p("C16","Pitch names are read and written consistently in every language",
"In every pitch name language, each name is read as one pitch, and every pitch that has a name in the language is written as a name that reads back as the same pitch, following the style preferences when these apply; a pitch that has no name there, a name that is unknown or an unknown language is refused with an error that changes nothing (or, in a document, is ignored). This holds for any history: languages set or found in the document, preferences set or learned from names, walks that follow the language and are abandoned, changes of pitches that fail half-way, pitch names that are translated with two processors and written back in a document that is edited meanwhile; one processor does not influence another.",
["histories","inputs","fault_sequences"],"All histories of two pitch processors and a document, with names, pitches, languages and preferences of every kind, and failures in between.","test_pitch checks a few names with one new processor.",
["quickly/pitch.py","quickly/dom/lily.py"],[("PitchProcessor keeps the language and the preferences","quickly/pitch.py PitchProcessor"),("determine_language","quickly/pitch.py"),("language commands","quickly/dom/lily.py Language, Include")],
[("_language, prefer_*","the language and style in force","quickly/pitch.py PitchProcessor")],["quickly.pitch"])
p("C17","Durations, numbers and octaves convert to text and back without loss",
"Every duration, octave and number that can be written is written as text that reads back as the same value, and values that cannot be represented are refused.",
["inputs"],"All representable values.","Tests check a few values.",["quickly/duration.py","quickly/numbering.py","quickly/pitch.py"],[("conversion functions","quickly/duration.py, quickly/numbering.py, quickly/pitch.py")])
p("C18","Key signatures name each chromatic pitch the way the key implies",
"For every key and mode (by name, as a list of alterations, as LilyPond's list of pairs, or in a variable) the computed accidentals are those of the scale, and naming any MIDI key in that key gives a pitch that sounds the same and uses the key's own notes where possible, and otherwise a sharpened step of the scale on the tonic, or a flattened one where flats are asked for. This holds in a document in which keys, modes, variables and pitch languages change, at every place in the music, and for key signatures that are held and used again with other flats or after being interrupted.",
["histories","inputs","fault_sequences"],"All keys, modes and MIDI keys, at every place of a document, with histories of edits and of using a key signature again.","test_key checks one note in one key.",
["quickly/key.py","quickly/pitch.py","quickly/dom/lily.py"],[("KeySignature caches readers of MIDI keys per list of flats","quickly/key.py KeySignature"),("Key.key_signature reads pitch and mode, also from variables","quickly/dom/lily.py Key")],
[("flats and the cached readers","settings of a key signature that is used again","quickly/key.py KeySignature")],["quickly.key, lily.Key.key_signature, Pitch.from_midi"])
p("C19","Indented output has the same contents and consistent indentation",
"Writing a model with indentation, with any indent settings, gives text that reads back as an equal model, in which each line's indentation reflects its nesting: one indent width deeper than the line that opened the nesting, or aligned with a previous item where the node defines alignment and the maximum align indent allows, with lines that start by closing nestings placed at the outermost level they close. Writing does not change the model, and an indenter that is reused, got other settings, or was interrupted earlier, writes the same as a new one. Retaining the newlines of the original text keeps every node that was on a new line on a new line, up to the given maximum of blank lines. Reformatting an open document keeps its contents.",
["inputs","configurations","histories","fault_sequences"],"All models and indenter settings, histories of writing, reformatting, editing and interrupted writing with the same indenter.","test_indent checks a few texts, with a new indenter, and never an interrupted or reused one.",["quickly/dom/indent.py","quickly/dom/util.py"],[("Indenter keeps a stack of indents, the levels that were entered and left on the current line, and collected whitespace, and resets them for every write","quickly/dom/indent.py Indenter"),("add_newlines","quickly/dom/util.py add_newlines")],[("_indent_stack, _indenters, _dedenters, _whitespace, _output","the state of the current writing","quickly/dom/indent.py Indenter")],["Element.write_indented, Indenter.write, util.add_newlines"])
p("C20","Values set through the model's properties are those of the document",
"Values that are set, changed or deleted through the convenience properties of a model (variables by simple, quoted or dotted names, in the document and in its header, paper, layout and midi blocks, version, language, included file names, pitches, octaves, durations, scaling, toggles and grob commands, references, Scheme values) are the values that are read back afterwards, from the model, from its written text read from scratch, and from the open document once the changes are written back; other values, comments and the text outside the changed parts remain as they were. This holds over any history of changes, write-backs and typing, also when a change or write-back is interrupted and tried again.",
["histories","inputs","fault_sequences"],"Histories of property changes, write-backs, typing and interruptions, on documents opened from text or built from scratch.","Tests set few properties, once, on models that were just made.",["quickly/dom/lily.py","quickly/dom/scm.py","quickly/dom/element.py","quickly/dom/read.py"],[("Properties create, replace and remove the child nodes that hold a value","quickly/dom/lily.py Document, Block, Assignment, Pitchable, Durable"),("value nodes convert between Python values and text","quickly/dom/element.py MappingElement, TextElement; quickly/dom/scm.py create_element_from_value")],None,["getters and setters of quickly.dom.lily nodes, Element.edit"])
p("C21","Every construct is read as the right kind of node, whatever surrounds it",
"Each construct of the supported languages (LilyPond music, modes, markup, blocks, assignments and commands; Scheme; HTML and LaTeX with embedded LilyPond) is read as the node class it is documented to be, with the right head value and the right arguments as child nodes, whatever precedes, follows or encloses it, and also when it came about by typing, pasting, wrapping, moving or undoing in an open document while it was being read in the background, or after text that does not belong there was typed and removed again. No text is lost or counted twice: each token of a well-formed document belongs to exactly one node, in the order of the text, and in any document no token belongs to two nodes.",
["inputs","histories","schedules"],"All combinations of constructs of the languages, and histories of editing that lead to them.","test_dom checks a few constructs alone, in texts that are read once.",["quickly/lang","quickly/dom/lily.py","quickly/dom/scm.py","quickly/dom/htm.py","quickly/dom/tex.py","quickly/dom/element.py"],[("token and context dispatch of the transforms","quickly/lang/lilypond.py LilyPondTransform, MusicBuilder; quickly/lang/scheme.py, html.py, latex.py"),("arguments become children by the signatures of the nodes","quickly/dom/element.py build_tree")],None,["quickly.lang.*, Element.signatures, build_tree, head mappings"])
p("C22","Content built or rearranged in the model is what the document then says",
"Markup, Scheme values, HTML elements and LaTeX environments that are built with the helpers of the model (the markup functions, the Scheme constructors, the HTML element constructor, environments by name), music, and parts of a document that are copied, exchanged, moved or replaced in its model, at any depth, are afterwards what the document says: written on their own or written back to the open document they are read again as the same commands, names, attributes, arguments and elements in the same order, with the same strings, whatever characters these have, and numbers of the same value; the plain text of an element is that of its contents. Nothing else in the document changes, however often this is done, mixed with typing, and when building or writing is interrupted and done again.",
["inputs","histories","fault_sequences"],"Every content that can be built, at every place, and every rearrangement of the tree, in histories of building, rearranging, typing, writing back and interruptions.","Tests build a handful of small trees and write them once; nothing is rearranged in a document, and the markup functions are not called by any test.",["quickly/dom/markup.py","quickly/dom/scm.py","quickly/dom/htm.py","quickly/dom/tex.py","quickly/dom/element.py","quickly/dom/lily.py"],[("markup functions, also generated from the list of commands","quickly/dom/markup.py"),("create_element_from_value and write_head of Number, String, Quote","quickly/dom/scm.py"),("the element constructor m, Element.to_plaintext","quickly/dom/htm.py"),("Element.edits compares the wanted text pieces with the tokens of the document","quickly/dom/element.py Element.points, edits")],None,["quickly.dom.markup, scm.s, htm.m, tex.Environment.with_name, Element.write, Element.edit"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
