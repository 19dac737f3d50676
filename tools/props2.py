prop("C12", "Damaged manuscripts are survived and reported",
     "Whatever text it is given, rendering or linting it ends, and ends in one of three ways: a well-formed page, a reported "
     "error and no page, or one of RSM's own errors with a message - never any other exception, and the same way with handrails "
     "as without. Every error mark on a page comes with a warning giving its position, every warned position is one where the "
     "source is wrong, and the next manuscript renders as if nothing had happened.",
     ["inputs", "faults", "histories"], "every text, in particular every way of damaging a manuscript", TESTS +
     " Of the infinitely many wrong manuscripts they hold about ten.", [PA, TF, TR, ND, AP],
     [("errors of the grammar become error nodes", PA + ": make_ast"), ("bad trees are RSM errors", ND + ": append"),
      ("stages stop after an unparsable manuscript", AP + ": run")],
     "online monitor over mutation workloads: outcome, log and page of each run against the grammar's own list of errors",
     "Held on every damaged text generated in this run; damage is made by mutating generated manuscripts and by token soup. "
     "Trusted: the installed grammar's own error positions, vm/dom.py.", observe=["rsm.render", "rsm.lint"])
BU, WR, LI, CL, LG, RD = "rsm/builder.py", "rsm/writer.py", "rsm/linter.py", "rsm/cli.py", "rsm/rsmlogger.py", "rsm/reader.py"

prop("C14", "A page depends on its manuscript and options alone",
     "Rendering the same manuscript with the same options gives the same page, byte for byte: however often, from a string or a "
     "file, whatever was rendered, linted, built or failed before, with parsers, transformers, translators and applications used "
     "once or many times and in turns, whatever the log level and format, from several threads at once, and in any process, "
     "whatever its hash seed, locale and directory. Rendering leaves behind nothing in the directory, the environment, the "
     "interpreter's settings or the standard output.",
     ["inputs", "histories", "schedules"], "every manuscript, every history of earlier calls, every interleaving of threads", TESTS +
     " Each renders once, in one process, in one thread.", [AP, TF, TR, PA, RD],
     [("fresh state per application", AP + ": Pipeline"), ("transformer starts anew", TF + ": transform"),
      ("manuscripts are UTF-8", RD + ": read")],
     "differential monitor over histories, threads and processes: every later page against the first, plus a watch on global state",
     "Held on every history generated in this run: a page is compared with a reference rendering made at the start of its case. "
     "Thread interleavings are forced by a switch interval of a microsecond, not enumerated.",
     observe=["rsm.render", "rsm.lint", "rsm.make"])
prop("C17", "make builds a complete web page and touches nothing else",
     "make() writes index.html and the folder static, holding RSM's own files unchanged and every image the manuscript shows, "
     "and nothing else; files already there keep their content unless they are these. Every local file that the page loads "
     "exists. The body is the page that render gives, the head bears the manuscript's title and charset. Images that do not "
     "exist are reported and cost nothing else; a build that fails changes no file.",
     ["inputs", "faults", "histories"], "every manuscript, every set of images there and missing, every state of the directory", TESTS +
     " Two or three of them look for one file each.", [BU, WR, AP],
     [("page frame", BU + ": FolderBuilder"), ("images are found in the page and copied", BU + ": find_required_assets"),
      ("files are written", WR + ": write")],
     "offline monitor of directory trees: snapshot before and after each build, compared file by file with what must be there",
     "Held on every manuscript and directory generated in this run. Trusted: vm/dom.py to read the page that was built.",
     observe=["rsm.make", "rsm.render"])
prop("C13", "Depth of nesting changes nothing",
     "Manuscripts may nest as deeply as they like: steps within steps, lists within lists, spans within spans, hundreds deep, "
     "are parsed, transformed, linted, translated and shown with every number, label, handrail and word in its place, as "
     "shallow ones are, without using the interpreter's stack in proportion to the depth and in time that does not explode.",
     ["inputs", "configurations"], "every manuscript of every depth", TESTS + " One of them lowers the recursion limit, for two "
     "short manuscripts.", [TR, TF, PA, ND],
     [("traversals keep their own stack", ND + ": traverse"), ("translation keeps its own stack", TR + ": translate"),
      ("numbers of nested steps", ND + ": full_number")],
     "reference-model monitor under a lowered recursion limit and a CPU limit per case",
     "Held on every manuscript generated in this run, to 120 deep (thorough: 400), under a recursion limit of 150 frames. " + NOTE,
     observe=["rsm.render", "rsm.lint"])
prop("C15", "Manuscript trees are trees, and queries on them tell the truth",
     "Whatever is appended, prepended, replaced, removed or refused, in whatever order, a tree of nodes stays a tree: every "
     "child names its parent, no node has two places, order is kept, and an operation that raises changes nothing. traverse, "
     "ancestors, first_of_type, last_of_type, first_ancestor_of_type, siblings and numbers answer what the tree is, and sexp "
     "writes down exactly the tree, with the metadata if asked for it. The trees of "
     "manuscripts obey the rules for parents, and carry every node on the page in the order of the page.",
     ["inputs", "histories"], "every sequence of operations on every tree, and every manuscript's tree", TESTS +
     " About ten tests each make one change to one small tree.", [ND, TF],
     [("operations on trees", ND + ": append, prepend, replace_self, remove_from_parent, remove_self, clear"),
      ("queries", ND + ": traverse, first_of_type, last_of_type, first_ancestor_of_type, prev_sibling")],
     "model-based monitor: random histories of operations run on the real nodes and on a plain dictionary model, compared after "
     "every step",
     "Held on every history and manuscript generated in this run. Trusted: the model of trees in checks/c15.py.",
     observe=["rsm.nodes", "rsm.app.ProcessorApp"])
prop("C16", "The linter reports exactly the style problems there are, where they are",
     "Linting a manuscript says once, at its place in the source, that the manuscript has no title, that a section has no label "
     "and that display math stands outside of a paragraph - and says nothing else, in the order of the source, by lint(), by "
     "make() and by an application told to lint, whatever the log level it is called with. Linting changes neither the tree nor "
     "the page.",
     ["inputs", "configurations"], "every manuscript that can be written and every way of linting it", TESTS +
     " They lint about five snippets.", [LI, AP, LG],
     [("one method per style problem", LI + ": Linter.lint, lint_*"), ("positions start at one", LI + ": _extra"),
      ("the level lint messages are given", LI + ": __init__")],
     "online monitor: lint records against the list of problems of the generated manuscript, with positions from the grammar",
     "Held on every manuscript generated in this run. " + "Trusted: the positions the installed grammar gives to nodes.",
     observe=["rsm.lint", "rsm.make", "rsm.app.ProcessorApp"])
prop("C18", "The commands do what the functions do",
     "rsm-render, rsm-lint and rsm-make do exactly what render(), lint() and make() do with the options that correspond to the "
     "command line, whatever the order and spelling of options: they print the page (unless silent) and nothing else on the "
     "standard output, the log on the standard error, write the same files and no others, and exit 0 exactly if the function "
     "returns. Command lines that make no sense and manuscripts that are not there are refused and leave nothing behind; so are "
     "calls of the functions with both a path and a source, or neither. "
     "rsm-make --serve builds before it serves, and again with the same options when the manuscript changes.",
     ["inputs", "configurations"], "every command line and manuscript", TESTS + " They run each command once or twice.",
     [CL, AP, RD],
     [("options to arguments", CL + ": _init_parser"), ("verbosity to level", CL + ": main"), ("input", RD + ": read")],
     "differential monitor: each command, in its own process or in this one, against the function it stands for, output, files "
     "and status compared",
     "Held on every command line generated in this run. The server of --serve, which never ends, is a stand-in that records what it is told to watch and serve; the rebuilding it is told to do is done.",
     observe=["rsm-render", "rsm-lint", "rsm-make"])
prop("C19", "Logs show everything of the level asked for, once, in the format asked for",
     "The level a run is given decides only which records are shown: all those of that level or above, in order, each once, and "
     "none below. In every format each record shown gives its message, level and position (lines and columns counted from one), "
     "with the time and the line of code if these are asked for and not otherwise; JSON logs are one valid object per line with "
     "the message unchanged. Settings left out are the documented ones, colours end with their line, and runs do not multiply each other's output.",
     ["inputs", "configurations", "histories"], "every manuscript, log level, format and entry point", TESTS +
     " They look at one or two lines of each format.", [LG, AP, LI],
     [("formatters", LG + ": RSMFormatter, JSONFormatter, LintFormatter"), ("level of handlers", LG + ": config_rsm_logger"),
      ("positions from one", LI + ": _extra")],
     "online monitor over logs: the stream written is parsed record by record against the records the loggers were given",
     "Held on every run generated. The list of all records is what the loggers say at level 0, so a record never made is C26's.",
     observe=["rsm.render", "rsm.lint", "rsm.make"])
prop("C26", "Every problem with a reference or an entry is reported once, by name",
     "A manuscript's problems are each reported by one warning that names the culprit: references and citations of labels that "
     "do not exist, labels taken twice, a second table of contents, references back to steps without labels, missing fields of "
     "bibliography entries, entries without a bibliography, unknown code languages. This is so with and without handrails; lint reports those that do not need "
     "the page. Manuscripts without problems get no warning.",
     ["inputs", "configurations"], "every manuscript with every combination of these problems", TESTS +
     " About ten look for one warning each.", [TF, TR, LG],
     [("unknown targets", TF + ": resolve_pending_references"), ("labels", TF + ": _find_target, collect_labels"),
      ("missing fields", TR + ": visit_bibitem")],
     "online monitor over logs: warnings matched one to one against the problems the generator put in the manuscript",
     "Held on every manuscript generated in this run. Warnings about numbering outside of sections are checked only to have "
     "cause.", observe=["rsm.render", "rsm.lint"])

JS = "rsm/static/"
NOJS = ("None of the tests runs a script of the pages: they are all Python.")
prop("C21", "Handrails do what they are clicked for, and nothing else changes",
     "On a page of any manuscript, in any order of clicks: a collapse button (or the menu item of a step) hides exactly what "
     "belongs to its handrail and shows it again; 'Collapse all' of a proof or a step collapses (expands) the subproofs of its own "
     "steps; items that are disabled do nothing; icons and menu texts of exactly that handrail tell its state; the dots open the menu "
     "and leaving it closes it; 'Copy link' puts the page's address with the handrail's own label (a title: without one) in "
     "the clipboard and says whether that worked. Nothing else of the page appears, disappears or moves, no click raises an error, "
     "and undoing everything restores the page.",
     ["histories", "inputs"], "every sequence of clicks on the page of every manuscript", NOJS,
     [JS + "handrails.js", JS + "icons.js", JS + "onload.js", TR],
     [("collapsing", JS + "handrails.js: collapseHandrail and those around it"), ("links", JS + "handrails.js: copyLink"),
      ("icons", JS + "icons.js"), ("zones and menus", TR + ": HandrailsTranslator"), ("loading", JS + "onload.js")],
     "online monitor: a model of each handrail's state against what a (small, own) browser shows of every element after every move",
     "Held on every sequence of moves generated in this run. The browser is fe/dom.mjs, not a real one: it applies the style "
     "sheet's display rules, but its layout is crude; animations end at once.", observe=["DOM of pages run with the scripts"])
prop("C22", "The keyboard reaches what the mouse reaches",
     "On a page of any manuscript, in any order of keys, also mixed with the mouse: j and k walk over everything that can take "
     "the focus, in order and around, skipping what is hidden or collapsed; h and l go to the next and previous sibling "
     "(sections: of the same level); each brings it to the middle of the view (if taller, to its top) unless the page would have "
     "to go the other way; H goes to the top; z centres what has the focus; the dot opens and closes its menu, arrow keys move "
     "through the items of an open menu, exactly one of them active, Enter does what a click on it does; comma collapses and "
     "expands as the button does, semicolon as 'Collapse all' does; i opens and closes the tooltip of a reference. Keys that do not "
     "apply do nothing, and no key raises an error.",
     ["histories", "inputs"], "every sequence of keys on the page of every manuscript", NOJS,
     [JS + "keyboard.js", JS + "handrails.js", TR],
     [("keys", JS + "keyboard.js"), ("what they do", JS + "handrails.js")],
     "online monitor: a model of focus, menus and handrails against what a (small, own) browser shows after every key",
     "Held on every sequence of keys generated in this run, in the browser of C21. Siblings that are not shown and headings of the "
     "abstract, the table of contents and the bibliography are not checked for h and l.", observe=["DOM of pages run with the scripts"])
prop("C23", "References show what they refer to, and pages survive missing scripts",
     "On the page of any manuscript: every reference has a tooltip with the content of its target, whatever kind of block it is "
     "and whatever its label is made of (sections: the heading and the first block; steps: the statement; parts of a text: the text around), "
     "without handrails, and one that leads nowhere says so; it opens and closes. Every algorithm is rendered once. "
     "Pointing at an item of the table of contents marks its place on the map; the floating map is shown exactly when that one is "
     "out of view and marks the section being read. If MathJax, pseudocode, jQuery or RSM's script for icons, "
     "handrails, keyboard, maps or tooltips cannot be loaded, the rest still works.",
     ["inputs", "faults"], "every manuscript, every script that may be missing", NOJS,
     [JS + "tooltips.js", JS + "minimap.js", JS + "onload.js", JS + "libraries.js", JS + "icons.js", TR],
     [("tooltips", JS + "tooltips.js: createTooltips"), ("maps", JS + "minimap.js; " + TR + ": _make_minimap"),
      ("loading", JS + "onload.js, libraries.js")],
     "online monitor: contents of tooltips, maps and algorithms of the page in a (small, own) browser against the page's own structure, "
     "with faults injected into loading",
     "Held on every page generated in this run, with the real jQuery and Tooltipster and stand-ins for MathJax and pseudocode. "
     "Maps are not checked on unlabelled sections (known finding minimap-ids).", observe=["DOM of pages run with the scripts"])
prop("C27", "Inline markup marks exactly what it is put around",
     "Strong and emphasised text, spans, math, code, notes, drafts, links and the constructs of proofs (let, assume, prove, "
     "then, claim and the rest, with their keywords) hold on the page exactly the text they are put around in the manuscript, "
     "within exactly the markup they stand in, with their label and types, and with the keyword and the role (assumption or "
     "not) of their own kind. What stands before and after is outside.",
     ["inputs"], "every nesting and every row of inline markup, wherever text may stand", TESTS, [PA, TR, TF],
     [("tags and shorthands become spans and constructs", PA + ": make_ast"),
      ("batches of a span's tags are closed in order", TR + ": visit_span, visit_construct, AppendBatchAndDefer"),
      ("keywords", TF + ": add_keywords_to_constructs; " + TR + ": visit_keyword")], REFMODEL, NOTE, observe=["rsm.render"])
prop("C28", "What may not stand where it stands is refused, by name",
     "A reference back to before the first step of its row or from outside of all steps, anything behind the subproof of a step, and "
     "steps, items and captions where none may stand are refused wherever they stand in a manuscript, by render(), lint(), make() "
     "and every application, with an error of RSM's own that names the reason; make() then writes nothing. The manuscript is "
     "shown as soon as the fault is taken out, also by the same process.",
     ["inputs", "faults"], "every manuscript and every place where such a fault may stand", TESTS +
     " Three tests expect an error of one snippet each.", [TF, ND],
     [("back references", TF + ": resolve_pending_references"), ("subproofs", TF + ": add_necessary_subproofs"),
      ("parents", ND + ": _check_parent")],
     "fault injection with an online monitor: one fault is put into a random orderly manuscript, and the outcome of every entrance watched",
     "Held on every manuscript and fault generated in this run.", observe=["rsm.render", "rsm.lint", "rsm.make", "rsm.app.ProcessorApp"])
prop("C29", "The work of making a page grows with the manuscript, not faster",
     "However many blocks of whatever kind a manuscript has - sections, theorems, proofs, lists, tables, references, citations, entries - "
     "rendering or linting one that is twice as long takes about twice the work: neither the Python that runs nor the CPU time "
     "grows with the square of the length.",
     ["inputs"], "every mixture of blocks, of any length", "The tests render snippets of a few lines and measure nothing.",
     [TR, TF, PA, ND],
     [("the body is put together from chunks", TR + ": append_text"), ("labels are found in a dictionary", TF + ": find_labels, resolve_pending_references"),
      ("one pass over the tree per task", ND + ": traverse"), ("translation visits every node once", TR + ": translate")],
     "online monitor of execution: lines of Python run (sys.monitoring) at lengths n, 2n, 4n, and CPU time at n and 8n",
     "Held for every mixture of blocks tried in this run, up to about 1000 blocks. Lines are counted exactly; CPU time (what happens "
     "inside built-in operations) is compared with a wide margin and measured again before it is believed. Rows of hundreds of "
     "siblings within one paragraph are outside: there, work inside built-in operations does grow faster, with a small factor.",
     observe=["rsm.render", "rsm.lint"])
