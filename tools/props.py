"""Writes properties.jsonl and MANIFEST.json: the single place the properties are written down.

python3 tools/props.py          (a property is claimed when checks/<id>.py exists)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=list(observe)))


TR, TF, PA, ND, AP = "rsm/translator.py", "rsm/transformer.py", "rsm/tsparser.py", "rsm/nodes.py", "rsm/app.py"
TESTS = ("The tests render a few dozen short snippets and compare a fragment of the page or only that nothing is raised; "
         "they never combine constructs, sizes, nestings and spellings.")
REFMODEL = ("reference-model monitor: random manuscripts are run through the public API and an oracle written from the "
            "documentation checks every emitted page")
NOTE = ("Held on every manuscript generated in this run (counts in the evidence file); manuscripts stay inside the grammar "
        "the generator knows. Trusted: the generator's own model of the manuscript, the strict reader in vm/dom.py.")

prop("C01", "Pages are well-formed and their ids are unique",
     "Every page that rendering produces, with or without handrails, is well-formed HTML: every element that is opened is "
     "closed in order, no block stands inside a paragraph tag, and no link inside a link. No two elements of a page share "
     "an id, and no two share a node id.",
     ["inputs", "configurations"], "every manuscript that can be written, times plain or handrails output",
     TESTS + " None of them parses the page.", [TR, TF],
     [("open and close tags are pushed and popped in pairs", TR + ": Translator.translate, AppendTextAndDefer"),
      ("a label that is taken is dropped", TF + ": collect_labels")],
     "online monitor: strict tag-balance and id-uniqueness checker over every emitted page", NOTE, observe=["rsm.render"])

prop("C02", "Every word of the manuscript reaches the page, once and in order",
     "The rendered page contains exactly the prose of the manuscript: every word once, in order, with the same spaces between "
     "words and inside the same nesting of sections, blocks, lists and inline markup in which it was written. Nothing is "
     "lost, doubled, merged, moved or added, whatever stands next to it.",
     ["inputs", "configurations"], "every manuscript that can be written, times plain or handrails output", TESTS,
     [PA, TF, TR],
     [("text outside tags becomes text nodes, white space collapses to one space", PA + ": make_ast, normalize_text"),
      ("visiting each node once in document order", TR + ": Translator.translate")],
     REFMODEL, NOTE, observe=["rsm.render"])

prop("C03", "Math, code and escaped characters reach the page verbatim",
     "What stands between math or code delimiters reaches the page character for character, inline, displayed, in listings and "
     "in algorithms, with the language named for it; no markup inside it is interpreted by RSM or by the browser. An escaped "
     "special character in text, titles, names, keywords, link texts or reference texts reaches the page without its backslash "
     "and is never taken for markup.",
     ["inputs"], "every sequence of characters in math, code, listings and escaped text, and everything that may stand around "
     "them", TESTS, [PA, "rsm/util.py", TR, TF],
     [("asis text is taken from the source unchanged", PA + ": make_ast (asis_text)"),
      ("escaping for HTML", "rsm/util.py: escape_html"), ("unescaping", "rsm/util.py: EscapedString")],
     REFMODEL, NOTE, observe=["rsm.render"])

prop("C04", "Equivalent spellings of a manuscript give the same page",
     "How a manuscript is laid out and spelled does not change its page: shorthand (#, *, /, $, `) or tags, metadata inline or "
     "on lines of its own and in any order, indentation with spaces or tabs, line breaks within paragraphs, additional blank "
     "lines, comments, and what editors do to files (line ends of either kind, a byte order mark, a missing last line end) make "
     "no difference.",
     ["inputs"], "every manuscript times every choice of spelling at every place", TESTS +
     " A handful of tests compare one snippet in two spellings.", [PA, "rsm/reader.py"],
     [("several surface forms give one node", PA + ": make_ast, CST_TYPE_TO_AST_TYPE"),
      ("comments are dropped, text is normalised", PA + ": normalize_text")],
     "metamorphic monitor: the pages of one manuscript under several spellings are compared element by element", NOTE,
     observe=["rsm.render"])

prop("C05", "References and links point where they say",
     "A reference leads to the element that carries its label, wherever either stands, and shows the author's text or else the "
     "element's own name and number; a reference to a label nobody carries is shown as an error and nothing else breaks. Every "
     "label becomes the id of exactly its element (the first, if it is given twice), and external links keep their address and "
     "text.",
     ["inputs"], "every set of labelled elements of every kind, and every reference before, after or inside them", TESTS,
     [TF, TR, ND],
     [("label to node table, first come first served", TF + ": collect_labels"),
      ("pending references resolved after the tree is complete", TF + ": resolve_pending_references"),
      ("names of elements", ND + ": Node.reftext, classreftext")],
     REFMODEL, NOTE + " Default names of unnumbered elements are a known finding.", observe=["rsm.render"])

prop("C06", "Citations and the bibliography agree",
     "Every citation shows, in the order written, the numbers of the entries it names and links to them; labels nobody has are "
     "marked. Every bibliography entry appears once, in order, with its number, its data and its link, followed by links back "
     "to exactly the citations that name it, in order.",
     ["inputs"], "every bibliography and every placement and repetition of citations, known and unknown", TESTS, [TF, TR, ND],
     [("entries numbered in order", TF + ": add_numbers_to_... / Bibitem"), ("backlinks", TF + ": transform_bibliography, "
                                                                                              "visit_bibitem")],
     REFMODEL, NOTE, observe=["rsm.render"])

prop("C07", "Numbers are right everywhere they are shown",
     "Sections, subsections, theorem-like blocks, equations, figures, tables, algorithms, steps and bibliography entries are "
     "numbered consecutively in document order within what they are counted in; unnumbered elements take no number, and "
     "sections behind the appendix mark are lettered instead. Headings, captions, references, contents, menus and margins all "
     "show the same number for the same element.",
     ["inputs", "configurations"], "every tree of numbered, unnumbered and appendix sections with numbered elements in them",
     TESTS + " Numbering is tested on about a dozen trees.", [TF, ND, TR],
     [("counters per container", TF + ": add_node_numbers"), ("full numbers", ND + ": NodeWithNumber.full_number")],
     REFMODEL, NOTE, observe=["rsm.render"])

prop("C08", "The table of contents mirrors the sections",
     "The table of contents lists every section, subsection and subsubsection once, in order, nested as they are, with the same "
     "heading text and number, each entry linking to its section; the map beside a handrails page has one dot per entry, in the "
     "same order, one below the other and none outside of it. Only the first table of contents of a manuscript is shown.",
     ["inputs"], "every tree of sections", TESTS + " The contents list is tested on five small trees.", [TF, TR],
     [("nested list built over the sections", TF + ": make_toc"), ("minimap", TR + ": HandrailsTranslator._make_minimap")],
     REFMODEL, NOTE, observe=["rsm.render"])

prop("C09", "Structured proofs keep their structure",
     "The page shows a proof's steps nested exactly as written: each step has its statement and, if it has one, its subproof, "
     "with constructs under the right keyword; only the last top-level step of a proof is marked as last. A back reference "
     "(:prev:, :previous:n) leads to the step that many steps before its own, and a step's menu offers collapsing exactly if "
     "there is something to collapse.",
     ["inputs"], "every proof tree", TESTS + " Steps are tested two levels deep with single back references.", [TF, TR, PA],
     [("statement and subproof separated", PA + ": make_ast (step)"), ("back references", TF + ": resolve_pending_references"),
      ("last step", TF + ": add_necessary_subproofs, " + TR + ": visit_proof"),
      ("step menus", TR + ": HandrailsTranslator._step_handrails")],
     REFMODEL, NOTE, observe=["rsm.render"])

prop("C10", "Handrails change nothing but the handrails",
     "The page with handrails is the plain page plus its handrails: with them taken off, the two agree. Every title, heading, "
     "author, paragraph, equation, theorem-like block, proof, step and bibliography entry has exactly one complete handrail - "
     "in the tab order, named as a reference would name the element, able to copy a link exactly if the element has a label, and "
     "showing the icon (or number) the element was given; a handrail inside another stands out in the margin, so that it takes "
     "no room from the text. The page carries the source of the manuscript, unchanged, exactly if asked to.",
     ["inputs", "configurations"], "every manuscript that can be written", TESTS +
     " Handrails tests look for single class names in single-element pages.", [TR],
     [("each visit method wraps the plain one", TR + ": HandrailsTranslator"),
      ("zones of a handrail", TR + ": _hr_*_zone, _replace_node_with_handrails")],
     "differential monitor: each emitted handrails page against the plain page of the same source, and each handrail against "
     "its element", NOTE, observe=["rsm.render(handrails=True)"])

prop("C11", "Metadata lands on its own element",
     "Every piece of metadata - title, author data, keywords, codes, label, types, unnumbered flag - takes effect on exactly the "
     "element it was written for, as given, in whatever order, layout and spelling it stands. It never shows up as text, on "
     "a neighbour, or gets lost.",
     ["inputs"], "every combination of metadata on every element in every layout", TESTS, [PA, ND, "rsm/tags.py"],
     [("metadata pairs parsed per tag", PA + ": _parse_meta_into_dict"), ("metadata ingested by nodes", ND + ": ingest_dict_as_meta")],
     REFMODEL, NOTE, observe=["rsm.render"])

prop("C24", "Figures, tables and lists keep their content and shape",
     "A table has on the page exactly the rows and cells it was written with, head and body apart, in long and short spelling; "
     "a figure has its image, address and scale; captions stand with their own element. Lists keep their kind, their items, "
     "their order and their nesting.",
     ["inputs"], "every table, figure and nested list", TESTS, [TF, TR, PA],
     [("cells from short rows", PA + ": make_ast (tr)"), ("captions", TR + ": visit_caption")], REFMODEL, NOTE,
     observe=["rsm.render"])

prop("C25", "Theorem-like blocks are shown under their own name",
     "Every theorem-like block shows its own kind, its number unless it is unnumbered, and its title if it has one, followed by "
     "exactly its content. Nothing of one block appears in another, and types and labels given to it are kept.",
     ["inputs"], "every theorem-like block with every combination of title, number, label, types and content", TESTS, [TR, TF, ND],
     [("title line", TR + ": _make_title_node, visit_theorem")], REFMODEL, NOTE, observe=["rsm.render"])

exec(open(os.path.join(HERE, "tools", "props2.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props2.py")) else None

claimed = [p for p in sorted(P, key=lambda p: p["id"])
           if p["na"] is None and os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))]
nas = [p for p in P if p["na"] is not None]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(claimed + nas, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
man = dict(version=1, setup_cmd="/opt/venv/bin/python /verif/tools/selftest.py",
           checks=[dict(property=p["id"], quick_cmd=f"/opt/venv/bin/python /verif/check.py {p['id']}",
                        thorough_cmd=f"/opt/venv/bin/python /verif/check.py {p['id']} thorough",
                        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                        level_note=p["note"]) for p in claimed],
           not_applicable=[dict(property=p["id"], reason=p["na"]) for p in nas],
           notes="No hooks in /repo: everything is observed at the public API and on the emitted pages, files and logs.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(claimed), "claimed", [p["id"] for p in P if p not in claimed and p["na"] is None], "not built")
