#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json next to this folder (one source for both)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, observe, level_note, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = state
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=tests, anchors=a), level_note))

L = "src/parser/mod.rs"; G = "src/parser/base/grammar.rs"; B = "src/parser/base/mod.rs"; D = "src/parser/base/directive.rs"
DU = "src/dumper.rs"; N = "src/node.rs"; Y = "src/yaml.rs"; I = "src/indicator.rs"
BOUND = "Holds for every case inside the stated bounds on the compiled code of the current tree; says nothing about longer inputs or about bytes outside of the alphabets. "

prop("C01", "Loading any input terminates with documents or an error",
  "For every input of bytes, loading in the direct and in the cyclic mode returns: either at least one document, or an error with a message. It never panics, loops, or keeps allocating, and whatever the direct mode accepts the cyclic mode accepts with one anchor table per document.",
  ["inputs"], "all texts over alphabets of structural characters, tokens and whole constructs, and all small damages of feature-complete documents",
  "The tests load about thirty well-formed documents and four malformed ones; hangs and panics sat in inputs such as an unterminated quote or a tag handle without directive.",
  [L, G, B, D], [("the entry point tries each rule and reports what none matches", L + " Loader::parse, Loader::doc"), ("every loop consumes input or ends", G), ("quoted scalars end or are reported", G + " string_quoted")],
  ["parse", "parse_cyclic", "parser::Loader"], BOUND + "5 s of CPU time and 512 MiB stand for termination; the overflow checks and debug assertions of a development build are on.")
prop("C02", "Plain scalars resolve by the YAML 1.2 core schema",
  "A plain scalar loads as null, boolean, integer, float or string exactly as the regular expressions of the YAML 1.2 core schema say, wherever it stands (root, item, key, value, flow or block, at the end of the input or not). Its value, tag and typed views are those of the number or word that is written.",
  ["inputs"], "all words up to a length over the characters of numbers and of the schema's words, every case mix and single edit of each word, in every position",
  "The tests load some twenty scalars; each other spelling, position and neighbour is a different path through the ordered choice of the scalar rules.",
  [L, G, Y], [("ordered choice of the scalar forms over the whole text", L + " resolve_plain"), ("number rules", G + " float, sci_float, int"), ("text to number", Y + " to_i64, to_f64")],
  ["parse", "Node::as_int", "Node::as_float", "Node::tag"], BOUND + "The recogniser of the schema is written by hand and independent of the code.")
prop("C03", "Every supported notation of a tree loads to exactly that tree",
  "A tree of scalars, sequences and maps that is written down in block or flow style, in any of the documented notations of keys and leaves, loads to exactly that tree: the same nesting, types, texts and order. Nothing is dropped, merged, duplicated or moved to another level.",
  ["inputs"], "all trees up to ten nodes with one notation, and smaller trees with every mix of notations of leaves, keys, flow and indentation",
  "The tests hold a few hand-written documents; nesting errors need particular neighbours, such as an empty value in front of a sibling key.",
  [L, G, B], [("recursive descent over the level of indentation", L + " seq, map, seq_flow, map_flow"), ("indentation stack", B + " ind, " + G + " ind_define")],
  ["parse"], BOUND + "Documents come from a writer that knows the tree; the notations the library documents as unsupported are not written (DESIGN.md).",
  [{"name": "indentation stack", "meaning": "widths of the open levels", "where": B + " Parser::indent"}])
prop("C04", "Comments, blank lines and layout never change the loaded data",
  "Adding or removing comments, blank lines, trailing blanks, document markers, the final line end, or changing the line end style or the width of indentation, does not change the loaded tree. No layout character or comment becomes a part of a value.",
  ["inputs"], "all placements of up to four layout changes in all small trees, and every single change in larger ones",
  "The tests use one layout per document; the interaction of a comment with each construct around it is not sampled.",
  [G, L, B], [("gaps between tokens", G + " gap, comment, inv_flow, bound"), ("line ends", G + " nl"), ("indentation", G + " ind_define")],
  ["parse"], BOUND + "At most four changes at once.")
prop("C05", "A stream splits into its documents and each is read on its own",
  "A text with several documents loads to one root per document, in order, wherever the markers stand and however each document ends. Anchors belong to their document and directives to the stream in front of it.",
  ["inputs", "histories"], "all streams of up to three small documents with every way to mark and end each of them, and every placement of an anchor in one and an alias in another document",
  "The tests hold two streams; state that leaks from one document into the next (indentation, anchors, position) shows only in particular sequences.",
  [L, G], [("loop over documents", L + " Loader::parse, Loader::doc"), ("anchors per document", L + " anchors, doc_ind"), ("markers", G + " doc_marker")],
  ["parse", "parse_cyclic"], BOUND + "At most three documents; each one behind the first starts with its marker.",
  [{"name": "document index", "meaning": "which anchor table is in use", "where": L + " Loader::doc_ind"}])
prop("C06", "String styles keep their content: quoting, folding, chomping, escapes",
  "The content of a plain, single quoted, double quoted, literal or folded string is what the rules of that style give: escapes and doubled quotes decoded, line folding and blank lines, chomping and indentation removed as written. This holds in every position and for every neighbour.",
  ["inputs"], "all texts of a few pieces per style (words, blanks, breaks, escapes, quotes, multi-byte characters) in up to nineteen positions, and runs of line breaks and blanks of every length",
  "The tests fix one text per style; escapes next to quotes, blank lines and ends of input are combinations they do not reach.",
  [G, L], [("quoted strings", G + " string_quoted, escape"), ("plain strings", G + " string_plain"), ("block scalars", G + " string_literal, string_folded, wrapped_string, chomp")],
  ["parse"], BOUND + "Folded lines that are indented more than the first follow the tests of the repository, not YAML 1.2.")
prop("C07", "Aliases in direct mode are the anchored value, shared not copied",
  "In the direct mode every alias is replaced by the value of the last anchor of that name in its document, and shares its data. An alias to an undefined or unfinished anchor and a second definition of a name are errors.",
  ["inputs", "histories"], "all small trees with anchors on any nodes or keys and aliases to any finished anchor, and every order of definitions and uses",
  "The tests hold three documents with anchors; which node an anchor in front of a map, key or value belongs to depends on the notation around it.",
  [L, G], [("anchors recorded when the node is finished", L + " scalar_node"), ("lookup", L + " scalar_term"), ("syntax", G + " anchor, anchor_use")],
  ["parse", "Node::rc_ref"], BOUND + "The tag of the node that stands for the alias is not compared.")
prop("C08", "Cyclic mode keeps placeholders and a complete anchor table",
  "In the cyclic mode every alias is a placeholder with the name it was written with, aliases to open or later anchors are accepted, and the table of each document maps every anchor of the document to its node. A placeholder resolves to that node.",
  ["inputs", "histories"], "all small trees with anchors on any nodes or keys and aliases to any finished or open anchor, and every order of definitions and uses",
  "The tests hold one cyclic document.",
  [L, N], [("placeholder", L + " scalar_term"), ("anchor tables", L + " get_anchors"), ("resolution", N + " Node::as_anchor")],
  ["parse_cyclic", "Node::as_anchor"], BOUND)
prop("C09", "Tags attach to their node and resolve through the directives",
  "A tag belongs to the node it is written in front of, with or without an anchor in either order. Its handle resolves through the tag directives and the two default handles, verbatim tags stay as they are, and a node without a tag has the default tag of its type.",
  ["inputs"], "all small trees with tags of every notation in front of any node or key, and every pair of tag directives with every use of a handle",
  "The tests check five tags at one position each.",
  [G, D, L, N], [("tag syntax", G + " tag, tag_prefix"), ("directive table", D + " directive_tag"), ("defaults", N + " Node::tag")],
  ["parse", "Node::tag"], BOUND + "Suffixes are letters, digits and dashes.")
prop("C10", "Every node knows where it starts in the input",
  "The position of each loaded node is the offset in the input of the first byte of its value: behind its anchor and tag, in front of its first character, key or indicator. This holds in every document of a stream.",
  ["inputs"], "all small trees with layout changes, properties, every notation of leaves and keys, and streams of documents",
  "The tests check the position of one node.",
  [L, B], [("consumed count plus cursor", B + " indicator, consume"), ("taken when the value starts", L + " scalar_node")],
  ["Node::pos"], BOUND + "Empty values may be anywhere in the gap they stand for.",
  [{"name": "consumed", "meaning": "bytes dropped from the front", "where": B + " Parser::consumed"}])
prop("C11", "What is dumped loads back to the same data",
  "For every forest of data without aliases, the dumped text loads to equal documents with the same types, texts and order. Dumping the loaded documents again gives the same text.",
  ["inputs", "programs"], "all trees up to eight nodes, all strings over adversarial characters and tokens, words and extreme numbers, in every place of a tree",
  "The tests dump two documents; quoting and indentation errors need particular characters or nesting.",
  [DU], [("style of a string by its content", DU + " Dumper::dump"), ("indentation by the kind of the parent", DU), ("loader", L)],
  ["dump", "parse"], BOUND + "Strings hold no line ends other than line feeds.")
prop("C12", "Dumping keeps tags, anchors and aliases",
  "A tree dumped with its anchors loads back with the same tags, anchors and aliases: each anchor is written once, at the node it names, and each alias placeholder refers to it. Tags that are the default of their node are left out, others keep their exact meaning.",
  ["inputs", "programs"], "all small loaded trees with anchors, aliases and tags, and built trees with every tag of a list on any node and key",
  "The tests dump one document with one anchor and two tags.",
  [DU, L], [("anchors by identity", DU + " Dumper::dump"), ("tag notation", DU)],
  ["dump", "parse_cyclic"], BOUND + "Tags have no blanks and no angle brackets.")
prop("C13", "Equality, hashing and map lookup agree",
  "Nodes are equal exactly if their data is: numbers by value and kind, collections item by item, tags and positions ignored. Equal nodes have equal hashes, so lookups and duplicate keys in maps behave as equality says, and the last of equal keys wins.",
  ["inputs"], "all pairs of a universe of scalars (numbers in many notations) and of collections of them; all maps of up to five keys of twelve",
  "The tests compare a few literals; NaN, signed zeros, notations and oversized integers meet in pairs they do not contain.",
  [N, Y], [("equality and hash of data", Y + " PartialEq, Hash for Yaml"), ("node equality", N), ("map", "src/lib.rs Map")],
  ["Node ==", "Hash", "Node::get"], BOUND + "Integers beyond 128 bits are compared by their text.")
prop("C14", "Typed views and navigation return the data or the node's position",
  "Each typed view returns the value exactly if the node has a type the view documents, and otherwise the position of that node as the error. Navigation by key, index and path returns the node at that place or the position of the node where the path ends; defaults and transformations are applied only when documented.",
  ["inputs", "programs"], "all views of a universe of nodes, all paths of up to five steps over a tree, all ways to build a node",
  "The tests call most views once on the type that fits.",
  [N, Y], [("views", N + " as_bool … as_anchor"), ("navigation", N + " get, get_ind, get_default, Index"), ("conversions", Y + " From")],
  ["Node::as_*", "Node::get*", "node!"], BOUND)
prop("C15", "Clones share data; replacing the data of one leaves the others alone",
  "A clone of a node shares its data, tag and position. Replacing the data of a node changes exactly that node, every other handle keeps its content, and a piece of data lives as long as a handle holds it.",
  ["histories"], "all histories of up to five operations (clone, drop, replace, share, nest, take out) on three handles",
  "The tests have no history of more than one operation on a shared node.",
  [N, "src/repr.rs"], [("reference counted data", N + " set_yaml, set_repr, clone_yaml"), ("holders", "src/repr.rs")],
  ["Node::clone", "Node::set_yaml", "Node::rc_ref"], BOUND)
prop("C16", "Single- and multi-threaded nodes behave alike; sharing is safe",
  "Loading, dumping, comparing and hashing give the same results with the single-threaded and the multi-threaded holder. Multi-threaded nodes can be sent to and shared with other threads, and no order of their operations changes what another thread sees or leaks data.",
  ["inputs", "schedules"], "all token sequences and trees loaded with both holders; all orders of operations of two or three threads on shared nodes",
  "The tests load one document with the multi-threaded holder and start no thread.",
  ["src/repr.rs", N, L], [("holders behind one trait", "src/repr.rs Repr")],
  ["NodeRc", "NodeArc", "parse"], BOUND + "Operations of threads interleave as whole calls; below them is the counter of the standard library.")
SD = "src/serde/de.rs"; SS = "src/serde/ser.rs"; SN = "src/serde/ser_node.rs"
prop("C17", "What is serialized deserializes to the same value",
  "Every value of the serde data model that is turned into a node or into text comes back equal from the node and from the text: numbers with their exact value and sign, strings, options, sequences, maps, structures and all kinds of enumerations, at any nesting.",
  ["inputs", "programs"], "all primitive types with their extreme values in 22 wrappers and ten kinds of keys; all values of a recursive enumeration up to a number of constructors",
  "The tests round-trip one structure; each nesting of an option, variant or key is a different path.",
  [SS, SD, DU], [("value to node", SS), ("node to value", SD), ("text in between", DU)],
  ["serde::to_node", "serde::to_string", "T::deserialize(node)", "serde::from_str"], BOUND + "Nested options collapse, as in every format with one null.")
prop("C18", "Deserialization converts exactly or fails, never silently changes",
  "A document deserializes into a type exactly if its data fits: integers of the range, the right kind of scalar or collection, fields by name or order, variants by name. The result is the exact value; everything else is an error and never a wrapped, truncated or default value.",
  ["inputs", "programs"], "31 target types for every value of a universe of scalars with all range limits, short sequences and maps",
  "The tests deserialize one or two fitting documents; the limits of each width, and kinds that do not fit, are not tried.",
  [SD, Y], [("one method per kind", SD + " deserialize_*"), ("variants", SD + " EnumAccess")],
  ["serde::from_str", "T::deserialize(node)"], BOUND + "Additional fields and items are ignored.")
prop("C19", "A deserialization error points at the node that does not fit",
  "If a node has another kind than the one the type asks for, deserialization fails and the position of the error is that of this node in the input, in any nesting, in block and in flow style.",
  ["inputs"], "all small trees and streams with each node asked for each of 15 kinds, and one wrong value in each field of a derived structure in every order",
  "The tests check the message of two errors.",
  [SD, "src/serde/error.rs"], [("position of the visited node", SD), ("error with a position", "src/serde/error.rs")],
  ["SerdeError"], BOUND + "Errors of missing or unknown names have no place.")
prop("C20", "Nodes pass through serde unchanged as data",
  "A node that is serialized or deserialized itself, with this crate's formats or with another self-describing format, keeps its data. What has no counterpart in the serde data model, such as an alias, is an error.",
  ["inputs", "programs"], "every node of a universe of scalars and collections up to three levels, through nine ways of serde",
  "The tests pass one node through serde.",
  [SN, SD, SS], [("node as value", SN)],
  ["Node: Serialize", "Node: Deserialize"], BOUND + "Positions and tags are not data.")
prop("C21", "Convenience wrappers accept the documented shapes and no others",
  "The optional, in-line list and stringify wrappers deserialize from exactly the shapes that are documented to the documented result, their methods agree with it, and anything else is an error.",
  ["inputs", "programs"], "the three wrappers from every value of a universe of scalars, sequences and maps, with every method",
  "The tests hold one document for each wrapper.",
  ["src/serde/optional.rs", "src/serde/inline_list.rs", "src/serde/stringify.rs"], [("visitors", "src/serde/optional.rs, inline_list.rs, stringify.rs")],
  ["Optional", "InlineList", "Stringify"], BOUND)
prop("C23", "Error messages and positions show the right line and column",
  "A position is shown as line and column counted from one, followed by that line of the input and a caret under the column. Every error of the loader that has a place points into the input, and at the mistake.",
  ["inputs"], "all texts over short lines, multi-byte characters and line ends with every position; the errors of all token sequences; planted mistakes at known places",
  "The tests check the message of four errors.",
  [I, L, "src/parser/error.rs"], [("line and column", I + " indicated_msg"), ("place of an error", B + " err")],
  ["indicated_msg", "PError"], BOUND + "Columns count bytes.")
prop("C25", "Malformed structure is rejected, well-formed structure is accepted",
  "A text whose brackets, separators, indentation, quotes, properties or document markers do not form a document is an error, in any place and nesting; it never loads as some other data with parts joined, dropped or read as text. A text of the strict grammar always loads, as the data it denotes.",
  ["inputs"], "all flow token sequences against a strict and a loose grammar, all block structures of few lines and columns, malformed parts in all places, all streams of directives and markers",
  "The tests hold a handful of malformed documents; each combination of structure and place takes another path of the ordered choice.",
  [L, G, B, "src/parser/base/directive.rs"], [("ordered choice of structures", L), ("indicators and plain strings", G), ("directives and markers", "src/parser/base/directive.rs")],
  ["parse", "parse_cyclic"], BOUND + "What is in the loose but not the strict grammar is left open.")
prop("C26", "Work grows moderately with the input, and deep nesting is an error",
  "Loading and dumping take memory and time in proportion to the input, or nearly so: twice the input never multiplies the work, also for malformed and backtracking input, and through serde. A document nested beyond a fixed level is a reported error; no nesting exhausts the stack.",
  ["inputs"], "all chains of wrappers around all cores and all block structures, at several lengths, depths up to 20000 on a small stack",
  "The tests hold no document with more than a few levels; repeated parsing multiplies the work with each level.",
  [L, G, DU], [("recursion over nodes", L), ("backtracking", B)],
  ["parse", "parse_cyclic", "dump"], BOUND + "Work is the number of allocated bytes and processor time with wide limits.")
prop("C22", "Parser primitives move the cursors by one contract in every history",
  "In every sequence of calls of the parser's primitives, nested in contexts or not: a match moves the position behind exactly the longest allowed part, a mismatch moves it back to the eaten cursor, a context restores the eaten cursor, the text is what lies between both, and the indicator counts from the start of the stream also after consuming.",
  ["histories"], "all sequences of calls up to a depth, with nested contexts and alternatives, over short texts",
  "The tests of the repository call single sub-parsers once; the contract is about what a call finds that others left behind.",
  [B, "src/parser/error.rs"], [("position and eaten cursor", B + " forward, backward, consume, context"), ("the one matcher", B + " take_while")],
  ["parser::Parser", "parser::TakeOpt", "parser::PError::or"], BOUND, [{"name": "cursors", "meaning": "position, eaten part and consumed length", "where": B + " Parser"}])
prop("C24", "Each public sub-parser matches what it names, and moves only then",
  "Each public sub-parser, called at any position of a fresh or used parser, matches exactly the longest text of the form it is documented for and returns its value; if there is none it leaves the position as it was. Indentation levels and directives act on the later calls as defined, and the parts of the grammar called one by one give what a whole load gives.",
  ["inputs", "histories"], "26 sub-parsers (characters, tokens, scalars, flow and block collections) on all short texts over their alphabets, all sequences of indentation calls and of directives, all sequences of escapes, all short block scalars, streams taken apart step by step",
  "The tests call a few sub-parsers on one fitting text each.",
  [G, "src/parser/base/directive.rs"], [("lexical matchers", G), ("indentation levels", B + " ind, " + G + " ind_define"), ("handles and version", "src/parser/base/directive.rs")],
  ["parser::Parser"], BOUND)
prop("C27", "JSON texts load as the values they denote",
  "Every JSON text loads, in either mode, alone or as a part of a block document, as exactly the value a JSON reader finds: nesting, order, strings with all escapes, words, integers with their digits and numbers with their nearest float, whatever the white space between tokens.",
  ["inputs"], "all JSON texts of few tokens with five separators, all numbers and strings of few units, all small trees in six layouts and seven places",
  "The tests hold one flow document; escapes next to delimiters, brackets without blanks and white space of every kind are other paths.",
  [L, G], [("flow collections", L + " seq_flow, map_flow"), ("quoted strings", G + " string_quoted, escape"), ("numbers", L + " resolve_plain")],
  ["parse", "parse_cyclic", "serde::from_str"], BOUND + "The reference is a JSON reader written by hand that is compared with serde_json on every text.")
prop("C28", "A text means the same wherever it is placed",
  "A text that loads as one collection loads as the same node when it is placed, with its lines indented, under a key, in an item, as a key, or between other documents of a stream; a flow collection or quoted text also does inside of other flow collections and behind indicators. Tags stay and positions move by what is in front. What is rejected alone is rejected in these places, and line end styles make no difference.",
  ["inputs"], "all texts of few tokens and of few lines at any columns, valid or not, each in 26 places and with three line end styles",
  "The tests load each construct in one place; rules that look at the level, the line, the first document or the kind of the parent differ between places.",
  [L, G, B], [("levels of indentation", B + " ind, " + G + " ind_define"), ("rules with a level and a flow mark", L), ("gaps", G + " gap, bound")],
  ["parse", "Node::pos", "Node::tag"], BOUND + "Compares loads with each other: a mistake that is the same in every place is left to the other properties.")
exec(open(os.path.join(HERE, "tools", "properties_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "properties_more.py")) else None

P.sort(key=lambda p: p[0]["id"])
have = set(subprocess.run([os.path.join(HERE, "target/release/mc"), "list"], capture_output=True, text=True, check=True).stdout.split())
ids = {p["id"] for p, _ in P}
if have != ids: sys.exit(f"checks {have - ids} without property, properties {ids - have} without check")
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": [],
     "notes": "No hooks: every check drives the public interface. Every check is an exhaustive enumeration of a bounded choice tree (mc/src/engine.rs) against a reference model, run on the code of /repo itself."}
for p, note in P:
    m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "technique": "bounded exhaustive exploration of the implementation against a reference model", "level": "model_checking", "level_note": note.strip()})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")

# ---- the tables of DESIGN.md
out = subprocess.run([os.path.join(HERE, "target/release/mc"), "describe"], capture_output=True, text=True, check=True).stdout
rows = []
for l in out.splitlines():
    d = json.loads(l)
    title = next(p["title"] for p, _ in P if p["id"] == d["id"])
    rows.append(f"**{d['id']} {title}**\n")
    for (n, q, dv), (_, t, dt) in zip(d["quick"], d["thorough"]):
        rows.append(f"* `{n}`: {q}{f', at most {dv} deviations' if dv and 'deviations' not in q else ''}" + (f" (thorough: {t}{f', at most {dt} deviations' if dt and 'deviations' not in t else ''})" if (t, dt) != (q, dv) else ""))
    rows.append(f"* oracle: {d['oracle']}")
    if d["assumptions"]: rows.append("* assumed: " + "; ".join(d["assumptions"]))
    rows.append("")
def put(s, name, text):
    a = s.index(f"<!-- {name} -->") + len(f"<!-- {name} -->"); b = s.index(f"<!-- end of {name} -->")
    return s[:a] + "\n" + text + "\n" + s[b:]
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
s = put(s, "table", "\n".join(rows))
sd = os.path.join(HERE, "seeded"); caught = json.load(open(os.path.join(HERE, "tools/caught.json"))); t = ["| planted bug | property | caught by | what it needs |", "|---|---|---|---|"]
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, n, "meta.json")))
    t.append(f"| {n} | {m['property']} | {caught.get(n, '?')} | {m['needs']} |")
s = put(s, "seeds", "\n".join(t))
open(f, "w").write(s)
