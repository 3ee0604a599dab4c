#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

F, R, T, U, D, TF = ("format/format.go", "format/require.go", "format/transform.go", "format/unused.go",
                     "format/docstring.go", "format/threadfirst.go")
L, PA, N = "parse/lex.go", "parse/parse.go", "parse/node.go"
CM, CC = "cljfmt/cljfmt.go", "cljfmt/config.go"
API = ["parse.Reader", "format.Printer.PrintTree"]

p("C01", "Formatting never changes what the code reads as",
  "For every source text that the Clojure reader can read, the text produced by formatting it with the default transforms reads as the same sequence of forms (same nesting, same literals, same metadata, tags, quotes and discarded forms). The only permitted differences are the documented rewriting and sorting of ns clauses, and whitespace at the beginning and end of the lines of a docstring.",
  ["inputs"], "every readable Clojure source text",
  "The fixtures are a few dozen well-laid-out snippets; whether a reader prefix, comment, tag, discard or line break in an unusual place survives depends on the combination, and no fixture compares what is read before and after.",
  [F, T, R, PA, L], [("printNode/printSequence", F), ("applyTransforms", T), ("lexer and parser", PA)], API)
p("C02", "With transforms off, formatting changes only horizontal whitespace",
  "With every transform disabled, formatting any accepted source keeps every token, every comment and every line break, in order; only spaces, tabs and commas between tokens and the leading and trailing whitespace of docstring lines may differ (a reader prefix may be joined to the form it applies to, and #^ is written ^). This holds whatever indentation overrides, thread-first overrides and indentation character are configured.",
  ["inputs", "configurations"], "every accepted source text, every set of overrides",
  "Tests compare whole outputs of fixed snippets under the default configuration; the round trip has to hold for every node kind in every position under every override.",
  [F, PA, L, N], [("printNode", F), ("IncludeNonSemantic parsing", PA)], API)
p("C03", "Comments survive formatting",
  "Every comment in the source appears in the formatted output exactly once with its text unchanged, whatever transforms are enabled (other than removal of unused requires, which may drop comments attached to what it removes). Outside ns clauses comments keep their relative order and their place among the surrounding tokens, and no code ever ends up on the same line after a comment.",
  ["inputs", "configurations"], "every source text with comments anywhere, every combination of transforms",
  "Only a handful of fixtures contain comments, always in conventional places; sorting, merging and moving of nodes handles comments by position, so loss depends on the arrangement.",
  [T, R, F, PA], [("comment attachment when sorting", T), ("nodeComments", R), ("printSequence", F)], API)
p("C04", "Formatting is idempotent",
  "Formatting an already formatted text with the same options changes nothing: for every accepted source and every combination of transforms and overrides, formatting the output again yields byte-identical output.",
  ["inputs", "configurations"], "every accepted source text, every combination of transforms and overrides",
  "Fixture tests check that some outputs are fixed points under the default options; a second pass that moves something again needs a particular combination of layout and transforms.",
  [F, T, R, D], [("applyTransforms", T), ("printSequence", F), ("alignDocstring", D)], API)
p("C05", "Output is a function of source and options only",
  "Formatting the same source with the same options always gives byte-identical output, no matter how often it is repeated, under what file name the source was parsed, what the environment variables and working directory of the process are, what the same printer or process formatted before, or what other goroutines are parsing and formatting at the same time with other printers. Formatting never modifies the option maps the caller passed in or the package's default options, and concurrent use of separate trees and printers is free of data races even when they share option maps.",
  ["schedules", "histories", "inputs"], "every history of earlier formatting calls, every interleaving of independent parse/format calls",
  "Each test formats one tree once, sequentially; dependence on map iteration order, on earlier calls or on shared package state does not show in a single run.",
  [F, T, R], [("NewPrinter/PrintTree state", F), ("requireList.render", R), ("shared newline node", R)], API,
  [("DefaultTransforms", "package-wide default options", T), ("Printer.requires/refers", "aliases seen in ns forms", F)])
p("C06", "No input crashes or hangs the parser or the formatter",
  "For every byte string, parsing ends in finite time with either a tree or an error, never a panic. Every tree that parsing with non-semantic nodes returns can be formatted, under any combination of transforms and overrides, without a panic and without an error.",
  ["inputs", "configurations"], "every byte string, every combination of options",
  "Tests try a few malformed inputs; crashes need an unusual adjacency of tokens (a prefix before a line break, a truncated dispatch macro) in one of many positions.",
  [L, PA, F, T, R], [("lexer state functions", L), ("parseNext and recover", PA), ("printNode", F)], API)
p("C07", "The parse tree mirrors the source",
  "The parser accepts exactly the texts whose delimiters balance, whose strings are terminated, whose reader prefixes have a form to apply to and whose character literals are valid, and that do not nest function literals; everything else is rejected with an error. For an accepted text the tree contains exactly the source's forms, comments and line breaks, in order, with the right kind and nesting, the literal text of every token, and the right value for character and boolean literals. Printing the tree gives each of its nodes on a line of its own, indented by its depth.",
  ["inputs"], "every text over the reader's token alphabet",
  "The parser tests look at one node per kind and a few nestings; agreement with the reader's rules has to hold for every combination and adjacency of tokens, including the rejected ones.",
  [L, PA, N], [("lexOuter and friends", L), ("parseNext", PA), ("parseCharLiteral", PA)], ["parse.Reader", "parse.Tree.Roots"])
p("C08", "Positions point at the text they describe",
  "Every node of a parse tree reports the file name given, and the byte offset, line and byte column at which that node's text starts in the source. Every error returned for malformed text names the file and a line and column that lie within the text (or at its end), at or before the place where the problem becomes apparent.",
  ["inputs"], "every text, every node in its tree, every malformed text",
  "No test looks at positions; an off-by-a-few position in one kind of token, or after multi-byte characters or backtracking, is invisible to them.",
  [L, PA, N], [("lexer.next/back/emit/synth", L), ("Pos.FormatError", L)], ["parse.Node.Position", "error text of parse.Reader"])
p("C09", "Parse options drop exactly what they document",
  "Parsing with any combination of options gives the full tree minus exactly what the options exclude: comments and line breaks unless non-semantic nodes are requested, (comment ...) forms when those are ignored (except directly under a quote or other reader prefix), and forms discarded with #_ when discards are ignored. Everything else in the tree is unchanged by the options, and whether a text is accepted does not depend on them.",
  ["inputs", "configurations"], "every accepted text, all eight option combinations",
  "Six snippets exercise two options one at a time; stacked discards, discards of tagged or annotated forms, and combinations with comments are not tried.",
  [PA], [("includeNode", PA), ("parseReaderDiscard", PA), ("parseNextSemantic", PA)], ["parse.Reader with ParseOpts"])
p("C10", "Parent links agree with child lists",
  "After parsing, every node's parent is the node that lists it as a child, and roots have no parent. After any sequence of child replacements that moves, removes, reorders or inserts nodes (each node in one place at a time), every listed child has the listing node as parent and every removed node has none.",
  ["inputs", "histories"], "every parse tree, every sequence of child replacements",
  "Four snippets check one parent each after parsing; nothing tests replacing children at all.",
  [N, PA], [("SetChildren/setParent of each node kind", N), ("linkParents", PA)], ["Node.Parent", "Node.Children", "Node.SetChildren"])
p("C11", "I/O failures surface and chunking does not matter",
  "If the input reader fails at any point before its end, parsing returns an error carrying that failure and no tree; if the output writer fails at any point, formatting returns that error and what was written is a prefix of the full output. How the input is split into reads never affects the tree, and no background work and no open file remains once a parse has returned, whether or not it succeeded.",
  ["fault_sequences", "inputs"], "every position of a read or write failure, every way of splitting the input",
  "All tests read complete in-memory input and write to a buffer that cannot fail.",
  [L, PA, F], [("inputReadErr recovery", L), ("lexer goroutine/token delivery", L), ("bufErr recovery", F)], ["parse.Reader", "PrintTree error", "runtime.NumGoroutine"])
p("C12", "Line indentation follows the documented styles",
  "Every line of formatted output that starts with a form or comment is indented to the column the documented style of the enclosing form prescribes: normal, list, list-body, let, for, letfn, deftype and cond0/1/2/4, map and reader-conditional pairs, with the built-in assignment of styles to core macros and def-/let-/with-/when- prefixed names, or the styles configured as overrides. Columns are counted in characters from the start of the line, also after multi-line strings and non-ASCII text.",
  ["inputs", "configurations"], "every arrangement of line breaks in every nesting of styled forms, every override",
  "Fixtures show one or two layouts per style; the column depends on nesting, on where each line break falls, on comments and blank lines in between and on what precedes the form on its line.",
  [F], [("printSequence", F), ("chooseIndent/applySpecialIndentRules", F), ("defaultIndents", F)], API)
p("C13", "Indent overrides apply to exactly the names documented",
  "An override for an unqualified name applies to that name with or without any namespace qualifier. An override for ns/name applies exactly when the symbol is written ns/name, or alias/name where an ns form requires ns :as alias, or just name where an ns form requires ns with :refer including it; it then takes precedence over an override or built-in style for the bare name.",
  ["inputs", "configurations"], "every combination of ns requires, override tables and symbol spellings",
  "One fixture has six overrides that never compete with each other; precedence and look-alike names are not tried.",
  [F, R, CC], [("indentStyleForSymbol", F), ("markRequires", R)], API,
  [("requires/refers", "alias and refer tables collected from ns forms", F)])
p("C14", "Output does not depend on horizontal whitespace or extra blank lines",
  "Two sources that differ only in spaces, tabs, commas and carriage returns between tokens (including existing indentation) format to identical text. Adding or removing blank lines next to existing line breaks never changes the indentation of any line of code. In the output, elements that share a line are separated by exactly one space, nothing separates an opening or closing delimiter or a reader prefix from its content, no line ends in whitespace outside comments and strings, and lines are indented with the indent character only.",
  ["inputs"], "every source and every re-spacing of it",
  "Every fixture has a single spacing; the relation between two spacings is not tested.",
  [F, L, T], [("lexWhitespace", L), ("printSequence", F)], API)
p("C15", "Sorting ns clauses is a stable, lossless sort with comments attached",
  "Sorting reorders the entries of each :require, :require-macros and :import clause of an ns form by the name of the namespace, package or class they start with, keeping the order of equal names and putting entries without such a name last in their original order. Nothing is lost, duplicated or altered: comments on the lines above an entry and the comment beside it move with it, metadata, tags and discard markers stay with the form they apply to, and other clauses and forms are untouched.",
  ["inputs"], "every ns form with any mixture of entries, comments and reader prefixes",
  "Two fixtures with plain entries; attachment of several comments, unnamed entries, duplicates and prefixes is not covered.",
  [T], [("sortImportRequire", T), ("getImportRequireSortKey", T)], API)
p("C16", "ns style enforcement rewrites exactly as documented",
  "With ns-style enforcement on, every recognised clause of an ns form is a list headed by a keyword with a line break after :require and :import (and other multi-argument clauses); each required library and prefix list is a vector with its nested lists as vectors, and each import is a list, with a dotted class symbol split into package and class. Apart from this rewriting the ns form keeps all its symbols, keywords, comments and their order, and nothing outside ns forms changes.",
  ["inputs"], "every ns form in every mixture of old-style and new-style clauses",
  "A single fixture with two clauses.",
  [T], [("enforceNSStyle", T), ("enforceRequireStyle", T), ("enforceImportStyle", T)], API)
p("C17", "Blank-line and trailing-newline clean-up is exact",
  "Removing extra blank lines collapses every run of blank lines, in every form and at top level, to a single blank line, and changes no other line break. Removing trailing newlines puts each closing delimiter of a list, vector, map, set or function literal on the line of its last element unless that element is a comment, and changes no other line break.",
  ["inputs"], "every placement of newlines and comments in every nesting of forms",
  "Two small fixtures; start of file, comments before closing delimiters and nesting under reader prefixes are not covered.",
  [T], [("removeExtraBlankLines", T), ("removeTrailingNewlines", T)], API)
p("C18", "defn, defmethod and if line-break fixes are exact",
  "A top-level defn whose argument vector is alone after a line break and followed by more code on the same line gets the vector moved up to the name's line; a top-level defmethod gets a keyword dispatch value moved up to the name's line; and in every two-armed if, if-not, if-let or if-some list either both arms are preceded by a line break or neither is. Everything else keeps its line breaks, and no code moves other than across these line breaks.",
  ["inputs"], "every layout of these forms, at any depth for if, with comments anywhere",
  "A few conventional layouts in fixtures; comments in between, line breaks before the test, and nesting are not covered.",
  [T], [("fixDefnArglist", T), ("fixDefmethodDispatchVal", T), ("enforceConsistentIfNewlines", T)], API)
p("C19", "Consolidating use into require keeps what the ns provides",
  "With use-to-require enabled, the resulting ns form requires the same libraries with the same aliases and the same referred names (a plain use becoming :refer :all and :only becoming :refer) as the :require and :use clauses together did before. Entries it does not understand are carried over unchanged in the clause kind they came from, together with everything attached to them, and all comments are kept.",
  ["inputs"], "every ns form with any mixture of :require and :use clauses",
  "One fixture; merging of several entries for a library, of comments and of unrecognised entries depends on their combination and order.",
  [R, T], [("useToRequire", T), ("requireList.merge/render", R), ("parseRequire/parseUse", R)], API)
p("C20", "Unused-require removal removes exactly what the documentation says",
  "With remove-unused-requires enabled, an alias stays if any symbol, var quote or auto-resolved keyword or map outside the ns form uses it as a namespace, a referred name stays if that symbol occurs outside the ns form, and a library stays while an alias or referred name remains (:refer :all counts as one), while its full name is used as a namespace or its package imported, when it is written as [lib], or when the entry has options beyond :as, :refer and :refer-macros. All other aliases, referred names and libraries in :require and :require-macros are removed, the comments above and beside a removed entry go with it, and nothing else in the file changes.",
  ["inputs"], "every ns form and every body using any subset of its aliases and names",
  "Two fixtures; each way of mentioning a name, in each position, decides whether code keeps working after removal.",
  [U, T, R], [("findSymbols", U), ("symbolCache.unused", U), ("removeUnusedRequires", T)], API)
p("C21", "Docstrings are aligned; other strings are never touched",
  "In a top-level ns, def, defn, defmacro or defmulti with a docstring, each continuation line of the docstring is indented to the column of its opening quote, or deeper if it was deeper, with trailing whitespace removed and blank lines emptied; its text is otherwise unchanged. Every other string and every regular expression literal, including the value of a def without docstring, is reproduced byte for byte.",
  ["inputs"], "every string content in every position",
  "Two fixtures; whether a string is a docstring depends on what surrounds it, and its content may hold any whitespace and escapes.",
  [D, F], [("markDocstrings", D), ("alignDocstring", D)], API)
p("C22", "Threaded forms are indented for their missing first argument",
  "A list in a threaded position of a thread-first form (->, some->, every other form of cond->, and configured overrides of both kinds, also when nested in one another) is indented as if its threaded first argument were present: argument pairing in cond1 and cond2 style forms starts one argument earlier. Lists in positions that are not threaded are indented normally.",
  ["inputs", "configurations"], "every nesting of thread-first forms with pair-style forms, every override",
  "Four fixtures; position counting with comments, nesting of different threading macros and overrides is sampled thinly.",
  [TF, F], [("markThreadFirsts", TF), ("threadFirstTransform", F)], API)
p("C23", "cljfmt's output modes agree and never damage files",
  "For any set of input files, cljfmt prints the formatted text of each (or of standard input) without flags, lists exactly the files whose formatted text differs with -l, and with -w replaces exactly those files' contents with their formatted text, keeping permissions and leaving already formatted files unwritten. A file that cannot be parsed is never modified or output, a file that cannot be written completely keeps its contents, and the exit status is zero exactly when all inputs were processed and all output was delivered.",
  ["inputs", "configurations", "fault_sequences"], "every set of files and flags, including malformed files and failing output",
  "The cljfmt command has no tests.",
  [CM], [("processFile", CM), ("main", CM)], ["cljfmt stdout, exit status and files"])
p("C24", "Directory walks format exactly the Clojure files",
  "Given a directory, cljfmt recursively processes exactly the files below it, at any depth, whose extension is in the configured list (by default .clj, .cljs, .cljc and .edn) and whose name does not start with a dot. A file named explicitly is processed whatever its extension. Symbolic links to files count as files and a directory may be named by a symbolic link, but links to directories found on the way are not followed; a file or directory that cannot be read makes cljfmt fail.",
  ["inputs", "configurations"], "every directory tree and extension list",
  "The cljfmt command has no tests.",
  [CM, CC], [("walkDir", CM), (":extensions", CC)], ["cljfmt stdout and files"])
p("C25", "Configuration and flags mean what the README says",
  "The configuration file is taken from -c, else from CLJFMT_CONFIG_PATH, else from $HOME/.cljfmt, and its extensions, indent overrides and thread-first overrides (names given singly or in sequences) have exactly the documented effect; a malformed or unknown setting is reported and nothing is formatted, a file named by -c that is missing is reported, and nothing else is (a missing file in the other places is no error). Each transform is on or off by default as documented, and -enable-transform and -disable-transform switch exactly the named one, the last mention winning.",
  ["configurations", "inputs"], "every well-formed and malformed configuration, every sequence of flags",
  "The cljfmt command and its configuration parser have no tests.",
  [CM, CC, T], [("parseDotConfig", CC), ("defaultConfigPath", CM), ("transformFlag", CM), ("DefaultTransforms", T)], ["cljfmt stdout, stderr and exit status"])
p("C26", "Form predicates recognise exactly the forms they name",
  "The exported predicates answer by the node alone: a list form predicate holds exactly for lists whose first child is a symbol (or keyword) that is among the given names, or any symbol (or keyword) if no names are given; the kind predicates hold exactly for nodes of that kind; and the semantic predicate is false exactly for line breaks, comments, metadata and tags.",
  ["inputs"], "every node of every tree and every list of names",
  "The top-level package has no tests of its own.",
  ["goclj.go"], [("FnFormSymbol/FnFormKeyword", "goclj.go"), ("Semantic", "goclj.go")], ["goclj.FnFormSymbol", "goclj.FnFormKeyword", "goclj.Semantic"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
