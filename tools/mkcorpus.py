#!/usr/bin/env python3
"""Writes corpus/: one regression case for each repaired defect (and property).

Usage: mkcorpus.py           write corpus/ and the "fixed:" lines of known_findings.txt
       mkcorpus.py verify    also check, in scratch worktrees, that each case fails
                             right before its repair and passes with it
"""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEF = ["sort-import-require", "enforce-ns-style", "remove-trailing-newlines", "fix-defn-arglist-newline",
       "fix-defmethod-dispatch-val-newline", "remove-extra-blank-lines", "fix-if-newline-consistency"]
USE, UNUSED = "use-to-require", "remove-unused-requires"
cases = []

def case(commit, ids, what, case):
    for id in ids.split():
        cases.append((commit, id, what, case))

def fmt(commit, ids, what, text, on=(), only=None, **opts):
    o = {"On": list(only) if only is not None else DEF + list(on)}
    o.update(opts)
    for id in ids.split():
        c = {"Text": text, "Opts": o}
        if id in ("C07", "C08", "C09"):
            c = {"Text": text}
        if id == "C11":
            c = {"Text": text, "Repeat": 1, "Chunks": [], "Fault": -1, "WFault": -1}
        cases.append((commit, id, what, c))

fmt("84563b3", "C06", "the program crashed on #_, ^ and #= followed by a line break or comment", "#_\na b")
fmt("a7f88f3", "C01 C07", "~ @x was printed as ~@x", "~ @x")
fmt("5633ce7", "C01 C02", "# _x was printed as #_x", "# _x y")
fmt("054ec39", "C07", "non-breaking spaces were taken for whitespace", "a\u00a0b")
fmt("054ec39", "C07", "U+001C was not taken for whitespace", "a\x1cb")
fmt("a4de59d", "C07", "\\backspace was read as U+007F", "\\backspace")
fmt("a4de59d", "C07", "short octal character literals were rejected", "\\o7")
fmt("a4de59d", "C07", "surrogates were accepted as character literals", "\\ud800")
fmt("1c99264", "C08", "positions of tags and reader conditionals were those after the #", "a #?(:clj 1) #t x")
case("03988c8", "C11", "the goroutine of the lexer was left behind when parsing failed", {"Text": "(a ] b c d e f g", "Repeat": 50, "Chunks": [7], "Fault": -1, "WFault": -1, "Short": False, "File": False})
fmt("e4f477a", "C09", "more than the discarded and comment forms was ignored", "#_^a b c")
fmt("e4f477a", "C09", "comment forms were not ignored if a line break or comment comes first", "( ;x\ncomment a)")
fmt("d11dd14", "C08", "positions of namespaced maps were those after the #", "#:a{:b 1}")
fmt("916aa78", "C01 C02 C03", "code after a comment ended by a carriage return became part of the comment", "(;\r)")
fmt("ddc72ea", "C02", "a def's value followed only by a comment was taken for a docstring", "(def v\"\na\";\n)")
fmt("c665203", "C04", "imports such as . and Foo. were split into empty symbols", "(ns(import .))")
fmt("4708b75", "C20", "old-style ns clauses were not recognized before their requires were looked at", "(ns(())(require[b :as s]))", [UNUSED])
fmt("4404cd9", "C01 C15", "sorting an ns clause separated metadata and tags from their form", "(ns (require #t b a))")
fmt("8feb970", "C16", "quoted and discarded forms in ns clauses were rewritten", "(ns(require\n#_^: a))", only=["enforce-ns-style"])
fmt("8feb970", "C01", "quoted and discarded forms in ns clauses were rewritten", "(ns(require '^e a))")
fmt("0efe83d", "C03 C19", "use-to-require lost the order, comments and metadata of requires", "(ns(:require[s;\n]))", [USE])
fmt("16cb6a9", "C04 C16", "no line break was put after :require if a comment or metadata follows", "(ns(require;\nb a))")
fmt("f4a4e3c", "C04", "the depth of docstring lines indented with tabs changed with each run", "(ns p\n\"\n   a\"())", Tab=True)
fmt("01359b3", "C01 C03", "a defn arglist was moved into a comment", "()(defn;\n[]a)")
fmt("01359b3", "C01 C03", "a defmethod dispatch value was moved into a comment", "(defmethod;\n: a)")
fmt("f0a050a", "C04", "an arglist was moved up although there is no name", "(defn\n\n\n[]a)")
fmt("121b761", "C12", "the second form of a pair was indented once per blank line", "{a\n\na}", only=[])
fmt("0bbb00d", "C12", "columns were counted in bytes", "[é(\na)]")
fmt("a7cd4e8", "C12", "forms that start a line were taken to be at another column than they are", "(deftype(\na)(\na))")
fmt("fbcf0ab", "C12", "the let rule was not applied in function literals", "#(let[a\na])")
fmt("55a5216", "C12 C22", "metadata counted as a threaded position", "(()(cond-> a^a(condp[]b\na)))")
fmt("2be663e", "C12", "the letfn rule was applied to all vectors", "(letfn[([])][(\na)])")
fmt("a116291", "C13", "an override for the bare name was preferred to one for the symbol as written", "(my.ns/f;\n())", Indent={"f": "cond0", "my.ns/f": "cond1"})
fmt("74c7709", "C13", "the aliases of requires with other options were not used", "(ns a(:require[my.ns :as m :include-macros true]))\n(m/f a\nb)", Indent={"my.ns/f": "cond4"})
fmt("c570f2d", "C15", "ns entries with a quoted or discarded form were sorted by it", "(ns(:require '^e a b))")
fmt("c570f2d", "C15", "ns entries with a discarded form were sorted by it", "(ns(:require c [#_x b]))")
fmt("2ecbd2a", "C17", "a single blank line at the start of the file was removed", "\n\n")
fmt("d8a344b", "C18", "line breaks elsewhere than before the arms of an if counted", "(if\na a a)")
fmt("7060d6a", "C21", "docstrings of bare ns forms were not recognized", "(ns f\"\nt\")", only=[])
fmt("0a2d44d", "C18", "arglists after names with metadata were not found", "(defmethod ^m x\n:a\n[] b)")
fmt("0a2d44d", "C18", "arglists after names with metadata were not found", "(defn ^m x\n[] a)")
fmt("078d347", "C20", "the symbol / did not count as a use of a referred /", "(ns a(:require[b :refer[/]]))/", [UNUSED])
fmt("a769363", "C20", "imports in lists that start with a discarded form did not count as uses", "(ns a(:require[a.b :as c])(:import(#_x a.b C)))", [UNUSED])
fmt("4d12671", "C20", "unused requires written as (lib) were kept when requires were consolidated", "(ns(:require(o)))", [USE, UNUSED])
fmt("84e060e", "C20", "discarded import clauses counted as uses", "(ns(:require[]a)#_#_()(:import(a)))", [UNUSED])
sp = lambda t, r, blank, on=DEF, **o: {"Text": t, "Respaced": r, "Blank": blank, "Opts": dict({"On": on}, **o)}
case("121b761", "C14", "blank lines changed the indentation of the second form of a pair", sp("{a\n\n\n1}", "{a\n1}", True, []))
case("21e162c", "C14", "blank lines changed the indentation of an empty method", sp("(deftype A B\n(\n)\nx)", "(deftype A B\n(\n\n)\nx)", True, []))
h = lambda texts, opts, items, reused=(), steps=(), rounds=1: {"Texts": texts, "Opts": opts, "Items": [{"Text": a, "Opts": b} for a, b in items], "Reused": list(reused), "Steps": list(steps), "Rounds": rounds}
full = {"Mode": "full", "On": DEF + [USE]}
case("bebc11e", "C05", "formatting at the same time used a newline node of other trees",
     h(["(ns a\n(:use b)\n(:require c d))\n"] * 2, [full], [(0, 0), (1, 0)] * 4, rounds=30))
case("994f4d4", "C05", "printing changed the caller's transforms", h(["(ns a)"], [{"Mode": "partial", "Set": {}, "On": []}], [(0, 0)]))
case("994f4d4", "C05", "printing exposed the default transforms", h(["(ns a)"], [{"Mode": "nil", "On": []}], [(0, 0)]))
case("e31e0fc", "C05", "a printer used the requires of trees it printed before",
     h(["(ns a (:require [my.ns :as m]))\n(m/f\n1\n2)", "(m/f 1\n2)"], [{"Mode": "nil", "On": [], "Indent": {"my.ns/f": "list-body"}}], [(0, 0), (1, 0)], [0, 1]))
mode = lambda text, **k: dict({"Files": [{"Name": "f0.clj", "Text": text, "Mode": 0o644}], "Args": ["f0.clj"], "List": False, "Write": False, "Stdin": False, "Out": "", "Nobody": False}, **k)
case("16eec8b", "C23", "errors writing to standard output were not reported", mode("(a)\n", Out="full"))
case("8cf8107", "C23", "a file that could not be written completely was left cut short", mode("(a\nb)" * 50, Write=True, Limit=100))
cfg = lambda text, bad, src="(foo\na)", **k: dict({"Text": src, "Flag": dict({"Present": True, "Text": text, "Bad": bad, "Ext": None, "ExtSet": False, "Indent": None, "TF": None}, **k),
     "Env": {"Present": False, "Text": "", "Bad": False}, "Home": {"Present": False, "Text": "", "Bad": False}, "UseFlag": True, "UseEnv": False, "UseHome": False, "Transforms": None, "FlagFirst": True, "SetTwice": False, "Write": False})
case("33f8639", "C25", "configuration keys that are not keywords were ignored", cfg("{foo 1}", True))
case("5a02207", "C25", "discarded forms in a configuration were not ignored", cfg("{} #_{:x 1}", False))
tree = lambda files, args, links=(), **k: dict({"Files": [{"Path": f, "Bad": False} for f in files], "Dirs": [], "Args": args, "Set": False, "Mode": "", "Links": [{"Path": p, "To": t} for p, t in links]}, **k)
case("95ce0de", "C24", "directories given as symbolic links were skipped", tree(["d/a.clj"], ["l"], [("l", "d")]))
case("860765f", "C24", "links to directories named like Clojure files made cljfmt fail", tree(["d/a.clj"], ["."], [("l.clj", "d")]))
fmt("2324866", "C01 C02 C07", "bytes that are not valid UTF-8 were replaced", {"base64": "ImNhZukiCjv//gph6WI="})  # "caf\xe9"\n;\xff\xfe\na\xe9b

names = {}
def write():
    shutil.rmtree(os.path.join(here, "corpus"), ignore_errors=True)
    out = []
    for commit, id, what, c in cases:
        d = os.path.join(here, "corpus", id)
        os.makedirs(d, exist_ok=True)
        n = 1
        while os.path.exists(os.path.join(d, "%s-%d.json" % (commit, n))):
            n += 1
        path = os.path.join(d, "%s-%d.json" % (commit, n))
        json.dump({"property": id, "message": what, "case": c, "origin": "repaired in " + commit}, open(path, "w"), indent=1, ensure_ascii=False)
        names[path] = (commit, id)
        text = json.dumps(c.get("Text", c.get("Texts", c.get("Files"))), ensure_ascii=False)
        out.append("fixed: property=%s %s %s: %s" % (id, commit, what, text if len(text) < 120 else os.path.relpath(path, here)))
    head = open(os.path.join(here, "tools", "known.txt")).read()
    open(os.path.join(here, "known_findings.txt"), "w").write(head + "\n".join(out) + "\n")

def verify():
    bad = 0
    for commit in sorted({c for c, _ in names.values() if len(sys.argv) < 3 or c in sys.argv[2:]}):
        for rev, want in ((commit + "^", 1), (commit, 0)):
            d = tempfile.mkdtemp(prefix="verif-corpus-")
            os.chmod(d, 0o755)
            try:
                subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", d + "/repo", rev], check=True)
                shutil.copytree(here + "/harness", d + "/harness")
                m = open(d + "/harness/go.mod").read().replace("=> /repo", "=> " + d + "/repo")
                open(d + "/harness/go.mod", "w").write(m)
                race = ["-race"] if any(id == "C05" for c, id in names.values() if c == commit) else []
                r = subprocess.run(["go", "build"] + race + ["-o", d + "/verif", "."], cwd=d + "/harness")
                if r.returncode:
                    print(rev, "does not build"); bad += 1; continue
                subprocess.run(["go", "build", "-o", d + "/cljfmt", "./cljfmt"], cwd=d + "/repo", check=True)
                env = dict(os.environ, VERIF_CLJFMT=d + "/cljfmt", GORACE="halt_on_error=1 exitcode=66")
                for path, (c, id) in sorted(names.items()):
                    if c != commit:
                        continue
                    r = subprocess.run([d + "/verif", "replay", path], capture_output=True, text=True, env=env)
                    ok = (r.returncode != 0) == bool(want)
                    if not ok:
                        bad += 1
                    print("ok " if ok else "BAD", rev, os.path.relpath(path, here), r.returncode, "" if ok else (r.stdout + r.stderr)[-1500:])
            finally:
                subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", d + "/repo"])
                shutil.rmtree(d)
    print(bad, "bad")

write()
if sys.argv[1:2] == ["verify"]:
    verify()
