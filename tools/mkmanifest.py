#!/usr/bin/env python3
"""Writes MANIFEST.json. Run in /verif."""
import json
BASE="Every path of the harness over the real code (parser, helpers, printer; SSA rebuilt from the working tree) is explored for the symbolic inputs of the templates listed as bounds in the evidence file; Z3 decides every branch and assertion. Inputs outside the templates are not covered. Trusted: go/ssa, the engine (validated on each run by replaying solver models of sampled paths through the compiled code), Z3. Violations are only reported after the compiled code reproduces them."
N={
"C01":"Round trip Parse/String/Parse against the tree of the original text.",
"C02":"String of the reparsed text against the text.",
"C03":"Totality, error texts and the positions they name.",
"C04":"Against an independent recursive-descent reader of the documented grammar, for all four combinations of the comment options.",
"C05":"Tree against the tree of the independent reader.",
"C06":"Comments of tree and printed text against the independent reader; IgnoreComments variant.",
"C07":"Warnings against the gaps found by the independent reader; tree and text compared with the option off.",
"C09":"Number literals through Parse and String (text and bit patterns of the value).",
"C10":"Quote type selection, escaping and unescaping of values.",
"C11":"The three quoting modes against the content the printed string denotes.",
"C12":"Callback order, cursor contents and tree after scripts of cursor operations against a list model.",
"C19":"Trees built through the constructors, printed and parsed again.",
"C13":"Histories of parses; tree, text, warnings, error text and farthest failure of every parse compared with the same parse alone in a new process, earlier results and the memory of the caller re-read.",
"C14":"ParseReader with every chunking decided by symbolic choices and a reader failing at every position with several kinds of errors; ParseFile over a model of the file system with faults and different file names.",
"C20":"Every expression limit, Statistics, Memoize, AllowInvalidUTF8, Debug, Recover, entry point, store and restored options compared with the plain parse and the reference reader.",
"C21":"Two logical threads, the schedule being a sequence of symbolic choices at every access to shared memory, lock, pool and map operation, up to the stated number of preemptions; data races by conflicting pending accesses.",
"C15":"Through app.Execute, package os replaced by a model of the working directory with faults chosen symbolically, cobra and viper by stand-ins; exit status, both streams and the files compared with what the parser says about each file.",
"C16":"Through app.Execute as C15; printed or written texts against the formatted text of each file, order, abort at the first broken file, write faults, full standard output.",
"C17":"Through app.Execute as C15; the report against plugins, ids and exceptional gaps found by the independent reader.",
"C18":"Through app.Execute as C15; the rewritten file read by the independent reader, the added ids taken off again and the trees compared; second run.",
"C22":"Two logical threads ask all questions about one tree in opposite orders, schedules as in C21; answers compared with each other, with later answers and with a new process; tree and backing arrays re-read.",
"C23":"Two texts of the same configuration, one with symbolic white space, parsed and printed.",
"C24":"Symbolic choice of the error and of each wrapping; recognition and texts against a model.",
"C25":"Texts broken at a known (symbolic) place; the positions and quotations of the error and the farthest failure against this place.",
"C26":"Expressions counted by the parser for a text with n, 2n and 4n repetitions or levels of symbolically chosen constructs, and per byte of arbitrary texts.",
"C08":"Positions against the offsets of the independent reader.",
}
import importlib.util,sys,os
extra=os.path.join(os.path.dirname(__file__),'manifest_extra.json')
if os.path.exists(extra): N.update(json.load(open(extra)))
ids=[json.loads(l)['id'] for l in open('properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[],
 "hooks":{"guard":"verif","enable":"no hooks: harnesses enter the build through an overlay (go build -overlay), /repo holds no instrumentation","source_commits":[]},
 "notes":"check.sh PROPERTY TIER runs the symbolic executor /verif/engine on /repo; replay.sh FILE runs a counterexample against the compiled code. See DESIGN.md."}
for i in ids:
    if i in N:
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":"symbolic execution of the Go SSA of the real code, branches and assertions decided by Z3","level":"model_checking",
          "level_note":N[i]+" "+BASE,"evidence_file":f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property":i,"reason":"no check"})
json.dump(m,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
