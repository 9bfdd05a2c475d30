import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
G="logstash_config.go"; H="logstash_config_helper.go"; A="ast/ast.go"; AH="ast/ast_helper.go"
p("C01","Formatting preserves the configuration",
 "For every configuration text that parses, the formatted text (the printed parse result) parses again, and yields the same input, filter and output sections with the same plugins, attributes, values (including quote style), conditions and nesting in the same order. Only layout may change: positions, white space, section grouping by type, and an else block that is completely empty (no plugins, no comments), which may be dropped.",
 ["inputs"],"every byte string accepted by the parser","tests format a few dozen hand-written configurations; the claim is over all accepted texts, incl. strings, regexps, selectors and comments containing quotes, braces, '#' or newlines in nested blocks",
 [A,AH,G,H],[("String methods of all nodes",A),("indentation of nested blocks without touching string contents",AH),("parser actions",H)],["config.Parse result, String() of it, Parse of that text"])
p("C02","Formatting is idempotent",
 "For every configuration text that parses, formatting it once gives a text that formatting leaves byte-for-byte unchanged.",
 ["inputs"],"every byte string accepted by the parser","golden files cover a few inputs; blank lines, comment spacing and indentation interact over all nestings",
 [A,AH,H],[("layout rules in String methods",A),("prefix indentation",AH),("comment spacing (SpaceBefore/SpaceAfter)",H)],["String() of Parse(x) vs String() of Parse(String() of Parse(x))"])
p("C03","Parsing any input ends in a configuration or a proper syntax error",
 "For every byte string and every combination of the comment options, parsing terminates without panicking and returns either a configuration and no error, or a non-nil error. The error describes a problem of the text (a syntax error, an invalid encoding or a number out of range): it is never an internal failure such as a runtime error, a failed type conversion or an unsupported-type message, and every position it names lies inside the text.",
 ["inputs","configurations"],"all byte strings (valid UTF-8 or not), options IgnoreComments / ExceptionalCommentsWarning on or off","tests use a list of known broken inputs; totality is a claim over all byte strings",
 [G,H,"parse_error_helper.go"],[("panic recovery and error list of the parser",G),("fatalError / pushError",'parse_error_helper.go'),("type switches of the actions",H)],["return values of config.Parse; GetFarthestFailure"])
p("C04","The parser accepts exactly the documented Logstash grammar",
 "A text is accepted if and only if it is a sentence of the documented grammar (the Logstash grammar with the deviations the repository documents: no method calls, a comment may end at end of file, an opening bracket is not allowed inside a selector element), is valid UTF-8, has no number out of range and is not cut short by the hard errors the grammar documents. Acceptance does not depend on the comment options.",
 ["inputs"],"every byte string","tests contain positive and negative examples; the language is infinite, and an over- or under-accepting rule only shows on the specific texts near its boundary",
 [G,"logstash_config.peg","grammar.treetop"],[("PEG rules",G),("hard errors",'parse_error_helper.go')],["error result of config.Parse against an independent recogniser of the documented grammar"])
p("C05","The parse result represents the text faithfully",
 "For every accepted text the returned tree contains exactly the sections, plugins, branches (if, else-if, else), conditions, operators, attributes and values that were written, in written order, nested as written. Names, strings, barewords, regexps and selector elements carry exactly the characters between their delimiters together with their quote kind, and numbers carry the written value.",
 ["inputs"],"every accepted byte string","tests compare trees for a few dozen inputs; wrong association, lost or reordered elements appear only for particular combinations",
 [G,H,A],[("AST building actions",H),("label plumbing of the generated parser",G),("node constructors",A)],["tree returned by config.Parse, through the public fields and accessors of package ast"])
p("C06","Comments are kept, in order and at their element",
 "For every accepted text, each comment at a regular place (before a section, plugin, branch, else-if, else, attribute, array element or hash entry, or before the closing delimiter of a section, block, plugin, array, hash or the end of a file with sections) is in the tree at the element it precedes (or as its footer), in order, with its text trimmed of surrounding blanks, and formatting writes each of them exactly once, before that same element. With IgnoreComments the tree is the same but without any comment.",
 ["inputs","configurations"],"every accepted byte string; option on and off","tests show single placements; losing or duplicating a comment depends on the combination of placements, blank lines and repeated sections",
 [H,A,G],[("commentBlock / comment actions",H),("comment printing in String methods",A)],["CommentBlock/FooterComment of nodes, their String(), the formatted text"])
p("C07","Exceptional-comment warnings are exact and have no side effect",
 "With the exceptional-comments option on, the result carries exactly one warning per exceptional place of the accepted text that contains a comment (between an opening keyword or name and its brace, around =>, before a comma in an array, and inside conditions), in text order, naming the position where that gap starts (its exact byte offset; if the gap starts with a newline the parser's line and column count this newline as column 0 of the next line); comments at regular places never warn. The option changes nothing else of the result, and without it there are no warnings.",
 ["inputs","configurations"],"every accepted byte string; option on and off","tests probe the places one at a time with one comment; warnings of abandoned alternatives, repeated gaps and nested conditions need combinations",
 [H,G,"logstash_config_options.go"],[("state handling across backtracking",G),("warnComment, retConfig",H)],["ast.Config.Warnings"])
p("C08","Reported positions point at the element",
 "For every accepted text, each node of the tree that stands for written text reports the byte offset where its text starts, and line and column of that offset (line = 1 + preceding newlines, column = 1 + characters since the last newline; tabs, carriage returns and multi-byte characters count as one). No such node reports a zero position. A hash entry reports the position of its key.",
 ["inputs"],"every accepted byte string, incl. multi-line strings, CRLF and multi-byte characters","position tests pin one fixture; offsets after multi-byte characters, backtracking or repeated elements are not sampled",
 [G,H,A],[("position tracking while reading and restoring",G),("astPos in actions",H),("Pos methods",A)],["Pos() of every node"])
p("C09","Numbers survive formatting",
 "For every number the grammar accepts and every finite number put in a tree with the constructor, the printed number is accepted by the parser as a number and denotes the same value. Printed numbers never use an exponent.",
 ["inputs"],"all number literals -?digits(.digits?)? and all finite float64 values within the bound","tests sample a handful of values around the switch to exponent form",
 [A,H],[("NumberAttribute.ValueString",A),("number action",H)],["NumberAttribute.ValueString, Value"])
p("C10","Escape and Unescape are inverse and escape exactly the documented characters",
 "For every string, Unescape(Escape(s)) is s; Escape replaces exactly carriage return, newline, tab, backslash, double and single quote by their two-character sequences and keeps every other byte. Unescape replaces exactly these six sequences, scanning left to right, and keeps every other byte, unknown sequences included.",
 ["inputs"],"all byte strings, incl. invalid UTF-8","tests have 8 strings",
 ["ast/astutil/escape.go"],[("Escape, Unescape",'ast/astutil/escape.go')],["astutil.Escape, astutil.Unescape"])
p("C11","Quoting yields valid Logstash literals or an error",
 "Quote returns an error exactly if the value cannot stand between the requested quotes (or as bareword) as it is; otherwise the result parses back as one literal of the requested kind whose content is the value. QuoteWithEscape changes a value only by putting a backslash before unescaped quotes (barewords: replacing disallowed characters by '_'), and for every value that does not end in a backslash (barewords: of at least two characters) its result parses back as one literal of the requested kind.",
 ["inputs"],"all strings (valid UTF-8) and the three quote kinds","tests have 6 strings per kind",
 ["ast/astutil/quote.go"],[("Quote, QuoteWithEscape",'ast/astutil/quote.go')],["astutil.Quote, astutil.QuoteWithEscape, then config.Parse of a plugin with that literal"])
p("C12","ApplyPlugins visits every plugin once, in order, and applies edits exactly",
 "For every tree and every sequence of cursor operations chosen by the callback, the callback is called exactly once for each plugin originally in the tree, in document order, and never for inserted or replacement plugins; during the call the cursor's plugin, index and parent denote that plugin. The returned tree is the original one with exactly the requested deletions, replacements and insertions at the requested places. (Nothing is requested for a plugin after its deletion in the same call, and the blocks of the tree do not share the memory of a slice.)",
 ["inputs","programs","histories"],"all trees and operation sequences (none, delete, replace, insert before, insert after and sequences of them) within the bound","tests use one kind of operation per run on fixed trees",
 ["ast/astutil/apply.go"],[("Cursor, iterator step",'ast/astutil/apply.go')],["astutil.ApplyPlugins, Cursor methods"])
p("C13","Parses do not influence each other",
 "The outcome of a parse (tree, warnings, error text, farthest-failure report) is the same whatever was parsed before in the process, with whatever options and whether it succeeded or failed. GetFarthestFailure after a parse (not stopped by an expression limit before it starts to read) tells about that parse only, reports nothing before any parse, and a tree obtained earlier, the caller's input buffer and previously returned texts are not changed by later parses or by formatting.",
 ["histories","inputs","configurations"],"all sequences of two or three parses over symbolic texts and option sets","tests parse once per case; leftovers of global state need a history",
 [H,"parse_error_helper.go",G,"logstash_config_options.go"],[("reset of the global farthest failure",H),("per-parser state and options",G)],["config.Parse twice in one process, config.GetFarthestFailure"],[("farthestFailure","package-level list of candidate errors","parse_error_helper.go")])
p("C14","All parse entry points agree",
 "Parse, ParseReader (for every way the reader splits the data, and also if it returns data together with io.EOF) and ParseFile return the same tree and the same error for the same bytes and name. If reading fails, the reader's (or file's) error is returned and no tree; options have the same meaning in all three.",
 ["inputs","fault_sequences"],"all byte strings within the bound, all chunkings, all failure points","tests call Parse/ParseReader with in-memory data only",
 [G],[("ParseFile, ParseReader, Parse",G)],["the three functions, an arbitrary io.Reader"])
p("C15","check reports exactly the broken files",
 "mustache check succeeds (exit status 0, no output) if and only if every named path that is not a directory exists, is readable and parses. Otherwise it exits with 1 and the error output has one entry per failing argument, in argument order, each naming the file and its own reason, and no other; no file is changed.",
 ["inputs","histories","fault_sequences"],"all lists of up to three paths over: valid, invalid, empty, directory, missing, unreadable","the command has no tests at all",
 ["internal/app/check/check.go","internal/app/app.go","internal/app/check.go","internal/format/multierr.go"],[("error accumulation",'internal/app/check/check.go'),("exit code",'internal/app/app.go'),("report layout",'internal/format/multierr.go')],["exit status, stderr, file contents after app.Execute"])
p("C16","format writes exactly the formatted text and never damages a file",
 "mustache format prints the formatted text of each file to standard output, in argument order, and changes no file (directories are skipped); with -w / --write-to-source it prints nothing and each parsable file afterwards contains exactly its formatted text. A file that cannot be read or parsed is never modified, is named in the error, gives exit status 1, and ends the run at that file: earlier files are completely processed, later ones untouched; a failing write is reported with exit status 1.",
 ["inputs","histories","fault_sequences"],"lists of up to three files over valid, invalid, empty, directory, missing; both modes; failing create / write","the command has no tests at all",
 ["internal/app/format/format.go","internal/app/format.go","internal/app/app.go",A],[("Run",'internal/app/format/format.go'),("flag wiring",'internal/app/format.go')],["stdout, stderr, exit status, file contents after app.Execute"])
p("C17","lint reports exactly the problems",
 "mustache lint (without --auto-fix-id) succeeds if and only if every file parses, has no exceptional comments, and every plugin statement in it (not the plugins given as values) has an id that is unique within the file. Otherwise it exits with 1 and reports, per file in argument order, each exceptional comment, each plugin without a usable id, which is the string value of its first attribute named id, quoted or not (position and name) and each plugin repeating an earlier id of the same file (position and name), and nothing else; files are never changed.",
 ["inputs","histories"],"all configurations and lists of files within the bound","the command has no tests at all",
 ["internal/app/lint/lint.go","ast/astutil/apply.go",A,H],[("validator.walk",'internal/app/lint/lint.go'),("Plugin.ID",A)],["exit status, stderr, file contents after app.Execute"])
p("C18","lint --auto-fix-id only adds missing ids",
 "With --auto-fix-id every parsable file is afterwards a configuration equal to the original except that each plugin that had no id attribute has exactly one, appended as its last attribute; the added ids differ from each other and from all ids already present in the file, and a second run changes nothing. The remaining problems are reported as lint reports them. A file in which every plugin has an id attribute, and a file that does not parse, is not written at all.",
 ["inputs","histories"],"all configurations and lists of files within the bound; repeated runs","the command has no tests at all",
 ["internal/app/lint/lint.go","ast/astutil/apply.go",A],[("validator.walk, write back",'internal/app/lint/lint.go'),("Cursor.Replace",'ast/astutil/apply.go')],["file contents before and after app.Execute, exit status"])
p("C19","Trees built with the constructors print to what they say",
 "A configuration assembled with the exported constructors from valid parts (names, values, conditions, operators, comments where the grammar keeps them, hash entries with a value, no array of one plain element in a condition; nil entries are skipped) prints to a text that parses to a tree equal to the assembled one, and every accessor (name, value, value string, quote kind, operator, plugin id) returns what the constructor was given. A plugin's id is the value of its first id attribute; it is a not-found error exactly if there is none and another error if it is not a string.",
 ["programs","inputs"],"all trees up to the bound, built from every constructor, with symbolic names and values","tests print fixed trees",
 [A,"ast/errors.go"],[("constructors, accessors, String",A),("not-found error",'ast/errors.go')],["ast.New*, accessors, String, then config.Parse"])
p("C20","Parser options do only what they say",
 "An expression limit (MaxExpressions) leaves tree and error as without it if it is zero or at least the number of expressions the parse evaluates, and gives the limit error and no tree otherwise; Statistics never changes the result and counts exactly these expressions. Memoize never changes the result. AllowInvalidUTF8 accepts invalid encodings inside strings, comments, regexps and selectors without changing any other text's result, and applying the option an option returns restores the former setting. Debug, the entry point option with an empty name or the first rule's, and values stored with GlobalStore or InitState under keys of the caller never change the result; an unknown entry point gives an error and no tree. With Recover(false) the result is the same, except that a panic, which otherwise becomes the error, reaches the caller.",
 ["configurations","inputs"],"all option combinations, limits and texts within the bound","no option other than the comment options is used by any test",
 [G,"logstash_config_options.go"],[("option functions",G)],["config.Parse with options"])
p("C21","Concurrent parses do not disturb each other",
 "Parsing in several goroutines at once gives each goroutine the tree, warnings and error it would get alone, without data races or crashes, under every interleaving.",
 ["schedules","inputs"],"all interleavings of two concurrent parses (and GetFarthestFailure) at accesses to shared memory, within a context-switch bound","tests never run two parses at the same time",
 ["parse_error_helper.go",H,G],[("shared farthest failure list",'parse_error_helper.go')],["config.Parse in two goroutines"],[("farthestFailure","package-level list written by every parse","parse_error_helper.go")])
p("C22","Looking at a tree changes nothing",
 "Printing a tree or a part of it and asking it for names, values, positions, comments and plugin ids depends only on the part that is asked: the answers are the same every time, in every order and from several goroutines at once (no data race), and neither the tree nor the memory of the caller around its lists is changed. The same holds for Escape, Unescape, Quote and QuoteWithEscape and their arguments.",
 ["inputs","histories","schedules"],"all trees within the bound, orders of questions and interleavings of two goroutines","tests print each tree once, in one goroutine; caches, shared buffers and in-place sorting show only on the second question, in another order or under an interleaving",
 [A,AH,"ast/astutil/escape.go","ast/astutil/quote.go"],[("String, ValueString, ID, Pos, accessors",A),("prefix indentation",AH),("Escape, Unescape",'ast/astutil/escape.go'),("Quote, QuoteWithEscape",'ast/astutil/quote.go')],["results of the exported methods; the tree and the backing arrays of its slices"])
p("C23","Formatting is canonical",
 "Configurations that say the same are printed the same: two accepted texts with equal sections of each type (comments and the blank lines directly around comments included) have the same formatted text, however their tokens are laid out, whatever white space separates them and in whatever order the sections of different types come.",
 ["inputs"],"every pair of accepted texts of the same configuration","tests compare single inputs with golden files; a formatter that lets the original layout (positions, order of sections) shine through passes them",
 [A,AH,H],[("layout rules in String methods",A),("indentation",AH),("comment spacing",H)],["String() of config.Parse of two texts"])
p("C24","Not-found errors are recognised through wrapping",
 "IsNotFoundError is true exactly if the error or one it wraps (with %w, errors.Join, github.com/pkg/errors or the library's constructors) has a NotFound method, so also for the error of Plugin.ID if there is no id attribute and not for its other error. The constructors keep the wrapped message: %v, %s and Print show \"not found: \" and the message, %+v the message's %+v, %q the quoted text. NewNotFoundError of nil is nil.",
 ["inputs","programs"],"all messages and chains of wrappings within the bound","tests wrap one fixed error once; chains of mixed wrappings and messages with % or quotes are not sampled",
 ["ast/errors.go",A],[("NewNotFoundError, NotFoundErrorf, Format, IsNotFoundError","ast/errors.go"),("Plugin.ID",A)],["ast.IsNotFoundError, fmt verbs on the error"])
p("C25","Syntax errors point at the broken element",
 "If an accepted text is broken at one place between two tokens, by a character that no token outside of quotes has or by cutting the text off there, the error names a position not behind this place and not before the opening delimiter of the innermost section, block, plugin, array, hash or parenthesis around it; where the error or GetFarthestFailure tells up to which offset the text was understood, this is not behind the place either. If only numbers out of range are wrong, the error names places where such numbers start. For every rejected text, the error names a position within the text, line and column belong to the offset (columns count characters; a newline has column 0 of the next line; 0:0 before anything was read), and the text that the message quotes is exactly the text between the two offsets it names (newlines as \\n).",
 ["inputs"],"all accepted texts, places and such characters within the bound","tests compare the messages of a list of broken inputs; offsets go wrong with multi-byte characters, long lines, backtracking and nesting",
 ["parse_error_helper.go",G],[("farthest failure, fatal errors",'parse_error_helper.go'),("failAt, addErr, position tracking",G)],["error text of config.Parse, config.GetFarthestFailure"])
p("C26","Parsing effort is proportional to the text",
 "For every text, accepted or not, the number of expressions the parser evaluates (as counted by Statistics, the unit of MaxExpressions; without Memoize) is at most 1000 for each byte of the text and one more, and it grows in proportion to the text: if an element of a configuration (section, statement, attribute, array element, hash entry, else-if, expression, selector element, comment, character) is repeated or constructs (blocks, values, conditions) are nested 4n times instead of 2n times, the additional effort is at most two and a half times (plus 200 expressions) the additional effort of 2n instead of n times, whether the text is complete, cut off or broken inside.",
 ["inputs"],"all constructs that can be repeated or nested, alternating pairs of them, complete and broken texts, within the bound","tests parse small texts, where a parser that evaluates nested constructs several times is still fast; the blow-up needs nesting, repetition or a broken inner part",
 [G,"logstash_config.peg"],[("order of the alternatives, hard errors instead of backtracking","logstash_config.peg"),("evaluation of the expressions",G)],["config.Statistics, config.MaxExpressions"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
