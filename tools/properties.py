# The properties, in one table. gen_meta.py writes properties.jsonl and MANIFEST.json from it.
HOOKS = None
SRV = "crates/aptos-language-server/src/"
TRUST = "Held on the executions observed, nothing more. "
SHIM = ("Third-party crates the sandbox lacks are stand-ins written for this work (see DESIGN.md), so a defect "
        "that needs the real crate's own behaviour is out of sight. ")
PROPS = []

def P(id, title, statement, over, quant, why, files, mech, technique, note="", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, technique=technique, note=TRUST + note, **kw))

P("C01", "Line-ending normalisation is exact",
  "Normalising a document removes exactly the carriage returns that stand directly before a line feed and changes "
  "nothing else: lone carriage returns, lone line feeds and every other character stay, in order. The reported style "
  "is DOS if and only if at least one such pair was present. It holds for texts of any length, number of line breaks "
  "and script.",
  ["inputs"], "every UTF-8 text, including mixed endings, CR runs, multi-byte characters next to line breaks, and more "
  "than 65535 line breaks",
  "Four short ASCII samples are tested; none has a lone CR, a CR run, a multi-byte character or a long text.",
  ["crates/stdext/src/line_endings.rs"], [("in-place gap compaction", "crates/stdext/src/line_endings.rs LineEndings::normalize")],
  "runtime monitoring: online oracle (character-loop reference model) over exhaustive-short, random and huge texts",
  "The oracle is exact, so any wrong output on a generated text is seen.")
P("C02", "Normalising line endings is memory-safe and yields valid UTF-8",
  "Normalising any valid text never reads or writes outside the text's own storage, never leaves uninitialised or "
  "stale bytes inside the result, and always yields well-formed UTF-8 no longer than the input. The result can be "
  "grown, shrunk and dropped like any other string.",
  ["inputs"], "every UTF-8 text in any allocation (exact fit, spare capacity)",
  "Tests run without sanitizers on four ASCII strings; the code edits raw bytes, sets lengths and skips UTF-8 validation.",
  ["crates/stdext/src/line_endings.rs"], [("unchecked length and UTF-8 conversions", "crates/stdext/src/line_endings.rs LineEndings::normalize")],
  "compiler sanitizer (AddressSanitizer) and Miri on the real code under random texts",
  "Red zones and Miri report only on what the workload reaches.")
P("C03", "Line endings survive the round trip through the server",
  "Restoring a DOS document writes a carriage return before every line feed and changes nothing else; restoring a Unix "
  "document returns it verbatim. A document whose line endings are uniform comes back byte for byte after normalising "
  "and restoring, and normalising a restored LF-only text returns that text with the style it was restored in.",
  ["inputs"], "every UTF-8 text in both styles",
  "No test restores a text at all.",
  ["crates/stdext/src/line_endings.rs"], [("restoring the file's own style", "crates/stdext/src/line_endings.rs LineEndings::map")],
  "runtime monitoring: online oracle and round-trip monitor over exhaustive-short, random and huge texts")

LEX = "crates/syntax/src/parse/lexer/"
GR = "crates/syntax/src/parse/grammar"
P("C04", "Source text splits into the tokens Move's lexical rules prescribe",
  "Every text is cut into tokens by longest match under Move's lexical rules, wherever the text stands in the file: "
  "nested block comments end at their matching close (an unclosed one runs to the end of the file), line comments end "
  "at the line feed, byte and hex strings honour escapes, hex and decimal numbers take underscores and a width suffix, "
  "identifiers, quoted identifiers and the operators are recognised, and any other character is one bad token. Token "
  "ends are byte positions on character boundaries, in comments and strings of any script. The parser may glue "
  "adjacent operator characters into one token, and the pieces of a name pattern in a spec, and nothing else.",
  ["inputs"], "every text: nested and unclosed comments and strings, non-ASCII text in them, numbers with any suffix, any character",
  "The fixture files are ASCII and well-formed almost everywhere; positions in non-ASCII comments are never compared.",
  [LEX + "move_model.rs", "crates/syntax/src/parse/text_token_source.rs"],
  [("tokeniser", LEX + "move_model.rs"), ("token gluing", "crates/syntax/src/parse/parser.rs Parser::eat, bump_remap_many")],
  "runtime monitoring: online differential oracle (a tokeniser written from the lexical rules) on the leaves of the real tree",
  SHIM)
P("C05", "Syntax trees are lossless, well-formed and deterministic",
  "For every text, the tree's leaves read left to right are the text, each token's range is exactly its slice of the "
  "text, the ranges of children tile their parent, no leaf is empty, and every syntax error lies within the text on "
  "character boundaries. A text whose tree has an error node or a bad character has at least one syntax error. Parsing "
  "the same text again gives an equal tree and equal errors, and a node pointer taken from one tree finds a node of the same kind and "
  "range in the other.",
  ["inputs"], "every text, well-formed or not",
  "Fixtures check the shape of some trees; none checks positions on text with errors in arbitrary places.",
  ["crates/syntax/src/parse.rs", "crates/syntax/src/parse/event.rs", "crates/syntax/src/parse/text_tree_sink.rs", "crates/syntax/src/lib.rs"],
  [("events to tree", "crates/syntax/src/parse/event.rs process"), ("trivia attachment", "crates/syntax/src/parse/text_tree_sink.rs")],
  "runtime monitoring: invariant monitor walking every tree produced from corpus, disturbed and random texts",
  SHIM)
P("C06", "Parsing terminates and never panics, whatever is being typed",
  "Parsing any text, however broken, returns a tree and its errors: no assertion, index or arithmetic failure, no "
  "endless loop, no exhaustion of the stack at nesting depths that code reaches. This includes every prefix of a "
  "file being typed, a file with any one token missing, any two tokens next to each other in any syntactic position, "
  "and any sequence of tokens.",
  ["inputs"], "every text",
  "Grammar functions assert on the current token and the recovery loops rely on progress; tests use chosen recovery cases.",
  [GR + ".rs", GR + "/", "crates/syntax/src/parse/parser.rs"],
  [("recovery and progress", "crates/syntax/src/parse/parser.rs Parser::iterate_to_EOF, error_and_recover"),
   ("markers must be completed", "crates/syntax/src/parse/parser.rs Marker")],
  "runtime monitoring: crash, panic and CPU-time monitor over enumerated prefixes, token deletions, token pairs and random texts",
  SHIM)
P("C07", "Blanks and comments do not change what a program means",
  "Replacing the blanks and comments between two tokens by any other blanks and comments, or opening a gap between two "
  "tokens that are not operators, changes neither the tree (blanks and comments aside) nor the list of error messages. "
  "Left alone are the blank before '<', which the grammar uses to tell a comparison from type arguments, joined "
  "operators, and documentation comments.",
  ["inputs"], "every text and every re-spacing of it",
  "Fixtures are written in one style of spacing; comments inside constructs are rare and comments holding code rarer.",
  ["crates/syntax/src/parse/text_token_source.rs", "crates/syntax/src/parse/parser.rs", GR + "/"],
  [("trivia skipping", "crates/syntax/src/parse/text_token_source.rs")],
  "runtime monitoring: metamorphic oracle (tree and errors before and after re-spacing)",
  SHIM)

LANG = "crates/lang/src/"
NR = LANG + "nameres/"
TY = LANG + "types/"
DG = "crates/ide-diagnostics/src/"
MM = ("runtime monitoring: conformance of every recorded worked example, and an online metamorphic oracle comparing every answer "
      "token by token across re-spaced, renamed, reordered and surrounded versions of the program")
P("C08", "No question about any file panics or answers outside the file",
  "With any text in a file, however broken, and any position in it, every editor question (definition, references, rename, "
  "hover, completion, signature help, diagnostics and their fixes, hints, highlighting, outline, selection, lenses, "
  "organise imports, symbol search, types) is answered without a panic or endless loop. Every range in an answer lies in "
  "the file it names, on character boundaries; edits do not overlap and apply.",
  ["inputs"], "every text (typed halfway, disturbed, made of random tokens, non-ASCII) and every offset",
  "Examples ask one question at one marked place of a text that is right, or wrong in one known way.",
  [LANG, "crates/ide/src/", "crates/ide-db/src/", DG, "crates/ide-completion/src/", "crates/syntax/src/ast/", "crates/syntax/src/syntax_editor/"],
  [("questions by offset", "crates/ide/src/lib.rs Analysis"), ("edits of trees", "crates/syntax/src/syntax_editor.rs")],
  "runtime monitoring: panic, CPU-time and range monitor over every question at every offset of intact, disturbed and random files",
  SHIM)
P("C09", "After any history of changes, answers are those of a fresh start",
  "After any sequence of changes (edits of files, files added, removed, moved between packages, specs or tests toggled, "
  "packages added and dropped, dependencies, named addresses and library flags changed, roots and graph replaced), with "
  "questions asked in between in any order, every answer equals the one a newly started analysis gives for the same files "
  "and packages. No memoised result outlives what it was computed from, and nothing of a file or package that is gone "
  "is left in any answer.",
  ["histories"], "every history of file and package changes interleaved with questions",
  "Every existing test loads one state and asks once.",
  ["crates/base-db/src/inputs.rs", "crates/base-db/src/change.rs", "crates/ide-db/src/root_db.rs", LANG + "hir_db.rs", "crates/ide/src/lib.rs"],
  [("applying changes", "crates/base-db/src/change.rs FileChanges::apply"), ("inputs of the queries", "crates/base-db/src/inputs.rs"),
   ("memoised queries", LANG + "hir_db.rs")],
  "runtime monitoring: online differential oracle (long-lived host against a host loaded from scratch) over random change histories",
  SHIM + "The incremental engine (salsa) is such a stand-in: it re-runs a query only if an input it read changed, as the real one does.")
P("C10", "Each name leads to the declaration the language's scoping rules pick",
  "A name leads to the declaration that Move's rules pick for it: innermost binding first, shadowing by later lets, "
  "function, type, module, schema, field, variant, label and method names each in their own space, imports and aliases, "
  "visibility, friends, packages and named addresses, test-only and spec-only scopes. A name without one leads nowhere. The choice "
  "does not depend on spacing, comments, the words chosen as names, the order of items, or unrelated code "
  "before and after. The specs of a function or struct are found likewise.",
  ["inputs"], "every program and every name in it, and every meaning-preserving rewriting of the program",
  "Each example checks one name in one layout.",
  [NR, LANG + "item_specs.rs", "crates/ide/src/goto_definition.rs", LANG + "node_ext/"],
  [("walking scopes", NR + "scope_entries_owner.rs, " + NR + "blocks.rs"), ("paths", NR + "path_resolution.rs"), ("visibility", NR + "is_visible.rs")],
  MM, SHIM)
P("C11", "Each expression has the type the program gives it",
  "The type shown for an expression or callee is the one Move's rules give it: literals, operators, calls with generics "
  "inferred from arguments and expectation, receiver-style calls, fields through references, vectors, tuples, lambdas, "
  "loops, matches over enums and references, specs (num, ranges, quantifiers). It does not depend on spacing, "
  "comments, the words chosen as names, the order of items, or unrelated code.",
  ["inputs"], "every program, every expression in it, and every meaning-preserving rewriting",
  "Each example checks the type of one expression.",
  [TY, "crates/ide/src/type_info.rs"],
  [("inference", TY + "inference/"), ("unification", TY + "unification.rs")],
  MM, SHIM)
P("C12", "Diagnostics report what is wrong, where it is, and nothing else",
  "A file's diagnostics are exactly the problems Move's rules find in it, each once, at its place, with its severity and "
  "message: syntax and type errors, unresolved names, wrong numbers of arguments, type arguments, fields and patterns, "
  "missing match arms, unused variables and imports, simplifications and the rest. A correct program has none. They "
  "do not depend on spacing, comments, the words chosen as names, the order of items, or unrelated code.",
  ["inputs"], "every program and every meaning-preserving rewriting",
  "Each example has one or two problems in one layout.",
  [DG + "handlers/", DG + "lib.rs", TY + "inference/"],
  [("checks by node", DG + "lib.rs semantic_diagnostics"), ("type errors", TY + "inference/")],
  MM, SHIM)
P("C13", "A quick fix removes the problem it is offered for and breaks nothing",
  "Applying an offered fix yields a text that still parses, in which that problem is no longer reported and no name has "
  "lost its meaning. Fixes touch only the files they may, and their edits do not overlap. Which fixes are offered, "
  "and what they do, does not depend on spacing, comments, the order of items, or unrelated code.",
  ["inputs"], "every diagnostic with a fix in every program",
  "Examples apply one fix to one tidy text each and look at nothing else in the result.",
  [DG + "handlers/", "crates/ide-db/src/imports.rs", "crates/syntax/src/syntax_editor.rs"],
  [("fixes", DG + "handlers/"), ("imports", "crates/ide-db/src/imports.rs"), ("editing trees", "crates/syntax/src/syntax_editor/")],
  "runtime monitoring: apply-and-reanalyse monitor on every offered fix, worked examples, metamorphic comparison of offers", SHIM)
P("C14", "References are what leads to a definition; renaming keeps every meaning",
  "The references of something are exactly the names, in all files of its package and the packages that depend on it, that lead to it. Renaming it to a "
  "fresh name changes these names and the declaration and nothing else (spelling out a field shorthand where a field and "
  "a variable part company), every name in the program then leads where it led before, no diagnostic appears, and renaming "
  "back restores the text. Built-in and library items, keywords and non-names are refused, and the prepared range is the "
  "name under the cursor.",
  ["inputs"], "every name of every program, asked for at its declaration or any use",
  "Seven renames and eight usage searches are tested, each from one place.",
  ["crates/ide-db/src/search.rs", "crates/ide-db/src/rename.rs", "crates/ide-db/src/defs.rs", "crates/ide/src/references.rs", "crates/ide/src/rename.rs"],
  [("search scope and word filter", "crates/ide-db/src/search.rs"), ("shorthands", "crates/ide-db/src/rename.rs"), ("what a name is", "crates/ide-db/src/defs.rs")],
  "runtime monitoring: cross-check of references against definitions, rename-and-reanalyse and rename-back monitors, metamorphic comparison", SHIM)
P("C15", "Completion offers what is in scope, and accepting it gives a name that resolves",
  "At a place where a name can stand, completion offers what is visible there under the language's scoping rules, of the "
  "kinds that fit, each once, and no more; what is accepted inserts text that resolves, with the import it needs added. "
  "In particular, any name that resolves in a program is among the proposals for that name.",
  ["inputs"], "every position of a name in every program, with any prefix typed",
  "Examples complete at one position each.",
  ["crates/ide-completion/src/"],
  [("proposals", "crates/ide-completion/src/completions/"), ("rendering and edits", "crates/ide-completion/src/render/"), ("imports on the fly", "crates/ide-completion/src/completions/reference/paths.rs")],
  "runtime monitoring: conformance of recorded worked examples; cross-check against name resolution, accept-and-reanalyse monitor", SHIM)
P("C16", "Inlay hints state the inferred types and parameter names",
  "Each binding without a written type is hinted with its inferred type, and each argument with the parameter it is "
  "passed for (unless its text says so already), at the right place and once. Hints restricted to a range are the hints "
  "of the file that lie in it. Hints do not depend on spacing, comments, the words chosen as names, or unrelated code.",
  ["inputs"], "every program and every range",
  "Few examples of hints exist, in tidy texts; none restricts the range.",
  ["crates/ide/src/inlay_hints.rs", "crates/ide/src/inlay_hints/"],
  [("hints", "crates/ide/src/inlay_hints/")], MM, SHIM)
P("C17", "Hover and signature help describe the thing under the cursor",
  "Hovering a name shows the declaration it leads to, with its documentation; inside an argument list (or type argument or "
  "field list) signature help shows the callee's parameters with the active one marked by the number of separators "
  "before the cursor. Neither depends on spacing, comments, the words chosen as names, the order of items or unrelated code.",
  ["inputs"], "every name and every position in an argument list of every program",
  "A few dozen examples, each at one place.",
  ["crates/ide/src/hover.rs", "crates/ide/src/hover/", "crates/ide/src/signature_help.rs"],
  [("active parameter", "crates/ide/src/signature_help.rs")], MM, SHIM)
P("C18", "Highlighting, outline, symbol search and code lenses follow the program",
  "Each token is coloured by what it is or leads to, the outline lists each declaration of the file once with its range "
  "and parent, symbol search finds every declaration whose name matches the query, and lenses offer to run "
  "each test and to show each function's specs, at their places. None of these depends on spacing, comments, the words chosen as "
  "names, the order of items or unrelated code.",
  ["inputs"], "every program and every query",
  "Examples are few and tidy.",
  ["crates/ide/src/syntax_highlighting.rs", "crates/ide/src/file_structure.rs", "crates/ide-db/src/symbol_index.rs", "crates/ide/src/annotations.rs", "crates/ide/src/runnables.rs"],
  [("colours", "crates/ide/src/syntax_highlighting.rs"), ("symbols", "crates/ide-db/src/symbol_index.rs")], MM, SHIM)
P("C19", "Organising imports drops what is unused and nothing else",
  "After organising imports the text parses, no name has lost or changed its meaning, no unused import is left, and organising again changes "
  "nothing.",
  ["inputs"], "every program with any imports: groups, aliases, Self, test-only and duplicate ones",
  "Twenty examples are compared with the expected text; none is organised twice or re-analysed.",
  [DG + "handlers/unused_import/", "crates/ide/src/lib.rs"],
  [("unused imports", DG + "handlers/unused_import/organize_imports.rs")],
  "runtime monitoring: apply-and-reanalyse and idempotence monitor; conformance of recorded worked examples", SHIM)
LSPT = "runtime monitoring: "
LSHIM = SHIM + "The real server process is driven; its transport, vfs and file watcher are stand-ins too. "
P("C20", "Every request to the language server gets exactly one fitting answer",
  "Whatever conversation a client holds with the server - known and unknown methods, well-formed and wrong parameters, "
  "positions outside the text, documents that do not exist, cancellations, odd notifications, edits, settings and folder "
  "changes while requests are under way, requests before the packages are loaded - each request is answered exactly once, "
  "under its own id, with a result or the error the protocol prescribes (unknown method, invalid parameters, cancelled, "
  "content modified, refused after shutdown). No request panics its handler, no message kills the server, the server ends "
  "when told to (successfully after `shutdown` and `exit`), every progress it begins it ends, and everything it writes is a well-formed message.",
  ["inputs", "schedules", "histories"], "every sequence and timing of messages from a client",
  "No test starts the server: only single handlers' underlying functions are tested.",
  [SRV + "main_loop.rs", SRV + "handlers/", SRV + "global_state.rs", SRV + "reload.rs", SRV + "task_pool.rs", "crates/aptos-language-server/src/bin/main.rs"],
  [("request dispatch", SRV + "handlers/dispatch.rs"), ("main loop", SRV + "main_loop.rs"), ("handlers", SRV + "handlers/request.rs")],
  LSPT + "online protocol monitor of recorded conversations with the real server process, random and hostile workloads", LSHIM)
P("C21", "The server's text of a document is the client's text",
  "After any history of opening, editing (whole text, ranges, several edits in one notification), saving, closing and "
  "reopening documents, and of files changing on disk, the server sees exactly the client's text of each open document "
  "and the disk's text of each other one, in every position encoding and with either line ending. An open document is not "
  "affected by changes on disk. Answers about the documents are those of a server freshly started on the same texts.",
  ["histories", "inputs"], "every history of document notifications, every text and position encoding",
  "No test synchronises a document.",
  [SRV + "handlers/notification.rs", SRV + "lsp/utils.rs", SRV + "opened_files.rs", SRV + "global_state.rs", SRV + "lsp/from_proto.rs"],
  [("applying edits", SRV + "lsp/utils.rs apply_document_changes"), ("open documents", SRV + "opened_files.rs")],
  LSPT + "model of the documents checked against the text the server holds (read back through its formatter), and against a fresh server", LSHIM)
P("C22", "Answers mean the same places in every position encoding and line ending",
  "The same question about the same program has the same answer, place for place and text for text, whether positions are "
  "counted in UTF-8, UTF-16 or UTF-32, whether lines end in LF or CRLF, and in whichever form the client takes answers "
  "(plain locations or links, flat or nested symbols, markdown or plain text). Every range answered lies in its document "
  "on character boundaries; edits' new text has the document's line endings; semantic tokens are in order and do not "
  "overlap; a symbol's selection range lies in its range; a hover's or selection's range holds the position asked about.",
  ["inputs"], "every program with characters of any width, every request, encoding, line ending and client capability",
  "Conversions are not tested at all; every fixture is ASCII with LF.",
  [SRV + "lsp/to_proto.rs", SRV + "lsp/from_proto.rs", SRV + "lsp/semantic_tokens.rs", SRV + "line_index.rs", SRV + "lsp/capabilities.rs", SRV + "config.rs"],
  [("conversions", SRV + "lsp/to_proto.rs"), ("token deltas", SRV + "lsp/semantic_tokens.rs")],
  LSPT + "differential comparison of servers that differ in encoding, line ending or client capabilities; shape monitors on all answers", LSHIM)
P("C23", "What an answer leaves to be resolved later comes out the same",
  "A code action, inlay hint, code lens or completion resolved on demand is the one a client that resolves nothing gets at "
  "once: same edit, same label and tooltip, same command, same additional edits. Asking for certain kinds of actions gives "
  "exactly the actions of those kinds. Resolving after the document changed is refused (content modified) or answered for "
  "the item asked about, never with another item's edit. Edits answered do not overlap and lie in the text.",
  ["inputs", "histories"], "every program, place and client capability, and changes between asking and resolving",
  "No test resolves anything.",
  [SRV + "handlers/request.rs", SRV + "lsp/to_proto.rs", SRV + "lsp/ext.rs"],
  [("resolution", SRV + "handlers/request.rs handle_code_action_resolve, handle_completion_resolve, handle_inlay_hints_resolve"), ("versions", SRV + "lsp/to_proto.rs code_action")],
  LSPT + "differential comparison of resolved against immediate answers of the real server", LSHIM)
P("C25", "Settings do what they say, at start and whenever they change",
  "After any history of settings the answers (diagnostics, hints, lenses, completions, formatting) are those of a server with everything on, cut "
  "down exactly as the settings in force say: hints of each kind, lenses of each kind, disabled or exclusively enabled "
  "diagnostics by the code they are shown with, imports in completion. A setting with an invalid value is reported to "
  "the user and leaves the default for that setting only. It makes no difference whether settings came at start or later.",
  ["histories", "inputs"], "every history of settings, valid and invalid, and every program",
  "No test sets anything but through internal structures.",
  [SRV + "config.rs", SRV + "config/", SRV + "reload.rs", SRV + "handlers/notification.rs"],
  [("settings", SRV + "config.rs"), ("applying changes", SRV + "global_state.rs update_configuration")],
  LSPT + "model of the settings' meaning applied to the answers of an unrestricted server, compared with the restricted server's answers after each change", LSHIM)
P("C24", "The server follows packages, manifests, folders and files as they change",
  "At start and after any history of changes to files on disk, manifests, the set of workspace folders and open documents, once "
  "the server reports itself quiescent: every manifest below a workspace folder and those reachable from it are packages, a "
  "package sees exactly its own modules and those of its transitive dependencies (local, dev, git; cyclic or nested ones too), with "
  "an open document standing for its file; no name leads to a module of another package or to a file outside of the sources, tests "
  "and scripts folders; an unresolved name in a local package is reported, naming the missing dependencies; health is error "
  "exactly while some manifest is invalid (and then the last valid packages are kept, or at start the valid ones are loaded), "
  "warning where no package is found. The client is asked to watch every manifest and every source file of local packages.",
  ["inputs", "histories"], "every layout of packages on disk and every history of changes the client tells of",
  "Tests load fixed directories once; none changes a workspace while the server runs.",
  ["crates/project-model/src/", SRV + "reload.rs", SRV + "file_changes.rs", SRV + "main_loop.rs", "crates/base-db/src/"],
  [("reloading", SRV + "reload.rs"), ("file changes", SRV + "file_changes.rs"), ("manifests", "crates/project-model/src/aptos_package/load_from_fs.rs")],
  LSPT + "comparison, after each step of random histories, of the answers of the real server with a model of what the manifests and files say", LSHIM)
P("C26", "The command line reports, fixes and organises what the editor would",
  "The `diagnostics` command prints, for the workspace, package or file it is given, exactly the diagnostics the server "
  "answers for those files (each once, in files of the workspace's own packages only), narrowed by --kinds, --enable-only "
  "and --disable, and exits with 1 exactly when one printed is an error. `--apply-fixes` and `organize-imports` end, "
  "write only the files meant, keep their line endings, leave what the server's fixes (where there is no choice of them) "
  "or edits would, show the fixed text where it is, and change nothing when run again. No layout of packages (nested, cyclic, "
  "missing or broken), form of path or content of a file makes it crash or hang.",
  ["inputs", "histories"], "every layout of workspaces, packages and dependencies, every program, path form, and set of flags",
  "No test runs the command line.",
  [SRV + "cli/", "crates/ide-db/src/load.rs", "crates/project-model/src/"],
  [("diagnostics and fixes", SRV + "cli/diagnostics.rs"), ("imports", SRV + "cli/organize_imports.rs"), ("loading", "crates/ide-db/src/load.rs")],
  LSPT + "differential comparison of what the real command line prints and writes with the answers of the real server about the same files", LSHIM)
P("C27", "Formatting gives what the formatter made of the document, or says why not",
  "A formatting request runs the formatter that is set (`~` is the home folder), else the one in `$HOME/.local/bin`, else the "
  "one on the PATH, once, in the folder of the file, with `--quiet --stdin --emit stdout` and the extra arguments that are set, and gives it the "
  "current text of the document (as edited in the client, with LF). Success gives null where the output is the text already, else edits "
  "that turn the document into the output, in the document's line endings. Exit 1 with `a valid move code` in its output "
  "gives null and an error message; another failure an error of code -32900 with status, output and errors. No formatter, or one "
  "older than 1.2.1, gives null and the notification movefmtVersionError (reason, path of aptos), and it is not run; a formatter that cannot "
  "be started or whose version or output is unreadable gives an error. This holds however much it prints and whether it prints before it reads, or never reads.",
  ["inputs", "environment"], "every document, line ending and position encoding, every place, version and behaviour of the formatter",
  "A test parses one version string; nothing runs a formatter.",
  [SRV + "movefmt.rs", SRV + "toolchain.rs", SRV + "config/utils.rs", SRV + "handlers/request.rs"],
  [("formatting", SRV + "movefmt.rs"), ("finding it", SRV + "config/utils.rs")],
  LSPT + "comparison of the answers, messages and of what a recording stand-in for the formatter noted with what the case calls for", LSHIM)
