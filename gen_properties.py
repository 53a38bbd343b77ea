#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json
C="packages/core/src/"
def P(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    return {"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe or ["parse()/parseSync()/parseAsync() result"],"hook_needed":None}}
L=[]
L.append(P("C01","No command-line token is silently dropped or used twice",
 "Whenever a parse succeeds, every token of the command line was consumed by exactly one part of the grammar: as an option or command name, as the value of the option it follows, as a positional or passed-through value, or as the option terminator. Every supplied value appears in the result exactly where its option or position says, and a command line with a token nothing consumes is rejected instead of being partly ignored.",
 ["inputs","programs"],"every grammar composed of the public combinators and every argument vector",
 "The tests sample fixed grammars and vectors; loss of a token depends on the combination of combinators, interleaving of siblings and repeated re-entry of a stateful alternative.",
 [C+"internal/parser.ts",C+"constructs.ts",C+"primitives.ts",C+"modifiers.ts"],
 [("parse loop with stall detection",C+"internal/parser.ts"),("buffer threading in object/tuple/or/longestMatch/merge/concat/seq/conditional",C+"constructs.ts")]))
L.append(P("C02","Option order does not change the result",
 "In a grammar whose options are collected by object(), merge() or group(), permuting complete option occurrences (a name together with its value) among themselves and among the positional arguments leaves the outcome unchanged: same success or failure, and the same value. Positional arguments keep their relative order, as do repeated occurrences of one repeatable option.",
 ["inputs","programs"],"every such grammar, every argument vector and every permutation of its option occurrences",
 "Tests exercise a few orders; the number of orders and grammars is unbounded and the scan order depends on priorities.",
 [C+"constructs.ts",C+"primitives.ts"],
 [("greedy priority-ordered rescanning of the shared buffer",C+"constructs.ts")]))
L.append(P("C03","Equivalent spellings of an option mean the same thing",
 "Every documented spelling of an option gives the same result: any of its declared names, the value as the next token or joined with = (or : for slash options), and single-letter Boolean options bundled behind one dash or given separately. The value token that follows an option name is taken verbatim, even when it looks like an option or is the terminator, and a value joined to a Boolean option is rejected.",
 ["inputs","programs"],"every option declaration, every spelling, every value string and every position in a grammar",
 "The cross product of name shapes, spellings, values and surrounding grammars is unbounded; tests fix a few.",
 [C+"primitives.ts"],[("option()/flag() token recognition",C+"primitives.ts"),("bundling rewrite",C+"primitives.ts")]))
L.append(P("C04","After the terminator nothing is read as an option",
 "The first bare -- that is not an option's value ends option recognition: no later token is matched as an option of the grammar, each is available to positional parsers verbatim, and the terminator itself never becomes a value. Before the terminator a token that looks like an option is not taken by a positional parser.",
 ["inputs","programs"],"every grammar and argument vector containing --",
 "The terminator flag is threaded through every combinator, each in a sync and an async copy; tests cover few nestings.",
 [C+"primitives.ts",C+"constructs.ts",C+"modifiers.ts"],[("optionsTerminated threading",C+"constructs.ts"),("argument() terminator handling",C+"primitives.ts")]))
L.append(P("C05","Alternatives of or() are mutually exclusive and first match wins",
 "A successful parse of or() takes its value from exactly one alternative, and everything given on the command line to that or() is explained by that alternative; giving input that belongs to different alternatives is an error. When several alternatives could start, the first declared one that consumes input wins, and an alternative that consumes nothing is used only when it is the only such alternative and there is no input left.",
 ["inputs","programs"],"every set of alternatives, in every enclosing combinator, and every argument vector",
 "Selection depends on history (which alternative is active, what it consumed last) and on interleaved siblings; tests reach few histories.",
 [C+"constructs.ts"],[("active-branch state and conflict check of or()",C+"constructs.ts")]))
L.append(P("C06","longestMatch() selects the alternative that consumes most",
 "longestMatch() yields the value of the alternative that consumes the most input, the earliest declared one on a tie, and never combines or silently discards input belonging to different alternatives.",
 ["inputs","programs"],"every set of alternatives, in every enclosing combinator, and every argument vector",
 "Ties, re-entry and interleaved siblings multiply the histories; tests sample a few.",
 [C+"constructs.ts"],[("longestMatch() selection",C+"constructs.ts")]))
L.append(P("C07","Defaults apply only to absence, never to invalid input",
 "optional() yields undefined and withDefault() its default exactly when the wrapped parser received no input and has no value of its own; when input was given, the parsed value is used. Input that is present but invalid or incomplete makes the whole parse fail and is never replaced by undefined or by the default.",
 ["inputs","programs"],"every wrapped parser (including composites and nested modifiers), every position, every argument vector",
 "Tests cover single wrappers; whether a wrapper treats a partial match as absence depends on the inner parser and its state history.",
 [C+"modifiers.ts"],[("optional()/withDefault() parse and complete",C+"modifiers.ts")]))
L.append(P("C08","multiple() collects every occurrence in order and enforces its bounds",
 "multiple() returns one element per occurrence, in command-line order, and fails when there are fewer than min or more than max occurrences; with no occurrence and no minimum it returns an empty list. nonEmpty() rejects a match that consumed no input and otherwise behaves as the parser it wraps.",
 ["inputs","programs"],"every repeated parser (options, arguments, composites, commands), bounds and argument vectors",
 "Occurrence boundaries depend on item state and sibling interleaving; tests check small counts of simple items.",
 [C+"modifiers.ts"],[("multiple() item extension/opening and arity validation",C+"modifiers.ts"),("nonEmpty()",C+"modifiers.ts")]))
L.append(P("C09","seq() and tuple() respect position",
 "seq() consumes the command line strictly in declaration order: input of a later segment ends the earlier ones, an earlier segment never receives input that comes after a later one started, and a skipped required segment is an error. tuple() and concat() return values in declaration order whatever the order in which their parts matched.",
 ["inputs","programs"],"every sequence of segments and every argument vector",
 "Segment advancement depends on which tokens later segments may begin with and on the state of the current one; tests sample few combinations.",
 [C+"constructs.ts"],[("segment cursor of seq()",C+"constructs.ts"),("tuple() matching rounds",C+"constructs.ts")]))
L.append(P("C10","conditional() follows its discriminator",
 "conditional() pairs the discriminator's value with the value of the branch registered under exactly that value, and only options of that branch (besides the discriminator) are accepted. Without a discriminator the default branch is used if there is one and otherwise the parse fails; a discriminator value that names no branch is always an error, never a crash and never the default branch.",
 ["inputs","programs"],"every discriminator, set of branches and argument vector, in sync and async form",
 "Branch commitment depends on token order, provisional matches and enclosing combinators; tests sample few.",
 [C+"constructs.ts"],[("conditional() branch selection",C+"constructs.ts")]))
L.append(P("C11","Commands dispatch by exact name or alias",
 "A subcommand parser runs exactly when the current token equals its name or one of its aliases, the result does not depend on which of them was used, and its options are accepted only after the command token. Nested commands follow the same rule at every level, and a command that is required but missing is an error.",
 ["inputs","programs"],"every command tree, alias set and argument vector",
 "Tests use small trees; dispatch interacts with priorities, wrappers and zero-token alternatives.",
 [C+"primitives.ts",C+"constructs.ts"],[("command() state machine",C+"primitives.ts")]))
L.append(P("C12","Grouping and modifier syntax do not change meaning",
 "merge() of objects with distinct fields accepts and returns the same as the single object with all their fields, concat() of tuples returns the concatenation of their values, and group() and description texts have no effect on parsing. The fluent method form of a modifier behaves the same as the stand-alone function, and map() changes only the value it transforms.",
 ["inputs","programs"],"every grammar, every way of splitting it, every argument vector",
 "Equivalence is over all grammars and inputs; tests compare a few pairs.",
 [C+"constructs.ts",C+"modifiers.ts",C+"fluent.ts"],[("merge()/concat()/group()",C+"constructs.ts"),("fluent()",C+"modifiers.ts")]))
L.append(P("C13","Dependent options are validated against the actual source value",
 "A value parser derived from a dependency source accepts and interprets its input exactly as the parser its factory builds for the source's final value, regardless of the order in which source and dependent appear. When the source is absent the declared default is used, and an invalid source or a value not allowed for that source makes the parse fail.",
 ["inputs","programs"],"every graph of sources and dependents (single and multi source), every order of options, sync and async, across object/merge/tuple/concat/seq nesting",
 "Resolution happens in several passes with caches; orders and nestings are unbounded.",
 [C+"internal/dependency.ts",C+"dependency-runtime.ts",C+"constructs.ts",C+"dependency.ts"],[("deferred re-parse with dependency runtime",C+"dependency-runtime.ts")]))
L.append(P("C14","Values come from the highest-priority source that has one",
 "For an option bound to several sources, the result is the command-line value if given, else the real environment value, else the .env value, else the config value, else the derived default, else the static default, else an error; the outer binding is consulted before the inner one. This holds for each option independently, whichever other options are given.",
 ["inputs","programs","configurations"],"every nesting of bindings and defaults, every combination of present and absent sources, in every enclosing combinator",
 "The combinations of sources, wrapper order and enclosing combinators are exponential; tests cover common stacks.",
 ["packages/env/src/index.ts","packages/config/src/index.ts","packages/derived-defaults/src/index.ts",C+"facade.ts",C+"modifiers.ts"],
 [("source-binding wrappers",  "packages/env/src/index.ts"),("config binding","packages/config/src/index.ts")],["runWith()/runWithSync() result"]))
L.append(P("C15","An invalid higher-priority value is an error, never a fallback",
 "When a source that is consulted supplies a value that does not parse or violates the option's constraints, the run fails; it never falls through to a lower-priority source or default. Values taken from environment, config or binding defaults satisfy the same constraints (ranges, choices, list bounds) as values from the command line.",
 ["inputs","programs","configurations"],"every nesting of bindings and defaults and every combination of valid, invalid and absent values",
 "Tests check single bindings; the fall-through depends on wrapper nesting and completion order.",
 ["packages/env/src/index.ts","packages/config/src/index.ts",C+"modifiers.ts",C+"primitives.ts"],
 [("fallback revalidation hooks",C+"primitives.ts")],["runWith()/runWithSync() result"]))
L.append(P("C16","Source contexts follow the two-phase protocol and are always disposed",
 "Every context is asked for its phase-one data exactly once, in order; contexts declared two-pass are asked exactly once more after a first pass with the values parsed so far, and their second answer replaces their first even when empty; an earlier context's data overrides a later one's. Each context is disposed exactly once whatever happens (success, parse error, help or version request, or a thrown error), and no error is lost.",
 ["histories","fault_sequences","configurations"],"every list of contexts (sync/async, one- or two-pass), every outcome or failure at every step, every request kind",
 "The number of fault positions times context lists is large; tests cover single faults.",
 [C+"facade.ts",C+"context.ts"],[("runWith()/runWithSync() phases and disposal",C+"facade.ts")],["calls received by the contexts","runWith() outcome"]))
L.append(P("C17","A prompt is asked at most once and only when nothing else supplies the value",
 "A prompting parser asks its question exactly once, during final completion and in parser order, when no command-line, environment, config or derived value (and no bound default) exists for it, and never otherwise; fallbacks inside the prompt do not silence it. It never asks for help or completion, for alternatives not taken, or when the arguments cannot be parsed (in an object(), also when another field is invalid or missing); only the discriminator of a conditional() is asked before its branch is parsed. A run with a two-pass context may ask once more in its provisional pass. The answer becomes the value; a value given on the command line is never lost; a failed prompt makes the parse fail, an invalid source value too, and a thrown error reaches the caller.",
 ["histories","inputs","programs"],"every placement of prompting parsers in grammars with sources, every argument vector and answer outcome",
 "Double or premature prompting depends on probe completions and two-phase runs; tests cover typical placements.",
 ["packages/prompt/src/index.ts",C+"facade.ts",C+"constructs.ts"],[("prompt wrapper's deferred completion","packages/prompt/src/index.ts")],["sequence of prompt executions","run outcome"]))
L.append(P("C18","Help, version and completion requests respect the user's grammar",
 "A help, version or completion request is honoured only when the user's own parser does not accept the command line, and only through tokens the user's parser left unconsumed; data accepted by the user's grammar (an option's value, a positional, anything after --) never triggers it. Between help and version options the last one wins, a request takes effect even when other input is invalid or required input is missing, and without any request a failing parse is reported as an error.",
 ["inputs","programs","configurations"],"every grammar, every configuration of meta commands and options and their names, every argument vector",
 "The interplay of leftover tokens, failure position and meta names is combinatorial; tests fix few.",
 [C+"facade.ts"],[("failure classification",C+"facade.ts")],["runParser() callbacks and output"]))
L.append(P("C19","Exit status and output streams match the outcome",
 "The process runner returns the value on success without writing anything; help, version and completion requests write to standard output and finish with status 0; parse errors write only to standard error and finish with the configured error status (1 by default). The termination callback is invoked at most once per run, for synchronous and asynchronous parsers alike.",
 ["inputs","configurations"],"every runner configuration, argument vector and parser kind",
 "The configuration space (request kinds, exit codes, aboveError, commands/options, sync/async) is a product; tests sample it.",
 ["packages/run/src/run.ts",C+"facade.ts"],[("run()/runSync()/runAsync()","packages/run/src/run.ts")],["stdout/stderr/onExit calls"]))
L.append(P("C20","Suggestions are valid continuations",
 "After a well-formed beginning of a command line, every literal suggestion starts with the word being completed, and putting it in the word's place gives a command line that can still be completed to an accepted one: no options after the options terminator, only values after an option that waits for one, nothing of an alternative or command that has been excluded, nothing hidden. (A single-use option that was already given may still be offered, as may the candidates of any missing positional argument, and discriminator values without a branch; a lone top-level option offers its values without the name.) Completion after invalid input is best effort.",
 ["inputs","programs"],"every grammar, every argument prefix and every partial word",
 "Completion code is separate from parsing code for every combinator, twice; agreement is over all grammars and prefixes.",
 [C+"suggestion.ts",C+"constructs.ts",C+"primitives.ts",C+"internal/parser.ts"],[("suggest() of each parser",C+"constructs.ts")],["suggestSync()/suggestAsync()"]))
L.append(P("C21","Every visible continuation is suggested",
 "After a well-formed beginning of a command line, every visible option name, command name or enumerated value that the parser would accept there for the active alternative and that starts with the partial word is among the suggestions (option names once the word begins like an option; values already chosen for a repeated item need not be repeated). The choices offered for a dependent option are those for the source values given so far, falling back to the source's default and then to the declared one; an invalid source value offers none.",
 ["inputs","programs"],"every grammar, every argument prefix and every partial word",
 "Same as for soundness: a missing suggestion needs an oracle for acceptance at every position of every grammar.",
 [C+"suggestion.ts",C+"constructs.ts",C+"primitives.ts"],[("suggest() of each parser",C+"constructs.ts")],["suggestSync()/suggestAsync()"]))
L.append(P("C22","Asynchronous parsing gives the same outcome as synchronous parsing",
 "Making value parsers asynchronous changes nothing but the return type: for the same grammar and command line the asynchronous run yields the same value or fails as well, however and in whatever order the individual asynchronous steps settle. Each occurrence is still consumed once, in the same order.",
 ["schedules","inputs","programs"],"every grammar with any subset of asynchronous leaves, every argument vector, every settling delay pattern",
 "Each algorithm exists twice (sync and async); tests cover the async copies thinly and with one settling order.",
 [C+"constructs.ts",C+"modifiers.ts",C+"primitives.ts",C+"internal/parser.ts"],[("duplicated sync/async algorithms",C+"constructs.ts")]))
L.append(P("C23","Deferred values resolve from the right place and memoize correctly",
 "A deferred value resolves to the supplied value when one was given (command line or source) and otherwise runs its fallback; its source field says which. With memoization, concurrent and later calls share one successful fallback run, a rejected or throwing run is never cached, and an invalid supplied value still fails the parse instead of selecting the fallback.",
 ["schedules","histories"],"every sequence and overlap of calls, settle order and failure pattern",
 "Interleavings of overlapping calls with failures are not enumerable by examples.",
 [C+"modifiers.ts"],[("deferredValue() call wrapper",C+"modifiers.ts")],["deferred value calls and results"]))
L.append(P("C24","Discovered command tree mirrors the file tree",
 "Command discovery yields exactly one command per eligible file, with the path given by directories and file name (entry files standing for their directory, suffixes removed), ignoring declaration and test files; two files that claim the same path are rejected, whatever the order of directory listing. A module map of the same files and a generated command module define the same commands. Running the program dispatches to the handler of exactly the command named on the command line, a nested command taking precedence over an argument of its parent.",
 ["configurations","inputs"],"every directory tree (within the naming rules) and discovery configuration, every argument vector",
 "Tests use a handful of trees; collisions need particular combinations of entry files, suffixes and directories.",
 ["packages/discover/src/index.ts","packages/discover/src/command.ts"],[("path to command mapping","packages/discover/src/index.ts")],["discovered commands","runProgram() dispatch"]))
L.append(P("C25","Lifecycle hooks run nested, once, and errors are never lost",
 "Around a dispatched handler the program's before hook runs first, then the command's, then the handler, and on success the after hooks run in reverse; when a step fails, the error hooks of every level already entered run in reverse instead, observe that very error, and it is still reported to the caller. Each hook runs at most once and no step starts before the previous one has settled, also when runs overlap; contexts reach only the steps of their own run and level. No hook runs for parse errors or for help, version and completion requests.",
 ["fault_sequences","histories"],"every combination of defined hooks, sync or async, and every point at which one of them or the handler fails",
 "Fault points times hook configurations; tests cover single failures.",
 ["packages/discover/src/index.ts"],[("handler lifecycle execution","packages/discover/src/index.ts")],["sequence of hook calls","rejection"]))
L.append(P("C26",".env files are read by the documented grammar and never override the environment",
 "A .env file yields exactly the variables its text defines under the documented grammar (comments, export, single and double quotes, multi-line values, escapes, inline comments, $NAME and ${NAME} expansion in one pass), or a syntax error naming the line. Later files override earlier ones, real environment variables win over files, missing files are skipped, command substitution only happens through the supplied hook, and the process environment is never modified.",
 ["inputs","configurations"],"every file text over the grammar's alphabet, every list of files and environment",
 "A lexer's behaviour is over all strings; the tests give dozens of examples.",
 ["packages/env/src/index.ts"],[("dotenv lexer and expansion","packages/env/src/index.ts")],["createEnvContext().source()"]))
L.append(P("C27","Help and usage show every visible item and no hidden one",
 "The usage line and the help page of a grammar mention each visible option, argument and command with its names, and nothing that is marked hidden for that place; hiding never changes what is accepted. Aliases that are hidden or secondary are not shown as separate commands, and did-you-mean hints never mention hidden items.",
 ["programs","configurations"],"every grammar and assignment of visibility modes to its parts",
 "Visibility is threaded separately through usage, documentation, completion and error hints of every combinator.",
 [C+"usage.ts",C+"doc.ts",C+"constructs.ts",C+"primitives.ts",C+"suggestion.ts"],[("visibility filtering",C+"usage.ts"),("doc fragments",C+"doc.ts")],["formatUsage()/getDocPage()/error messages"]))
L.append(P("C28","Ambiguous grammars are rejected when they are built",
 "Building an object(), tuple(), seq() or merge() in which one option name can be reached by two parts that are active together, or an or() in which one command name or alias is claimed by two alternatives, throws a duplicate error, also when the name is hidden or nested in wrappers. Grammars whose names are distinct, or whose repetition is confined to mutually exclusive alternatives or explicitly allowed, build without error.",
 ["programs"],"every grammar composed of the public combinators",
 "Name collection walks nested usage; tests give isolated examples of each construct.",
 [C+"constructs.ts",C+"usage.ts"],[("duplicate name checks",C+"constructs.ts")],["throwing or returning of the constructor functions"]))
L.append(P("C29","Parsers are reusable and runs do not influence each other",
 "A parser is immutable: the outcome of a parse depends only on the grammar, the command line and the supplied sources, not on earlier, failed, suggested, documented or concurrently running uses of the same parser or context objects.",
 ["histories","schedules"],"every sequence and interleaving of parses, completions and help requests on shared parser objects",
 "Leakage needs particular histories; tests normally build a fresh parser for each case.",
 [C+"constructs.ts",C+"primitives.ts",C+"dependency-runtime.ts",C+"facade.ts"],[("state kept in parse contexts, not in parsers",C+"internal/parser.ts")]))
L.append(P("C30","Value parsers accept exactly their documented language",
 "The built-in value parsers accept exactly the strings of their documented form within the configured bounds, choices and separators and return the value they denote, rejecting all others; formatting an accepted value and parsing it again returns an equal value, and enumerated choices match themselves.",
 ["inputs","configurations"],"every string over the relevant alphabets and every configuration of bounds and flags",
 "Languages are infinite; tests give examples near a few boundaries.",
 [C+"valueparser.ts"],[("value parser implementations",C+"valueparser.ts")],["ValueParser.parse()/format()"]))
L.append(P("C31","Pass-through collects only what the grammar does not recognise",
 "A pass-through parser captures, verbatim and in order, exactly those tokens its format allows that no other parser of the grammar consumes; options declared elsewhere in the same grammar are never captured by it, and nothing it captures is also delivered elsewhere.",
 ["inputs","programs"],"every grammar with a pass-through of each format and every argument vector",
 "Depends on priorities, the format and the interleaving with declared options; tests sample a few vectors per format.",
 [C+"primitives.ts",C+"constructs.ts"],[("passThrough() formats and lowest priority",C+"primitives.ts")]))
L.append(P("C32","Repeating a single-use option or argument is an error",
 "An option, flag or argument that is not wrapped in multiple() may be given at most once on the command line: any second occurrence, in any spelling and any position, makes the parse fail and never silently replaces or is replaced by the first.",
 ["inputs","programs"],"every grammar and every argument vector with a repeated occurrence",
 "Which occurrence is detected depends on state threading through wrappers and combinators; tests check direct repetition.",
 [C+"primitives.ts",C+"modifiers.ts",C+"constructs.ts"],[("already-parsed state check",C+"primitives.ts")]))
L.append(P("C33","Required input that is missing is always an error",
 "A parse succeeds only if every required option, argument and command of the selected alternatives was supplied with a valid value on the command line or by a source or default; otherwise it fails and produces no value.",
 ["inputs","programs"],"every grammar and every argument vector",
 "Absence must be detected through every nesting of wrappers; tests cover direct cases.",
 [C+"primitives.ts",C+"constructs.ts",C+"modifiers.ts"],[("complete() of every parser",C+"constructs.ts")]))
L.append(P("C34","Completion scripts' protocol encodes suggestions faithfully",
 "For every supported shell the output of a completion run contains one record per suggestion, in order, from which the shell side recovers the suggested text and description, with tabs, line breaks and NULs replaced by spaces and nothing else changed; no character of a suggestion, pattern or description can break the record structure. Sourced in bash, zsh and fish, the generated script calls the program with exactly the words typed and offers exactly the suggestions printed; a file suggestion offers exactly the entries that extend the typed path and satisfy its type, extensions and hidden-file setting.",
 ["inputs"],"every list of suggestions, including separators, newlines and control characters, for every shell",
 "Tests use benign texts; the damaging characters differ per shell encoding.",
 [C+"completion.ts"],[("encodeSuggestions() of each shell",C+"completion.ts")],["ShellCompletion.encodeSuggestions()"]))
L.append(P("C35","Git value parsers accept exactly what the repository has",
 "A git value parser accepts exactly the branches, tags, remotes, remote branches, commits or references the repository has when it parses, returning the name or the full SHA of the existing commit (annotated tags peeled; blobs, trees, unknown and ambiguous abbreviations refused) and otherwise reporting the documented error; it suggests exactly the names that extend the prefix and the most recent commits reachable from HEAD, each by an abbreviation of the documented length.",
 ["inputs","histories"],"every repository, however it was built up and changes between calls, and every text typed",
 "Tests use a few fixed small repositories; packed and loose refs, nested names, annotated tags, moved heads, abbreviations and empty repositories combine freely.",
 ["packages/git/src/index.ts"],[("value parsers and suggestions over isomorphic-git","packages/git/src/index.ts")],["ValueParser.parse()/suggest() against a real repository"]))
L.append(P("C36","A printed help page or message says everything, in order and in its columns",
 "formatDocPage() and formatMessage() print all the text of a page or message (brief, usage, description, sections in order, each visible entry's term, description, default and choices where enabled, examples, author, bugs, footer), in order and nothing else, whatever the width, colours, quotes or indentation: no word is lost, doubled or broken, no line is wider than the width where the columns leave room, no line ends long before the next word would not fit, continuation lines stay in their column, paragraph breaks are kept, escape sequences appear only with colours and are reset, and a width too narrow for the columns is a RangeError.",
 ["inputs","configurations"],"every page and message and every combination of formatting options",
 "Wrapping interacts with indentation, colours, term widths and breaks; tests compare a few pages at one or two widths.",
 [C+"doc.ts",C+"message.ts"],[("page layout",C+"doc.ts"),("message wrapping",C+"message.ts")],["the text formatDocPage()/formatMessage() return"]))
L.append(P("C37","A usage line describes exactly what the grammar accepts",
 "The usage line describes what the grammar accepts: read by its notation ([x] may be left out, (x | y) is a choice, x... is repeated) it allows exactly the combinations of visible options, arguments and commands that the grammar requires or permits, hidden parts left out, with any width, colours, expanded commands or shortest option names; lines are broken only between parts, are no wider than the width where their words allow it, and plain positional arguments stand in the order in which they are read.",
 ["inputs","programs","configurations"],"every grammar and every combination of formatting options",
 "Tests compare a few printed lines; what a line means under normalisation, hiding, nesting and command expansion is never compared with the grammar.",
 [C+"usage.ts",C+"constructs.ts"],[("usage normalisation and formatting",C+"usage.ts"),("usage of combinators",C+"constructs.ts")],["formatUsage() and getDocPage().usage"]))
L.append(P("C38","A help page says of every item what was declared of it",
 "A help page gives each visible item its own description, the default that applies to it (or the message given to withDefault()), and its choices, in the section named by the innermost label around it; the page of a command shows that command's own brief, description and footer, and that of an outer command or alternative never stands in for it.",
 ["inputs","programs"],"every grammar and every path of commands entered",
 "Descriptions, defaults and labels travel through every wrapper and combinator; tests check direct nestings.",
 [C+"constructs.ts",C+"modifiers.ts",C+"primitives.ts",C+"doc.ts"],[("getDocFragments() of every parser",C+"constructs.ts"),("defaults of wrapped parsers",C+"modifiers.ts")],["getDocPage()"]))
L.append(P("C39","A generated manual page says everything of the documented page",
 "A generated manual page, read by the man macros, says everything of the documented page in order: headings, paragraphs, tagged entries with their descriptions, defaults and choices, synopsis, references; no text is taken for a roff request or escape, lost, or left in a font; the name, section, date, version and manual arguments are intact; hidden entries are absent; an invalid section number or date is refused.",
 ["inputs","configurations"],"every page, message and option of the manual page generator",
 "Roff gives characters a meaning by their position on the line; tests check a few texts one escape at a time.",
 ["packages/man/src/man.ts","packages/man/src/roff.ts"],[("page generation","packages/man/src/man.ts"),("escaping","packages/man/src/roff.ts")],["formatDocPageAsMan()"]))
with open("/verif/properties.jsonl","w") as f:
    for p in L: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(L))
