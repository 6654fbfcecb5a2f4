PROPS = []


def P(id, title, statement, over, text, why, files, mech, oracle, note, observe=None):
    PROPS.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over.split(), "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files.split(),
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    **({"observe_at": observe} if observe else {})},
        "oracle": oracle, "note": " ".join(note.split()),
    })


P("P01", "A command line is bound to flags and args by the documented grammar",
  """For every set of flags and args and every command line, parsing either binds each token to exactly one
  occurrence of the flag or arg that the documented grammar gives it (long and short flags, inline values,
  clusters, '--', the count each flag or arg takes), in order and with its spelling, or ends in a ParseError.
  The error has the code, the name and the remaining tokens of the first token that the grammar does not accept
  (unknown option, unexpected argument, missing argument, value given to a flag that takes none), and then no
  action runs.""",
  "inputs configurations",
  """all sets of flags (no value, one, n, optional, until the next flag, all) and of args with any counts, and all
  token sequences""",
  """the tests hold some thirty fixed command lines; how counters, clusters, '--' and flags between args combine is
  a product space that they sample at a few points""",
  "set.go arg.go flag.go error.go",
  [("RawParse", "set.go"), ("ArgCounter implementations", "arg.go"), ("argList.take and argBinding.SetArg", "set.go")],
  "random grammars and command lines against a reference parser",
  """Generated grammars of up to 4 flags and 3 args, command lines of up to 8 tokens; compared with an independent
  reference parser both through RawParse and through App.""",
  ["the BindingMap of RawParse", "Context.BindingLookup in the action", "the error of RunContext"])

P("P04", "Scalar values are read as their text says, or rejected",
  """For every built-in scalar type (bool, every int, uint and float size, duration, string, URL, regexp, IP, big
  int, big float, bytes) and every text, setting the value from the command line or through Set stores exactly the
  value the text denotes in Go's syntax within the bounds of the type; a text which is not valid or does not fit is
  an error and leaves the value as it was. The text which Quote gives for a value reads back as the same value.""",
  "inputs",
  "all texts, biased to the bounds of every type, prefixes, signs, separators and surrounding space",
  "tests hold one or two texts per type; bounds, prefixes, signs and the rejected texts of 20 types are a product space",
  "value.go",
  [("setCore, setCoreErr", "value.go"), ("Quote, genericString", "value.go")],
  "random texts against an independent reading (math/big, strconv, net) and a round trip",
  "20 types, texts biased to their bounds; through App and through Flag.Set.",
  ["Context typed getters", "Quote", "the error of Set and RunContext"])

P("P05", "Lists, maps and pairs split at unescaped separators only, and round trip",
  """For every list of items, escaping the separators with backslashes, joining and passing the text to a list, map,
  name-value or name-values option gives back exactly these items, with the escapes removed; SplitList and SplitMap
  agree with that reading for every text, separator and limit; unset keys have an empty value; DisableSplitting
  stores the text unsplit. Repeated occurrences accumulate in order, and the text of a value reads back as it.""",
  "inputs",
  "all texts over separators, backslashes, spaces and letters, all limits, several occurrences",
  "escapes interact with each other, with the limit and with the ends of the text; the tests hold a dozen fixed texts",
  "value.go internal/support/support.go",
  [("SplitList, SplitMap, splitValuePair", "value.go"), ("SplitList, SplitPair, ParseMap", "internal/support/support.go")],
  "random texts against a reference splitter, and a round trip through escape and split",
  "Texts of up to 14 characters over a small alphabet; lists of up to 5 items in several occurrences.",
  ["Context.List, Map, NameValue, NameValues", "SplitList", "SplitMap"])

P("P02", "Equivalent spellings of a command line have the same effect",
  """A command line means the same whichever of its documented spellings is used: an alias for the name, '--name=value'
  for '--name value', '-nvalue' for '-n value', a cluster '-abc' for '-a -b -c' (the last may have a value), '--bool'
  for '--bool=true', '--' before the first arg, and flags before, between or after the args. All values, occurrences,
  raw values, the Actions that are triggered (and in which order) and the error code are the same.""",
  "inputs configurations",
  "all sets of flags with short, long and non-ASCII names and aliases, all uses of them, all ways to spell and order these",
  """tests hold single spellings; the relation must hold for all combinations of spellings in one command line""",
  "set.go flag.go arg.go context.go",
  [("long and short option processing of RawParse", "set.go"), ("bindingImpl.ResolveAlias", "set.go"), ("triggerOptions", "context.go")],
  "metamorphic: the same uses spelled in two random ways",
  "Up to 5 flags of 10 kinds, 5 uses and 5 arg values per command line.",
  ["values, Seen, Occurrences, RawOccurrences in the action", "the trace of flag Actions", "error codes"])

P("P03", "The parsing options of a command change only what they say",
  """With SkipFlagParsing every token of the command (flags and '--', too) is a value of its args, no flag is seen, and
  the args of the context are the tokens passed; with DisallowFlagsAfterArgs a flag after an arg is a
  FlagUsedAfterArgs error and no action runs, while other command lines parse as without it; with RightToLeft, k
  values for n args fill the last k args in order, and a required arg that stays empty is an error.""",
  "inputs configurations",
  "all sets of flags and args and all token sequences, in apps and in sub-commands",
  "the tests hold one command line for each option (a few for RightToLeft)",
  "set.go context.go option.go",
  [("RawParse flags", "set.go"), ("Context.parse", "context.go"), ("internalFlags.toRaw", "option.go")],
  "random apps and command lines against a reference parser",
  "Up to 5 args and 7 values for RightToLeft, without flags; grammars as in P01 for the others.",
  ["values and raw occurrences in the action", "Context.Args", "the error of RunContext"])

P("P06", "Occurrences make up the value of a flag or arg by its type and its options",
  """The last occurrence of a scalar wins, occurrences of lists, maps and name-values accumulate in order, the values of
  a string arg are one text; the first occurrence replaces the default value unless Merge is set, and with Merge they
  are added to it; DisableSplitting keeps each occurrence whole. The Action runs once with the winning value, or, with
  EachOccurrence, once per occurrence, in order, with its own value and raw value, while the value by name, the
  occurrences and the value afterwards stay the winning ones.""",
  "inputs configurations histories",
  "all interleavings of the occurrences of several flags and an arg, all types, defaults and options",
  "the tests hold single flags with one or two occurrences and few option combinations",
  "value.go flag.go arg.go option.go",
  [("optionApplyValueConventions, optionReset", "value.go"), ("nextOccur, restore", "flag.go"), ("eachOccurrenceOpt, wrapOccurrenceContext", "option.go")],
  "random occurrences against a fold of them",
  "9 types, up to 5 options and 6 occurrences.",
  ["Context.Value by name and by \"\"", "Occurrences, Seen, RawOccurrences", "the calls of the Action"])

P("P07", "Explicit values win over the environment, files, implied values and defaults",
  """The value of a flag or arg is that of its occurrences if there are any; else the first of these that is there: its
  environment variables that are not empty, in order (FromEnv, then EnvVars; {} stands for the long name), the
  contents of its file, the value that another flag which occurs Implies; else its default. Only explicit values are
  Seen and count as occurrences, ImplicitlySet tells the others, and the Action of an option which is set implicitly
  runs just when it or its command has ImpliedAction.""",
  "inputs configurations",
  "all combinations of sources, of set, empty and unset variables, of present and missing files, of explicit occurrences and types",
  "precedence is a relation between all combinations of sources; the tests hold pairs of them for strings",
  "action.go context.go flag.go arg.go",
  [("FromEnv, FromFilePath, Implicitly, Implies", "action.go"), ("Context.SetValue, hasSeenImplied", "context.go")],
  "random sources and command lines against the order of precedence",
  "Up to 4 flags and an arg, 4 variables each, valid texts only (what follows an implicit value that is not valid is not claimed).",
  ["Context.Value", "Seen, Occurrences, ImplicitlySet", "the calls of the Action"])

P("P08", "Looking a flag or arg up by any of its references gives the same option",
  """A name, an alias, a rune, an index of an arg, the object itself and \"\" (in its own context) all find the same flag or
  arg, and the typed getters, Seen, Occurrences, RawOccurrences, Raw and BindingLookup agree on it; the nearest definition in the
  context and its ancestors wins, so that a flag or arg of a sub-command hides one of an outer command. What does not exist
  has a zero value and no occurrences, and a getter of the wrong type gives the zero value.""",
  "inputs configurations",
  "all apps with up to three levels, shadowed names, aliases, runes and persistent flags, all references in all contexts",
  "the forms of reference times the contexts times what hides what is a product space; tests hold single names in one command",
  "lookup.go context.go set.go flag.go arg.go",
  [("lookupSupport", "lookup.go"), ("Context.LookupFlag, LookupArg, Seen, Raw", "context.go"), ("NewBinding, definesOption", "set.go context.go")],
  "random apps, command lines and references against a model of scopes",
  "Up to 3 levels, 4 options each; Raw of occurrences that are split across levels is not claimed.",
  ["Context getters in Actions of commands, flags and args"])

P("P09", "Constraints accept exactly the command lines that meet them",
  """Required flags and args, Mutex groups, ValidatorFunc and Enum reject every command line that does not meet
  them, with an error that names the option and has the documented code (for Enum also the value and the legal ones as they are written), and then the Action of the command does not
  run; every command line that meets them all runs the Action.""",
  "inputs configurations",
  "all sets of constrained flags and args over one or two levels and all uses of them",
  "the tests hold each constraint alone with one accepted and one rejected command line",
  "action.go option.go context.go error.go value.go",
  [("Required, Mutex, ValidatorFunc", "option.go action.go"), ("Enum", "action.go"), ("validators of the pipelines", "context.go")],
  "random constraints and command lines against predicates",
  "Up to 5 constrained options; constraints on implied values are not claimed.",
  ["the error (code, name) of RunContext", "which Actions run"])

P("P10", "Actions run in the documented order, each exactly once",
  """For every tree of commands with flags, args, Uses, Before, Action, After and hooks and every command line, the
  initializers run once for each target, parents first; Befores run down from the root to the executing command, each
  command before its flags and its args, validators first, then deferred Befores, then Before; the Actions of the
  options that occurred run before that of the innermost command, which alone executes; Afters run from the innermost
  command up. Hooks run for the targets that match their path and filter, once for each event.""",
  "inputs configurations histories",
  "all trees of commands up to three levels with any actions and hooks at any of them, all command lines that parse",
  "order is a property of all combinations of actions at all levels; the tests hold a fixed few",
  "context.go action.go command.go flag.go arg.go option.go",
  [("beforeFlow, execute, afterFlow", "context.go"), ("actionPipelines, hooksSupport", "action.go")],
  "random trees and command lines against a model of the trace",
  "Trees of 3 levels, up to 3 options and hooks per command.",
  ["the trace of all actions with their timing and context path"])

P("P11", "The first error stops the run and comes out as it is",
  """Whichever action of whichever target fails first, nothing that comes after it runs, and RunContext returns this
  error unchanged; a panic in an action comes out as a panic, or as an error with its text where Recover is used. The
  exit code of the process is that of Exit for each of its argument forms, else 1 for an error and 0 without, and
  the message of the error goes to Stderr.""",
  "inputs configurations fault_sequences",
  "all trees as in P10 and all points at which one of the actions fails; all forms of Exit",
  "the tests inject single errors at a few points",
  "context.go error.go action.go app.go",
  [("execute, beforeFlow, afterFlow", "context.go"), ("Exit, ExitHandler, exit", "error.go app.go"), ("Recover", "action.go")],
  "fault injection at every point of random traces; a process per exit form",
  "Trees as in P10; help and version as they are.",
  ["the trace", "the error of RunContext", "exit code and stderr of a process"])

P("P12", "Composed actions do what their parts do, in order and at their timing",
  """A composition of actions built from Pipeline, Append, Setup, At, the wrappers for the five forms of action,
  middleware, Prevent and conditional actions runs exactly the parts which its definition says, in the order given: a middleware wraps
  exactly the rest of its pipeline and runs it as often as it calls next, each part runs at the timing it was given, the
  first error ends the pipeline and is returned as it is, and an action which is given at a timing that has passed
  is refused with ErrTimingTooLate.""",
  "programs histories",
  "all compositions of actions, as Uses, Before, Action and After of a command, flag or arg",
  "compositions nest without bound; the tests have compositions one or two deep",
  "action.go context.go",
  [("ActionPipeline, cons, Append, Pipeline", "action.go"), ("Setup, At, act, withTiming", "action.go context.go"), ("middleware forms", "action.go")],
  "random compositions against an interpreter of the same language",
  "Compositions up to 4 deep with 13 kinds of nodes; the value of next after the pipeline is not claimed.",
  ["the trace of all leaves with the timing they see", "the error of RunContext"])

P("P13", "Contexts, paths and queries agree with the tree of the app",
  """In every tree of commands, the path, lineage, parent, root, name and target of each context are those of its
  target's position, also after a name in it was changed; FindTarget, ContextOf and LookupCommand give the target with that path or name (of the innermost
  scope, by name or alias) and nothing for one that does not exist; Walk visits every command once, parents first, and
  skips below ErrSkipCommand; a context path pattern and a filter match exactly the targets that their definition says;
  the Flags, LocalFlags, PersistentFlags and LocalArgs of a context are those of the command and its ancestors. The
  current app and the app of a context are those whose action runs, also when an action runs another app.""",
  "configurations programs",
  "all trees of named commands, flags and args, all paths and patterns over their names",
  "the tests look at one tree with a handful of paths",
  "context.go filter.go lookup.go command.go",
  [("ContextPath.Match, FindTarget, ContextOf", "context.go"), ("FilterModes.Matches, PatternFilter", "filter.go"), ("Walk, LookupCommand", "context.go")],
  "random trees against a model of the tree",
  "Trees of 3 levels, up to 3 flags and 2 args each; pattern alternatives as documented.",
  ["ContextPath, Lineage, Parent, Target", "FindTarget, ContextOf, LookupCommand, Walk, Matches"])

P("P14", "Initializers edit and describe the app as if it had been written so",
  """Adding or removing flags, args and commands, setting descriptive properties and using a Prototype in an initializer gives
  the app that results from editing the lists in that order: every target that is left is initialized exactly once,
  removed ones never, own settings win over a prototype, Setup of a prototype applies unless prevented, and two targets
  never share state. Duplicate names, missing names and invalid names are
  refused with an error when the app is initialized, and edits after initialization with ErrTimingTooLate.""",
  "configurations programs histories",
  "all sequences of edits at all levels, all sets of names, all prototypes",
  "edits interact with the initialization that is under way; the tests hold single edits",
  "command.go context.go action.go flag.go arg.go",
  [("AddFlag, RemoveFlag, AddArg, RemoveArg, AddCommand", "context.go"), ("initializeFlagsArgs, ensureSubcommands", "command.go"), ("Prototype", "action.go")],
  "random edit sequences against a model of lists",
  "Up to 6 edits in the initializers of 4 targets; up to 3 prototypes on up to 5 targets.",
  ["which targets are initialized and in what order", "the lists of flags, args and commands", "the error of Initialize"])

P("P15", "A command line is routed to the command that it names",
  """The command that runs is the one that the words of the command line lead to, one level at a time by name or alias, after the args of
  the outer command are filled; a word that names no sub-command goes to the nearest HandleCommandNotFound handlers, latest first, each with
  the error of the previous one, until one gives a command or
  skips; an implicit command runs with the words it was not named for, like it does when it is named; without any of them the run fails with a command
  not found error that names the word. Nothing of commands off that route runs.""",
  "inputs configurations",
  "all trees of commands with aliases, args, not-found handlers and implicit commands, all sequences of words",
  "handlers, aliases and args of outer commands combine; tests hold one handler in one command",
  "command.go context.go error.go",
  [("subcommandCore, tryFindCommandOrIntercept", "command.go"), ("HandleCommandNotFound, ImplicitCommand", "context.go command.go")],
  "random trees and words against a model of the routing",
  """Trees of 3 levels; whether other handlers see the error of an implicit command and whether the Action of the parent runs after
  ErrSkipCommand are not claimed.""",
  ["which command runs with which args", "which handlers are called with which errors", "the error of RunContext"])

P("P16", "Any command line is run or rejected cleanly, and always the same way",
  """Whatever the tokens of the command line and whatever well-formed app they are given to (flags and args of every type with every
  compatible option, count, default, validator and completion, sub-commands, command options), the run ends without a
  panic and without an internal error, and running the same line against the same app again gives the same
  error, the same output and the same sequence of actions with the same values.""",
  "inputs configurations",
  "all apps up to three levels built of every flag type and option, all token sequences with odd and non-ASCII tokens",
  "a panic or a dependence on map order needs a certain combination of option, type, count and token",
  "set.go context.go command.go action.go option.go value.go templates.go usage.go",
  [("RawParse", "set.go"), ("option pipelines", "option.go action.go"), ("help and version", "usage.go templates.go")],
  "random apps and tokens: no panic, no internal error, two runs agree",
  """Trees of 3 levels, 25 kinds of values, up to 7 tokens; WorkingDirectory is left out (it changes the directory of the process), and
  so are combinations that are documented as not supported (Optional on strings and lists, EachOccurrence on values without Copy).""",
  ["panics", "RunContext's error", "Stdout, Stderr", "the trace of actions and values"])

P("P17", "Completion offers exactly what the command line accepts at that place",
  """For every app, every command line so far and every incomplete word, the completion request lists exactly the
  names of the visible flags that begin with the word (with = where the only one needs a value), the values of the flag (also one of an outer command) that is waiting for
  one, the values of the arg whose turn it is, or the sub-commands and their aliases, of the innermost command, which is also the one that
  an implicit command or a handler of unknown ones leads to; the values are those of the completion of the option, else of its Enum or the type of its value; it runs no
  action of the app or the command line, however registered, tells a completion function the arguments, bindings and values so far, never panics, and is served through the environment as the shell makes it, each item in lines of its own, with exit code 0, even if the app
  has required flags and args.""",
  "inputs configurations",
  "all trees of commands with flags, args and completions, all valid beginnings of command lines and words; all tokens for robustness",
  "the tests complete one app with a dozen lines; nested commands, required options and partial parses combine freely",
  "completion.go completion_zsh.go command.go context.go",
  [("defaultCommandCompletion, completeSubCommand, findSolitaryMatch", "command.go"), ("CompletionValues, Context.Complete", "completion.go"), ("GetCompletionRequest, FormatCompletions", "completion_zsh.go")],
  "random apps, lines and words against a model of the candidates",
  """Trees of 3 levels, 5 flags and 3 args each; exact names that also begin other names, and inline values of flags without
  completion are not claimed.""",
  ["Context.Complete", "Stdout and the error of a completion request"])


P("P18", "The help screen and the synopsis show exactly what the command accepts",
  """The synopsis of a command names every visible flag and arg exactly once, in the form in which it can be given: its long name, or its short
  one; with [no-] where that form is accepted; with its placeholder (the usage text, else the choice of an Enum, else the placeholders of the help text in the order of
  their positions, else that of the type of its value); optional ones in brackets, the required ones not. The help screen of every command, however it is asked for (help command, flag before or
  after the names of commands), shows that synopsis, its description, each visible flag, sub-command and option of outer
  commands exactly once, under its category, with its help text, and nothing that is hidden.""",
  "configurations inputs",
  "all trees of commands with all kinds of flags and args, categories, help texts with placeholders and options",
  "groups, categories, visibility and options combine; the tests look at a few screens",
  "usage.go templates.go internal/synopsis/synopsis.go internal/synopsis/placeholder.go command.go flag.go arg.go",
  [("NewCommand, NewFlag, WriteTo", "internal/synopsis/synopsis.go"), ("ParseUsage, Placeholder", "internal/synopsis/placeholder.go"), ("HelpTemplate, commandAdapter", "templates.go"),
   ("DisplayHelpScreen", "usage.go")],
  "random apps against an independent rendering of the screen, compared as lines with white space collapsed",
  """Trees of 3 levels, up to 5 flags and 3 args each, required args first; white space and the spelling of the names of outer commands are not
  claimed, nor the help flag when something required is missing.""",
  ["stderr of help", "Command.Synopsis, Flag.Synopsis, Arg.Synopsis"])

P("P19", "Wrap moves words to new lines and changes nothing else",
  """For every text, indent and width, the output of Wrap consists of the lines of the text, in which some spaces are replaced by
  a line break and the indent: no word, escape sequence, space within a line or line break is lost, added or broken; a line is broken at the first space at
  which it has reached the width, and not before; escape sequences count as nothing.""",
  "inputs",
  "all texts of words, spaces, line breaks, escape sequences and non-ASCII letters, all indents and widths",
  "the state of Wrap depends on where the width is reached; the tests hold about ten texts",
  "usage.go",
  [("wrapper.Write", "usage.go"), ("printableWidth", "usage.go")],
  "random texts; every line of the output is found in the text",
  "Up to 14 words, width 1 to 24, indents up to 30.",
  ["the text written by Wrap"])

P("P20", "Special values (hex, octal, byte lengths, JSON) are read exactly or rejected",
  """For every text, a Hex or Octal value set from the command line is the number the text denotes in that base (with or without its
  prefix), and the text of a number is read back as the number; a byte length is the product of its number and unit (decimal and
  binary prefixes up to quetta) exactly when the text is a number, spaces, a unit and B, or a plain integer; a JSON value is decoded from the file
  given by reference. Any other text is an error.""",
  "inputs",
  "all numbers, all texts near the grammar of numbers and lengths, all documents",
  "the tests hold a dozen texts; near misses of the grammar and the limits of 64 bits are not among them",
  "value/value.go",
  [("Hex, Octal", "value/value.go"), ("ParseByteLength", "value/value.go"), ("JSON", "value/value.go")],
  "random numbers, texts and documents against strconv, exact rational arithmetic and encoding/json",
  """Lengths that do not fit into an int are not claimed; fractional lengths are compared up to a byte or the precision of float64.""",
  ["the values after RunContext", "ParseByteLength, UnmarshalText, String"])

P("P21", "Quote, Join and Split lose nothing, for this library and for the shell",
  """For every list of arguments, splitting what Join wrote gives the same arguments, a POSIX shell takes it as the same arguments, Join is the
  quoted arguments with spaces, and arguments without special characters are not quoted. For every value of every built-in type, the text that Quote gives
  sets the same value.""",
  "inputs",
  "all arguments (any bytes but NUL), all values of the built-in types",
  "the tests hold some ten arguments; quotes, blanks, control characters, invalid UTF-8 and other scripts combine freely",
  "cli.go value.go",
  [("Quote, Join, Split", "cli.go"), ("Set", "value.go")],
  "random arguments: round trip and differential with sh; random values: round trip",
  "Up to 6 arguments of up to 8 pieces; NUL can not occur in arguments; lists and maps without separators in the items.",
  ["Quote, Join, Split, Set", "the arguments which sh sees"])

P("P22", "Options, filters, timings and features combine as sets",
  """For every combination of Options, FilterModes and a Timing, the text names exactly the modes in it and reads back as the same value, in any
  order of the names; a combination of filters matches a context, and lets IfMatch run its action, exactly if every filter in it does; a FeatureMap enables for
  every request the features contained in it, the largest first, none of them twice and always in the same order.""",
  "inputs configurations",
  "all combinations of modes, all contexts of a run, all feature maps and requests",
  "the tests look at single modes; there are millions of combinations",
  "option.go filter.go action.go",
  [("Option.MarshalText, UnmarshalText, String", "option.go"), ("FilterModes", "filter.go"), ("FeatureMap.Pipeline", "option.go")],
  "random combinations: round trip through JSON, and independent evaluation of filters and features",
  "Bits that no mode has are not claimed.",
  ["MarshalText, UnmarshalText, String", "FilterModes.Matches and IfMatch in every context", "the features enabled"])

P("P23", "Expressions are parsed like commands and evaluated as a pipeline",
  """For every set of expression operators and every list of tokens, each token binds to the operator it names (by name or alias, with one or two dashes) or to an
  arg of the last operator as the grammar of args says, or an error names what is missing or unknown and nothing is evaluated. Each use
  of an operator sees the values of its own args and defaults, in every evaluation. Evaluation passes each item through the operators in order: what an operator
  yields, in any of the forms an evaluator can have, reaches the next one; Prepend and Append add operators at the ends. The help screen
  lists the visible operators by category.""",
  "inputs histories",
  "all sets of operators with any counts of args, all token lists, all items",
  "the tests evaluate some ten expressions of one or two operators; uses of the same operator interact through shared args",
  "extensions/expr/expr.go extensions/expr/templates.go extensions/expr/context.go",
  [("Expression.Initializer, pipeline, bindings", "extensions/expr/expr.go"), ("EvaluatorOf, Evaluate, Yielder", "extensions/expr/expr.go"), ("help template", "extensions/expr/templates.go")],
  "random operators and token lists against a reference parser and pipeline",
  "Up to 4 operators with up to 2 args; Expr.UsageText, RightToLeft on Expr and evaluators of the form func() error are not claimed, nor custom values without Reset.",
  ["the items each operator sees with its args", "the error of RunContext", "the help screen"])

P("P24", "Command lists end at their terminator and files open with the program",
  """For every list of tokens, a flag, arg or expression operator with a list of a command and its arguments takes the tokens up to and including the first ';' or '+', whatever they look
  like, and leaves the rest to the others; without the terminator there is an error. Args, Command, UsePlaceholder and String give back that command. Opening a file runs the program of the
  desktop with exactly that file if there is a display, and reports what fails.""",
  "inputs configurations",
  "all token lists, in flags, args and expressions; displays, programs that fail or are missing",
  "tokens that look like flags or terminators combine freely with the form; the tests have two lists",
  "extensions/exec/arglist.go extensions/exec/open.go extensions/exec/exec.go",
  [("ArgList.NewCounter, split", "extensions/exec/arglist.go"), ("Open", "extensions/exec/open.go")],
  "random token lists against slicing at the terminator; a stand-in program which records its arguments",
  "In args and expressions the first token is not one that looks like a flag, nor is '--' in the list.",
  ["the ArgList in the action or evaluator", "the arguments of the program"])

P("P25", "Fields of a structure are set like flags of the same type",
  """For every list of assignments, in one or several occurrences, a structure value sets exactly the fields named (in any case, or by tag), each to what a flag
  of the type of the field would have, keeps all others, and fails if a text is not valid for its field or, with ErrorUnused, a field does not exist.
  Commas split the assignments only where that is not disabled; lists are replaced as a whole; values and text unmarshalers set in place or allocated.""",
  "inputs",
  "all lists of assignments to fields of all supported types, with and without existing values",
  "the test sets one field of a zero structure to a valid text",
  "extensions/structure/structure.go",
  [("Value.Set, Decode", "extensions/structure/structure.go"), ("valueHook, urlHook, sliceHook", "extensions/structure/structure.go"), ("ParseMap", "internal/support/support.go")],
  "differential with Set on a variable of the same type",
  "20 fields; texts that the weak conversion reads differently (empty numbers, on and off) and []byte, maps and name-value lists are not claimed.",
  ["the structure after Set and after RunContext", "the value in the context"])

P("P26", "Providers get the name and arguments given, checked by the registry",
  """For every command line, a provider flag holds the name given and the arguments from the short syntax and from every occurrence of its argument flag (made by
  SetArgument or as an accessory, in any order), the latter taking precedence; its text is the name and arguments. If a registry of its name is present and
  does not allow unknown providers, an unknown name or argument is an error and no action runs. The registry makes instances from defaults overlaid by
  the options, by factory, typed factory or value (none of which changes the defaults), and lists the providers sorted. Functions that are no factory are refused.""",
  "inputs configurations",
  "all registries, all forms of the arguments, all command lines",
  "the tests give at most one argument in each form; several forms and the registry interact",
  "extensions/provider/provider.go extensions/provider/context_services.go",
  [("Value.Set, setArgument", "extensions/provider/provider.go"), ("SetArgument, ArgumentFlag, validateProvider", "extensions/provider/provider.go"), ("Registry.New, Factory, ListProviders", "extensions/provider/provider.go")],
  "random registries and command lines against maps",
  "At most one occurrence of the provider flag; values with commas only without splitting.",
  ["the provider value in the action", "the error of RunContext", "Registry.New", "the list of providers"])

P("P27", "File templates write what their generators say, and nothing in a dry run",
  """For every tree of generators (contents, templates, formatting, directories, conditions, sequences, nil) and every existing tree of files, running a template root gives each file the content its generators make
  from the data of the context, at the path made of the enclosing directories, touches nothing else, closes each file, and reports each file as created, overwritten or identical. The first error (of a generator, a reader or any operation of the file system) stops it and
  is the result. What a generator does through the output context is done to the files named in its directory, after making the directories above them. A dry run
  lists the same files and changes no file or directory.""",
  "inputs configurations fault_sequences",
  "all trees of generators, existing files, data and options",
  "generators nest and share an output context; the tests generate one flat directory in memory",
  "extensions/template/template.go extensions/template/file.go extensions/template/dir.go extensions/template/context.go",
  [("Root.Execute", "extensions/template/template.go"), ("File, Contents, Template, Gofmt", "extensions/template/file.go"), ("Dir", "extensions/template/dir.go"), ("OutputContext", "extensions/template/context.go")],
  "random trees of generators over a real directory, against a model of the tree; random operations of the output context, against the same operations on another directory; random faults of the file system",
  "Two levels of directories; what remains of a file whose generator fails is not claimed.",
  ["the files and directories afterwards", "the output", "open files", "the error of RunContext"])

P("P28", "Files and file sets behave like the files they name",
  """For every sequence of operations on files of every kind of file system (a directory, wrapped, with a dash, read-only, with nothing but Open), each has the result, the error and the effect
  that the same operation of the operating system has on the same file, and is refused where the file system can't do it. The file named - reads standard input and writes standard output of the app. A file set holds exactly the
  names given, and Do, Exists and the walks of it visit exactly the files the names and their directories have, in order, each once for each time it is named, stopping at the first error.""",
  "inputs histories",
  "all sequences of up to 6 operations, all kinds of file system, all trees",
  "operations interact through the state of the files, and each kind of file system forwards them differently",
  "file.go",
  [("File, FileSet", "file.go"), ("NewFS, NewSysFS, DirFS", "file.go"), ("setFile, setFileSet", "file.go")],
  "differential with package os on a copy of the directory, as an unprivileged user; reference walk for sets",
  "Empty names, paths below a file (Exists) and closing the dash file are not claimed.",
  ["results and errors of each operation", "the tree after each operation", "the files visited", "standard output"])

P("P29", "Bound functions get the values of the command line, typed and in order",
  """For every type supported by the binders and every command line, a function bound by Call, Action or Evaluator is called with exactly the values its binders name: the value of the flag or
  arg by name or index, of the current flag or arg when no name is given, static values, and results of functions, in the order of the binders. An implicitly typed flag or arg takes
  the type of its binder and refuses other texts. The first binder that fails ends it, and its error is reported; the function's own error is reported too. A redirected flag sets the named one
  to the same value as setting it directly, and a bound indirect flag is passed to the method of the value it names.""",
  "inputs configurations",
  "all types with binders, all forms of naming, all command lines",
  "every type has its own binder and three arities; the tests bind a few of them once",
  "extensions/bind/binder.go extensions/bind/func.go context.go",
  [("Binder, For, Exact, Value, FromContext", "extensions/bind/binder.go"), ("Call, Action, Evaluator, Redirect, Indirect", "extensions/bind/func.go"), ("SetValue, ContextOf", "context.go")],
  "recorded calls against the values parsed independently by Set",
  "Redirect of custom values, Exact without a value in a command, and flags of parents with no explicit value are not claimed.",
  ["the arguments of each call", "the values in the action", "the error of RunContext"])

P("P30", "Tables show the cells of the template, each in its row and column",
  """For every template of tables, in every format, the output of each table has the headers, the rows and the footers in this order, one row for each Row, each cell whole in its column, aligned and wrapped as the format says,
  with the separators of the format in their places; rows with fewer cells are filled. Tables in one template do not affect each other, and a format is not changed. With tables, the help screen lists the same as
  without.""",
  "inputs configurations",
  "all tables of up to 4 columns and 5 rows, all formats, all apps for the help screen",
  "the tests render one porcelain table; formats, ragged rows and wrapping combine, and the help templates are not rendered",
  "extensions/table/table.go",
  [("tableContext, porcelainContext", "extensions/table/table.go"), ("Format", "extensions/table/table.go"), ("RegisterHelpTemplates", "extensions/table/table.go")],
  "the output read back into cells and rules against a model of the table; the help screen against the model of P18",
  "Separators next to empty footer cells, and tabs and newlines in cells are not claimed.",
  ["standard output", "the format afterwards", "the help screen"])

P("P31", "Color and styles are written exactly when the user or the terminal says so",
  """For every combination of color flags, initializers, Before and Action that set the mode, and every kind of stdout (a terminal, a buffer, a file, another writer), TERM and NO_COLOR, color is enabled for stdout and its buffers exactly as the
  last of them says, or as detected for auto or none of them. Each style and color function of templates and of writers applies exactly its attributes to exactly its text and leaves none
  afterwards; without color the text is the same and there are no control sequences. The text of a mode sets the same mode.""",
  "configurations inputs",
  "all command lines with a color flag, all kinds of stdout, all chains of up to 3 functions on 1 to 4 texts",
  "the tests use a buffer or a fake writer and one function each; detection on a terminal is not tested",
  "extensions/color/color.go extensions/color/color_templates.go extensions/color/mode.go usage.go",
  [("SetMode, Feature", "extensions/color/color.go"), ("templateFuncs", "extensions/color/color_templates.go"), ("Mode", "extensions/color/mode.go"), ("Writer, colorEnabled", "usage.go")],
  "a model of the mode, and a terminal which interprets the control sequences, over a pseudo terminal and other writers",
  "At most one color flag; functions around text with other styles inside part of it are not claimed.",
  ["ColorCapable of stdout and buffers", "the characters on the terminal with their attributes"])

P("P32", "Each occurrence of an option is set to what its transform makes of it",
  """For every type of value, every transform (a function that returns a string, bytes or a reader, FileReference, AllowFileReference, ValueTransform and AllowFileReference of a name-value pair), however it is set (field,
  option, action or context method), and every command line, each occurrence of the flag or arg gives its tokens to the transform once, in order, and the value is set to the whole result, unsplit and unaltered: merged, overwritten and counted
  as without a transform. In a pair only the value is transformed, whether it is one token with the name or two. Only files that are referred to are opened, in the file system of the app; a transform, file or reader that fails ends the run with its error before any
  action; raw values stay as they were typed.""",
  "inputs configurations fault_sequences",
  "all types, transforms, ways of setting them, contents of files with separators and escapes, and failures",
  "the tests transform one value of a few types; contents with separators, several tokens, default and merged values, and failing readers are not tested",
  "action.go value.go set.go option.go",
  [("Transform, ValueTransform, TransformFileReference, TransformOptionalFileReference", "action.go"), ("SetData", "value.go"), ("rawApplyToOption", "set.go"), ("eachOccurrenceOpt", "option.go")],
  "the fold of the transformed texts over the occurrences, a recording file system and recorded calls",
  "Implicit values are not transformed, bare keys of maps, bool flags without a value, and strings for []byte are not claimed.",
  ["the value and raw values in the action", "the calls of the transform", "the names that are opened", "the error of RunContext"])

P("P33", "The options of flags, args and commands do what they document",
  """For every flag, arg and command, every way of setting an option (field, action, pipeline, Setup, Prototype, from another target) and every command line: Optional and OptionalValue give the documented value of the type
  when the value is omitted; No adds a mirror by each long name which makes the flag false and triggers its Action once, at any level; NonPersistent flags are unknown in sub-commands and others are known;
  Exits ends the run with success after the Action; a path with MustExist that does not exist ends the run before any Action, and no path is no error; with WorkingDirectory actions run in the directory; Hidden, Visible, leading
  underscores and DisableAutoVisibility decide what is listed in help and the Sorted options its order, however the help screen is asked for.""",
  "inputs configurations",
  "all types, all ways of setting options, apps of up to 4 levels, all command lines using them",
  "each option is tested once, in a field of a top-level flag; levels, spellings and the way the option is set are not varied",
  "option.go flag.go context.go usage.go value.go",
  [("builtinOptions and their functions", "option.go"), ("Flag.Set, setOptional", "flag.go"), ("applyImplicitVisibility", "context.go"), ("findCommandToDisplayHelpFor, sortUsage", "usage.go"), ("valueSmartOptionalDefault", "value.go")],
  "per option, the documented rule computed from the generated app and command line; a scratch directory and an in-memory file system",
  "Optional for strings and lists (documented to panic), a flag and its mirror both given, Exits on commands, and Hidden with Visible are not claimed. Other options are in P01, P03, P05, P06, P07, P12 and P32.",
  ["values and calls of Actions", "the working directory", "the help screen", "the error of RunContext"])

P("P34", "Bind and Accessory call the function on the right target",
  """For every flag and arg with Bind, BindContext or BindIndirect in its Uses, of every type of value: when it occurs, the function is called once in the Action timing (once per occurrence with EachOccurrence), in the order of flags and
  then args, with the value which was given to the action, else with that of the flag or arg, and on the target which the name or reference means, in the same command or one above; it is not called otherwise, and its error ends the run. A flag without a
  type gets that of the function, or bool if the value is given. An accessory is a flag of the same command, named as the parameter says (the prototype's name, the other's name and the prototype's, or its own), in the category of the other flag
  unless it has one, which does what its prototype and actions say.""",
  "inputs configurations",
  "14 types, flags and args of two levels, all naming modes, all orders and numbers of occurrences",
  "tests bind one flag of one type at one level",
  "action.go internal/support/bind_support.go",
  [("bindThunk, Bind, BindContext, BindIndirect", "action.go"), ("Accessory, Accessory0", "action.go"), ("BindSupportedValue", "internal/support/bind_support.go")],
  "the calls computed from the generated app and the occurrences, compared as a whole sequence, and the attributes of the accessory computed from the prototype",
  "Binding in other timings than Uses without a Value, and values which come from the environment (for which no Action runs), are not claimed.",
  ["the sequence of calls with their values and targets", "the flags of the command", "the error of RunContext"])

P("P35", "Context values, timeouts and signals apply to a command and below",
  """For every tree of commands: a value put in the context by ContextValue, SetContext or SetContextValue, in Before or Action of a command (or Uses of the app), is seen by what runs later in this command, its flags and args and its sub-commands,
  where the latest one wins, and not by the commands above or by others when it was put by a flag or arg; values of the context given to RunContext are seen everywhere. The deadline is the earliest of the context given and the Timeouts of the command and
  those above; the context ends when the first of them does, or when a signal of HandleSignal arrives in the command or one above (and no other signal), and Timeouts and signal handlers are released after a successful run.""",
  "inputs schedules configurations",
  "trees of up to 3 levels, all hooks, several keys and overrides, cancellation at five points, three signals",
  "tests have one timeout, one signal, and one value at a time",
  "action.go context.go command.go",
  [("ContextValue, SetContext, Timeout, HandleSignal, cancelAfter", "action.go"), ("Context.SetContext, Deadline, Done, Err, copy", "context.go"), ("copyContextToParent", "command.go")],
  "a model of the sets in the order of the history; for deadlines the interval between the times measured around them; for ends a wait of up to 30 s",
  "That Uses of a sub-command also affects the commands next to it is a known finding (P35-uses-context-siblings); what is seen above it is not claimed. Signals are SIGUSR1, SIGUSR2 and SIGHUP, sent to the test process itself, which handles them.",
  ["Value, Deadline, Done and Err of the context in each hook"])

P("P36", "Templates, the version, the license and printed text are what they should be",
  """For every history of RegisterTemplate, RegisterTemplateFunc and ExecuteTemplate (as actions and methods, in any hook): what is executed is the template registered last by that name, alone or nested in another, where the nested ones, Execute and the
  functions are also those registered last, with the data given or else App and Command of the context; it is written to the standard output and a template which does not exist is an error; Bind gives the same text on demand. The version and
  license flags and commands, by any name, print their template (also when replaced) and end the run with success without any Action. Print, Println, Printf and their F forms write exactly what package fmt does, to the standard
  output or the writer (standard error if nil); prompts go to standard error, and reading from what is not the terminal is an error.""",
  "histories inputs configurations",
  "up to 14 operations over 4 templates, 2 functions and 6 hooks; all print functions; names, versions, licenses and widths",
  "a few templates are registered and executed once; replaced, nested and re-registered ones are not",
  "usage.go templates.go context.go action.go app.go cli.go",
  [("Context.ExecuteTemplate, RegisterTemplate, Template.Bind, PrintVersion, PrintLicense", "usage.go"), ("builtinFuncs", "templates.go"), ("Context.Template, withExecute, Print, displayPrompt", "context.go"), ("ensureTemplates, setupDefaultTemplateFuncs", "app.go"), ("ReadString", "cli.go")],
  "a small interpreter for the generated templates over a map of what is registered; package fmt for the print functions; cli.Wrap (P19) for the width of the license",
  "An unnamed flag or command with PrintVersion in an app (its name is also that of the built-in one) is not claimed. The terminal is a stand-in with descriptor 0.",
  ["standard output and standard error", "the error of RunContext"])

P("P37", "What initializes a value runs with its flag, arg or command",
  """For every tree of commands, flags and args which provide value initializers, by ProvideValueInitializer in Uses or by the Initializer of their values: the actions given run in a context named after the value, whose target it is, once in
  initialization and then for every timing they are registered for, together with those of the args the value has or gets by AddArg: after Uses and Before of the flag, arg or command, as part of its Action when it is given (before that of a
  command), and after its After; and LookupValueTarget finds the value. Actions and Prototypes that describe the target (help, usage and manual text, description, category, aliases, default text, data, visibility) are calls of the methods of the value, where it has
  them, with the last text; nothing else is changed or cleared, neither in the value nor in the flag, arg or command.""",
  "inputs configurations",
  "trees of up to 3 levels with up to 2 values each, in 5 ways; 5 kinds of values; up to 8 descriptive actions",
  "tests have one value in one arg, and check counts rather than order",
  "context.go action.go value.go extensions/expr/expr.go",
  [("ProvideValueInitializer, valueTarget, triggerValueTargetsHO, copyFlagsFromValueTarget", "context.go"), ("defaultValue pipelines, Prototype.copyToValue", "action.go"), ("Expr setters", "extensions/expr/expr.go")],
  "the pipeline model of P10 extended with values, compared as a whole trace with the contexts' paths; for descriptions, a record of the last text per method",
  "A field which both a Prototype and another action set is not claimed (values can't be asked what they have), nor are value initializers provided after initialization.",
  ["the trace of all actions", "what the context says in each", "the calls of the methods of the value", "LookupData in each hook"])

P("P38", "Customize runs on every flag, arg and command that its pattern names",
  """For every tree of commands, flags and args, given from the start or added by initializers, and every set of customizations made by Customize (or an initial Hook with a pattern) in the Uses of its commands: each runs once on every flag,
  arg and command below that command whose path ends in the pattern, before its own Uses, the customizations of outer commands first and then in the order they were made; and all of them run again on what changed its name while it was
  initialized, with its new path. The empty pattern is the target itself. What a customization sets (data, a name) stays set, and the first error that one returns, also when run again, ends the initialization and comes out as it is.""",
  "inputs configurations",
  "trees of up to 3 levels with up to 3 flags and 2 args in each command; up to 2 customizations per target; patterns of 1 to 3 parts",
  "tests customize one flag or command at a time and don't count the runs",
  "context.go command.go action.go",
  [("Context.Customize, hookAt, ContextPath.Match, tunnel, reinitialize", "context.go"), ("initializeFlagsArgs, initializeSubcommands", "command.go")],
  "a reference interpreter of the initialization with its own pattern matcher; the whole trace, the error, the final names and the data are compared",
  "The path that patterns see is that at the start of the pass over a target, even if a customization renames it. Built-in flags and commands are left out.",
  ["the trace of customizations and Uses with the names at that moment", "the error of Initialize", "names and data after it"])

P("P39", "joe new app generates a program that compiles and says what was asked for",
  """For every name, help text, comment and version (whatever their characters), every combination of --color, --table, --http and --license in any order, and whatever the directory contains, `joe new app` succeeds: it writes
  cmd/NAME/main.go, a formatted program that compiles and runs, which has exactly these texts and only the extensions that were asked for, and cmd/NAME/license.txt exactly with --license, and it changes no other file; it runs `go get`
  once, with the modules that are needed; it reports each file as created, overwritten or identical, as it is; and doing it again changes nothing. With --dry-run it reports the same files, and neither writes a file nor runs a program.
  If `go get` or writing fails, the tool fails and leaves the files as they were.""",
  "inputs configurations",
  "names of 1 to 9 characters and odd ones, texts with quotes, control and template characters; directories with and without files in the way; go is a stand-in that notes how it is called, except for compiling the result",
  "no test runs the tool",
  "internal/joe/joe.go internal/joe/new.go internal/joe/templates.go internal/joe/tpl/app.go.tpl extensions/template/go_get.go extensions/template/file.go extensions/template/context.go",
  [("newAppCommand, newAppTemplate, newInitTemplate", "internal/joe/new.go"), ("goGetter.Generate", "extensions/template/go_get.go"), ("fileGenerator.Generate, Gofmt", "extensions/template/file.go")],
  "the syntax tree of the generated program is compared with what was asked for, gofmt must leave it alone, the files, reports and calls of go with a model; some are compiled and run",
  "--force has no effect in this version and nothing is claimed about it. Names with path separators are left out: where the program goes is then up to the user.",
  ["the generated files", "the reports on stdout", "the calls of go", "the output of the compiled program"])
