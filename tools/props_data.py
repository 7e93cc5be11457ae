NOT_APPLICABLE = []
PBT = "property-based testing: "

P("P01", "Integer arithmetic behaves like 32-bit C arithmetic",
  "Every integer expression and assignment, plain or augmented, leaves its "
  "target with the value that 32-bit wrapping arithmetic with truncating "
  "division gives, evaluated on the operand values at that moment, whatever "
  "mix of constants, variables, scores, fields and calls it is built from. "
  "No other variable changes, even when the target also occurs in the "
  "expression.",
  ["programs", "inputs"],
  "all integer expressions over all operand kinds, targets and operand values",
  TESTS + "no emitted command is ever executed, so a wrong operand order, "
  "clobbered temporary or aliased target is invisible.",
  ["acaciamc/objects/integer.py", "acaciamc/mccmdgen/generator.py"],
  [("operand ordering and dependency tracking of integer operations",
    "acaciamc/objects/integer.py"),
   ("assignment and augmented assignment", "acaciamc/compiler.py")],
  PBT + "generated expressions executed in a command interpreter and "
  "compared with a reference evaluator",
  VMNOTE + "Division and modulo by zero are outside the domain.")

P("P02", "Boolean expressions and comparisons yield the right truth value",
  "Every comparison, chained comparison, logical connective, negation and "
  "conversion evaluates to the truth value the operands have at that moment, "
  "over the full 32-bit range, whether it is stored, passed, printed or used "
  "as a condition. Evaluating it changes nothing else.",
  ["programs", "inputs"],
  "all boolean expressions over constants, variables, scores, fields, calls "
  "and all 32-bit values, in every place a condition may stand",
  TESTS + "the truth of a generated condition is never observed and boundary "
  "values never occur.",
  ["acaciamc/objects/boolean.py", "acaciamc/compiler.py",
   "acaciamc/mccmdgen/cmds.py"],
  [("comparison and boolean expression lowering",
    "acaciamc/objects/boolean.py"),
   ("score range conditions", "acaciamc/mccmdgen/cmds.py")],
  PBT + "generated conditions executed in a command interpreter and compared "
  "with a reference evaluator",
  VMNOTE)

P("P03", "Control flow runs exactly the statements it selects",
  "If/elif/else runs exactly the first branch whose condition held when it "
  "was tested, while repeats its body exactly as long as its condition holds "
  "at each test, and for over a list runs its body once per element in order. "
  "Statements that follow run exactly once, with all effects of the body in "
  "place, at any nesting.",
  ["programs", "inputs"],
  "all nestings of conditionals and loops with bodies that modify the "
  "variables the conditions read",
  TESTS + "which branch runs, how often, and what is left behind is never "
  "observed.",
  ["acaciamc/compiler.py", "acaciamc/mccmdgen/cmds.py",
   "acaciamc/mccmdgen/optimizer.py"],
  [("branch and loop generation", "acaciamc/compiler.py"),
   ("conditional execution of function files",
    "acaciamc/mccmdgen/cmds.py")],
  PBT + "generated control flow executed in a command interpreter and "
  "compared with a reference interpreter",
  VMNOTE + "Loops are generated with a bounded trip count.")

P("P04", "Calling a function equals running its body with the arguments",
  "A call of a plain, inline or bound function runs its body with parameters "
  "holding the argument values at the time of the call and yields the last "
  "assigned result; parameters and locals of plain functions do not leak "
  "into or alias the caller's variables. Reference parameters of inline "
  "functions update the caller's variable.",
  ["programs"],
  "all programs of mutually calling functions with any mix of value, const "
  "and reference parameters, defaults, keyword arguments and nesting",
  TESTS + "no call is ever executed, so clobbered parameters, stale results "
  "and aliasing go unnoticed.",
  ["acaciamc/objects/functions.py", "acaciamc/mccmdgen/generator.py"],
  [("argument passing and result storage", "acaciamc/objects/functions.py"),
   ("inlining of function bodies", "acaciamc/compiler.py")],
  PBT + "generated call graphs executed in a command interpreter and "
  "compared with a reference interpreter",
  VMNOTE + "Plain functions do not recurse (the language forbids it).")

P("P06", "Struct values are copied, complete and independent",
  "Assigning, passing or returning a struct copies every field including "
  "inherited and nested ones, and later changes to one copy never show in "
  "another. Construction sets exactly the given fields, in any nesting and "
  "also when the arguments read the struct being replaced.",
  ["programs"],
  "all struct hierarchies, nestings, and sequences of construction, "
  "assignment, passing and field updates",
  TESTS + "field contents are never observed.",
  ["acaciamc/objects/struct.py", "acaciamc/objects/struct_template.py"],
  [("struct construction and copying", "acaciamc/objects/struct.py")],
  PBT + "generated struct programs executed in a command interpreter and "
  "compared with a reference interpreter",
  VMNOTE)

P("P07", "Optimization never changes what a program does",
  "With the optimizer on, at any inlining limit, a program produces the same "
  "sequence of visible effects (chat, world commands, scores) as with it "
  "off. Entry points that the user can call stay callable.",
  ["programs", "configurations"],
  "all programs and all optimizer settings",
  TESTS + "optimized output is never run against unoptimized output.",
  ["acaciamc/mccmdgen/optimizer.py", "acaciamc/compiler.py"],
  [("dead function removal, inlining of single calls and run-once files",
    "acaciamc/mccmdgen/optimizer.py")],
  PBT + "differential execution of optimized against unoptimized builds",
  VMNOTE)

P("P10", "Any input is compiled or refused with a located diagnostic",
  "Whatever the source text, well formed or not, the compiler terminates and "
  "either produces output or reports one of its own errors at a position "
  "inside a source file; it never fails with an internal error.",
  ["inputs", "programs"],
  "all byte strings, token sequences, mutated programs and generated programs",
  TESTS + "rejected programs are represented by a handful of parser samples.",
  ["acaciamc/tokenizer.py", "acaciamc/parser.py", "acaciamc/compiler.py",
   "acaciamc/error.py", "acaciamc/objects"],
  [("error reporting", "acaciamc/error.py"),
   ("argument and type checking", "acaciamc/objects")],
  "grammar-based, mutational and byte-level fuzzing with a crash/hang/"
  "located-diagnostic oracle",
  "Randomised exploration over six generators; nesting depth is bounded "
  "because Python's recursion limit is not part of the property.",
  ["exception or diagnostic of the compiler"])

P("P12", "Configuration changes where things are stored, not what happens",
  "Renaming the scoreboard objective, entity tag, root folder, main, init or "
  "internal files, splitting initialisation off, or turning debug comments "
  "on changes names and layout only: the program has the same effects, and "
  "every file and resource stays inside the configured names.",
  ["configurations", "programs"],
  "all programs and all combinations of settings",
  TESTS + "a single default configuration is used.",
  ["acaciamc/compiler.py", "acaciamc/mccmdgen/generator.py",
   "acaciamc/cli.py"],
  [("configuration use during file generation", "acaciamc/compiler.py")],
  PBT + "metamorphic comparison of builds under different configurations",
  VMNOTE)

P("P13", "Layout, comments and redundant parentheses have no effect",
  "Two program texts that differ only in indentation width, spacing, line "
  "breaks inside brackets or after a backslash, blank lines, comments, line "
  "terminators, number bases or redundant parentheses compile to identical "
  "files.",
  ["inputs", "programs"],
  "all programs and all layout variations of them",
  TESTS + "each sample is written in one layout.",
  ["acaciamc/tokenizer.py", "acaciamc/parser.py"],
  [("indentation, continuation and comment handling",
    "acaciamc/tokenizer.py")],
  PBT + "metamorphic comparison of differently laid out texts",
  "Randomised exploration; compares bytes of the output, trusts only the "
  "renderer of the variations.",
  ["bytes of the generated files"])

P("P05", "Compile-time code computes what the source says",
  "Code that runs during compilation (const def functions, const variables, "
  "compile-time loops and conditions, lists, maps, strings, floats) computes "
  "the values the source describes, with value semantics for numbers and "
  "parameters and reference semantics for containers, and a computation with "
  "no defined value is refused.",
  ["programs"],
  "all const def programs with recursion, loops, containers and all literal "
  "types, valid or failing",
  TESTS + "no computed value is ever compared with anything.",
  ["acaciamc/mccmdgen/ctexecuter.py", "acaciamc/mccmdgen/ctexpr.py",
   "acaciamc/objects"],
  [("compile-time execution", "acaciamc/mccmdgen/ctexecuter.py"),
   ("container and number methods", "acaciamc/objects")],
  PBT + "generated compile-time programs compared with a reference "
  "interpreter through the text they print",
  "Randomised exploration; trusts the reference interpreter of the "
  "compile-time language. Recursion and loops are kept short.",
  ["text of generated tellraw commands"])

P("P08", "Everything the compiler writes is complete and well formed",
  "Every generated command is syntactically valid, every function file and "
  "tick function referred to exists, every scoreboard "
  "objective used is set up, and comments appear only when asked for.",
  ["programs", "configurations"],
  "all accepted programs over all language features and settings",
  TESTS + "the text of the output is never parsed.",
  ["acaciamc/mccmdgen/cmds.py", "acaciamc/compiler.py",
   "acaciamc/mccmdgen/generator.py", "acaciamc/objects"],
  [("command rendering", "acaciamc/mccmdgen/cmds.py"),
   ("file generation and initialisation", "acaciamc/compiler.py")],
  PBT + "generated programs whose output is parsed and checked as a whole",
  "Randomised exploration; trusts our command grammar. Raw commands written "
  "by the user are judged only up to their first word.",
  ["text of the generated files"])

P("P09", "Compiling the same sources twice gives the same files",
  "The generated files, or the diagnostics, depend on the sources and the "
  "configuration alone: not on the process, the hash seed, the order of "
  "directory entries or on what was compiled before.",
  ["programs", "configurations"],
  "all programs, accepted or refused, and all process histories",
  TESTS + "nothing is compiled twice and compared.",
  ["acaciamc/compiler.py", "acaciamc/mccmdgen", "acaciamc/objects"],
  [("resource allocation", "acaciamc/mccmdgen/generator.py"),
   ("iteration over sets and caches", "acaciamc/objects")],
  PBT + "differential compilation by processes with different hash seeds and "
  "histories",
  "Randomised exploration over three processes per case; compares bytes.",
  ["bytes of the generated files and diagnostics"])

P("P11", "A run replaces exactly its own output, or nothing at all",
  "A compilation writes only below the output path (plus tick.json), leaves "
  "files it does not own alone, never leaves a mixture of old and new "
  "output, and a failed or refused run leaves the previous output as it was "
  "and exits with a failure status.",
  ["histories", "configurations", "fault_sequences"],
  "all sequences of runs over an output directory with any options, contents "
  "and source errors",
  TESTS + "the output directory is always fresh and is never inspected.",
  ["acaciamc/cli.py", "acaciamc/compiler.py"],
  [("output and override handling", "acaciamc/compiler.py"),
   ("option validation", "acaciamc/cli.py")],
  "stateful " + PBT + "histories of command line runs over a scratch "
  "directory, compared with a model of the directory",
  "Randomised exploration; runs are contained by an audit hook which records "
  "any write outside the scratch directory. Crashes at arbitrary points of "
  "a write are not injected.",
  ["contents of the output directory, exit status"])

P("P14", "Text in strings and commands comes out as it was written",
  "Escapes, colour codes, doubled dollars and ${...} interpolations in "
  "strings and in raw commands denote exactly the text described, with the "
  "value of the interpolated expression at that place; text that has no "
  "meaning is refused.",
  ["programs", "inputs"],
  "all string literals and raw commands with any mix of escapes, codes and "
  "interpolated expressions, well formed or not",
  TESTS + "no generated text is looked at.",
  ["acaciamc/tokenizer.py", "acaciamc/parser.py",
   "acaciamc/mccmdgen/generator.py", "acaciamc/objects/string.py"],
  [("escape sequences and interpolation", "acaciamc/tokenizer.py"),
   ("command statements", "acaciamc/mccmdgen/generator.py")],
  PBT + "generated texts whose meaning is known compared with the generated "
  "line",
  "Randomised exploration; compares the text of the output with the text the "
  "generator meant.",
  ["text of the generated commands"])

P("P15", "Printed text shows the values, in the order and style written",
  "Formatting, joining and styling texts, and tell and title in every "
  "channel and target, display exactly the characters and current values "
  "described, in order and with the innermost style, to exactly the chosen "
  "players. Patterns that do not fit their arguments are refused.",
  ["programs", "inputs"],
  "all formatted texts over constants, variables, nested formats, styles and "
  "translations, in all channels",
  TESTS + "no text is ever displayed.",
  ["acaciamc/modules/print.py", "acaciamc/objects/string.py"],
  [("pattern parsing and raw text generation",
    "acaciamc/modules/print.py")],
  PBT + "generated texts displayed in a command interpreter and compared "
  "character by character with a reference",
  VMNOTE, ["displayed text, style and receivers"])

P("P16", "Modules are found, run once per start, and shared",
  "An import finds the module its name means, runs its body once per start "
  "before the first use wherever and however often it is imported, and all "
  "importers see the same variables and functions under the names they "
  "chose. Missing, cyclic or private imports are refused.",
  ["programs", "configurations"],
  "all import graphs over directories, relative and absolute names, aliases "
  "and from-imports in any statement position",
  TESTS + "imports resolve to one sample each and their effects are not "
  "observed.",
  ["acaciamc/compiler.py", "acaciamc/mccmdgen/generator.py",
   "acaciamc/parser.py"],
  [("module search and caching", "acaciamc/compiler.py"),
   ("import statements", "acaciamc/mccmdgen/generator.py")],
  PBT + "generated module graphs executed in a command interpreter and "
  "compared with a reference",
  VMNOTE)

P("P17", "Entity templates construct, inherit and dispatch as declared",
  "Creating an entity runs its constructor chain on exactly one new entity; "
  "fields belong to the entity, whichever variable reaches it; a virtual "
  "method runs the implementation of the entity's own template, any other "
  "method that of the declared one. Incompatible declarations are refused.",
  ["programs"],
  "all template hierarchies with single and multiple inheritance, "
  "constructors, fields and methods of every kind, and programs over them",
  TESTS + "no method is ever run and no entity ever exists.",
  ["acaciamc/objects/entity_template.py", "acaciamc/objects/entity.py",
   "acaciamc/objects/functions.py", "acaciamc/mccmdgen/generator.py"],
  [("method dispatch", "acaciamc/objects/functions.py"),
   ("template definition and construction",
    "acaciamc/objects/entity_template.py")],
  PBT + "generated hierarchies and programs executed in a command "
  "interpreter and compared with a reference interpreter",
  VMNOTE)

P("P18", "Entity groups and filters hold exactly the selected entities",
  "After any history of group operations (select, add, remove, filter, set "
  "algebra, copies, clearing, entities dying) a group holds exactly the "
  "entities the operations describe; size, membership and emptiness tests "
  "report it, iteration visits each member once, and a filter selects "
  "exactly the entities satisfying all its conditions at that moment. "
  "Invalid arguments are refused.",
  ["programs", "histories"],
  "all histories of group operations, all filters and all populations of "
  "entities",
  TESTS + "no entity exists in them, so no selector, tag or count is ever "
  "evaluated.",
  ["acaciamc/objects/entity_group.py", "acaciamc/objects/entity_filter.py",
   "acaciamc/objects/extern_egroup.py", "acaciamc/objects/entity.py",
   "acaciamc/mccmdgen/mcselector.py"],
  [("group operations as tags", "acaciamc/objects/entity_group.py"),
   ("filters as chains of selectors", "acaciamc/objects/entity_filter.py")],
  PBT + "generated histories of group operations executed in a command "
  "interpreter with a population of entities and compared with a set model",
  VMNOTE, ["members of every group after every step"])

P("P19", "Scheduled tasks and loops run exactly when requested",
  "A task runs its function with its arguments exactly once, the requested "
  "number of ticks after the last request unless cancelled, and reports "
  "truthfully whether it is pending; a registered loop runs at every "
  "interval from the first tick on; restarting restores the initial state. "
  "Invalid schedules are refused.",
  ["programs", "histories", "schedules"],
  "all programs with tasks and loops and all histories of requests, "
  "cancellations and restarts over game ticks",
  TESTS + "no tick is ever executed.",
  ["acaciamc/modules/schedule.py", "acaciamc/compiler.py"],
  [("task timers and loops", "acaciamc/modules/schedule.py"),
   ("the tick function", "acaciamc/compiler.py")],
  PBT + "generated schedules run tick by tick in a command interpreter and "
  "compared with a reference timer model",
  VMNOTE, ["the messages displayed in every tick"])

P("P23", "Positions, offsets and rotations denote the places they describe",
  "A position, offset or rotation built by any chain of constructors and "
  "methods denotes, wherever it is used, the place and direction that chain "
  "describes for the entities' state at that moment; deriving a value never "
  "changes the value it came from. Invalid values are refused.",
  ["programs", "inputs"],
  "all chains of position, offset and rotation operations with all argument "
  "forms, all places of use and all states of the entities involved",
  TESTS + "no command is executed, so no coordinate is ever evaluated.",
  ["acaciamc/objects/position.py", "acaciamc/objects/position_offset.py",
   "acaciamc/objects/position_absolute.py", "acaciamc/objects/rotation.py",
   "acaciamc/tools/axe.py"],
  [("contexts of positions", "acaciamc/objects/position.py"),
   ("offsets and coordinates", "acaciamc/objects/position_offset.py")],
  PBT + "generated value chains used in world commands executed in a command "
  "interpreter with moving entities, compared with a geometric model",
  VMNOTE, ["place, direction and dimension of every command that acts"])

P("P24", "World functions perform the documented action, once, on target",
  "Every call of a function of the world module performs exactly the "
  "documented action with exactly the given arguments, defaults included, on "
  "exactly the given targets, executor and place, once each time the call is "
  "reached; world conditions are true exactly when the world satisfies them. "
  "Invalid calls are refused.",
  ["programs", "inputs", "configurations"],
  "all functions of the module, all arguments, argument forms, positions in "
  "a program and Minecraft versions",
  TESTS + "the content of the emitted commands is never checked.",
  ["acaciamc/modules/world.py", "acaciamc/tools/axe.py",
   "acaciamc/mccmdgen/cmds.py"],
  [("command of every world function", "acaciamc/modules/world.py"),
   ("argument conversion", "acaciamc/tools/axe.py")],
  PBT + "generated calls executed in a command interpreter that records "
  "actions, compared with an independent table of documented actions",
  VMNOTE, ["targets, executor, place and arguments of every action"])

P("P25", "Math module functions compute their documented results exactly",
  "For every argument in its documented range, each function of the math "
  "module yields the documented integer: exact powers, minima and maxima of "
  "any number of operands, floored quotients and remainders, and random "
  "numbers that cover exactly the given bounds. Compile-time and run-time "
  "arguments give the same result, and arguments keep their values. "
  "Invalid arguments are refused.",
  ["programs", "inputs"],
  "all functions of the module, all argument values and forms, all places of "
  "use in a program",
  TESTS + "the numbers the module computes are never looked at.",
  ["acaciamc/modules/math.py", "acaciamc/modules/_math.aca"],
  [("module functions", "acaciamc/modules/math.py"),
   ("functions written in Acacia", "acaciamc/modules/_math.aca")],
  PBT + "generated calls over boundary-heavy integers executed in a command "
  "interpreter and compared with exact integer arithmetic",
  VMNOTE, ["numbers computed and displayed by every call"])

P("P22", "Rule-breaking programs are refused where they break the rule",
  "A program that breaks a rule of the language about names and scopes, "
  "types and operators, assignments, arguments and results, declarations, "
  "functions and entities is refused, and the diagnostic names the broken "
  "rule and the place of the offence, however deep that place is and "
  "whatever surrounds it. A program that breaks none is accepted.",
  ["programs"],
  "all statements over all types of values, legal and illegal, in all "
  "contexts: nested blocks, functions, methods, modules, calls",
  TESTS + "no test compiles a program that has to be refused.",
  ["acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/ctexecuter.py",
   "acaciamc/objects/functions.py", "acaciamc/error.py"],
  [("statement and type checks", "acaciamc/mccmdgen/generator.py"),
   ("compile-time function checks", "acaciamc/mccmdgen/ctexecuter.py"),
   ("diagnostics", "acaciamc/error.py")],
  PBT + "generated statements in generated contexts judged by an independent "
  "table of the language's rules, and a scope model for names",
  "The tables of legal operand, argument and result types and of rules are "
  "written from the documentation; rules outside of them are not judged.",
  ["acceptance, and reason and place of the diagnostic"])

P("P20", "Interfaces are exported at their path and run their body",
  "An interface is written to exactly the function file its path names, and "
  "running that file, as often and in whatever order after the program was "
  "started, has exactly the effect of its body on the program's current "
  "state; starting the program does not run it. Impossible, reserved or "
  "repeated paths are refused where they are written.",
  ["programs", "histories", "configurations"],
  "all interface bodies and places of definition, all paths, all "
  "configurations and all histories of starts and interface calls",
  TESTS + "no interface is ever run and paths are never varied.",
  ["acaciamc/mccmdgen/generator.py", "acaciamc/compiler.py",
   "acaciamc/constants.py", "acaciamc/mccmdgen/optimizer.py"],
  [("interface definitions", "acaciamc/mccmdgen/generator.py"),
   ("reserved and registered paths", "acaciamc/compiler.py")],
  PBT + "generated programs with interfaces and call histories executed in a "
  "command interpreter and compared with a reference interpreter, and "
  "generated paths against a model of the path rules",
  VMNOTE)

P("P21", "Functions of Python modules receive exactly what is passed",
  "A function that a Python module declares receives every value the call "
  "passes, converted as the parameter's converter says and under the declared "
  "name or position, gets the default for what is left out, and is refused "
  "at the call when a value, name, count or game version does not fit. What "
  "the module provides - attributes, initial commands, results and their "
  "commands, named tuples - is what the program sees, once per import.",
  ["inputs", "programs", "configurations"],
  "all signatures, converters, overloads, calls from run time and compile "
  "time code, versions, and all modules built from the provided tools",
  TESTS + "one fixed module is compiled and its output never inspected.",
  ["acaciamc/tools/axe.py", "acaciamc/tools/versionlib.py",
   "acaciamc/tools/resultlib.py", "acaciamc/tools/named_tuple.py",
   "acaciamc/objects/functions.py", "acaciamc/objects/module.py"],
  [("argument parsing and converters", "acaciamc/tools/axe.py"),
   ("version requirements", "acaciamc/tools/versionlib.py"),
   ("named tuples", "acaciamc/tools/named_tuple.py"),
   ("calls of Python functions", "acaciamc/objects/functions.py")],
  PBT + "generated Python modules whose functions report what they received, "
  "compared with a model of binding and conversion, and generated modules "
  "with state and results executed in a command interpreter",
  VMNOTE)

P("P26", "Music plays the notes of the MIDI file at their times",
  "While it plays, every note of the MIDI file is heard by every listener "
  "in the game tick its MIDI time, the tempo changes and the speed give, "
  "with the sound, volume and pitch that instrument, channel and options "
  "give, and nothing else is heard. Delay, start position, stop and "
  "repetition act as documented, and invalid arguments are refused.",
  ["inputs", "programs", "histories"],
  "all MIDI message sequences, options, and histories of play, stop and ticks",
  TESTS + "the module is never imported.",
  ["acaciamc/modules/music.py"],
  [("MIDI conversion and timer", "acaciamc/modules/music.py")],
  PBT + "generated MIDI files played tick by tick in a command interpreter "
  "and compared with an exact-arithmetic timeline",
  "The package mido is not installed here: a stand-in with the same "
  "interface feeds generated messages to the module. " + VMNOTE,
  ["sounds heard by every player in every tick"])

P("P27", "Values behave the same wherever they are stored",
  "A value read through a struct field (also inherited or nested), an entity "
  "field, a template or group reference, a parameter passed by value or by "
  "reference, a method's self or a variable of another module is the value "
  "last stored there, and nothing else is changed by storing it; virtual "
  "calls reach the override of the entity's own template; entities, tasks, "
  "loops and interfaces sharing those places work on the same state.",
  ["programs", "histories", "configurations"],
  "all programs combining structs, entities, templates, groups, functions, "
  "inline functions, methods, tasks, interfaces and modules, all their "
  "module splits and all histories of starts, ticks and calls",
  TESTS + "one file per feature is compiled, and features are never combined.",
  ["acaciamc/objects/struct.py", "acaciamc/objects/entity.py",
   "acaciamc/objects/entity_template.py", "acaciamc/objects/entity_group.py",
   "acaciamc/objects/functions.py", "acaciamc/mccmdgen/generator.py",
   "acaciamc/modules/schedule.py"],
  [("struct fields and copies", "acaciamc/objects/struct.py"),
   ("entity fields and virtual methods", "acaciamc/objects/entity_template.py"),
   ("reference parameters", "acaciamc/objects/functions.py"),
   ("assignment to places", "acaciamc/mccmdgen/generator.py")],
  PBT + "generated programs combining all places with call histories, "
  "executed in a command interpreter and compared with a reference model",
  VMNOTE)

P("P28", "A statement does the same wherever it may stand",
  "Moving statements from the top level of the main file into any place "
  "where they may stand - a function, an inline function, a method of any "
  "kind, a constructor, a branch, a loop over constants or over a group, a "
  "while loop that runs once, an interface, a module or a function of a "
  "module, or several of these nested - and running that place once does not "
  "change what they print, do and leave behind, nor whether they compile.",
  ["programs", "places"],
  "all programs, all splits of their top-level statements and all nestings "
  "of places around the moved part",
  TESTS + "each statement is compiled at the top level or in one place only.",
  ["acaciamc/mccmdgen/generator.py", "acaciamc/objects/functions.py",
   "acaciamc/objects/entity_template.py", "acaciamc/compiler.py",
   "acaciamc/mccmdgen/symbol.py"],
  [("scopes and contexts of statements", "acaciamc/mccmdgen/generator.py"),
   ("function bodies", "acaciamc/objects/functions.py"),
   ("method bodies", "acaciamc/objects/entity_template.py"),
   ("module bodies", "acaciamc/compiler.py")],
  PBT + "generated programs moved into generated nestings of places, executed "
  "in a command interpreter and compared with a reference model or with the "
  "program before the move",
  VMNOTE)

P("P29", "The names that a program chooses do not matter",
  "Replacing the names that a program gives to its variables, constants, "
  "functions, parameters, methods, fields, structs, entities, loop variables, "
  "import aliases, modules and folders consistently by any other names that "
  "are no keywords and clash with nothing leaves the output the same byte for "
  "byte; a program that is refused stays refused with the same kind of error "
  "at the same line.",
  ["programs", "names"],
  "all programs and all consistent replacements of the names they define",
  TESTS + "the names in the samples are few, plain and never those that the "
  "compiler's own code, Python or the library uses.",
  ["acaciamc/mccmdgen/generator.py", "acaciamc/mccmdgen/symbol.py",
   "acaciamc/tokenizer.py", "acaciamc/objects/struct_template.py",
   "acaciamc/objects/entity_template.py", "acaciamc/objects/functions.py",
   "acaciamc/tools/axe.py"],
  [("names of definitions", "acaciamc/mccmdgen/generator.py"),
   ("words of the source", "acaciamc/tokenizer.py"),
   ("fields by name", "acaciamc/objects/struct_template.py"),
   ("parameters by name", "acaciamc/objects/functions.py"),
   ("names of modules", "acaciamc/compiler.py")],
  PBT + "programs of all other properties' generators compiled under their own "
  "and under generated names (metamorphic relation: same files, or the same "
  "refusal)",
  "The replacement names include attribute and parameter names of the "
  "compiler, Python keywords and builtins, names that differ in case or by a "
  "prefix only, very long names and letters outside ASCII.")

P("P30", "What a world was used for before does not matter",
  "Starting a program in a world in which it was started before, in which "
  "another program (an older version, say) was run, or whose scores under the "
  "compiler's names hold any values, has the same effects as starting it in a "
  "fresh world: every variable, constant, temporary, argument, result, timer "
  "and field is written by that start before it is read.",
  ["programs", "histories"],
  "all programs, all states that earlier programs left in the scores of the "
  "world and all numbers of earlier starts",
  TESTS + "nothing is ever run, let alone twice.",
  ["acaciamc/compiler.py", "acaciamc/mccmdgen/generator.py",
   "acaciamc/mccmdgen/optimizer.py", "acaciamc/objects/boolean.py",
   "acaciamc/objects/integer.py", "acaciamc/objects/functions.py",
   "acaciamc/modules/schedule.py"],
  [("initialisation of the output", "acaciamc/compiler.py"),
   ("temporary scores", "acaciamc/compiler.py"),
   ("boolean results", "acaciamc/objects/boolean.py"),
   ("flags of inlined bodies", "acaciamc/mccmdgen/optimizer.py"),
   ("timers", "acaciamc/modules/schedule.py")],
  PBT + "programs that the checks of the other properties generate, started "
  "in used worlds and decided by those checks' own reference models",
  VMNOTE)
