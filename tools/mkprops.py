import json
V="src/libdredd/src/mutate_visitor.cc"; N="src/libdredd/src/mutate_ast_consumer.cc"
ME="src/libdredd/src/mutation_replace_expr.cc"; MB="src/libdredd/src/mutation_replace_binary_operator.cc"
MU="src/libdredd/src/mutation_replace_unary_operator.cc"; MR="src/libdredd/src/mutation_remove_stmt.cc"; MUT="src/libdredd/src/util.cc"
MAIN="src/dredd/src/main.cc"; ACT="src/libdredd/src/new_mutate_frontend_action_factory.cc"; PROTO="src/libdredd/include/libdredd/protobufs/dredd.proto"
Q="scripts/query_mutant_info.py"; R="README.md"; TREE="src/libdredd/src/mutation_tree_node.cc"
def P(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    return d
props=[
P("P01","A mutated program with no mutant enabled behaves as the original",
"For every C or C++ program the tool accepts, the mutated program run with no mutant selected (selection variable unset, empty, or naming only identifiers that do not exist) has the same observable behaviour as the original: same results, same side effects in the same order, each operand evaluated exactly as often as in the original. This holds with and without mutant optimisation.",
["programs","inputs","configurations"],"every mutable program, every input on which the original is defined, both optimisation settings, C and C++",
"The tests compare mutated text with golden text for hand-written inputs and execute 22 tiny programs; operator/type/qualifier/context combinations and inputs outside those samples are not exercised.",
[ME,MB,MU,MR,N],[("wrapper functions take operands by value, by reference or as thunks","GenerateMutatorFunction in mutation_replace_*.cc"),("selection test in the prelude","MutateAstConsumer::GetDreddPreludeC/Cpp")],
obs=["standard output and memory effects of the compiled mutated program"]),
P("P02","Enabling one mutant performs exactly the change its record describes",
"For every mutant listed in the mutation information, running the mutated program with just that identifier selected behaves as the original program in which the one operator, expression or statement at the recorded place has been replaced as the record says, with the operands' values, side effects, short-circuiting and result type that replacement implies. Nothing else in the program changes.",
["programs","inputs","configurations"],"every program, every mutant of it, every input on which the edited program is defined",
"Golden tests pin text, not meaning, and only for a few operand types; the pairing between the identifier in the text, the identifier in the record and the action is not tested at all.",
[ME,MB,MU,MR,PROTO],[("case per mutant inside generated functions","GenerateMutatorFunctionBody"),("records emitted in step with the cases","Apply in mutation_replace_*.cc, mutation_remove_stmt.cc")],
obs=["behaviour of the compiled mutated program with DREDD_ENABLED_MUTATION set","JSON mutation information"]),
P("P03","A selection list enables precisely the mutants it names",
"The selection variable holds a comma-separated list of mutant identifiers; the set of mutants active in a run is exactly the set of listed identifiers that exist in the program, independent of their order, of repetitions, of empty items and of identifiers belonging to other files. Mutants at different places all take effect together; when several mutants of one place are listed, the place behaves as one of them.",
["inputs","configurations","programs"],"every list of identifiers, every program and set of files mutated together",
"The tiny programs the tests execute are single files with few mutants, enabled one at a time; lists, word boundaries of the enablement set and several files are never exercised.",
[N,"README.md"],[("lazy parsing of the list into a bit set with the file's offset","GetDreddPreludeC/Cpp in mutate_ast_consumer.cc")],
state=[("enabled_bitset","64-mutants-per-word set of enabled mutants of a file, per thread","generated prelude")],
obs=["behaviour of compiled mutated programs under lists of identifiers"]),
P("P04","Identifiers are unique, gap-free and partitioned by file",
"Over all files mutated in one run, mutant identifiers are exactly 0..n-1, each denoting one mutant in the mutation information; each file owns a contiguous block, blocks follow the order in which files are processed, and a file that contributes no mutants or fails consumes no identifiers.",
["programs","histories","configurations"],"every sequence of input files (mutable, without mutants, rejected by the compiler, missing, repeated), every mode and optimisation setting",
"The golden tests mutate a single file each; multi-file numbering, failing files in the middle and the identifiers in the information file are not checked.",
[N,ACT,MAIN],[("shared mutation id counter","mutation_id_ in MutateAstConsumer / NewMutateFrontendActionFactory")],
state=[("mutation_id_","next free identifier, shared by all files of a run","new_mutate_frontend_action_factory.cc")],
obs=["JSON mutation information","selection constants in the mutated text"]),
P("P05","All threads and all files of a program agree on which mutants are enabled",
"In a program linked from several mutated files and running several threads, every thread in every file sees the selection given in the environment at all times, whichever thread or file asks first and however the queries interleave. No thread ever runs original code at the place of an enabled mutant or the reverse.",
["schedules","programs","configurations"],"every interleaving of threads, every first-query order over files",
"No existing test runs a mutated program with threads or several files; the lazily initialised per-thread state is only ever compared as text.",
[N],[("thread-local lazily initialised enablement set in each file","GetDreddPreludeC/Cpp")],
state=[("initialized / enabled_bitset","per-thread per-file lazily parsed selection","generated prelude")],
obs=["behaviour of threads of the compiled mutated program"]),
P("P06","The mutants generated for a program are exactly the documented catalogue",
"For every program the set of mutants offered at each place is exactly the one the catalogue of mutation operators prescribes for the operator, operand types, value categories, constants and surrounding context there: no applicable mutant is missing and no inapplicable or duplicate one is present, with mutant optimisation on or off.",
["programs","configurations"],"every expression and statement form, operand type combination and context, C and C++, optimised or not",
"The golden tests cover a few combinations out of the product of operators, types, qualifiers, constants and contexts.",
[V,ME,MB,MU,MR],[("applicability rules","HandleExpr/HandleBinaryOperator/HandleUnaryOperator/VisitStmt in mutate_visitor.cc"),("operators considered and redundancy rules","GetReplacementOperators, IsRedundant* in mutation_replace_*.cc")],
obs=["JSON mutation information"]),
P("P07","Optimisation only drops mutants, and only redundant ones",
"The mutants generated with optimisation on are a subset of those generated with it off, at the same places. Every mutant that optimisation drops is redundant given the mutants it keeps: it behaves as the original program, or it is killed by every input that kills some mutant of the same program that was kept; beyond that it drops only what its fixed sufficient-set rules name (for example one operand in place of a comparison, or mutants of an operand that duplicate those of its conversion). A mutant that no such rule covers and that an input can tell from the original independently of the kept ones is never dropped.",
["programs","inputs"],"every program, every dropped mutant, every set of inputs",
"The golden tests compare two texts per input file; they do not establish that a dropped mutant is equivalent to or subsumed by a kept one.",
[ME,MB,MU,MR,V],[("redundancy rules","IsRedundantReplacementOperator and the optimise_mutations_ branches")],
obs=["JSON mutation information with and without the optimisation switch","behaviour of mutants"]),
P("P08","Recording coverage does not disturb the program",
"A program produced in mutant-tracking mode behaves exactly as the original on every input, whether or not a tracking file is named, whatever the selection variable holds, and also when the tracking file cannot be written.",
["programs","inputs","configurations","fault_sequences"],"every program, input and tracking-file state",
"No existing test runs a program in tracking mode and tracking output text is only sampled.",
[N,ME,MB,MU,MR],[("record-only wrappers","GenerateMutatorFunction with only_track_mutant_coverage"),("prelude that appends to the tracking file","GetDreddPreludeC/Cpp")],
obs=["observable behaviour of compiled tracking-mode programs"]),
P("P09","Tracking records exactly the mutants that were reached, once per process",
"When a tracking-mode program runs, the tracking file gains, for each place where a mutant could have acted in that run, the identifiers of all that place's mutants, and no others, each at most once per process and each on a line of its own. This holds across several files, several threads and several processes appending to one file, and what a single-threaded run reached before an abnormal exit is already recorded.",
["programs","inputs","schedules","crash_points"],"every program and input; every interleaving of threads; every point at which the process may die",
"No existing test runs a tracking-mode program.",
[N,ME,MB,MU,MR],[("already_recorded flags set with an atomic exchange; append to the file","GetDreddPreludeC/Cpp"),("record call inside each wrapper","GenerateMutatorFunctionBody")],
state=[("already_recorded","ids recorded by this process","generated prelude")],
obs=["contents of the tracking file"]),
P("P10","Tracking mode and mutation mode agree on mutants and identifiers",
"For the same inputs and switches, the tracking run and the mutation run of the tool number mutants identically: an identifier found in a tracking file denotes the same mutant, at the same place, in the mutated program and its mutation information.",
["programs","configurations"],"every program, every set of files, optimised or not",
"Tests never relate the outputs of the two modes.",
[N,ME,MB,MU,MR],[("same counter advanced in both modes","Apply in mutation_*.cc")],
obs=["JSON mutation information of both modes","identifiers in the two output texts"]),
P("P11","The mutation tree is well formed and mirrors program nesting",
"In the mutation information every file's tree has one root, every other node exactly one parent and no cycles; every mutant occurs in exactly one node; and one mutant place lies below another in the tree exactly when its source region is nested in the other's.",
["programs","configurations"],"every program",
"No existing test inspects the tree in the information file.",
[TREE,V,PROTO],[("push and pop around AST traversal","PushMutationTreeRAII in mutate_visitor.cc")],
obs=["JSON mutation information"]),
P("P12","Recorded locations and snippets denote the mutated source text",
"Every location in the mutation information (line and column of start and of end) delimits, in the original file, exactly the text of the operator expression, operand or statement the mutant concerns, and every recorded snippet is that text (abbreviated in the documented way when long).",
["programs"],"every program and source layout",
"No existing test checks locations or snippets in the information file.",
[MUT,MB,MU,ME,MR],[("source range capture","InfoForSourceRange, GetSourceRangeInMainFile")],
obs=["JSON mutation information"]),
P("P13","A file that cannot be processed is left alone, reported, and harms no other",
"When some input files are missing, do not compile or cannot be written back, the tool exits with a failure status, lists at the end exactly the files that did not compile or could not be written, leaves each of them byte-for-byte unchanged, and still mutates every other file and writes their mutation information exactly as if the failing files had not been named. A mutation information file that cannot be written is reported and makes the exit status a failure. When everything succeeds, the tool exits with success.",
["fault_sequences","configurations"],"every mixture and order of good and bad files",
"The tests run single well-formed files through the library; the driver's error paths are not run.",
[MAIN,ACT,N],[("error callback and failed-files report","main.cc"),("no rewriting when errors occurred","MutateAstConsumer::HandleTranslationUnit")],
obs=["exit status","messages","file contents","JSON mutation information"]),
P("P14","Each named file is mutated exactly once and nothing else is touched",
"A run changes only the source files named on the command line, each exactly once even when it is named repeatedly, and creates only the requested mutation information file; included files and unnamed files are never modified. (Input files that are themselves symbolic links are outside this property.)",
["histories","configurations"],"every list of arguments including repetitions, and every include structure",
"The tests mutate one file each through the library and never run the driver with several arguments.",
[MAIN,ACT,V],[("duplicate filter","main.cc"),("main-file test on every mutated range","GetSourceRangeInMainFile")],
obs=["file system before and after"]),
P("P15","The mutated file is a valid program",
"For every input file that compiles, the file written by the tool compiles too, with the same compiler (clang), language and standard, in every combination of optimisation and mode, and links together with other mutated files of the same run.",
["programs","configurations"],"every program, all switch combinations, several files linked together",
"Golden tests compile a fixed set of inputs; operator, type and context combinations outside it are not tried.",
[N,V,ME,MB,MU,MR],[("type spelling and forwarding in wrappers","GetFunctionWrapperName, ApplyCTypeModifiers and friends"),("contexts excluded from mutation","mutate_visitor.cc")],
obs=["compiler's verdict on the output"]),
P("P16","Constructs that must stay compile-time constant receive no mutants",
"No mutant is offered for, and no selection-dependent code is placed in, parts of a program whose value the language needs at compile time (array sizes, enumerators, bit-field widths, case labels, alignments, static assertions, template arguments, constexpr and consteval code, static initialisers in C, designators) or that are never evaluated at run time (operands of sizeof, alignof, noexcept, decltype, typeof, requires, and unselected _Generic associations); code next to and inside the surrounding statements is still mutated as the catalogue says, and the constants keep their values.",
["programs","configurations"],"every constant or unevaluated context and every expression placed in it",
"Golden tests cover single hand-written instances of some contexts.",
[V],[("Traverse* overrides that skip or restrict subtrees","mutate_visitor.cc"),("constant-sized array rewriting","MutateAstConsumer::HandleTranslationUnit")],
obs=["JSON mutation information","compiled behaviour"]),
P("P17","Queries about the mutation information are answered truthfully",
"Given the mutation information of a run, the query script reports the largest identifier in use, and for each identifier the file, source region, original text and replacement text of precisely that mutant, so that substituting the replacement for the region in the original file gives the mutant. Identifiers that do not exist are rejected.",
["programs","configurations"],"every mutant of every program",
"The existing test samples only a few mutants.",
[Q,PROTO],[("lookup of the group owning an identifier","query_mutant_info.py")],
obs=["output of the script"]),
P("P18","Output depends only on the files, their order and the switches",
"Running the tool again on the same input gives byte-identical files and information; whether information is requested, where files live, and which other files are processed do not change what is done to a file beyond the offset of its identifiers.",
["histories","configurations","programs"],"every program, every set of accompanying files",
"Tests run the tool once per input in one configuration.",
[N,ACT,V,MAIN],[("ordered sets of generated declarations","dredd_declarations in mutate_ast_consumer.cc")],
obs=["file contents","JSON mutation information"]),
P("P19","A mutant that tracking says was not reached cannot matter",
"If a run of the tracking-mode program on an input does not record a mutant, then the mutated program run on the same input with that mutant selected behaves as the original; selecting only unrecorded mutants never changes anything.",
["programs","inputs"],"every program, input and unrecorded mutant",
"Tests never relate a tracking run to a mutation run.",
[N,ME,MB,MU,MR],[("record calls at the places where selection is tested","GenerateMutatorFunctionBody")],
obs=["tracking file","behaviour of the mutated program"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
