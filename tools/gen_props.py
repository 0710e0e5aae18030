import json
I="packages/swc-coverage-instrument/src/"
O="packages/istanbul-oxide/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
RT=[I+"macros/instrumentation_visitor.rs",I+"macros/instrumentation_counter_helper.rs",I+"macros/instrumentation_stmt_counter_helper.rs",I+"macros/visit_mut_for_like.rs",I+"visitors/coverage_visitor.rs",I+"visitors/switch_case_visitor.rs"]
p("C01","Instrumentation never changes what the program does",
 "For every program - plain JavaScript, or TypeScript and JSX whose types are removed before or after - and every way its environment behaves - host calls that return, throw, resolve, reject or never settle, generators that are advanced, thrown into or abandoned, tasks interleaved in any order - the instrumented program performs exactly the same externally visible actions as the original, in the same order, with the same values, errors and completions. This includes strict-mode and other directive semantics, evaluation order, single evaluation of every operand, and short-circuiting. Only reflection on the program's own text or inferred names, and time, may differ.",
 ["programs","schedules","fault_sequences"],"Every program in the language, every host schedule, and every placement of host failures within it.",
 "The cargo tests never run an instrumented program; the istanbul fixtures (not runnable here) execute ~200 straight-line samples with fixed arguments and no asynchronous host, failing host call or second task.",
 RT+[I+"instrument/create_increase_true_expr.rs",I+"coverage_template/create_coverage_fn_decl.rs"],
 [("counter wrapping keeps the original expression as last operand of a sequence",I+"macros/instrumentation_counter_helper.rs replace_expr_with_counter"),("statement counters are prepended, bodies become blocks",I+"macros/instrumentation_stmt_counter_helper.rs, visit_mut_for_like.rs"),("truthiness probe evaluates the operand once",I+"instrument/create_increase_true_expr.rs")],
 [], ["host call trace of the executed output"])
p("C02","Every executed statement is counted exactly, at every instant",
 "Every executable statement and initialiser that is not excluded has exactly one entry in the file's record, carrying that construct's own source range. At every instant of every execution, including between two host events, after an exception, and at a crash, its hit count equals the number of times control has reached it in that realm since the file was loaded. Code that control never reaches stays at zero.",
 ["programs","schedules","crash_points","fault_sequences"],"All programs; all interleavings of their tasks; every instant at which a snapshot may be taken.",
 "The cargo tests only check the id allocator; fixtures compare final counts of small synchronous runs, never a count taken mid-flight, after an injected failure, or with interleaved activations.",
 RT+[I+"source_coverage/mod.rs",I+"utils/lookup_range.rs",I+"visitors/finders.rs",I+"instrument/create_increase_counter_expr.rs"],
 [("mark_prepend_stmt_counter / cover_statement choose where the counter goes",I+"macros/instrumentation_counter_helper.rs"),("new_statement allocates id, range and zero hit",I+"source_coverage/mod.rs"),("range from span",I+"utils/lookup_range.rs")],
 [("statement_map / s","range and hits per statement",O+"file_coverage.rs"),("before","pending counters to prepend to the enclosing statement",I+"macros/create_instrumentation_visitor.rs")],["global coverage object"])
p("C03","Every function activation is counted exactly, at every instant",
 "Every function with a body that is not excluded - declaration, expression, arrow, method, accessor, constructor, generator or async - has exactly one entry with its name and body range. At every instant of every execution its count equals the number of activations whose body has begun to run, however those activations later suspend, interleave, throw or are abandoned.",
 ["programs","schedules","crash_points","fault_sequences"],"All programs, all interleavings of activations, every snapshot instant.",
 "The only tests allocate function ids; nothing counts suspended, re-entrant or abandoned activations, and no cargo test runs a visitor.",
 [I+"macros/instrumentation_counter_helper.rs",I+"macros/instrumentation_visitor.rs",I+"source_coverage/mod.rs"],
 [("create_fn_instrumentation prepends the counter to the body",I+"macros/instrumentation_counter_helper.rs"),("visit_mut_{fn_decl,fn_expr,arrow_expr,class_method,method_prop,getter_prop,setter_prop}",I+"macros/instrumentation_visitor.rs")],
 [("fn_map / f","name, ranges and hits per function",O+"file_coverage.rs")],["global coverage object"])
p("C04","Every branch decision is counted exactly, at every instant",
 "Every decision that is not excluded - if, conditional, switch, default value, and each chain of logical operators - has exactly one entry of the right kind with one arm per outcome in source order and the arms' ranges. At every instant of every execution an arm's count equals the number of times that outcome was taken (for logical chains: the operand was evaluated; for default values: the default was used), under any interleaving and whatever throws or suspends inside it.",
 ["programs","schedules","crash_points","fault_sequences"],"All programs, schedules, failing or suspending operands, every snapshot instant.",
 "Unit tests only allocate branch ids; fixtures sample a handful of operands that never throw, suspend or nest functions.",
 [I+"macros/instrumentation_visitor.rs",I+"macros/instrumentation_counter_helper.rs",I+"visitors/logical_expr_visitor.rs",I+"visitors/switch_case_visitor.rs",I+"visitors/finders.rs",I+"source_coverage/mod.rs"],
 [("wrap_bin_expr_with_branch_counter descends to the leaves of a logical chain",I+"macros/instrumentation_counter_helper.rs"),("visit_mut_if_stmt/cond_expr/switch_stmt/assign_pat",I+"macros/instrumentation_visitor.rs"),("freeze prunes branches without arms",I+"source_coverage/mod.rs")],
 [("branch_map / b","kind, ranges and hits per branch arm",O+"file_coverage.rs")],["global coverage object"])
p("C05","Logical truthiness is recorded exactly when requested",
 "With logic reporting enabled, for every operand of every logical chain the truthiness count equals the number of times that operand evaluated to a truthy value that is not an empty array or empty plain object, at every instant and under every interleaving, and it never exceeds that operand's evaluation count. Enabling it changes no other count and no behaviour of the program, including operands that suspend, re-enter or throw while being evaluated. With it disabled no truthiness data exists.",
 ["programs","schedules","fault_sequences","configurations"],"All operand values and kinds, all interleavings of activations that evaluate operands, both settings.",
 "Fixtures check six single-activation expressions; the shared temporary the probe goes through is never exercised by re-entrant or interleaved evaluation.",
 [I+"instrument/create_increase_true_expr.rs",I+"macros/instrumentation_counter_helper.rs",I+"source_coverage/mod.rs"],
 [("operand stored in a per-file temporary, tested, then read back",I+"instrument/create_increase_true_expr.rs")],
 [("b_t","truthy hits per logical operand",O+"file_coverage.rs"),("cov_<hash>_temp","temporary holding the last operand value",I+"coverage_template/create_coverage_fn_decl.rs")],["global coverage object"])
p("C06","Ignore requests exclude exactly what they name",
 "A hint comment to ignore the next construct, the if arm or the else arm, a file-level ignore hint, and the list of ignored method names remove the counters of exactly the constructs they name, and of everything inside them. Every other construct in the file, before or after, inside or outside, keeps exact counting, and the program's behaviour is unchanged, under every schedule.",
 ["programs","configurations","schedules"],"All programs and all placements of hints in them, all lists of names.",
 "The hint logic runs in no cargo test; fixtures place one hint in one tiny program and do not look at what follows it.",
 [I+"utils/hint_comments.rs",I+"macros/create_instrumentation_visitor.rs",I+"macros/instrumentation_visitor.rs",I+"visitors/coverage_visitor.rs"],
 [("on_enter/on_exit save and restore the ignore scope",I+"macros/create_instrumentation_visitor.rs"),("lookup_hint_comments, should_ignore, should_ignore_file",I+"utils/hint_comments.rs"),("ignore_class_methods",I+"macros/instrumentation_visitor.rs")],
 [("should_ignore","scope currently ignored",I+"macros/create_instrumentation_visitor.rs")],["global coverage object"])
p("C07","Files loaded into one realm never disturb each other's counts",
 "When any number of instrumented files, instrumented by one process or by several, are loaded into one realm as scripts or modules in any order and their tasks interleave arbitrarily, running one file changes only that file's record, and each record's counts equal what that file itself executed. This also holds when a file fails while loading, and for file names that are similar or need escaping.",
 ["histories","schedules","configurations","fault_sequences"],"All sets of files, all load orders and interleavings, load failures included.",
 "Every existing test instruments and runs one file per process and realm.",
 [I+"coverage_template/create_coverage_fn_decl.rs",I+"macros/create_instrumentation_visitor.rs",I+"visitors/coverage_visitor.rs"],
 [("per-file counter function named from the file name",I+"coverage_template/create_coverage_fn_decl.rs create_coverage_fn_ident"),("record keyed by path in the global object",I+"coverage_template/create_coverage_fn_decl.rs")],
 [("counter function identifier","names the file's record accessor in emitted code",I+"coverage_template/create_coverage_fn_decl.rs")],["global coverage object"])
p("C08","A file's record is published first and stays live",
 "Before any of a file's own code runs, its complete zeroed record is reachable from the realm's global object under the configured coverage variable and the file's exact name, and from then on that record is the one all of the file's counters update, whatever the file does or however it fails. Loading a changed version of a file starts a fresh record for that name only; loading the same version again continues the existing record. Records of other tools or files under the same variable are left alone.",
 ["histories","crash_points","configurations"],"All load/reload histories, coverage variable names, file names, and all points at which a loader or the file fails.",
 "Fixtures load one file once and read the object after it finished.",
 [I+"coverage_template/create_coverage_fn_decl.rs",I+"coverage_template/create_global_stmt_template.rs",I+"coverage_template/create_coverage_data_object.rs",I+"visitors/coverage_visitor.rs"],
 [("template function declaration and call inserted at the top of the output",I+"visitors/coverage_visitor.rs get_coverage_templates"),("create-or-reuse guard on the record's hash",I+"coverage_template/create_coverage_fn_decl.rs")],
 [("global[coverageVariable][path]","live record",I+"coverage_template/create_coverage_fn_decl.rs")],["global coverage object"])
p("C09","Every snapshot of a record is well formed and survives the native model",
 "A snapshot of a file's record taken at any instant of any run is self-consistent: hit tables and location tables have the same keys, every branch has one count per arm, truthiness rows match their branch, all ranges lie within the source and are ordered, the schema marker is present, and the path and any supplied input source map are carried verbatim. Reading the snapshot into the native model and writing it back loses and alters nothing.",
 ["programs","crash_points","configurations"],"All programs, options and snapshot instants.",
 "No test reads an emitted record back into the native model; ids, pruned branches and escaping are covered by no cargo test.",
 [I+"coverage_template/create_coverage_data_object.rs",I+"source_coverage/mod.rs",O+"file_coverage.rs",O+"types.rs",O+"source_map.rs"],
 [("create_coverage_data_object serialises the model into the program",I+"coverage_template/create_coverage_data_object.rs"),("serde derive on FileCoverage",O+"file_coverage.rs"),("freeze",I+"source_coverage/mod.rs")],[],["global coverage object","FileCoverage serde"])
p("C10","Instrumenting a file depends on nothing but that file",
 "The output for a file is a function of its source, name and options alone: it is the same, byte for byte, whatever the process instrumented before, whatever other instrumentations run at the same time on other threads in whatever interleaving, and however many of those were aborted by a failing host in the middle. A failure while instrumenting one file never makes a later or concurrent one fail.",
 ["schedules","histories","fault_sequences"],"All histories of a process, all thread interleavings at every call back into the host, all host failure points.",
 "Each cargo test instruments nothing, and each fixture process compares nothing across runs, threads or failures.",
 [I+"coverage_template/create_coverage_fn_decl.rs",I+"macros/create_instrumentation_visitor.rs",I+"visitors/coverage_visitor.rs",I+"constants/idents.rs",I+"utils/hint_comments.rs"],
 [("process-wide statics (identifiers, compiled patterns)",I+"coverage_template/create_coverage_fn_decl.rs, constants/idents.rs, utils/hint_comments.rs"),("per-visitor Rc<RefCell<..>> coverage state",I+"macros/create_instrumentation_visitor.rs")],[],["transform output"])
p("C11","Aggregating reports conserves every hit",
 "After any sequence of deliveries of well-formed reports for any set of files and file versions, the aggregate holds, for every location of every delivered report, exactly the sum of the delivered hits for that location (per arm for branches), saturating rather than wrapping, and contains no other location. Placeholder reports for files that were never loaded contribute nothing once real data exists. A lost report loses exactly its own hits.",
 ["histories","schedules","fault_sequences"],"All report contents, id assignments, delivery orders, losses and duplications.",
 "Four unit tests merge one hand-written pair of records with disjoint hits; none has duplicate locations, different versions, different id spaces on both sides, or large counts.",
 [O+"file_coverage.rs",O+"coverage_map.rs"],
 [("merge_properties / merge_properties_hits_vec key by location and add",O+"file_coverage.rs"),("add_coverage_for_file / merge",O+"coverage_map.rs")],
 [("CoverageMap.inner","aggregate per path",O+"coverage_map.rs")],["CoverageMap public API"])
p("C12","Aggregation converges whatever the delivery order or topology",
 "Collectors that received the same multiset of reports agree on every location's hits and on every derived total, no matter in which order the reports arrived, how they were grouped through intermediate collectors, or how often collectors merged with empty ones or were rebuilt. Merging never changes the report or collector that is merged from.",
 ["schedules","histories","configurations"],"All orders, groupings and merge trees of the same reports.",
 "Unit tests merge one pair in one order.",
 [O+"file_coverage.rs",O+"coverage_map.rs",O+"coverage_summary.rs"],
 [("location-keyed merge",O+"file_coverage.rs")],[],["CoverageMap public API"])
p("C13","Truthiness survives aggregation, attached to the right branch",
 "In any aggregate of reports that carry truthiness data, the truthiness counts found under a branch are the per-operand sums of the truthiness counts delivered for that same branch, and only logical branches have them. This holds for any mixture of reports with and without truthiness data, any id assignment, any number of merges and any order, and no aggregation step fails because of it.",
 ["histories","schedules","configurations"],"All mixtures of reports, id spaces and merge sequences.",
 "The one unit test uses a single branch with id 0 on both sides, where every misalignment is invisible.",
 [O+"file_coverage.rs"],[("b_t merge",O+"file_coverage.rs merge")],[("b_t","truthy hits keyed by branch id",O+"file_coverage.rs")],["CoverageMap public API"])
p("C14","Aggregation keeps records well formed and never fails",
 "For any sequence of adds, merges, filters, resets, saves and restores over well-formed reports, every record in a collector stays well formed - matching id sets in hit and location tables, one count per arm, unique locations, its own path as key - and no operation panics. Filtering removes exactly the files the predicate rejects and leaves the others untouched.",
 ["histories","fault_sequences"],"All operation histories over all well-formed reports.",
 "Unit tests apply at most one operation to a record.",
 [O+"file_coverage.rs",O+"coverage_map.rs"],[("merge renumbers ids consistently in hits and maps",O+"file_coverage.rs"),("filter, add_coverage_for_file",O+"coverage_map.rs")],[],["CoverageMap public API"])
p("C15","Summaries always agree with the records they summarise",
 "At any point of any collection history, a file's line, statement, function, branch and truthiness totals, its line hits, its uncovered lines and its per-line branch coverage are exactly those implied by its records, and the overall summary is the sum over the files present. Covered never exceeds total, percentages follow from the two, and adding reports never decreases covered.",
 ["histories","schedules"],"All collection histories, observed after every step.",
 "Unit tests summarise one or two fixed records.",
 [O+"file_coverage.rs",O+"coverage_summary.rs",O+"coverage_map.rs",O+"coverage.rs",O+"percent.rs"],
 [("to_summary, get_line_coverage, get_uncovered_lines, get_branch_coverage_by_line",O+"file_coverage.rs"),("CoverageSummary::merge",O+"coverage_summary.rs"),("percent",O+"percent.rs")],[],["summary accessors"],"read access to the totals of a summary, which is otherwise opaque")
p("C16","Saved coverage restores exactly at any crash point",
 "A collector that is killed at any point and restarted from its last completely saved state, then re-sent everything since, ends in exactly the state of one that never crashed. Saving and restoring any record preserves every field and every observable result, including optional data that is absent; an incomplete save is rejected, never half-loaded.",
 ["crash_points","fault_sequences","histories"],"All crash points, torn saves and histories.",
 "No cargo test serialises a record.",
 [O+"file_coverage.rs",O+"types.rs",O+"range.rs",O+"source_map.rs",O+"coverage_map.rs"],
 [("serde derive with camelCase, defaults and skip_serializing_if",O+"file_coverage.rs, source_map.rs"),("from_iter rebuilds a map",O+"coverage_map.rs")],[],["FileCoverage serde"])
p("C17","Resetting starts a clean epoch without forgetting structure",
 "After a record is reset, every statement, function, branch and truthiness count is zero and every location is still present; reports delivered afterwards are then aggregated exactly as into a fresh record of the same file. This holds for a reset at any point of a collection history, including between merges.",
 ["histories","schedules"],"All placements of resets in all histories.",
 "One unit test resets one fixed record and never merges afterwards.",
 [O+"file_coverage.rs"],[("reset_hits",O+"file_coverage.rs")],[],["FileCoverage public API"])
p("C18","End to end, the collected totals equal what the workers executed",
 "Take any fleet of workers that run instrumented files under arbitrary schedules, send snapshots of their records to collectors over a network that drops, duplicates (detected), delays and reorders them, while workers and collectors crash and restart. The final aggregate equals, location by location, the sum of what the workers actually executed up to each one's last delivered snapshot, and so do its summaries.",
 ["schedules","crash_points","fault_sequences","histories"],"All fleets, programs, schedules, network and crash faults.",
 "No test joins the instrumenter, an executing program and the aggregation model.",
 RT+[O+"file_coverage.rs",O+"coverage_map.rs",I+"coverage_template/create_coverage_data_object.rs"],
 [("ids are allocated identically for the same file, locations are the merge key",I+"source_coverage/mod.rs, "+O+"file_coverage.rs")],[],["aggregate of simulated fleet"])
p("C19","The record reported at instrumentation time is the one that is published",
 "When the initial record is requested alongside the instrumented code, it describes exactly the record the code will publish: same path, same locations, same names, kinds and arms, all counts zero, same input source map. It therefore stands in for a worker that is killed before the file runs: aggregating it as well as any real snapshots of that file changes no hit count, and it lists every location they mention.",
 ["programs","configurations","crash_points"],"All programs and options; workers killed before, during or after load.",
 "No cargo test emits the comment; fixtures only compare it with a parse of the same output.",
 [I+"coverage_template/create_coverage_fn_decl.rs",I+"coverage_template/create_coverage_data_object.rs",I+"visitors/coverage_visitor.rs"],
 [("debug comment is the serialised model, object literal is the hand-written serialisation",I+"coverage_template/create_coverage_fn_decl.rs, create_coverage_data_object.rs")],[],["debug comment","global coverage object"])
PL="packages/swc-plugin-coverage/src/lib.rs"
p("C20","Excluded files pass through untouched",
 "A file whose name matches an exclusion pattern, with either kind of path separator in the pattern or the name, is returned by the plugin unmodified, and every other file is instrumented. Drive letters do not count. A malformed pattern list excludes nothing and never fails, wherever its output goes and whatever the other patterns are.",
 ["inputs","configurations","histories"],"All patterns, file names and separators, and every sequence of files and configurations that one host goes through.",
 "Three sample names in specs that cannot run here; one unit test of path normalisation.",
 [PL],[("normalize_path and glob match",PL)],[],["program returned by the plugin entry point"])
p("C21","Unusable plugin options fall back to defaults",
 "If the configuration handed to the plugin is absent or cannot be read - cut off, torn, damaged, of the wrong kind, or with a member of the wrong type - the file is instrumented exactly as with the default options, and the transform does not fail, even where nothing can be written to the outputs. Fields that are missing take their documented defaults, unknown ones are passed over, and a configuration for one file has no influence on the next one.",
 ["inputs","configurations","fault_sequences","histories"],"All configuration documents, all ways of damaging them, and all failures of the streams a complaint is written to.",
 "No test hands the plugin a malformed configuration, and none runs the plugin entry point at all.",
 [PL,I+"options/instrument_options.rs"],[("serde defaults and fallback",PL)],[],["program returned by the plugin entry point"])
p("C22","The deployed plugin gives the library's result whatever its host does",
 "For every program, file name, configuration and set of comments the WebAssembly plugin returns exactly the program that the library produces for that file under that name and those options, with comments kept, and hands over the same initial record where asked to. A file without a name is known as unknown.js. Failing output streams, clocks that jump, randomness, environment variables, log settings and files handled before make no difference to the result.",
 ["programs","configurations","fault_sequences","histories"],"All programs and configurations, all answers of the host's clock, streams, randomness and environment, and all sequences of files.",
 "No test runs the plugin entry point; the specs that load the compiled plugin into swc cannot run here and only compare coverage of small samples in one healthy environment.",
 [PL,I+"options/instrument_options.rs",I+"visitors/coverage_visitor.rs"],[("process(): context, options, logging, dispatch to the visitor",PL)],[],["program returned by the plugin entry point","comments handed to the host"])
p("C23","Calls and errors still lead back to their place in the source",
 "When an instrumented program calls the outside world, or an error of its own making reaches it, every call then in progress that is written down in the source - a call or a construction by name, or of a named member - is at a place of the output which the source map leads back to the same line and column of the source as without instrumentation. So stack traces, breakpoints and profiles of instrumented runs still point to the user's code.",
 ["programs","configurations","schedules","fault_sequences"],"All programs and options, at every call and for every error of every execution.",
 "No test makes a source map; snapshots show the output's text only, which is the same whether it leads back to the source or not.",
 [I+"visitors/coverage_visitor.rs",I+"macros/instrumentation_visitor.rs",I+"macros/create_instrumentation_visitor.rs",I+"instrument/create_increase_true_expr.rs"],
 [("rewritten nodes keep the span of what they were made of",I+"visitors/coverage_visitor.rs, macros/instrumentation_visitor.rs")],[],["source map of the emitted program","stack of every host call and error"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
