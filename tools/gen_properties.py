#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per property; edit here."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

A = "analyzer/analyzer.go"; U = "analyzer/util.go"; R = "analyzer/rewrite.go"; G = "analyzer/graph.go"
C = "analyzer/compare.go"; L = "analyzer/load.go"; S = "analyzer/scan.go"; I = "interesting/interesting.go"
M = "cmd/capslock/capslock.go"; D = "cmd/capslock-git-diff/main.go"

prop("C01", "Per-function report is exactly the capability-reachability relation",
 "At function granularity the result contains exactly one entry for a function of a queried package and a capability when some chain of zero or more calls, none of them excluded by the classifier, leads from the function to a function that has the capability, where no function on the chain is classified safe and no function before the last one is explicitly classified; for every other pair it contains no entry. Functions outside the queried packages never get an entry of their own, and entries are ordered by capability, then by package path, plain functions before methods, then name.",
 ["programs", "inputs", "configurations"],
 "every call graph (cycles, self calls, parallel call sites, functions without a package), every classification of its functions, every set of excluded calls and every choice of queried packages",
 "TestAnalysis and the testpkgs fixtures run a few dozen fixed call graphs; missing or spurious pairs only show for graph shapes and classifications that no fixture has.",
 [A, U], [("backwards breadth-first search per capability", A+":forEachPath"), ("explicit and derived capabilities merged", A+":mergeCapabilities"), ("one entry per callback, sorted", A+":GetCapabilityInfo")],
 [("visited", "functions already reached for the current capability, with the edge towards it", A+":forEachPath")],
 ["analyzer.GetCapabilityInfo"])

prop("C02", "Every example call path is a real, shortest chain of included calls",
 "The path of every function- or package-granularity entry starts at the reported function, each following element is called by the one before through a call the classifier does not exclude, the last element has the reported capability, and no function on it is classified safe nor, before the last, explicitly classified. The path is no longer than any other such chain, each element carries its own function's name and package and the source position of the call that reaches it, and the flat path text is the names in order.",
 ["programs", "inputs", "configurations"],
 "every call graph, classification, set of excluded calls, queried set and assignment of call-site positions",
 "The fixtures compare a handful of paths by pattern; which predecessor edge is recorded matters only on graphs with several routes.",
 [A, U], [("edge recorded when a caller is first reached", A+":forEachPath"), ("path reconstruction", A+":GetCapabilityInfo"), ("element name, package, position", U+":addFunction")],
 None, ["analyzer.GetCapabilityInfo"])

prop("C03", "An entry is labelled direct exactly when its path stays in one package",
 "An entry is labelled direct exactly when every function on its call path belongs to the reported function's own package or to a package whose import path contains no dot; otherwise it is labelled transitive. A generic instantiation counts as belonging to the package of its generic function, and the label does not depend on whether paths are being output.",
 ["programs", "inputs", "configurations"],
 "every call graph and assignment of functions to packages (own, dotless, other dotted, none), with and without path output",
 "Fixtures have few mixed paths and never vary path output together with the label.",
 [A, U], [("label computation while walking the path", A+":GetCapabilityInfo"), ("package of a function", U+":packagePath"), ("standard-library test", U+":isStdLib")],
 None, ["analyzer.GetCapabilityInfo", "analyzer.GetCapabilityStats"])

prop("C04", "Package granularity is the exact projection of the per-function report",
 "At package granularity the result has exactly one entry per pair of queried package and capability for which the per-function report has at least one entry, and no other entry. The entry kept for a pair is the first of that pair's per-function entries in the per-function order.",
 ["programs", "inputs", "configurations"],
 "every call graph, classification, queried set and number of functions per package",
 "TestAnalysisPackageGranularity checks one graph.",
 [A], [("first entry per pair kept", A+":GetCapabilityInfo")], None, ["analyzer.GetCapabilityInfo"])

prop("C05", "Intermediate granularity lists exactly the packages on capability paths",
 "At intermediate granularity the result has exactly one entry for each selected capability and each package owning a function that lies on some chain of included calls from a queried function to a function with that capability, such chains neither touching safe functions nor passing through explicitly classified ones. Each entry's path is such a chain and contains a function of the entry's package, and unselected capabilities do not appear.",
 ["programs", "inputs", "configurations"],
 "every call graph, classification, queried set and capability selection, including negated selections",
 "TestIntermediatePackages runs one graph without a capability selection.",
 [A, U, G], [("two searches meeting at each node", A+":intermediatePackages"), ("forward search restricted to backwards-reached nodes", A+":searchForwardsFromQueriedFunctions"), ("owning package of a node", U+":nodeToPackage")],
 None, ["analyzer.GetCapabilityInfo with intermediate granularity"])

prop("C06", "Graph output contains exactly the calls on capability paths",
 "The graph contains a call from one function to another exactly when some chain of included calls from a queried function to a function with a capability uses that call, without touching safe functions or passing through explicitly classified ones; every function of the graph that has a capability is linked to it, and nothing else is emitted. With a capability selection, each selected capability gets its own graph and unselected ones none; without one, a single graph covers all capabilities and lists each caller-callee pair once.",
 ["programs", "inputs", "configurations"],
 "every call graph, classification, queried set and capability selection",
 "TestGraph compares one small graph; lost or extra edges depend on the shape of the graph.",
 [A, G], [("backwards then forwards search", A+":CapabilityGraph"), ("redundant parallel calls skipped", A+":searchForwardsFromQueriedFunctions"), ("capability selection", G+":graphOutput")],
 None, ["analyzer.CapabilityGraph", "capslock -output=graph"])

prop("C07", "Counts, statistics and the machine list agree with the per-function report",
 "For the same input, the count reported for a capability equals the number of per-function entries with that capability, capabilities without entries are absent, and the machine-readable list is exactly the sorted names of the counted capabilities. In the statistics the direct count and the transitive count add up to the count and equal the numbers of entries with each label, each capability appears once in capability order, and its example path is one of the per-function paths.",
 ["programs", "inputs", "configurations"],
 "every call graph, classification, queried set and path-output setting",
 "Tests do not compare the three result kinds with each other.",
 [A, S], [("per-capability counters", A+":GetCapabilityStats"), ("counts", A+":GetCapabilityCounts"), ("machine list", S+":RunCapslock")],
 None, ["analyzer.GetCapabilityStats", "analyzer.GetCapabilityCounts", "capslock -output=m"])

prop("C08", "Explicit classification decides; derived capabilities only fill the gaps",
 "A function's own capability is the one the classifier gives for its package path and full name, a generic instantiation being classified as its generic function. Only when that is unspecified and built-in source checks are enabled does it instead get the derived ones: unsafe-pointer when its source converts such pointers, reflect when it stores reflection values outside its locals, arbitrary-execution when it has no body and is not synthetic. A function classified safe has no capability, derived or otherwise.",
 ["programs", "inputs", "configurations"],
 "every combination of classification, presence of a body, derived finding and package or generic origin, with source checks on or off",
 "Fixtures cover single combinations; precedence mistakes need a function with both a classification and a derived finding.",
 [A], [("classification of graph nodes", A+":getNodeCapabilities"), ("derived capabilities", A+":getExtraNodesByCapability"), ("derived findings ignored for classified functions", A+":mergeCapabilities")],
 None, ["analyzer.GetCapabilityInfo"])

prop("C09", "Unsafe-pointer conversions are attributed to the right function",
 "A function gets the unsafe-pointer finding exactly when its own body, not counting function literals nested in it, contains a conversion to a type other than an unsigned pointer-sized integer of an operand whose type is, or is defined as, unsafe.Pointer. A conversion outside any function body is attributed to the initializer of the package containing it, and to no other function.",
 ["programs", "inputs"],
 "every nesting of declarations, literals and conversion expressions, every target and operand type, in any package of the dependency closure",
 "useunsafe fixtures cover some syntactic forms only.",
 [A, U], [("syntax visitor", U+":visitor.Visit"), ("mapping syntax to functions", A+":findUnsafePointerConversions")], None,
 ["analyzer.GetCapabilityInfo"])

prop("C10", "Stores of reflection values outside locals are found exactly",
 "A function gets the reflect finding exactly when it stores to a destination that is not one of its non-escaping locals, nor an element or field, at any depth, of one, and the stored type is reflect.Value or a struct or array containing it at any depth, looking through names and aliases. Recursive types never make the check diverge.",
 ["programs", "inputs"],
 "every instruction sequence of allocations, element and field addresses and stores, and every type built from basics, pointers, arrays, structs, names and aliases, within the stated depth",
 "usereflect fixtures have a few type shapes.",
 [A, U], [("local address tracking", A+":getExtraNodesByCapability"), ("type walk with cycle guard", U+":containsReflectValue")], None,
 ["analyzer.GetCapabilityInfo"])

prop("C11", "Rewriting library calls before analysis never hides a call",
 "Replacing calls to the standard sort functions and to once-style functions by direct calls of their callbacks happens only for statements that really call those library functions, and every call contained in the original statement, other than the one to the library function, is still present afterwards. A rewritten sort call is followed by calls to all three ordering methods of its argument; a rewritten callback call calls exactly the callback that was passed; every other statement is left unchanged. Such calls with plain variables or function literals as arguments are always rewritten where they are ordinary statements, into code with complete type information, so that callbacks of one caller are not attributed to all others.",
 ["programs", "inputs"],
 "every receiver, argument and statement form within the stated expression depth, and every package, type and method name",
 "The transitive fixtures exercise some rewritings, none where an argument or receiver itself performs a call that would be dropped.",
 [R, U], [("statement matching", R+":isCallToSort"), ("side-effect test on the receiver", U+":mayHaveSideEffects"), ("replacement", R+":rewriteCallsToOnceDoEtc")], None,
 ["analyzer.GetCapabilityInfo"])

prop("C12", "A capability map is read completely or rejected with an error",
 "Reading a capability map either succeeds, with every non-blank line outside comments recorded with exactly the names and capability it states, or fails with an error naming the offending line. It fails exactly when a line has an unknown keyword, too few fields, an unknown capability, or repeats the subject of an earlier function, package, unanalyzed or ignored-call line of the same kind, or when the input cannot be read to its end.",
 ["inputs", "fault_sequences"],
 "every sequence of lines over keywords, separators, comments, field counts and capability names, and every read failure position",
 "Tests load a few well-formed maps; no test feeds malformed lines or failing readers.",
 [I], [("line parser", I+":parseCapabilityMap")], None,
 ["interesting.LoadClassifier", "Classifier.FunctionCategory"])

prop("C13", "User classifications override built-in ones and disturb nothing else",
 "After loading a user map on top of the built-in one, every function, package or unanalyzed entry the user states takes effect for its subject, with the usual precedence, even when the built-in map says something else about it, and every name the user map does not concern is classified as the built-in map alone would classify it. With the built-in map excluded only the user's entries apply, and loading any number of user maps never changes the default classifier.",
 ["inputs", "histories", "configurations"],
 "every user map within the bound, every queried package and function name, and every order of loading several maps",
 "TestUserWithBuiltin checks three names with one map.",
 [I], [("merge of built-in then user entries", I+":LoadClassifier")], None,
 ["interesting.LoadClassifier", "Classifier.FunctionCategory"])

prop("C14", "Function classification follows the documented precedence",
 "The capability of a function name is the cgo capability when the name ends in a listed cgo suffix; otherwise the function's own entry, including an explicit unspecified one; otherwise unanalyzed when the function is listed so; otherwise its package's entry; otherwise unspecified. Nothing else about the name or package affects the answer.",
 ["inputs"],
 "every map of the bounded shape and every package and function name",
 "Tests look up about a dozen names in the built-in map.",
 [I], [("lookup order", I+":Classifier.FunctionCategory")], None, ["Classifier.FunctionCategory"])

prop("C15", "Excluding unanalyzed never yields unanalyzed and changes nothing else",
 "A classifier derived by excluding unanalyzed never classifies any function as unanalyzed, whichever kind of map entry said so, and the function then falls back to the remaining entries. Every classification that was not unanalyzed is the same as before, excluded calls are the same, and the original classifier is unaffected.",
 ["inputs", "configurations"],
 "every map of the bounded shape, built-in or user-supplied, and every package and function name",
 "No test queries a derived classifier on a function entry carrying the unanalyzed capability.",
 [I, A], [("unanalyzed entries dropped", I+":ClassifierExcludingUnanalyzed")], None,
 ["interesting.ClassifierExcludingUnanalyzed", "capslock -noisy"])

prop("C16", "A classifier excludes exactly the calls its own map lists",
 "A classifier excludes a call from one function to another exactly when the map it was loaded from, together with the built-in map unless that was disabled, has an ignore entry for exactly that caller and that callee in that order. Entries never affect the reverse call or other calls of the same functions.",
 ["inputs", "configurations"],
 "every pair of function names and every user map, with the built-in map included or excluded",
 "No test loads a user map with ignored calls.",
 [I], [("edge lookup", I+":Classifier.IncludeCall"), ("merge", I+":LoadClassifier")], None,
 ["Classifier.IncludeCall"])

prop("C17", "Capability selections are parsed exactly and mean what they say",
 "Parsing a non-empty comma-separated selection succeeds exactly when every element is a known capability name, with or without the common prefix, and either none or all are marked with a minus sign; otherwise it returns an error and no selection. A parsed selection contains exactly the listed capabilities, or exactly the unlisted ones when negated, and the empty selection contains all.",
 ["inputs"],
 "every list of up to the bounded number of elements, each with a symbolic sign, prefix and name, and every capability queried",
 "TestNewCapabilitySet and TestCapabilitySetHas use a fixed table.",
 [G], [("parser", G+":NewCapabilitySet"), ("membership", G+":CapabilitySet.Has")], None,
 ["analyzer.NewCapabilitySet", "CapabilitySet.Has"])

prop("C18", "Comparison with a baseline reports exactly the set difference",
 "Compare mode signals a difference exactly when the sets of pairs of name and capability in the baseline and in the current analysis differ, the name being the package, the function, or each package on a path, according to the granularity, whether or not paths are omitted. Each pair only in the current analysis is announced exactly once as new and each pair only in the baseline exactly once as no longer present, in order of capability then name, and nothing is announced otherwise.",
 ["inputs", "configurations"],
 "every pair of result lists within the bound (names, capabilities, paths, missing fields), every granularity and path setting",
 "The compare mode has no tests.",
 [C, S], [("key extraction", C+":populateMap"), ("two-sided difference", C+":diffCapabilityInfoLists")], None,
 ["capslock -output=compare"])

prop("C19", "Exit status and failures of the command are reported faithfully",
 "The command exits with 2 exactly when something prevented a complete analysis: bad flags or arguments, an unreadable or malformed capability map or baseline, packages that fail to load, no matching package, any error recorded on a loaded package, dependency or module, a result other than a comparison's that cannot be encoded or written, or a requested profile that cannot be written. It exits with 1 exactly when a requested comparison was completed and found a difference, otherwise with 0; every failure is explained on standard error, and after one before the analysis no result is printed.",
 ["inputs", "configurations", "fault_sequences"],
 "every combination of flag values and of failures of the environment calls along the run, and every placement of errors among the loaded packages",
 "The command tests only look at the output of successful runs.",
 [M, S], [("error to status mapping", M+":main"), ("abort on package errors", M+":printErrors"), ("argument checks", S+":RunCapslock")], None,
 ["exit status and output of capslock"])

prop("C20", "The revision diff reports exactly the added capability uses",
 "The revision comparison exits with 1 exactly when some pair of key and capability occurs in the second revision's analysis and not in the first's, the key being the package or the function according to the granularity, and with 0 when there is none. Every such pair is announced exactly once, no other pair is announced, and the summary counts equal the number of capabilities newly used and the number of added uses of capabilities already used before.",
 ["inputs", "configurations"],
 "every pair of result lists within the bound (keys, capabilities, paths, missing fields) and every granularity",
 "The tool has no tests.",
 [D], [("key maps", D+":populateMap"), ("grouping of announced keys", D+":cover"), ("summary", D+":summarizeNewCapabilities"), ("difference", D+":diffCapabilityInfoLists")], None,
 ["exit status and output of capslock-git-diff"])

prop("C21", "The revision diff analyses the right tree and leaves no trace",
 "Each revision other than the current state is analysed in a fresh clone checked out at the commit that its name stands for in the original repository, in the directory corresponding to the current one, and the current state in place, always with the requested packages, granularity and capabilities. Whichever step of this fails, the command exits with 2 without printing a comparison, the working directory is the original one again before the next revision is handled, and the temporary directories it created, in the place the documented environment variable names if it is set, are removed.",
 ["fault_sequences", "inputs", "configurations"],
 "every failure pattern of the external commands and directory operations, both revision kinds and every argument count",
 "The tool has no tests and failures of its environment are never injected.",
 [D], [("clone, checkout, directory switch and deferred return", D+":AnalyzeAtRevision"), ("analyser invocation", D+":callCapslock")], None,
 ["commands run, directories, exit status of capslock-git-diff"])

prop("C22", "The temporary-module fallback cleans up and returns home on every failure",
 "When packages cannot be loaded in place the command retries in a temporary module, unless that is disabled, fetching each requested package there. Whichever step fails, the temporary directory it created is removed, analysis and later file access happen in the original working directory, and the failure is reported rather than a result for the wrong packages.",
 ["fault_sequences", "configurations"],
 "every failure pattern of directory, environment, command and load operations, and every combination of the related flags",
 "Tests always find the packages locally.",
 [M], [("fallback", M+":run"), ("temporary module", M+":makeTemporaryModule")], None,
 ["directories created and removed, exit status of capslock"])

prop("C23", "Requested build tags, system and architecture reach the loader unchanged",
 "Packages are loaded for exactly the requested build tags, operating system and architecture: each one given is passed on and takes precedence over the inherited environment, each one not given is left as inherited, and the rest of the environment and the package patterns are passed unchanged. The information requested from the loader is all that the analysis needs.",
 ["inputs", "configurations"],
 "every combination of given and missing settings with symbolic values, and every inherited environment within the bound",
 "buildtags fixtures test two settings.",
 [L, M], [("loader configuration", L+":LoadPackages")], None, ["analyzer.LoadPackages"])

prop("C24", "Module and package inventories are complete, unique and sorted",
 "The module list names every module having a path and a version among the analysed packages and their transitive dependencies exactly once, and the package list names every such package that is not part of the standard library exactly once together with all its ignored files; both are sorted by path. Nothing else is listed.",
 ["programs", "inputs"],
 "every import graph within the bound, including shared and diamond dependencies, missing module data and modules with several packages",
 "Tests strip the inventories before comparing results.",
 [L, U], [("visit each package once", U+":forEachPackageIncludingDependencies"), ("collection and sorting", L+":collectModuleInfo")], None,
 ["analyzer.GetCapabilityInfo", "analyzer.GetCapabilityStats", "analyzer.GetCapabilityCounts"])

prop("C25", "Graph text is well formed and its names can be read back exactly",
 "The graph text is a header line, one line per edge with two quoted names, and a closing line, and reading a quoted name back by the usual quoting rules gives exactly the name of the function or capability at that end of the edge, whatever characters it contains. Different names are never written the same way.",
 ["inputs"],
 "every function name within the bound over all ASCII bytes except line feeds, in particular quotes and backslashes, at either end of an edge",
 "TestGraph uses names without special characters.",
 [G], [("edge writer", G+":graphBuilder.Edge")], None, ["capslock -output=graph"])

prop("C26", "Results do not depend on map iteration or discovery order",
 "For the same packages, classifier and settings the function-, package- and intermediate-granularity results, the counts, statistics, the comparison output and the revision diff's output are identical whatever order the runtime iterates its maps in and whatever order calls and functions were discovered in, as long as functions have distinct names and call sites distinct positions. The ordering used compares package path, then plain functions before methods, then name, and call sites without a position last.",
 ["schedules", "programs"],
 "every iteration order of every internal map and every order of the incoming call lists, for every call graph within the bound",
 "A test run sees one iteration order at a time.",
 [A, U], [("sorting before searching", A+":forEachPath"), ("function and position order", U+":funcCompare")], None,
 ["analyzer.GetCapabilityInfo", "analyzer.GetCapabilityStats"])

prop("C27", "Omitting paths removes the paths and changes nothing else",
 "With path output disabled, every result has the same entries with the same capability, package, label and order as with it enabled, at every granularity. Only the example paths are missing, except that a per-function entry still names the function it is about.",
 ["programs", "configurations"],
 "every call graph, classification, queried set and granularity",
 "TestAnalysis/omit_paths checks one graph at one granularity.",
 [A], [("conditional path recording", A+":GetCapabilityInfo")], None, ["analyzer.GetCapabilityInfo", "analyzer.GetCapabilityStats"])

prop("C28", "The call graph covers every call that can happen at run time",
 "Every call that some execution of the analysed program can make, including calls through interfaces, function values and generics, appears in the call graph that the search uses.",
 ["programs"], "every program", "Fixtures contain a few dynamic call forms.",
 [U], [("variable-type-analysis call graph", U+":buildGraph")], None, ["analyzer.GetCapabilityInfo"])

prop("C29", "Comparing a program with its own saved result reports no difference",
 "When a result is saved in JSON mode and the unchanged program is compared with it under the same settings, no difference is printed and the exit status says so. This holds at every granularity, with paths omitted in either run, and also when a result saved per function is compared per package.",
 ["programs", "configurations", "schedules"], "every call graph, capability map, selection and granularity of both runs, and every order of map iteration", "The comparison tests use hand-written lists; none saves a result and compares the same program with it.",
 [C, S, M, A], [("writing the result", S+":RunCapslock"), ("comparison with a saved result", C+":compare"), ("keys at each granularity", C+":populateMap")],
 [("saved document", "the result written by the first run and read by the second", S+":RunCapslock")], ["capslock -output=json followed by -output=compare", "exit status"])

prop("C30", "Human-readable summaries show everything that was counted",
 "The default and verbose summaries show every capability found, and no other, exactly once with its count; verbose mode adds the numbers of direct and transitive uses and the functions of an example path in order with their call sites. Both list the modules analysed with their versions, and say so explicitly when there is no capability, whether or not colours are used.",
 ["programs", "configurations"], "every call graph, classification, module assignment, capability name and colour setting", "No test inspects the rendered summaries.",
 [S, "analyzer/static/default.tmpl", "analyzer/static/verbose.tmpl"], [("choice of template and data", S+":RunCapslock"), ("colours", S+":templateFormat")], None, ["capslock", "capslock -output=v"])

prop("C31", "Every setting of the command reaches the analysis with its documented meaning",
 "The result the command prints is the result of the analysis under exactly the settings given: map, built-in map on or off, unanalyzed functions, granularity, selection and omitted paths. Settings have this meaning in every output mode and do not change one another's.",
 ["configurations", "programs"], "every combination of settings in each output mode over every call graph of a small program", "Tests run the command with a handful of settings on fixed programs; combinations are not covered.",
 [M, S, A], [("flags into configuration", M+":main"), ("configuration into result", S+":RunCapslock"), ("result", A+":GetCapabilityInfo")],
 [("configuration", "what the flags were turned into", M+":main")], ["capslock with flags", "analyzer.GetCapabilityInfo"])

prop("C32", "Analyses in one process do not influence each other",
 "The result of an analysis depends only on the program and settings it is given: analysing other programs, or the same program under other settings or in another mode, before it does not change it. The settings, the queried packages, and results returned earlier are left as they were.",
 ["programs", "configurations", "schedules"], "every sequence of two or three analyses of small programs under any settings", "Each test analyses once with fresh values; carried-over state and changed arguments go unnoticed.",
 [A, C, G, U], [("analysis under settings", A+":GetCapabilityInfo"), ("comparison", C+":compare"), ("graph output", G+":graphOutput"), ("call graph preparation", U+":buildGraph")],
 [("carried state", "package-level variables and the caller's arguments", A+":GetCapabilityInfo")], ["analyzer.GetCapabilityInfo", "analyzer.GetCapabilityCounts", "analyzer.RunCapslock"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
