#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LIB = "the simulator decides every Go map iteration order, every byte of process entropy (crypto/rand, global math/rand) and the clock"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, technique=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, technique=technique, level=level))

prop("C01", "IsValid decides the rule's language whatever the map order or call history",
 "For every grammar the library accepts (recursive, left-recursive, ambiguous, nullable, counted, case-variant), every rule and every byte string, Grammar.IsValid returns true exactly when the bytes are in the language ABNF gives that rule. The answer does not depend on Go's map iteration order, on process entropy, or on earlier calls made with the same Grammar value, and IsValid never panics.",
 ["inputs", "schedules", "histories"], "every grammar, rule and input; every iteration order of every map the recognizer and the left-recursion analysis walk; every earlier call on the same Grammar",
 "The recognizer grows sets held in maps and its seed-growing result depends on the order they are drained in; a test sees one random order of one input and passes on most of them.",
 ["recognize.go", "leftrec.go", "grammar.go", "utils.go"], ["Grammar.IsValid", "recognizer.reachElem/reachRep and seed growing", "leftRecursiveSCCs", "GetRule"],
 "seeded runs over random grammars, inputs up to 20 bytes (in some runs up to 320), three map schedules each plus repeated calls; oracle is an independent fixpoint recogniser")
prop("C02", "Forest and BSR engines count derivations exactly and agree in any order",
 "For every grammar, rule and input, the forests returned by Parse/ParseForest and by ParseBSR report the same Valid, NumTrees and Ambiguous, and these are right: Valid is language membership, NumTrees is the number of distinct derivations (a choice of alternative, split and repetition count at every point, -1 when infinite), Ambiguous is NumTrees other than 0 or 1. This holds for every processing order of the engines' internal sets.",
 ["inputs", "schedules"], "every grammar and input; every iteration order of the graph-structured stack's pop sets and of the element sets",
 "The engines iterate over hash sets while the graph they build is still growing, so a missing replay of a popped result only shows for some orders; counting errors only show on particular ambiguous inputs.",
 ["sppf.go", "bsr.go", "grammar.go"], ["gllParser.create/pop/getNodeP", "bsrParser.record/create/pop", "Forest.NumTrees/Ambiguous", "BSRForest.NumTrees/Ambiguous"],
 "seeded runs over random grammars, inputs up to 14 bytes (in some runs up to 320), three map schedules; oracle is an independent derivation counter")
prop("C03", "Every extracted parse tree is a real derivation of the whole input",
 "Whenever an input is in the language, Tree() of the forest engine and of the BSR engine returns a tree rooted at the requested rule whose children, at every rule node, spell out one derivation of that rule's own definition, in order, gap-free and covering exactly the node's span, with every leaf matching a terminal of the grammar; otherwise Tree() is nil. Which derivation is picked may vary with map order, its soundness may not; for infinitely ambiguous inputs the tree is finite and its spans nest.",
 ["inputs", "schedules"], "every grammar and input; every order in which packed alternatives and pivots were inserted",
 "Tree takes the first packing or pivot, and which one is first depends on map iteration; an unsound one can sit behind the sound one that a test happens to see.",
 ["sppf.go", "bsr.go"], ["Forest.Tree", "BSRForest.Tree", "collectChild/collectElem"],
 "seeded runs; every tree is checked node by node against the grammar and the input by an independent matcher")
prop("C04", "ParseABNF reads ABNF faithfully and prints it back, in any order",
 "ParseABNF accepts exactly the texts that are RFC 5234/7405 rule lists without definition errors, with the errors documented for duplicates, core rules, unknown incremental alternatives and semantic faults, and the grammar it returns has exactly the written rules, alternatives, repetition bounds, literals (with case sensitivity) and numbers. EvaluateABNF over a parsed forest gives the same grammar, and the output of String and PrettyPrint, in whatever rule order they emit, reads back as the same grammar.",
 ["inputs", "schedules"], "every byte string given as ABNF source and every option combination; every map order while parsing, evaluating and printing",
 "The reader runs on the GLL engine and first-packing tree extraction, so a wrong reading can hide behind map order; the layouts of comments, folded lines and damage are unbounded.",
 ["grammar.go", "abnf.go", "rules.go", "sppf.go", "errors.go"], ["ParseABNF", "feval", "EvaluateABNF", "Grammar.String", "Grammar.PrettyPrint", "ABNF meta-grammar"],
 "seeded ABNF texts in wild layouts, with definition errors and damage; oracle is an independent recursive-descent ABNF reader")
prop("C05", "No call leaks into another: shared grammars and core rules never change",
 "Over any history of calls on any number of grammars, no operation changes the package-wide ABNF meta-grammar, the core rules, a Grammar or TransitionGraph it was only asked to read, or its input bytes, and results already returned do not change when the caller goes on to use, or write into, other results. Every operation returns what it would have returned as the first call of a fresh process.",
 ["histories", "schedules", "inputs"], "every sequence of API calls (including failing ones and core-rule redefinitions) and every map order",
 "A leak needs a particular earlier call (say a core-rule extension) before an unrelated later one; tests run calls in isolation or in one fixed sequence.",
 ["grammar.go", "utils.go", "transition_graph.go", "fuzz.go", "ast.go", "regex.go"], ["feval.rulelist", "coreRules", "ABNF", "slices and maps handed out by Reader, Generator, ASTGenerator"],
 "seeded histories of 3-12 calls over several grammars, replayed call by call in a different order; global state snapshot after every call")
prop("C06", "A grammar, graph, generator or forest can be shared by goroutines",
 "Goroutines that concurrently use the same Grammar, TransitionGraph, Generator, ASTGenerator, Forest or BSRForest for read-only operations, alongside others that parse new grammars, never race on memory, never panic or deadlock, and each gets the result it would get alone, for every interleaving.",
 ["schedules", "inputs"], "every interleaving of the callers at statement granularity and every assignment of operations to callers",
 "Races depend on the interleaving; no test of the repository starts a goroutine.",
 ["fuzz.go", "transition_graph.go", "ast.go", "grammar.go", "sppf.go", "bsr.go", "utils.go"], ["Generator.ExpectedNext/emissions", "BSRForest.index", "coreRules", "ABNF"],
 "2-4 simulated goroutines under a seeded preemptive scheduler, one statement per step, with Go's race detector watching the decided interleaving", "deterministic simulation: seeded preemptive scheduling with the race detector, results compared with solo runs")
prop("C07", "Seeded and tape-driven outputs are reproducible across processes",
 "Generate for a given seed, Generator/ASTGenerator output and NearMiss for a given tape, Regex, GenerateGoParser, the reader's sequence of covering strings, ExpectedNext and ParseError are functions of their arguments alone: the same bytes come out whatever the map iteration order, process entropy, clock, earlier calls, or whether the grammar was parsed again.",
 ["schedules", "inputs", "histories"], "every map order, entropy value and call history between the two computations being compared",
 "Go randomises map order per iteration, so a dependence on it shows only as rare flakiness; node identifiers come from crypto/rand in every process.",
 ["generate.go", "ast.go", "fuzz.go", "transition_graph.go", "regex.go", "codegen.go", "errors.go", "sppf.go"], ["Grammar.Generate", "Generator.Generate/NearMiss/ExpectedNext", "ASTGenerator.Generate", "TransitionGraphReader", "Grammar.Regex", "GenerateGoParser"],
 "each output is computed under several map schedules and entropy values and compared byte for byte")
prop("C08", "Generators only emit words of the grammar, for every random stream",
 "For every rule they accept, Grammar.Generate, ASTGenerator.Generate and Generator.Generate return for every seed, tape and option setting a string in that rule's language, NearMiss returns only strings outside it, and all of them return (no panic, no unbounded run). A rule they cannot generate from is refused with an error, never answered with a wrong string.",
 ["inputs", "schedules"], "every grammar and rule, every seed, tape and entropy stream (including empty, short and adversarial ones), every option value, every map order",
 "The random stream is the schedule of the generator; a wrong word needs a particular sequence of draws and budget hits.",
 ["generate.go", "ast.go", "fuzz.go", "transition_graph.go"], ["Grammar.Generate", "ASTGenerator", "Generator.walk", "Generator.NearMiss"],
 "seeded grammars, tapes, seeds and option values; every output is judged by the independent recogniser")
prop("C09", "Regex matches exactly the rule's language or refuses",
 "For every non-recursive rule whose repetition bounds Go's regexp can express (nested counts up to 1000), the expression returned by Regex compiles with Go's regexp and matches an input as a whole exactly when the input is in the rule's language (for well-formed UTF-8 input), whatever the map order; otherwise Regex returns an error: a cyclic rule, a prose value, or a size limit.",
 ["inputs", "schedules"], "every grammar, acyclic rule and UTF-8 input; every map order",
 "Equivalence of two languages cannot be sampled by a handful of examples, and the rule lookup and cycle analysis walk maps.",
 ["regex.go", "dag.go", "utils.go"], ["Grammar.Regex", "RuleContainsCycle", "GetRule"],
 "seeded acyclic grammars with positive, mutated and noise inputs; oracle is the independent recogniser; repetitions above RE2's 1000 limit are excluded")
prop("C10", "The transition graph reads, predicts and generates exactly the language",
 "For every rule and every setting of the deflate options, the graph built is independent of node identities; of a graph with every rule expanded (WithDeflateRules) the reader produces only words of the rule's language, covers it in finitely many strings and then stops, and ExpectedNext(prefix) names exactly the octets that can continue the prefix to a word and says exactly whether the prefix is one. Node identities come from entropy; no answer depends on them or on map order.",
 ["inputs", "schedules"], "every grammar, rule, option setting and prefix; every entropy stream for node identities; every map order",
 "Node ids are drawn from crypto/rand in every process and sets of nodes are walked in map order, so a mistake tied to an order of ids cannot be pinned down by a test.",
 ["transition_graph.go", "fuzz.go"], ["Grammar.TransitionGraph", "TransitionGraphReader.Next/Scan", "Generator.ExpectedNext"],
 "seeded acyclic grammars with every deflate mask and coverage mode; oracle is the independent recogniser and its prefix closure")
prop("C11", "Budgets give an error or the exact result, never a truncated one",
 "With WithMaxNodes, WithMaxForestNodes, WithMaxSlots, WithMaxRegexLen or WithRepetitionThreshold set to any value, the call either returns its documented too-large error or exactly the result it returns without the limit; raising a limit never turns success into failure, and whether a given limit suffices does not depend on map order or entropy.",
 ["inputs", "schedules", "fault_sequences"], "every budget value from 0 up to and past the need of the call, for every grammar and input; every map order",
 "The limit can bite at any allocation; a result that is silently truncated at one particular value is not found by trying one or two.",
 ["sppf.go", "bsr.go", "transition_graph.go", "regex.go"], ["gllParser/bsrParser aborted", "tgBuilder node budget", "WithMaxRegexLen", "WithMaxSlots"],
 "resource exhaustion injected at every (small) or sampled budget value of each seeded call; oracle is the unlimited run", "deterministic simulation: resource-budget fault injection at enumerated points of seeded runs", "fault_enumeration")
prop("C12", "pap exits 0 only after writing its complete result, under any I/O fault",
 "A pap command (validate, generate, regex, transition-graph) writes to standard output exactly what the library call for its options returns, and fails exactly when that call fails. Whatever reads, opens and writes fail or come back short, and whenever SIGINT or SIGTERM arrives, a pap that exits 0 has written exactly those bytes; one that could not deliver them exits non-zero, with a diagnostic on standard error unless a signal ended it. It never hangs, never panics, ends promptly on a signal, and a short read or a failing standard error does not change its verdict.",
 ["fault_sequences", "schedules", "inputs"], "every command and option set, every I/O operation as a fault point, every fault kind, every signal arrival step",
 "Tests run pap with a working disk and no signals; faults on the n-th write or a signal between two steps need injection.",
 ["cmd/pap/main.go", "cmd/pap"], ["pap command actions", "output writers", "signal goroutine"],
 "the real command-line program runs in a simulated process over a simulated file system, stdout and signal source", "deterministic simulation: I/O fault and signal injection into simulated pap processes", "fault_enumeration")
prop("C13", "abnf-gen leaves a complete parser or an error, under any I/O fault",
 "abnf-gen writes to its destination (a file, new or existing, or standard output) exactly the parser GenerateGoParserFromABNF returns for its options, and fails exactly when that call fails. Whatever I/O operations fail or come back short, it exits 0 only if the destination holds exactly those bytes; otherwise it exits non-zero and reports the failure.",
 ["fault_sequences", "inputs"], "every option set, every I/O operation as a fault point, every fault kind",
 "A generator that succeeds after a short write leaves a truncated source file; tests have no failing disk.",
 ["cmd/abnf-gen/main.go", "codegen.go"], ["abnf-gen main", "GenerateGoParserFromABNF"],
 "the real command-line program runs in a simulated process over a simulated file system", "deterministic simulation: I/O fault injection into simulated abnf-gen processes", "fault_enumeration")
prop("C14", "The generated standalone parser compiles and behaves like the library",
 "GenerateGoParser refuses a root rule the grammar does not have and accepts every other one. The source it emits compiles, and for every input the Parse of that source reports exact Valid, NumTrees and Ambiguous (those of the library) and a sound Tree, for every map order of the generated code and when several goroutines parse at once. With MaxElements set to any value it returns ErrTooLarge or exactly the result it returns without the limit, and a limit of at least the elements the parse needs always suffices.",
 ["inputs", "schedules", "fault_sequences"], "every grammar, root and input; every map order inside the generated parser; every MaxElements value",
 "The generated engine is a second implementation specialised per grammar; it iterates maps while they grow, and tests generate a few fixed grammars.",
 ["codegen.go", "bsr.go", "sppf.go"], ["GenerateGoParser", "generated Parse/Result"],
 "batches of parsers generated from seeded grammars are instrumented, compiled and simulated like the library itself")
prop("C15", "Every analysis finishes within a polynomial number of steps",
 "Recognition, forest and BSR parsing, tree extraction, counting, regex and graph construction, and generation finish on every grammar and input, in any map order, within a number of executed statements bounded by a low-degree polynomial of the input length and of the size of what they return (a generated word, an expanded graph or a regex may itself be large, and the documented budgets bound it): no exponential blow-up, livelock or unbounded recursion on ambiguous, left-recursive, nullable or deeply nested grammars.",
 ["inputs", "schedules"], "every grammar and input length; every map order",
 "Termination and growth are statements about all inputs; a test times out only on the blow-up it happens to contain.",
 ["recognize.go", "leftrec.go", "sppf.go", "bsr.go", "dag.go", "regex.go", "transition_graph.go", "generate.go", "ast.go"], ["reachElem memo", "gllParser descriptors", "ruleCycleVisit", "Generator budgets"],
 "simulated statement counts of growing inputs (8 to 40 bytes, more in the thorough tier) on adversarial grammar families and random grammars")
prop("C16", "ParseError names the furthest position and what was expected there",
 "For a rejected input, ParseError reports the furthest byte offset any left-to-right derivation attempt reaches, its line and column, the byte found, the exact set of terminals that would have been accepted there, and the bare-LF hint exactly when it applies; for an accepted input it is nil. The report is the same for every processing order.",
 ["inputs", "schedules"], "every grammar and rejected input; every order in which the parser tries its descriptors",
 "The furthest failure is a maximum over all attempts, collected in whatever order the worklist and maps give.",
 ["sppf.go", "errors.go"], ["gllParser.noteFail", "Forest.ParseError", "newParseError"],
 "seeded grammars with rejected inputs; oracle is an independent computation of the furthest reachable offset and its expected set")
prop("C17", "Dependency and cycle analysis is exact in any order",
 "DependencyGraph has exactly the grammar's reference edges, IsDAG is true exactly when no rule can reach itself, RuleContainsCycle is true exactly for rules from which a self-reaching rule is reachable, and Regex and TransitionGraph with rule expansion refuse exactly those rules as cyclic, for every map order of the strongly-connected-component search.",
 ["inputs", "schedules"], "every grammar; every starting order and successor order of the component search",
 "Tarjan's search starts from whichever rule the map yields first; a bookkeeping slip shows for one starting rule only.",
 ["dag.go", "regex.go", "transition_graph.go"], ["cycle.find/strongconnect", "ruleCycleVisit", "DependencyGraph"],
 "seeded reference graphs of up to 7 rules under four schedules; oracle is reachability on the model")
prop("C18", "Semantic validation gives the right verdict in any order",
 "SemvalABNF (and ParseABNF with validation) returns an error exactly when some rule references an undefined rule, some repetition has min greater than max, or some numeric value exceeds U+10FFFF, at any nesting depth; the error names a fault that is really there, and the verdict does not depend on the order rules are visited in.",
 ["inputs", "schedules"], "every grammar; every order in which rules are visited",
 "Validation walks the rule map and stops at the first fault; a rule that is skipped for one order is missed by a single run.",
 ["grammar.go", "utils.go"], ["SemvalABNF", "semvalAlternation", "checkBounds"],
 "seeded grammars with known faults at random depths under four schedules")

prop("C19", "The transition graph spells exactly the definition; its rendering is the graph",
 "For every non-cyclic rule and every setting of the deflate options, the paths of Grammar.TransitionGraph from an entrypoint to an endpoint spell exactly the sequences of elements the rule's definition allows (options, groups, alternatives and repetition counts included; numerals, literals and rules replaced by their parts when the options say so), whatever the map order and the entropy that node identities are drawn from. Node identities within a graph are unique, and ToMermaid shows exactly its nodes, links, entrypoints and endpoints.",
 ["inputs", "schedules"], "every grammar, rule and option setting; every map order and every entropy stream while the graph is built and rendered",
 "Repetition and concatenation clone sub-graphs and re-link them by identity through maps; a lost link shows only for particular nestings of optional, repeated and empty parts.",
 ["transition_graph.go"], ["Grammar.TransitionGraph", "TransitionGraph.ToMermaid", "cloneTransitionGraph and concatenation of graphs"],
 "seeded grammars under two schedules; equivalence of the graph with an independently built automaton is decided over all element sequences (subset construction)")

REPO = "/repo"
def where(name, files):
    """Files of the anchor list that mention one of the identifiers of name."""
    ids = [w for w in re.findall(r"[A-Za-z_]\w{3,}", name)]
    hit = []
    for f in files:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            t = open(p).read()
            if any(re.search(r"\b(func|type|var|const)\b[^\n]*\b%s\b" % re.escape(w), t) for w in ids): hit.append(f)
    return ", ".join(hit) or files[0]

DONE = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else {p["id"] for p in P}
NA = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        if p["id"] not in DONE: continue
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": x, "where": where(x, p["files"])} for x in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash ./check.sh --setup",
     "checks": [], "not_applicable": NA,
     "hooks": {"guard": "none in /repo: the seams are inserted into a scratch copy by sim/instr at build time", "enable": "build.sh instruments a copy of /repo's working tree", "source_commits": []}}
for p in P:
    if p["id"] not in DONE: continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash ./check.sh {p['id']} quick", "thorough_cmd": f"bash ./check.sh {p['id']} thorough",
        "technique": p["technique"] or "deterministic simulation: seeded search over map-order and entropy schedules against an executable reference model",
        "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

try:
    import jsonschema
    ms = json.load(open("/root/.vp/MANIFEST.schema.json")); ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    jsonschema.validate(m, ms)
    for l in open(os.path.join(HERE, "properties.jsonl")): jsonschema.validate(json.loads(l), ps)
    print("schemas ok", len(m["checks"]), "checks")
except ImportError: print("jsonschema missing: use python3-vt")
