"""The checks: which explorers decide which property, how and on what terms."""
from bindparts import BindPart, ScriptPart
from check import CliPart, Part


def P(*parts):
    return lambda: list(parts)


MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
GUMBO = "the gumbo HTML parser and the tree it builds are trusted"
REGEX = "boost::regex is trusted beyond the expressions that are enumerated"
CHECKS = {}


def check(ids, level, technique, note, rule, parts, assumptions):
    for i in ids.split():
        CHECKS[i] = dict(level=level, technique=technique, note=note, rule=rule, parts=parts, assumptions=assumptions)


check("C01 C02 C03 C04 C05 C06", MC,
      "explicit-state model of the matcher, exhaustively enumerated rule trees x documents, every run replayed on the implementation",
      "Complete for all rule trees and documents within the bounds in DESIGN.md (and one-parameter families of growing size); "
      "every model run is compared with hext::Rule::extract. Trusts gumbo and the reference matcher.",
      "a case is one rule tree and one document, enumerated exhaustively within the bounds; states are steps of the group "
      "automaton of the model, transitions its node evaluations; non-trivial: the model finds at least one group (C06: always)",
      P(Part("match")), [GUMBO])

check("C07 C08 C09 C10", EX,
      "exhaustive bounded enumeration of selectors x documents on the real code against a reference model",
      "Complete for all selectors and documents within the bounds in DESIGN.md, compared with a reference evaluation of the parsed tree.",
      "a case is one selector, one document and what fresh memory is filled with (two patterns), enumerated exhaustively; non-trivial: some but not all nodes are selected",
      P(Part("select"), Part("select", fresh=0)), [GUMBO, REGEX])

check("C11 C12 C13", EX,
      "exhaustive bounded enumeration of pipe sequences / document contents on the real code against a reference model",
      "Complete for all pipe sequences, values and contents within the bounds in DESIGN.md, compared with reference "
      "implementations (C13: with the re-parsed value).",
      "a case is one capture (list) on a document of all values (C11) or one document (C12, C13), enumerated exhaustively; "
      "non-trivial: at least one pipe or value is involved (C11), every document (C12), content that HTML can represent (C13)",
      P(Part("values")), [GUMBO, REGEX])

check("C14 C16", MC,
      "conformance of the parser with a reference automaton and pushdown: every state x every byte x distinguishing suffixes (W-method), "
      "all token sequences up to a depth",
      "Complete for the stated spaces: every transition of the reference automaton of the language with a characterising set of "
      "suffixes, every sequence of tags/braces/blanks up to the stated length, every single byte change of long texts; every model run is "
      "compared with ParseHext (verdict for C14, message for C16).",
      "a case is one text, enumerated exhaustively; states/transitions are those of the reference automaton and pushdown that a case "
      "exercises; non-trivial: C14 every text, C16 invalid texts",
      P(Part("parse")), [REGEX])

check("C15", MC,
      "exhaustive enumeration of texts against rule trees built through the API from the same reference syntax trees",
      "Complete for all sequences of up to three patterns and traits in a rule, all pairs in neighbouring rules, all sequences of tags and "
      "braces up to the stated length, literals over a small alphabet in every place; parsed and constructed rules are compared on every "
      "node of a probe document, rule by rule.",
      "a case is one text, enumerated exhaustively; states are rule trees, transitions the nodes they are evaluated on; non-trivial: the text is valid",
      P(Part("parse")), [REGEX, "the rule API and the components behave as C07-C11 check"])

check("C17", EX,
      "exhaustive bounded enumeration of hext texts, HTML texts and lifetimes on the real code under AddressSanitizer and "
      "UndefinedBehaviorSanitizer, with an exact balance of allocations",
      "Every case of the stated spaces runs sanitized with exactly sized buffers; allocated bytes are balanced. Errors the sanitizers cannot "
      "see (within an object) and larger inputs are out of reach.",
      "a case is one text (as hext or as HTML, with extraction by a set of rules that use every feature) or one order of destruction; "
      "enumerated exhaustively; every case is non-trivial",
      P(Part("safety", "asan"), Part("safety", "plain", ["--deep", "0"]), Part("safety", "plain", ["--deep", "1"])), [GUMBO])

check("C18", MC,
      "explicit-state model of rules as plain values; every history of operations up to a depth is replayed on hext::Rule under "
      "AddressSanitizer and compared after every step",
      "Complete for all histories of the stated operations on two rules up to the stated depth, from three starting points.",
      "a case is one history; states are the model states at the end of a history, transitions its last operations; every history is "
      "non-trivial and replayed on the implementation from the start, with all rules compared after every operation",
      P(Part("rules", "asan")), [GUMBO])

check("C19", MC,
      "explicit-state model (configuration and number of changes per object); every history of operations up to a depth, for every class "
      "and pair of configurations, is replayed on the real classes under AddressSanitizer",
      "Complete for all histories of copy, move, assignment, self-assignment, clone, change and destruction on two objects and a clone up "
      "to the stated depth.",
      "a case is one history on objects of one class in two configurations; states are the model states at its end, transitions its last "
      "operation; histories with an impossible operation count as evaluations only",
      P(Part("components", "asan")), [GUMBO, REGEX])

check("C20", MC,
      "explicit-state model (object -> document); every history of operations up to a depth is replayed on hext::Html under AddressSanitizer",
      "Complete for all histories of construction, move construction, move assignment (also to itself), swap and destruction on three "
      "objects up to the stated depth.",
      "a case is one history; states are the model states at its end, transitions its last operation; histories with an impossible "
      "operation count as evaluations only",
      P(Part("html", "asan")), [GUMBO])

check("C21", FE,
      "every point of failure of every operation: one run for every allocation that fails, alone or with all following ones, on the real "
      "code under AddressSanitizer",
      "Complete for the stated operations: every allocation of each of them fails once alone and once for good. Allocations of gumbo "
      "(malloc) do not fail. An allocation the operation can do without may be survived with the normal result.",
      "a case is one operation and one point of failure; enumerated exhaustively; every case is non-trivial",
      P(Part("alloc", "asan")), [GUMBO])

check("C22", FE,
      "every position of a throwing callback: one run for every invocation of a user supplied function, test, pipe, match or capture, on "
      "the real code under AddressSanitizer",
      "Complete for the stated rule trees, callbacks and documents: every invocation of each extraction throws in one run (in pairs of "
      "consecutive extractions too), as does every copy of a callback when rules are copied.",
      "a case is a rule tree with a set of callbacks, a document, a limit, the position and the kind of the exception; enumerated "
      "exhaustively; cases with an exception are non-trivial",
      P(Part("callbacks", "asan")), [GUMBO])

check("C23", MC,
      "stateless model checking of the implementation: all schedules up to a bound of preemptions under a controlled scheduler (hooks of "
      "-fsanitize=thread with a runtime of our own), with vector clock race detection and comparison with the results of each thread alone",
      "Complete for the stated programs of two and three threads up to the stated number of preemptions: threads are switched at every "
      "atomic operation, static initialisation and lock that conflicts with another thread and at every callback (in one space at every "
      "allocation too); every plain access in between is checked for races, so that finer interleavings are equivalent. Accesses inside "
      "of precompiled libraries are seen only where they go through memcpy and the like.",
      "a case is one schedule, run in a process of its own; states are its decision points, transitions its scheduling decisions; every "
      "schedule is non-trivial and is run on the implementation",
      P(Part("threads", "mc")), [GUMBO])

check("C24", MC,
      "every history of operations up to a length (parsing, failing, extracting, copying, changing copies, callbacks that use the library "
      "again) runs on the implementation and is compared with the stateless model: each operation alone in a fresh process",
      "Complete for the stated operations: all histories up to the stated length in processes of their own, a de Bruijn sequence of them in "
      "a single process, every operation inside of every invocation of a callback up to two levels deep; extraction from all parts of all "
      "small documents.",
      "a case is a history of operations; the model has one state (the library keeps none), so states count the histories and transitions "
      "their operations; every history is non-trivial; for parts of documents those with a non-empty result",
      P(Part("pure")), [GUMBO])

check("C25", EX,
      "exhaustive bounded enumeration of names, values, multiplicities and output options on the real executable; a strict JSON reader "
      "compares its output with the results of the library",
      "Complete for all texts of up to two special characters as values and names, all sequences of captures up to the stated length over "
      "all subsets of attributes, families of growing size, every output option. Values that are not UTF-8 are left out (JSON cannot hold them).",
      "a case is one run of htmlext; non-trivial: there is a result", lambda: [CliPart("cli")], [GUMBO, "the results of the library are those that C01-C24 check"])

check("C26", MC,
      "model of the command line (inputs, options, order, errors); every sequence of arguments up to a length is run on the real executable",
      "Complete for all sequences of the stated arguments up to the stated length (repeated flags are left out), all numbers of inputs, "
      "sizes around the buffers and search limits in the stated ranges.",
      "a case is one command line; states are the model's final states, transitions its arguments; non-trivial: there is an error or a result",
      lambda: [CliPart("cli")], [GUMBO, "the results of the library are those that C01-C24 check"])

check("C27", FE,
      "every open, read and write of the executable fails, is interrupted or cut short in one run each (system calls changed through ptrace)",
      "Complete for the stated runs: every system call that opens or reads an input or writes to standard output x every stated error and "
      "short transfer, once and from there on; output devices that refuse.",
      "a case is one run of htmlext with one fault; states are the points of failure, transitions the faults; non-trivial: the fault took place",
      lambda: [CliPart("cli")], [GUMBO])

check("C28", EX,
      "exhaustive bounded enumeration of rules, documents, multiplicities, characters and limits, run through each of the four bindings as "
      "built by the repository under AddressSanitizer, compared with the results of the library",
      "Complete for the stated spaces in all four languages: small rules x small documents, all multiplicities of values, all texts of up to "
      "two special characters as names and values. Where a value is not UTF-8 only the absence of crashes is checked. ",
      "a case is a rule, a document and a limit in one language; non-trivial: there is a result",
      lambda: [BindPart("cases")], [GUMBO, "the results of the library are those that C01-C24 check", "Python, Ruby, PHP, Node.js and swig"])

check("C29", MC,
      "every history of operations on a small heap of rules, documents and results (create, extract, fail, exhaust the limit, wrong arguments, "
      "drop, collect) up to a length, and every enumerated error with the library's message, run in each of the four languages under "
      "AddressSanitizer and compared with a model",
      "Complete for all histories of the stated operations up to the stated length from an empty and a full heap; short ones and all kinds of "
      "values and errors are repeated until the memory in use stays the same. Node's and Ruby's collectors "
      "run where the history says so. PHP objects whose constructor did not run are left out (swig's runtime reads a null pointer).",
      "a case is a history (or a failing hext and its message) in one language; states are the model's heaps, transitions its operations; every history is run on the implementation",
      lambda: [BindPart("histories"), BindPart("errors"), BindPart("memory")], [GUMBO, "the results of the library are those that C01-C24 check", "Python, Ruby, PHP, Node.js and swig"])

check("C30", EX,
      "exhaustive bounded enumeration of hext files, HTML files, file names and failing command lines, each run through the htmlext script of "
      "each of the four languages as a process, its exit status and output compared with the library's results",
      "Complete for the stated spaces: one case per rule x document of a set, per character as name and value, per multiplicity, per error, per "
      "file name and missing or unreadable file. Documents whose results differ only in search limits are accepted with either.",
      "a case is one run of one script; non-trivial: there is a result or an error",
      lambda: [ScriptPart()], [GUMBO, "the results of the library are those that C01-C24 check", "Python, Ruby, PHP, Node.js, swig and their JSON writers"])
