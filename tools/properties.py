#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
L = "libhext/src/"
I = "libhext/include/hext/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Mandatory rules match exactly the sibling groups the language defines",
     "A chain of mandatory rules matches, in every list of siblings of the document, exactly the groups that are found by going through the list from left to right, binding each rule to the next sibling that satisfies its tag, its predicates and its child rules, and starting the next group behind the last bound sibling; a group that cannot be completed yields nothing. A rule with child rules matches an element iff the child rules match at least one group among its direct children, and all groups found there become part of the match. Results appear in document search order: a sibling list first, then the lists below each of its elements, from left to right.",
     ["programs", "inputs"], "all rule trees of mandatory rules and all documents",
     "The tests compare a fixed set of about 150 hext/HTML/JSON triples; chains of rules and sibling lists interact combinatorially (which sibling a rule binds decides where every later rule and group starts).",
     [L + "RuleMatching.cpp", L + "Rule.cpp", L + "NodeUtil.cpp"],
     [("search over all sibling lists", L + "RuleMatching.cpp SaveMatchingNodesRecursive"), ("group matching", L + "RuleMatching.cpp MatchRuleGroup, MatchRuleOnce"), ("child rules", L + "RuleMatching.cpp RuleMatchesNodeRecursive")],
     ["hext::Rule::extract"])
prop("C02", "Optional rules bind greedily between mandatory ones and never block a match",
     "An optional rule binds to a sibling if one matches between the nodes bound to its neighbouring mandatory rules, in rule order, and its absence never prevents a match. An optional rule never takes the node of the next mandatory rule, and optional rules behind the last mandatory rule only reach up to the next match of the first mandatory rule, where the next group begins. A chain or list of child rules that has only optional rules is satisfied by anything, including an element without children.",
     ["programs", "inputs"], "all rule trees in which rules may be optional and all documents",
     "The tests have a handful of examples with one or two optional rules; how far an optional rule may look ahead depends on the rules around it and on every sibling up to the next mandatory match.",
     [L + "RuleMatching.cpp"],
     [("stop rule search", L + "RuleMatching.cpp MatchRuleGroup, FindMandatoryRule"), ("range matching", L + "RuleMatching.cpp MatchRange")],
     ["hext::Rule::extract"])
prop("C03", "Greedy rules take every following match without losing or duplicating nodes",
     "A greedy rule binds to its first match and then to every further matching sibling up to the next match of the following mandatory rule (or the end of the list), all within the same group; a greedy mandatory rule that ends the reach of a preceding optional or greedy rule binds once. No sibling is bound twice by one search of a chain, none is skipped that the definition covers, and rules that are both greedy and optional combine both meanings.",
     ["programs", "inputs"], "all rule trees in which rules may be greedy and/or optional and all documents",
     "The tests contain few greedy rules; repetition makes the position where the following rules and the next group start depend on all later siblings.",
     [L + "RuleMatching.cpp"],
     [("greedy repetition", L + "RuleMatching.cpp MatchRuleGroup"), ("greedy ranges", L + "RuleMatching.cpp MatchRange")],
     ["hext::Rule::extract"])
prop("C04", "Nested rules search all descendants and add their values to the enclosing match",
     "A nested rule {..} is searched among all descendants of the element its parent rule matched, like a rule of its own; if it contains a mandatory rule, the parent matches only if the nested rule does. Everything the nested rules match becomes part of the parent's group, after the child rules' matches, in the order in which the nested rules are written, at any depth of nesting and in any combination with child rules, sibling rules, optional and greedy rules.",
     ["programs", "inputs"], "all rule trees with nested rules and all documents",
     "Fewer than ten tests use nested rules; nesting multiplies with every other matching feature.",
     [L + "RuleMatching.cpp", L + "Rule.cpp"],
     [("nested search", L + "RuleMatching.cpp RuleMatchesNodeRecursive"), ("nested rule storage", L + "Rule.cpp append_nested")],
     ["hext::Rule::extract"])
prop("C05", "A result holds exactly the values captured by each group, in order",
     "For every matched group that captured at least one value there is exactly one result, in the order of the groups; groups that captured nothing leave no trace. A result contains every value that the group's rules capture from their nodes and nothing else, and values of the same name keep the order in which their nodes were matched and their captures were written.",
     ["programs", "inputs"], "all rule trees with any distribution of captures and all documents",
     "Tests compare JSON whose grouping hides duplicates and order, and only for single documents; lost, duplicated or reordered values depend on the combination of captures, groups and absent attributes.",
     [L + "Rule.cpp", I + "Result.h"],
     [("result assembly", L + "Rule.cpp Rule::extract, Rule::capture")],
     ["hext::Rule::extract"])
prop("C06", "The search limit aborts what exceeds it and never changes results",
     "With a limit of 0 searches are never aborted. With any other limit, an extraction either ends with MaxSearchError or returns exactly the unlimited result; a limit that suffices also suffices if it is raised. Every search of a list of siblings counts, so for rules without nested rules an extraction is aborted iff the limit is not greater than the number of sibling lists in the document.",
     ["configurations", "inputs"], "all limits, rule trees and documents",
     "The tests use one document with two limits; the boundary and the count of nested searches are never observed.",
     [L + "RuleMatching.cpp", L + "Rule.cpp", I + "MaxSearchError.h"],
     [("search budget", L + "RuleMatching.cpp SaveMatchingNodesRecursive")],
     ["hext::Rule::extract(html, max_searches)"])
prop("C07", "A tag selector selects exactly the elements of that name",
     "A rule whose tag is a name matches exactly the elements of that name, no matter how either is capitalised, for all HTML tags and for custom element names; '*' matches every node. The same holds no matter whether the rule was written in hext or built from a string or from an HtmlTag. (Elements are what the parser delivers as such: templates and their contents are not.)",
     ["inputs", "programs"], "all tag names, all elements in all parsing contexts",
     "Tests use a dozen tag names out of 150 and one custom name; each name is its own table entry or string comparison.",
     [L + "Rule.cpp", I + "HtmlTag.h", "libhext/ragel/Parser.cpp.rl", L + "Parser.cpp"],
     [("tag comparison", L + "Rule.cpp Rule::matches"), ("tag lookup", "libhext/ragel/Parser.cpp.rl set_open_tag_or_throw"), ("tag table", I + "HtmlTag.h")],
     ["hext::Rule::extract", "hext::ParseHext"])
prop("C08", "Positional traits select exactly the elements at the positions an+b",
     "nth-child, nth-last-child, nth-of-type and nth-last-of-type select an element iff its 1-based position among its sibling elements (of the same name, for *-of-type; from the end, for *-last-*) is a*n+b for some n >= 0, for all integers a and b, with even meaning 2n and odd meaning 2n+1. first-*, last-* and only-* follow accordingly. Text and comments do not count.",
     ["inputs", "configurations"], "all a, b that are representable and all rows of siblings of any types",
     "Tests cover a few small patterns on one list; negative steps, zero, negative shifts, extremes and custom element types are combinations that only an enumeration reaches.",
     [L + "NthChildMatch.cpp", L + "OnlyChildMatch.cpp", "libhext/ragel/hext-machine.rl", L + "NodeUtil.cpp"],
     [("position and progression", L + "NthChildMatch.cpp matches, count_*_siblings"), ("pattern parsing", "libhext/ragel/hext-machine.rl nth_pattern"), ("same type", L + "NodeUtil.cpp ElementsAreOfSameType")],
     ["hext::Rule::extract", "hext::NthChildMatch::matches"])
prop("C09", "Counting, type and negation traits mean what they say, alone and combined",
     "empty and child-count(k) select elements by their number of element children, attribute-count(k) by their number of attributes, type-matches(regex) by their tag name; text and comments do not count as children. :not(traits) selects exactly the nodes for which none of the listed traits holds. A rule with several traits and attribute patterns selects exactly the nodes that satisfy every one of them, independent of their order.",
     ["inputs", "programs"], "all combinations of traits and all documents",
     "Tests check each trait on one small document and hardly any combination.",
     [L + "ChildCountMatch.cpp", L + "AttributeCountMatch.cpp", L + "TypeRegexMatch.cpp", L + "NegateMatch.cpp", L + "Rule.cpp", "libhext/ragel/hext-machine.rl"],
     [("conjunction", L + "Rule.cpp Rule::matches"), ("negation", L + "NegateMatch.cpp matches"), ("counts", L + "ChildCountMatch.cpp, " + L + "AttributeCountMatch.cpp"), ("type", L + "TypeRegexMatch.cpp")],
     ["hext::Rule::extract"])
prop("C10", "Attribute and text conditions compare exactly as their operator says",
     "For every value and literal: == is equality, ^= prefix, $= suffix, *= substring, = that every space separated word of the literal (at least one) occurs as a space separated word of the value, =~ that the regular expression is found in the value (case-insensitively with flag i). An absent attribute (for the test classes: a null pointer) satisfies no condition, ! negates the outcome for elements, attribute names are case-insensitive, and the builtins @text, @strip-tags and @inner-html are compared like attributes.",
     ["inputs"], "all values, literals, operators and regular expressions",
     "Tests use about three values per operator; overlapping occurrences, borders, empty strings and blanks at either end are where string matching goes wrong.",
     [L + f for f in ("AttributeMatch.cpp", "FunctionValueMatch.cpp", "EqualsTest.cpp", "BeginsWithTest.cpp", "EndsWithTest.cpp", "ContainsTest.cpp", "ContainsWordsTest.cpp", "NegateTest.cpp", "RegexTest.cpp", "StringUtil.cpp")],
     [("value tests", L + "*Test.cpp test"), ("word search", L + "StringUtil.cpp ContainsWord"), ("attribute lookup", L + "AttributeMatch.cpp matches")],
     ["hext::Rule::extract"])
prop("C11", "Captures yield the source value transformed by their pipes, in order",
     "A capture yields, under its name, the value of its attribute or builtin after every pipe of its list was applied from left to right, each with its documented meaning (trim, collapsews, tolower, toupper, prepend, append, filter, replace). An attribute capture requires the attribute unless it is marked optional; an optional capture of an absent attribute yields nothing. filter yields the first capturing group, or the whole match if there is none, or the empty string.",
     ["programs", "inputs"], "all sequences of pipes, all values, all lists of captures",
     "Tests check single pipes on single values; order and interaction of pipes and boundary values are untested.",
     [L + f for f in ("AttributeCapture.cpp", "FunctionCapture.cpp", "StringPipe.cpp", "TrimPipe.cpp", "CasePipe.cpp", "RegexPipe.cpp", "RegexReplacePipe.cpp", "CollapseWsPipe.cpp", "PrependPipe.cpp", "AppendPipe.cpp")],
     [("pipe chain", L + "StringPipe.cpp pipe, append"), ("captures", L + "AttributeCapture.cpp, " + L + "FunctionCapture.cpp"), ("construction", L + "PatternValues.h add_pipe")],
     ["hext::Rule::extract"])
prop("C12", "@text and @strip-tags yield an element's text, completely and once",
     "@strip-tags is the concatenation of all text below a node in document order. @text is the same text where elements that are not inline separate words, with runs of white space collapsed to one space and none at either end. Comments and attributes never appear, nothing is lost (CDATA sections of foreign content are text, the contents of templates are not), and a text node's text is its own.",
     ["inputs"], "all documents over all tags, white space and entities",
     "Tests check a few snippets; the treatment of each tag and of white space at element borders is a matter of combinations.",
     [L + "NodeUtil.cpp", L + "StringUtil.cpp", L + "Builtins.cpp"],
     [("text", L + "NodeUtil.cpp NodeText, StripTags, TagWrapsText"), ("white space", L + "StringUtil.cpp TrimAndCollapseWs")],
     ["hext::TextBuiltin", "hext::StripTagsBuiltin"])
prop("C13", "@inner-html is HTML for exactly the content of the element",
     "Parsing the value of @inner-html in the same context yields the same content again: the same elements, attributes, text and comments, in the same order. This holds for every character in text, attributes, comments and raw text elements, for every tag (templates too), for custom elements and for foreign content with CDATA sections.",
     ["inputs"], "all contents that HTML can represent",
     "Tests compare three literal snippets; escaping and void elements are wrong only for particular characters, tags and nestings.",
     [L + "NodeUtil.cpp"],
     [("serialization", L + "NodeUtil.cpp NodeInnerHtml, SerializeNode, SerializeElement, SerializeAttribute"), ("void elements, newlines", L + "NodeUtil.cpp TagIsSelfClosing, TagIgnoresFirstNewline")],
     ["hext::InnerHtmlBuiltin"])
prop("C14", "The parser accepts exactly the hext language; anything else is a SyntaxError",
     "ParseHext returns a rule for every text of the hext language and throws SyntaxError for every other text, with no other outcome: no other exception, no crash, no acceptance of text that violates the grammar. This includes unbalanced and mismatched tags, unclosed or empty nested rules, numbers out of range, invalid regular expressions, premature ends and every byte value.",
     ["inputs"], "all byte strings",
     "Tests have about 60 malformed texts and 250 good ones, out of an infinite language whose automaton has some 700 states with 256 successors each.",
     ["libhext/ragel/hext-machine.rl", "libhext/ragel/Parser.cpp.rl", L + "Parser.cpp", L + "ParseHext.cpp"],
     [("grammar", "libhext/ragel/hext-machine.rl"), ("tag and nesting stacks", "libhext/ragel/Parser.cpp.rl push_rule, pop_rule, push_nested, pop_nested, validate_close_tag_or_throw")],
     ["hext::ParseHext"])
prop("C15", "Parsed rules mean what is written, independent of everything around it",
     "The rule tree that ParseHext returns has exactly the structure, flags, tags, traits, conditions and captures that the text states, each with its own operator, literal, flags and pipes; nothing leaks from one pattern, regular expression or rule into another. White space and comments between rules change nothing.",
     ["programs"], "all valid hext texts",
     "Tests check whole extractions for single texts; a parser that keeps scratch state between patterns goes wrong only for particular sequences.",
     ["libhext/ragel/hext-machine.rl", "libhext/ragel/Parser.cpp.rl", L + "Parser.cpp", L + "PatternValues.h"],
     [("scratch values", L + "PatternValues.h reset, set_test, add_pipe"), ("rule stacks", "libhext/ragel/Parser.cpp.rl push_rule, pop_rule, push_nested, pop_nested")],
     ["hext::ParseHext", "hext::Rule::child, next, nested"])
prop("C16", "Syntax errors name the place where the text stops being valid",
     "The message of a SyntaxError for unexpected input reports line and character position of the first byte that no valid text could have at that place, and names that byte; it shows the text up to the end of that line with the line number in front of every line and a marker below the offending position. Input that merely ends too early is reported as premature termination at its end; mismatched or missing closing tags, numbers and regular expressions are reported with their own message. (what() is a C string: a null byte in the text ends the message.)",
     ["inputs"], "all invalid texts",
     "The tests only check that an exception is thrown, never what it says.",
     ["libhext/ragel/Parser.cpp.rl", L + "Parser.cpp", L + "StringUtil.cpp"],
     [("error location", "libhext/ragel/Parser.cpp.rl print_error_location, throw_*"), ("positions", L + "StringUtil.cpp CharPosition, PrintNumberedLines, CharName")],
     ["hext::SyntaxError::what"])
prop("C17", "No input whatsoever makes parsing or extraction access memory wrongly",
     "Parsing any bytes as hext, parsing any bytes as HTML, extracting any rule from any document and reading every value never read or write out of bounds, use freed memory, leak, overflow signed integers or run into other undefined behaviour. Rules, HTML and results can be destroyed in any order after the extraction.",
     ["inputs"], "all byte strings as hext and as HTML, all pairs of rules and documents",
     "Tests run without sanitizers on well-formed inputs.",
     [L + "Parser.cpp", L + "RuleMatching.cpp", L + "NodeUtil.cpp", L + "Html.cpp", L + "StringUtil.cpp"],
     [("token handling", "libhext/ragel/Parser.cpp.rl tk_start, tk_stop"), ("tree traversal", L + "NodeUtil.cpp NextNode"), ("ownership", L + "Html.cpp")],
     ["hext::ParseHext", "hext::Html", "hext::Rule::extract"])
prop("C18", "Rules are values: copies are deep, moves transfer, assignment replaces",
     "After any sequence of construction, copy and move construction, copy and move assignment (also to itself or from its own parts), appending and modification, every rule behaves like the value it was given: a copy equals its source and is independent of it, and changing or destroying one never affects the other. A moved-from rule can be assigned to or destroyed.",
     ["histories"], "all operation histories on a set of rules",
     "The tests copy one rule once.",
     [L + "Rule.cpp", I + "Rule.h"],
     [("deep copy", L + "Rule.cpp copy constructor, operator=, swap"), ("appending", L + "Rule.cpp append_child, append_next, append_nested")],
     ["hext::Rule"])
prop("C19", "Matches, captures, tests and pipes clone and assign without sharing state",
     "For every predicate, capture, value test and string pipe class: a clone, copy, moved object or assigned object behaves exactly like the original did, for every configuration and in every order of operations including self-assignment, and it stays intact when the original is changed or destroyed. Objects with absent optional parts (no test, no pipe, no function) can be copied and assigned as well.",
     ["histories"], "all operation histories on every component class and configuration",
     "The tests copy a few of the classes, once each.",
     [I + "Cloneable.h", L + "AttributeMatch.cpp", L + "FunctionValueMatch.cpp", L + "NegateMatch.cpp", L + "NegateTest.cpp", L + "AttributeCapture.cpp", L + "FunctionCapture.cpp", L + "StringPipe.cpp"],
     [("clone", I + "Cloneable.h clone"), ("copy operations", L + "*Match.cpp, *Test.cpp, *Capture.cpp, *Pipe.cpp")],
     ["hext::Match, hext::Capture, hext::ValueTest, hext::StringPipe"])
prop("C20", "An Html object owns its document exactly once, through any sequence of moves",
     "After any sequence of constructions, moves, self-moves, swaps and destructions each parsed document is owned by exactly one object, remains intact for as long as its owner lives, and is released exactly once. The buffer it was parsed from has to outlive it only for the text of tags; results do not refer to the document at all.",
     ["histories"], "all histories of operations on a set of Html objects",
     "The tests never move an Html object.",
     [L + "Html.cpp", I + "Html.h"],
     [("ownership", L + "Html.cpp move constructor, move assignment, destructor")],
     ["hext::Html"])
prop("C21", "Running out of memory at any point is reported as bad_alloc and corrupts nothing",
     "Whenever an allocation of the library fails during parsing hext, building, copying or assigning rules and components, or extracting, the operation ends with std::bad_alloc: it does not terminate the process, leak, or corrupt its operands. Operands that are only read are unchanged, an assignment to a rule or match that fails leaves its target unchanged (tests, captures and pipes stay valid), and repeating the operation afterwards succeeds with the normal result.",
     ["fault_sequences"], "all points of failure of every operation of a representative set",
     "The tests never fail an allocation.",
     [L + "Rule.cpp", L + "Parser.cpp", L + "RuleMatching.cpp", I + "SyntaxError.h", I + "MaxSearchError.h"],
     [("exception safety", L + "Rule.cpp operator=, append_*"), ("noexcept", I + "Rule.h and others")],
     ["hext::ParseHext", "hext::Rule"])
prop("C22", "Exceptions of user supplied callbacks pass through unchanged and harm nothing",
     "An exception thrown by a user supplied match function, capture function, value test, pipe or match, at any of its invocations during an extraction, reaches the caller of extract unchanged, nothing leaks, and the rule and the document remain usable with their normal results. Callbacks are invoked in a fixed order that depends on nothing but rule and document.",
     ["fault_sequences"], "all positions of the throwing invocation",
     "The tests never throw from a callback.",
     [L + "RuleMatching.cpp", L + "Rule.cpp", L + "FunctionMatch.cpp", L + "FunctionCapture.cpp", L + "FunctionValueMatch.cpp"],
     [("exception neutrality", L + "RuleMatching.cpp, " + L + "Rule.cpp extract")],
     ["hext::Rule::extract"])
prop("C23", "Rules and documents can be shared by threads for reading",
     "Any number of threads may at the same time extract with the same rule, from the same document, parse hext and HTML, copy the same rule and destroy their own results: every thread gets the result it would get alone, for every interleaving, and there are no data races or deadlocks.",
     ["schedules"], "all interleavings of reading operations",
     "The tests are single-threaded.",
     [L + "Rule.cpp", L + "RuleMatching.cpp", L + "Parser.cpp", L + "Builtins.cpp", L + "Html.cpp"],
     [("absence of mutable shared state", L + "*.cpp const member functions")],
     ["hext::Rule::extract const", "hext::ParseHext"])
prop("C24", "Extraction is pure: it depends on rule and document only and changes neither",
     "Whatever was parsed, extracted, copied, failed or destroyed before in the process, and whatever happens inside callbacks (including using the library again), parsing and extraction give the result that a fresh process gives, every time. Extraction changes neither the rule nor the document, and extracting from a subtree gives the same as the corresponding part of the whole.",
     ["histories"], "all sequences of operations over a set of rules, documents and failures",
     "Each test runs in its own process or on fresh objects, once.",
     [L + "Rule.cpp", L + "RuleMatching.cpp", L + "Parser.cpp", L + "PatternValues.h"],
     [("absence of global state", L + "*.cpp")],
     ["hext::Rule::extract", "hext::ParseHext"])
prop("C25", "htmlext prints exactly the library's results as valid JSON",
     "For every rule and HTML the output of htmlext is valid JSON whose content is exactly the result of the extraction: one object per result (one per line by default, one array per rule and input that has any results with --array, indented with --pretty), with a string for a single value and an array of strings, in order, for several. Every character of names and values survives, and --filter prints exactly the values of the given key, one per line.",
     ["inputs", "configurations"], "all results over all characters and multiplicities, all output options",
     "Tests compare a few outputs; escaping and grouping are wrong only for particular characters and multiplicities.",
     ["htmlext/htmlext/Json.cpp", "htmlext/htmlext/Json.h", "htmlext/main.cpp"],
     [("JSON", "htmlext/htmlext/Json.cpp PrintJson, PrintJsonValue"), ("filter", "htmlext/main.cpp")],
     ["standard output of htmlext"])
prop("C26", "htmlext processes exactly the inputs and options it was given",
     "htmlext applies every given hext (files and strings) to every given HTML input, in the documented order, and prints every result exactly once. It exits with 0 iff everything was processed; syntax errors, unreadable files, missing arguments, invalid options and an exhausted search limit are reported on standard error with a non-zero exit status, and --lint only checks the hext (all that is given: it accepts no positional arguments), for every combination and order of options.",
     ["configurations", "inputs"], "all combinations of options, numbers and orders of inputs, valid or not",
     "Tests run about 40 fixed command lines.",
     ["htmlext/main.cpp", "htmlext/htmlext/ProgramOptions.cpp", "htmlext/htmlext/File.cpp"],
     [("main loop", "htmlext/main.cpp main"), ("options", "htmlext/htmlext/ProgramOptions.cpp"), ("input", "htmlext/htmlext/File.cpp")],
     ["exit status, standard output and error of htmlext"])
prop("C27", "htmlext never reports success when reading or writing failed",
     "If any read, open or write that htmlext performs fails or ends early at any point, it exits with a non-zero status and a message on standard error, and what it has written up to then is a prefix of the full output. Short reads and writes that can be continued do not change the output at all; nor do interrupted ones, unless they are reported as such a failure.",
     ["fault_sequences"], "all single faults (and short or interrupted transfers) at every I/O system call of a run",
     "Tests never inject I/O errors.",
     ["htmlext/main.cpp", "htmlext/htmlext/File.cpp"],
     [("reading", "htmlext/htmlext/File.cpp"), ("flushing", "htmlext/main.cpp")],
     ["exit status and standard output of htmlext"])
prop("C28", "The Python, Ruby, PHP and JavaScript bindings return the library's results",
     "For the same hext and HTML, extraction through each language binding returns a list of the same results in the same order as the library: one map per result, with a string for a name that has one value and a list of strings, in order, for several. Names and values keep every character.",
     ["inputs", "programs"], "all rules and documents, all multiplicities of values, all characters",
     "Each binding has a small script with a few comparisons.",
     ["libhext/bindings/wrapper/Rule.cpp", "libhext/bindings/python/pyhext.i", "libhext/bindings/ruby/rbhext.i", "libhext/bindings/php/phphext.i", "libhext/bindings/nodejs/src/Rule.cpp"],
     [("conversion", "libhext/bindings/*")],
     ["hext.Rule(...).extract(hext.Html(...))"])
prop("C29", "Bindings turn errors into exceptions and keep objects alive, in any order of use",
     "Through each language binding, syntax errors, an exhausted search limit and wrong arguments become exceptions of the language that carry the library's message, and never terminate the process; afterwards the binding works normally. Rules, documents and results can be created, reused, and released in any order, any number of times, without crashing, changing results or using more and more memory.",
     ["histories", "inputs"], "all histories of operations including failing ones",
     "The binding tests check one syntax error each.",
     ["libhext/bindings/wrapper/Rule.cpp", "libhext/bindings/wrapper/Html.cpp", "libhext/bindings/python/pyhext.i", "libhext/bindings/ruby/rbhext.i", "libhext/bindings/php/phphext.i", "libhext/bindings/nodejs/src/Rule.cpp"],
     [("exceptions", "libhext/bindings/* %exception"), ("lifetimes", "libhext/bindings/*")],
     ["hext module of each language"])
prop("C30", "The htmlext scripts of the bindings print what the library extracts, or fail",
     "htmlext.py, htmlext.rb, htmlext.php and htmlext.js, given a hext file and an HTML file, print exactly the results of applying the one to the other: one line per result, in order, each a JSON object with a string for a name that has one value and a list of strings for several, with every character kept, and exit with 0. If a file cannot be read, the hext is invalid or the extraction exceeds the search limit that most of them set (10000), they print nothing to standard output, print a message (that of the library, behind the name of the script, where the library reports the error) to standard error and exit with a non-zero status.",
     ["inputs", "configurations"], "all pairs of hext and HTML files, all file names, all failing command lines",
     "The tests run two of the scripts on the valid cases of the blackbox suite; none looks at errors.",
     ["libhext/bindings/python/htmlext.py", "libhext/bindings/ruby/htmlext.rb", "libhext/bindings/php/htmlext.php", "libhext/bindings/nodejs/htmlext.js"],
     [("scripts", "libhext/bindings/*/htmlext.*")],
     ["exit status, standard output and error of the scripts"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
