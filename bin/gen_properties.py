#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

PARSER = ["machine.go", "machine.go.rl"]
EXEC = ("state switch, transition targets and action labels of the generated machine", "machine.go: Parse; source grammar machine.go.rl")

prop("C01", "RFC 2141 mode accepts exactly the RFC 2141 URNs and splits them right",
  "In RFC 2141 mode a byte string is accepted exactly when it is \"urn\" in any case, a colon, an identifier of 1 to 32 ASCII alphanumerics or dashes that neither starts with a dash nor equals \"urn\" in any case, a colon, and a non-empty specific string of ASCII alphanumerics, ()+,-.:=@;$_!*' and percent escapes (\"%\" and two ASCII alphanumerics). "
  "The identifier ends at the first colon after the prefix; ID and SS are exactly those two parts of the input, byte for byte, and the R-, Q- and F-components are empty.",
  ["inputs"], "every byte string, of every length and with every byte value, parsed in RFC 2141 mode (also the default mode)",
  "The tables sample about 90 inputs; the language is infinite and the generated machine has over 40 states for it with 256 bytes each, most of which no test row takes.",
  PARSER, [EXEC, ("look-ahead that rejects an identifier equal to the prefix", "machine.go: action throw_pre_urn_err")],
  [dict(name="cs, p, pb", meaning="control state, position, start of the current part", where="machine.go: type machine")],
  ["Parse", "Machine.Parse", "URN.ID", "URN.SS", "URN.RComponent/QComponent/FComponent"])

prop("C02", "RFC 8141 mode accepts exactly the RFC 8141 URNs and splits them right",
  "In RFC 8141 mode a byte string is accepted exactly when it is \"urn\" in any case, a colon, an identifier of 2 to 32 ASCII alphanumerics or dashes that neither starts nor ends with a dash and does not start with \"urn-\" (any case) followed by a letter or 0, a colon, and a specific string that starts with a pchar (the RFC 2141 specific characters, ~, &, percent escape) and goes on with pchars or slashes; optionally followed by \"?+\" and an r-component, \"?=\" and a q-component, \"#\" and a possibly empty f-component, in that order. "
  "R- and q-components start with a pchar and go on with pchars, slashes and question marks, an r-component containing no further \"?+\" and a q-component no further \"?=\"; the q-component starts after the first \"?=\" that a pchar follows (a \"?=\" of the r-component that none follows belongs to it); the f-component is any run of pchars, slashes and question marks. "
  "ID, SS and the R-, Q- and F-components are exactly those parts of the input, without their markers, and empty when absent.",
  ["inputs"], "every byte string, of every length and with every byte value, parsed in RFC 8141 mode",
  "About 75 table rows sample an infinite language with five optional and mutually ambiguous parts; the q- and f-component accessors are not even compared by the table test, and combinations of markers inside components are barely sampled.",
  PARSER, [EXEC, ("guarded concatenations and start flags that separate r- from q-components", "machine.go.rl: r_component, q_component, rq_components; actions mark_r_start, mark_q_start"),
           ("informal identifier check", "machine.go.rl: informal_id; _toStateActions"),
           ("error for what no error action covers", "machine.go: end of Parse")],
  [dict(name="rStart, qStart", meaning="component markers already seen", where="urn.go: type URN")],
  ["Parse with WithParsingMode(RFC8141Only)", "URN.ID, SS, RComponent, QComponent, FComponent"])

prop("C03", "SCIM mode accepts exactly the SCIM URNs and splits them right",
  "In RFC 7643 mode a byte string is accepted exactly when it is \"urn\" in any case, \":ietf:params:scim:\", one of schemas, api or param (these case-sensitive), a colon, a name of one or more ASCII alphanumerics, and optionally a colon followed by a non-empty rest of RFC 2141 specific-string characters and percent escapes. "
  "ID is then \"ietf:params:scim\", SS everything after the colon that follows it, and the SCIM view has the type, the name, and the rest without its leading colon (empty when absent).",
  ["inputs"], "every byte string, of every length and with every byte value, parsed in RFC 7643 mode",
  "Thirty table rows sample it, and no parsing test checks the SCIM type, name and rest of what it parsed.",
  PARSER + ["scim.go"], [EXEC, ("SCIM sub-machine and its position marks", "machine.go.rl: scim_only, mark_scim_name, mark_scim_other"),
           ("type lookup", "scim/schema/type.go: TypeFromString")],
  [dict(name="scim.pos", meaning="start of the SCIM part being read", where="scim.go: type SCIM")],
  ["Parse with WithParsingMode(RFC7643Only)", "URN.SCIM()", "SCIM.Type/Name/Other"])

prop("C04", "A parsed URN reassembles to its input",
  "For every accepted input, in every mode, the string form of the URN is the input byte for byte, except that the \"#\" of an empty f-component is dropped. "
  "Parsing that string form again in the same mode is accepted and gives the same ID, SS, R-, Q- and F-components, kind, SCIM view and string form.",
  ["inputs"], "every accepted byte string in every parsing mode, of every length",
  "String() is compared on the rows of three tables only; no test combines prefix case, escapes and all component subsets, nor reparses.",
  ["urn.go", "machine.go"], [("reassembly with component markers", "urn.go: String"), ("text() slices taken by the set_* actions", "machine.go")],
  [], ["URN.String", "Parse"])

prop("C05", "Every parse ends with exactly one of a URN and an error",
  "For every input (nil and empty included), every list of WithParsingMode options and every parsing-mode value (also Default and values that are no mode), parsing returns, without panicking, exactly one of a non-nil URN and a non-nil error; the package-level Parse reports ok exactly when it returns a non-nil URN, and agrees with a machine built from the same options. "
  "After each parse the machine's Error() is that error, or nil when a URN was returned, until its next parse; a new machine's Error() is nil.",
  ["inputs", "configurations", "histories"], "every byte string x every option list and mode value x every number of earlier parses on the machine",
  "Tests only use valid modes and inputs whose outcome the author thought of; a missing error action shows on no row.",
  ["machine.go", "machine.go.rl", "urn.go", "options.go", "parsing_mode.go"],
  [("final-state test and fallback error", "machine.go: end of Parse"), ("entry state per mode", "machine.go: WithParsingMode"), ("nil-error test", "urn.go: Parse")],
  [dict(name="err", meaning="error of the last parse", where="machine.go: type machine")],
  ["Parse", "Machine.Parse", "Machine.Error"])

prop("C06", "Rejections say what was expected and where",
  "The error of a rejected input names the part being read (prefix, identifier, reserved \"urn\" identifier, informal identifier, specific string, percent escape, SCIM namespace, type, name or rest, component markers, r-, q- or other component) with that part's fixed message, followed by \" [col N]\". "
  "N is the 0-based index of the first byte at which the input stops being a prefix of any URN of the mode (the input's length if it is merely incomplete); exceptions, all deliberate: a repeated r- or q-marker is reported on the byte after it, an informal identifier at its dash, a truncated SCIM rest at its last byte, and a bad byte right after a complete percent escape has that escape's message.",
  ["inputs"], "every byte string that a mode rejects",
  "The tables pin message and column for about a hundred inputs; every state x unexpected byte and every state x end of input has its own action.",
  PARSER, [("error actions and end-of-file actions", "machine.go: f* labels, _eofActions"), ("error templates", "machine.go: var block")],
  [], ["Machine.Parse error", "Machine.Error"])

prop("C07", "Normalization is exact, idempotent and pure",
  "Normalizing a URN gives one whose string form is \"urn:\", the ASCII-lowercased ID, a colon, and the SS with the letters of its percent escapes lowercased and every other byte unchanged, without R-, Q- and F-components; the receiver is left as it was. "
  "This holds for URNs from parsing in any mode, from JSON, from normalizing, for URNs composed from an ID and an SS, and after ID or SS were assigned (parts that are non-empty and of URN characters and complete percent escapes). Normalizing a normalized URN changes nothing, and the normal form of a parsed URN parses again in its mode to the same ID and SS.",
  ["inputs", "histories"], "every URN value, however it was obtained, with every mixture of escapes and cases at every position",
  "Tests compare the normal form of table inputs (all parsed, at most four escapes) once; none normalizes twice, or a URN that was not parsed.",
  ["urn.go", "machine.go", "machine.go.rl"], [("positions to lowercase gathered while parsing", "machine.go: action tolower, lowerAt"), ("normal form", "urn.go: Normalize, lowerHex")],
  [dict(name="norm, normOf", meaning="cached normal SS and what it was computed from", where="urn.go: type URN")],
  ["URN.Normalize", "URN.String"])

prop("C08", "Equal is lexical equivalence",
  "Two URNs are Equal exactly when their normal forms have the same text: prefix and ID case, the case of percent escapes, and R-, Q- and F-components do not matter, every other byte of the SS does. "
  "Equal is therefore reflexive, symmetric and transitive over all URN values (parsed in any mode, from JSON, normalized, composed or reassigned with non-empty parts of URN characters and complete percent escapes), false for nil, and changes neither operand.",
  ["inputs", "histories"], "every pair and triple of URN values, across parsing modes and ways of obtaining them",
  "Sixteen pairs are tested, all freshly parsed in one same mode.",
  ["urn.go"], [("comparison of normal forms", "urn.go: Equal, Normalize")],
  [], ["URN.Equal"])

prop("C09", "A machine can be reused and switched without memory of earlier parses",
  "Whatever a machine parsed before, and however often its parsing mode was changed, each parse has the same outcome (URN, error, Error()) as on a new machine in the mode last set; URNs and errors it returned earlier stay as they were. "
  "The mode in force is the last one set by an option or WithParsingMode; with none, or with Default or a value that is no mode, it is RFC 2141.",
  ["histories", "configurations"], "every sequence of parses and mode changes on one machine or on several interleaved ones, of every length",
  "Tests reuse one machine per table in one fixed order and one mode, and never switch modes.",
  ["machine.go", "machine.go.rl", "options.go"], [("per-parse reset", "machine.go: beginning of Parse"), ("mode switch", "machine.go: WithParsingMode, NewMachine"), ("options", "options.go")],
  [dict(name="cs, p, pb, pe, eof, err, startParsingAt, parsingMode", meaning="what survives between parses unless reset", where="machine.go: type machine")],
  ["NewMachine", "Machine.WithParsingMode", "Machine.Parse", "Machine.Error"])

prop("C10", "Parsing never writes to its input and keeps no hold on it",
  "Parsing and unmarshalling only read the bytes they are given: they write neither to them nor to the spare capacity behind them, not even transiently (inputs in read-only memory are fine). "
  "Overwriting the input afterwards changes nothing observable of the URN or error that was returned, of the receiver, or of the machine's Error().",
  ["inputs", "histories"], "every byte string in every mode, accepted or not, with every later modification of the buffer",
  "A write that is undone before returning is invisible to every after-the-fact assertion; no test looks at the input again or changes it.",
  ["machine.go", "machine.go.rl"], [("copies taken by the set_* actions, lowering on a copy", "machine.go: set_nss, lowerAt")],
  [dict(name="data", meaning="the caller's bytes, aliased during a parse", where="machine.go: type machine")],
  ["Parse on read-only memory", "URN accessors after the buffer was overwritten"])

prop("C11", "JSON round trip of URNs, RFC 8141 URNs and SCIM values",
  "A URN and an RFC 8141 URN marshal to the JSON string of their string form (the empty string for zero values), a SCIM value to the JSON string of its canonical URN; this never panics and is the same for direct calls and through encoding/json, in values, pointers and containers. "
  "Unmarshalling accepts exactly the JSON strings whose decoded text the type's own parser accepts (RFC 2141, RFC 8141, RFC 7643 mode respectively) and yields what that parser yields, so whatever was unmarshalled marshals and unmarshals back to the same value. All other JSON is an error, and for a JSON string that error quotes the decoded text.",
  ["inputs"], "every JSON text and every value of the three types that parsing or unmarshalling can produce",
  "One round trip per type is tested, on one value each.",
  ["urn.go", "urn8141.go", "scim.go"], [("MarshalJSON / UnmarshalJSON", "urn.go, urn8141.go, scim.go")],
  [], ["json.Marshal", "json.Unmarshal", "MarshalJSON", "UnmarshalJSON"])

prop("C12", "Unmarshalling replaces the receiver completely or not at all",
  "A successful UnmarshalJSON leaves the receiver indistinguishable from a fresh one unmarshalled from the same JSON, whatever it held before (no part of the former value remains), and a failed one leaves it exactly as it was. "
  "URN values that share nothing visible with the receiver, such as copies taken before, never change.",
  ["histories", "inputs"], "every sequence of successful and failed unmarshals, of every length, into receivers of the three types in every state",
  "Tests unmarshal once, into zero values.",
  ["urn.go", "urn8141.go", "scim.go"], [("whole-value assignment after a successful parse only", "urn.go, urn8141.go, scim.go: UnmarshalJSON")],
  [], ["UnmarshalJSON followed by every accessor"])

prop("C13", "Kind and SCIM view tell how the URN was parsed",
  "A URN parsed in RFC 2141, RFC 7643 or RFC 8141 mode has that kind and no other, also when the text would fit another mode; URNs neither parsed nor unmarshalled have kind NONE. "
  "IsSCIM is true, and SCIM non-nil, exactly for kind RFC 7643; the view's canonical string is then \"urn:ietf:params:scim:\" followed by the SS that was parsed, and consists of its type, name and (when non-empty) rest joined by colons.",
  ["inputs", "configurations"], "every accepted input in every mode and every URN value",
  "RFC() is asserted for RFC 8141 rows and IsSCIM for SCIM rows only, each on accepted inputs of one table; the final action depends on the state the input ends in.",
  ["machine.go", "machine.go.rl", "urn.go", "scim.go", "kind.go"], [("end-of-file actions that set the kind", "machine.go: _eofActions 34..50"), ("kind guards", "urn.go: IsSCIM, SCIM, RFC"), ("canonical form", "scim.go: String")],
  [dict(name="kind", meaning="grammar that accepted the URN", where="urn.go: type URN")],
  ["URN.RFC", "URN.IsSCIM", "URN.SCIM", "SCIM.String"])

prop("C14", "The parsing modes agree where their languages overlap",
  "Every text accepted in RFC 7643 mode is accepted in RFC 2141 and in RFC 8141 mode; every text accepted in RFC 2141 mode whose identifier is legal in RFC 8141 is accepted in RFC 8141 mode, with the same ID and SS and no components; every text accepted in RFC 8141 mode without components, whose SS has no ~, & or / and whose ID is not \"urn\", is accepted in RFC 2141 mode with the same ID and SS. "
  "Whenever two modes accept the same text without components, both URNs have the same string form and the same normal form text, and are Equal.",
  ["inputs", "configurations"], "every byte string and every pair of parsing modes",
  "No test parses one text in two modes, apart from the equivalence pairs, which are never compared across modes.",
  ["machine.go", "machine.go.rl", "urn.go"], [("three entry points of one generated machine", "machine.go.rl: main, scim_only, rfc8141_only"), ("text comparison", "urn.go: Equal")],
  [], ["Parse in two modes", "URN.Equal", "URN.String"])

prop("C15", "Concurrent use without shared machines is safe",
  "Any number of goroutines, each with its own machine (or calling Parse), may parse at the same time, even the very same bytes, and may normalize, compare, print, copy and marshal the same URN values, also while the machines that made them parse on and their input buffers are filled anew: every result is the one the call gives alone, and there is no data race.",
  ["schedules"], "every interleaving of any number of goroutines parsing own or shared inputs with own machines and reading shared URN values",
  "The tests are sequential; the race detector in CI has nothing to look at.",
  ["machine.go", "machine.go.rl", "urn.go"], [("no package-level mutable state, no write to the input, value operations build new values", "machine.go, urn.go")],
  [dict(name="input bytes, package variables", meaning="the only memory that concurrent parses share", where="machine.go")],
  ["outcomes of concurrent calls", "race detector"])

prop("C16", "SCIM type names map one to one",
  "Looking up a SCIM type by text gives the three types for exactly \"schemas\", \"api\" and \"param\", and the unsupported type for every other text; the text form of each of the three is that name, and that of any other type value is empty. "
  "The canonical string of a SCIM value is \"urn:ietf:params:scim:\", its type's name, a colon, its name and, when non-empty, a colon and its rest; for the three types, an alphanumeric name and a well-formed rest it parses in RFC 7643 mode back to the same three parts.",
  ["inputs"], "every string and every integer type value; every SCIM value composed of its exported fields",
  "Four lookups are tested.",
  ["scim/schema/type.go", "scim.go"], [("lookup and text form", "scim/schema/type.go: TypeFromString, Type.String"), ("canonical form", "scim.go: String")],
  [], ["scimschema.TypeFromString", "Type.String", "SCIM.String", "SCIM.MarshalJSON"])

prop("C17", "Reading operations leave every URN value as it was",
  "String, Normalize, Equal, MarshalJSON and all accessors are pure: in any order and number they leave every observable of the URN, of its operands and of every other URN unchanged, and give the same answer each time. "
  "The URN that Normalize returns is independent of the one it was made from: changing a field of either changes nothing of the other.",
  ["histories"], "every sequence of operations over any number of URN values, however obtained",
  "Tests call each operation once per value.",
  ["urn.go", "urn8141.go", "scim.go"], [("Normalize and Equal work on new values", "urn.go")],
  [], ["all URN methods and exported fields, before and after"])

prop("C18", "snake2camel rewrites exactly the snake-case joints",
  "Run on a file, snake2camel repeatedly takes on each line the last underscore that directly follows a lowercase letter with any digits after it and directly precedes an ASCII alphanumeric, removes it and uppercases that alphanumeric, until there is none; all other bytes and all line breaks stay, and the result is unchanged by running it again. "
  "It always terminates; wrong usage or an unreadable file gives a non-zero exit and changes nothing.",
  ["inputs", "programs"], "every file content",
  "Three fixed texts are tested, none with interacting underscores, digits and upper-case letters, and none through the command.",
  ["tools/snake2camel/snake2camel.go"], [("rewrite to a fixed point", "tools/snake2camel/snake2camel.go: snake2camel, replaceAllStringSubmatchFunc")],
  [], ["file content and exit status of the command"])

prop("C19", "removecomments removes line directives and nothing else",
  "Run on a file, removecomments deletes every line that starts with optional white space followed by \"//line\", with its line break and with the white-space-only lines right before it, and leaves every other byte of the file as it was, in order. "
  "Wrong usage or an unreadable file gives a non-zero exit and changes nothing; running it again changes nothing more.",
  ["inputs", "programs"], "every file content, with every kind of line break and with or without a final one",
  "One fixed text is tested.",
  ["tools/removecomments/removecomments.go"], [("multi-line pattern", "tools/removecomments/removecomments.go: commentLineRegex")],
  [], ["file content and exit status of the command"])

prop("C20", "Parsing and all operations cost no more than linear time and memory",
  "Parsing a text in any mode (accepted or not), and every operation on the resulting URN or SCIM value (Normalize, Equal, String, MarshalJSON, UnmarshalJSON, accessors), takes time and memory at most proportional to the length of the text, whatever its shape. "
  "Parsing many texts on one machine costs the sum of that: nothing piles up, neither in a machine nor in the library: memory that calls have used is free again once their results are gone.",
  ["inputs", "histories"], "every shape of text and every length; every number of parses on a machine",
  "Benchmarks use short inputs and assert nothing; a part that is copied again for every byte shows only in long texts of one shape.",
  ["machine.go", "urn.go"], [("single pass over the input; parts copied once", "machine.go: Parse"), ("one pass over the specific string", "urn.go: lowerHex, Normalize")],
  [], ["running time and allocated bytes of Parse and the URN methods, at two lengths"])

prop("C21", "The string form is what the fields say",
  "For every URN value, however obtained (parsed in any mode, unmarshalled, normalized, copied, composed, with ID or SS assigned to anything, empty included), String is empty if ID or SS is empty, and otherwise the prefix as it was parsed (\"urn\" for composed and normalized URNs), a colon, ID, a colon, SS, and then, each only when non-empty and in this order, \"?+\" and the r-component, \"?=\" and the q-component, \"#\" and the f-component, all byte for byte.",
  ["inputs", "histories"], "every URN value and every assignment to its exported fields",
  "Tests print parsed URNs and a handful of composed ones.",
  ["urn.go"], [("String", "urn.go: String"), ("prefix kept from parsing", "machine.go: action set_prefix")],
  [dict(name="prefix", meaning="the prefix as parsed", where="urn.go: type URN")], ["URN.String, URN.ID, URN.SS and component accessors"])

prop("C22", "Values share no state with each other or with the library",
  "Whatever a caller does to one value (assign its ID or SS, assign the fields of the SCIM value its SCIM method returns, unmarshal into it, parse into its variable) changes nothing observable of any other URN or SCIM value, struct copies sharing a SCIM view apart. "
  "It also changes no later outcome: parsing, unmarshalling and normalizing always yield what they would yield in a new process.",
  ["histories"], "every sequence of parses, unmarshals, normalizations and assignments over any number of values, with the same texts again and again",
  "Tests never change a value they got and parse the same text again.",
  ["machine.go", "urn.go", "scim.go", "urn8141.go"], [("a new URN and SCIM value for each parse", "machine.go: Parse; machine.go.rl: base_scim"), ("receivers get copies", "scim.go: UnmarshalJSON")],
  [dict(name="scim", meaning="pointer to the SCIM view", where="urn.go: type URN")], ["all URN and SCIM values reachable by the caller, after each call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
