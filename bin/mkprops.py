#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (kept in code so that wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
V = "relaxng-validator/src/lib.rs"; M = "relaxng-model/src/lib.rs"; MM = "relaxng-model/src/model.rs"
C = "relaxng-syntax/src/compact.rs"; X = "relaxng-syntax/src/xml.rs"; D = "relaxng-model/src/datatype/"
T = "relaxng-tool/src/main.rs"

prop("C01", "Element content is accepted exactly when it matches the content model",
 "For a compiled schema, a well-formed document is accepted if and only if its element structure matches the schema's pattern under the RELAX NG semantics of sequence, choice, interleave, optional, zero-or-more, one-or-more, mixed, empty and notAllowed. This holds for every nesting of these operators and every arrangement of child elements, including content that is ambiguous between alternatives.",
 ["inputs", "programs"], "every correct schema built from those operators, every document tree over the schema's and foreign element names",
 "The unit tests try a few dozen hand-written schema/document pairs; the space is every combination of operators nested in each other, where e.g. interleave inside one-or-more inside a nullable sequence is only reached by chance.",
 [V], [("derivatives of a hash-consed pattern with respect to start tags, text and end tags", V + " start_tag_open_deriv/end_tag_deriv/apply_after"), ("nullability flags and simplifying constructors", V + " Schema::choice/group/interleave/one_or_more")],
 ["Validator::validate_next"], [("current residual pattern", "what the rest of the document must match", V + " Validator.current_step")])
prop("C02", "Attributes match as an unordered set with exact presence and value rules",
 "A start tag is accepted exactly when its set of attributes can be matched, in whatever order they are written, against the attribute patterns available to that element: every required attribute present, no attribute left unmatched, wildcard and repeated attribute patterns consuming any number allowed, and each attribute value matching the value pattern of the attribute pattern that consumes it. Which attributes are present can select between alternatives of the content model and so constrain the children.",
 ["inputs", "programs"], "every correct schema with attribute patterns inside sequences, choices, interleaves and repetitions, every set and order of attributes on a start tag",
 "Tests use one or two attributes in a fixed order; the guarantee ranges over all orders and all ways attribute patterns are buried in the content model.",
 [V], [("derivative with respect to one attribute, applied for each attribute, then closing the start tag by forbidding unmatched attribute patterns", V + " att_deriv/start_tag_close_deriv/value_match")],
 ["Validator::validate_next"])
prop("C03", "Names are resolved by XML namespace scoping and matched by name class",
 "Element and attribute names in a document are resolved to (namespace, local name) by the in-scope declarations at that tag: declarations on the tag itself and its ancestors, innermost first, ending with the declaring element, with the default namespace applying to elements but not attributes and the xml prefix always bound; an undeclared prefix is an error. A resolved name satisfies a name class exactly when it is in the set the class denotes (names, namespace wildcards, any name, exceptions and unions).",
 ["inputs", "programs"], "every nesting and shadowing of namespace declarations in the document, every name class in the schema",
 "Tests use at most one prefix declared on the root; shadowing, undeclaring and leaving scope need sequences of declarations that are not sampled.",
 [V, MM], [("stack of open elements with their declarations", V + " ElementStack"), ("name-class membership", V + " contains")],
 ["Validator::validate_next"], [("open element stack", "declarations in scope", V + " ElementStack.elements")])
prop("C04", "Text content follows the text, data, value and list rules",
 "The character content of an element or attribute is accepted exactly when the pattern allows it: text allows any characters, value allows only the equal string under its datatype, data allows the strings of its datatype minus the excepted ones, list splits at whitespace and matches the items in order, and no other pattern allows non-whitespace characters. Empty content counts as the empty string, and whitespace-only text between or around child elements is ignored.",
 ["inputs", "programs"], "every correct schema combining text, value, data, data with exceptions and list, every character content including empty and whitespace-only content",
 "Each rule has at most a handful of examples; interactions such as a list whose items are optional, or empty content against a value, are not settled by them.",
 [V, D + "relax.rs"], [("derivative with respect to a text node", V + " text_deriv"), ("value comparison", D + "relax.rs normalize_whitespace, BuiltinDatatypeValue")],
 ["Validator::validate_next"])
prop("C05", "References mean exactly their definitions, at any depth of recursion",
 "Using a named definition is equivalent to writing its pattern in place, wherever it is used, however often, and whether or not the definition is part of a (mutually) recursive cycle through elements or a mere alias of another definition. Schemas with such cycles accept documents of any nesting depth exactly as the unfolded schema would.",
 ["programs", "inputs"], "every set of named definitions in any order, with sharing, aliasing and recursion through elements; documents of any depth",
 "A unit test checks one self-recursive element; order of definition, aliasing, optional recursion and mutual recursion multiply into cases that sampling does not cover.",
 [V, M], [("recursive references are compiled to placeholders resolved later", V + " Validator::compile, ref_placeholder, resolve_ref"), ("definitions shared by reference", M + " acquire_ref, define")],
 ["Validator::new", "Validator::validate_next"])
prop("C06", "Entity and character references mean the characters they stand for",
 "Replacing any character in text or in an attribute value by a decimal or hexadecimal character reference, a predefined entity, or an internal entity declared in the document to stand for that text never changes whether the document is accepted. A reference to an undeclared entity, an unterminated reference and a reference to an invalid character are reported as errors.",
 ["inputs"], "every text and attribute value, every way of writing its characters as references, alone or mixed with literal characters",
 "The existing tests decode a few references in one position; equal lengths, adjacent references, empty replacement and attribute values are different code paths.",
 [V], [("decoding of references in character data", V + " parse_entities"), ("table of declared entities", V + " Validator.entity_definitions")],
 ["Validator::validate_next"])
prop("C07", "Spelling a document differently never changes the verdict",
 "Two spellings of the same XML content are judged alike: comments and processing instructions may be inserted anywhere XML allows, text may be split or wrapped in CDATA sections, empty elements may be written either way, attributes may be reordered and requoted, white space may appear inside tags, prefixes may be renamed consistently and a prolog may be added.",
 ["inputs"], "every document and every combination of such respellings",
 "Tests write each document once; the relation ranges over pairs of spellings.",
 [V], [("token dispatch ignoring non-content tokens and accumulating text", V + " Validator::validate"), ("namespace resolution", V + " ElementStack")],
 ["Validator::validate_next"])
prop("C08", "Truncated, unbalanced or malformed documents are never accepted",
 "Consuming the token stream without an error implies that the input was one complete element with matching start and end tags, and nothing but comments, processing instructions and white space around it. Cutting an accepted document short anywhere inside its root element, renaming an end tag, dropping or duplicating a tag, or giving a tag two attributes with the same name always produces an error.",
 ["inputs", "fault_sequences"], "every accepted document and every truncation point or tag-level corruption of it",
 "Tests feed complete documents; truncation points and corruptions are unbounded in number.",
 [V], [("open-element bookkeeping and end-of-input handling", V + " Validator::validate_next, ElementStack")],
 ["Validator::validate_next"])
prop("C09", "Rejection happens at the first token that rules out every completion",
 "When a document does not match, the error is raised for the earliest start tag, attribute, text or end tag after which no continuation of the document could be accepted, and no error is raised while some continuation still could be accepted. The error identifies that offending construct.",
 ["inputs", "programs"], "every correct schema whose patterns can all be satisfied, every document, every prefix",
 "Tests check only that some error occurs; the guarantee relates every prefix of every document to the set of its possible completions.",
 [V], [("residual pattern collapses to notAllowed as soon as no completion exists", V + " Schema::choice/group/interleave/after, close_element_start")],
 ["Validator::validate_next", "ValidatorError"])
prop("C10", "One compiled schema can validate any number of documents independently",
 "The verdict and the sequence of per-token results for a document depend only on the schema and that document: not on documents validated before or concurrently with it from the same compiled schema, not on how far other validators have progressed or whether they failed, and not on repetition.",
 ["histories", "schedules"], "every interleaving of steps of several validators over one compiled schema, including validators abandoned midway and validators that reported errors",
 "Each unit test creates a fresh schema for one document; histories with several validators are not exercised.",
 [V, M], [("a validator owns its pattern table, stack and entity table; the model is shared read-only", V + " Validator::new")],
 ["Validator::new", "Validator::validate_next"])
prop("C11", "Definitions of one name combine as specified, whatever their order",
 "Several definitions of the same name in a grammar combine into one: with the choice method into a choice of all of them, with the interleave method into an interleave of all of them, with at most one definition lacking a combine method. The meaning is independent of the order of the definitions and of their grouping into divs, and using both methods for a name or two plain definitions is reported as an error.",
 ["programs"], "every multiset of definitions per name with every choice of methods, in every order, with patterns that are themselves choices or interleaves",
 "Tests combine two definitions in one order; the merge has a case per pair of states and pattern shapes.",
 [M, MM], [("merging of definition rules", M + " Compiler::merge1, append_choice, append_interleave, Context::define")],
 ["Compiler::compile"])
prop("C12", "Including a grammar merges it, with overrides replacing what they name",
 "Including a grammar file has the effect of inserting its definitions in place, with its own namespace and datatype declarations governing its own text, except that names overridden in the include lose all their definitions from the included file (through nested includes as well) in favour of the override, which is read with the including file's declarations. Overriding a name the included grammar does not define, including a file that is not a grammar, and including a file within itself are reported as errors.",
 ["programs", "configurations"], "every arrangement of files, nested includes, divs and overrides",
 "Tests have single-level includes with one override; nesting, repetition and scoping of declarations multiply.",
 [M], [("include contexts recording overrides", M + " Context::Include, IncludeOverrides, compile_include"), ("merging", M + " Compiler::merge1")],
 ["Compiler::compile"])
prop("C13", "External patterns, nested grammars and parent references keep separate scopes",
 "A reference names the definition in its own nearest grammar, a parent reference names the definition in the grammar directly around that one, and a nested or external grammar denotes its own start pattern without its definitions being visible to, or disturbing, the grammar around it. An external file is read with its own declarations and base location, and a file that refers to itself, a missing start and a parent reference without an enclosing grammar are reported as errors.",
 ["programs", "configurations"], "every nesting of grammars and external files with equal and different names at each level",
 "Tests nest one grammar; shadowed names at several levels and scopes crossing files are not sampled.",
 [M], [("context chain per grammar, definition and element", M + " Context, acquire_ref, acquire_parent_ref, compile_external, compile_grammar_pattern")],
 ["Compiler::compile"])
prop("C14", "Missing or ill-founded references are rejected with the right error",
 "Compilation succeeds only if every reference, prefix and datatype in the schema resolves and no definition refers to itself without an intervening element; otherwise it fails with an error of the kind that names the problem (undefined reference, undefined namespace or datatype prefix, unknown datatype or facet, recursive reference, missing start, element inside an attribute, unreadable file). A schema without such problems is never rejected.",
 ["programs"], "every schema and every single defect of the listed kinds placed anywhere in it, including in unused definitions and included files",
 "A handful of tests place one defect in the simplest position; position (inside divs, overrides, nested grammars, after the use) decides the code path.",
 [M, D + "mod.rs", D + "xsd.rs"], [("reference checks after compilation", M + " Compiler::compile, Compiler::check, check_ref_recursion"), ("prefix and datatype lookup", M + " Context; " + D + "mod.rs")],
 ["Compiler::compile"])
prop("C15", "Compact syntax is read by its grammar, insensitive to layout and comments",
 "A schema in compact syntax denotes the pattern, name class, declarations and definitions given by the RELAX NG compact grammar: connectors, postfix repetition, parentheses, literals (all quotings and concatenations), keywords and quoted keywords, names that merely begin with a keyword, annotations, datatype parameters and exceptions. White space, comments and line breaks between tokens never change the result.",
 ["inputs"], "every schema text produced by the compact grammar from an abstract schema, with any layout",
 "Tests parse a few dozen snippets; the number of token-adjacency and nesting combinations is unbounded.",
 [C], [("parser combinators per grammar production", C)],
 ["Compiler::compile with compact syntax"])
prop("C16", "The XML and compact forms of a schema compile to the same model",
 "Writing the same abstract schema in the XML syntax and in the compact syntax gives models that agree on every pattern, name class, datatype and definition, and therefore on every document. In the XML form inherited namespaces and datatype libraries, implicit grouping of several children, element/attribute name shorthands, foreign-namespace elements and attributes, comments and layout are interpreted as the specification says.",
 ["programs"], "every abstract schema expressible in both syntaxes and every way of writing it in the XML form",
 "Spec-suite cases fix one document per feature; agreement of two parsers over all schemas is a relation tests do not state.",
 [X, C, M], [("element-by-element translation of the XML form", X), ("shared model compiler", M)],
 ["Compiler::compile with either syntax"])
prop("C17", "Numeric and boolean datatypes accept exactly their lexical range and bounds",
 "For the supported integer, decimal and boolean datatypes, a string is accepted exactly when, after white-space collapsing, it is a lexical form of the type, within the type's range and within the declared minimum/maximum bounds (inclusive or exclusive), however large the number and whatever the order of the facets. Contradictory or malformed bounds are reported when the schema is compiled.",
 ["inputs", "programs"], "every supported numeric type, every combination of bound facets, every string, in particular at and around each boundary",
 "Tests check one facet of one type; boundaries exist per type, facet kind and sign.",
 [D + "xsd.rs"], [("bounds", D + "xsd.rs MinMaxFacet"), ("parsing per type", D + "xsd.rs XsdDatatypes::is_valid")],
 ["Validator::validate_next", "Datatype::is_valid", "MinMaxFacet::min/max/bounded"])
prop("C18", "String datatypes honour length, pattern and white-space rules",
 "For the supported string, name, language, URI, token and date/time datatypes, a string is accepted exactly when, after the type's white-space processing, it is in the type's lexical space, its length in characters is within the declared lengths, and every declared pattern matches the whole string. The result does not depend on the order in which the facets are written, and contradictory lengths are reported when the schema is compiled.",
 ["inputs", "programs"], "every supported string-like type, every combination of length and pattern facets, every string",
 "Tests check one length facet; combinations, orders, multi-byte characters and partial pattern matches are not sampled.",
 [D + "xsd.rs", D + "relax.rs"], [("lengths", D + "xsd.rs LengthFacet"), ("patterns", D + "xsd.rs PatternFacet"), ("white-space", D + "relax.rs normalize_whitespace")],
 ["Validator::validate_next", "Datatype::is_valid", "StringFacets accessors"])
prop("C19", "Every error can be rendered and points at the construct it is about",
 "Every error returned by compilation or validation can be rendered as a diagnostic without failing, and the source range it carries lies within the file it names and covers the construct that caused it.",
 ["inputs", "programs"], "every error kind, raised at every position of a schema file or document, including first and last line, multi-byte text and included files",
 "Tests never render errors except on failure paths; positions are not asserted.",
 [V, M], [("diagnostic construction", V + " Validator::diagnostic; " + M + " Compiler::dump_diagnostic")],
 ["Validator::diagnostic", "Compiler::dump_diagnostic", "RelaxError", "ValidatorError"])
prop("C20", "The hint after a rejected tag lists exactly the elements allowed there",
 "When a document is rejected because something is not expected, the accompanying help names each element that the schema allows as the next child at that point and no other (up to the documented cut-off with a count of the rest), and says to remove the offending item if no element is allowed.",
 ["inputs", "programs"], "every correct schema and every document prefix at which an error occurs",
 "One README example; no test looks at the hint.",
 [V], [("set of element patterns at the head of the residual pattern", V + " head/describe_expected")],
 ["Validator::diagnostic"])
prop("C21", "No input makes the library panic, overflow or hang",
 "Compiling any text as a schema in either syntax, and validating any text as a document against any compiled schema, returns success or an error value; it never panics, overflows the stack on moderately nested input, or fails to terminate. After an error has been returned, asking for further results is also safe.",
 ["inputs", "fault_sequences"], "every byte string of moderate size, in particular single edits of valid schemas and documents",
 "Unit tests feed well-formed inputs; robustness is about the inputs nobody wrote down.",
 [C, X, M, V, D + "xsd.rs"], [("error propagation instead of unwrap/unimplemented", "all crates")],
 ["Compiler::compile", "Validator::validate_next"])
prop("C22", "The command-line tool's exit status reports the verdict",
 "The validate command exits with 0 exactly when the schema compiles and every listed document is valid, with 1 when the schema does not compile, and with 2 when some document is invalid, whatever the number and order of the documents, and prints a diagnostic naming the offending file on standard error.",
 ["configurations", "inputs"], "every schema, every list of documents valid and invalid in any order",
 "There are no tests of the tool.",
 [T], [("exit codes", T + " validate")],
 ["process exit status and standard error of the rng binary"])
prop("C23", "Exactly the files a schema depends on are loaded, relative to the referring file",
 "Compiling a schema reads exactly the main file and every file reachable through include and external references, each resolved relative to the file that contains the reference and each at most once; the set of loaded files reported afterwards is that set. A file that cannot be read is reported with its path and the place it was referenced from.",
 ["programs", "configurations"], "every graph of schema files across directories, including diamonds, repeated references and a missing file",
 "Tests use a flat directory with at most two files.",
 [M], [("cache of loaded files and path joining", M + " Compiler::get_schema, loaded, compile_include, compile_external")],
 ["Compiler::loaded", "Files::load"])
prop("C24", "Long and deep documents are validated like short ones",
 "The verdict on a document does not depend on its size: repeating content that the schema allows to repeat, any number of times, and nesting content that the schema allows to nest, keeps a valid document valid and an invalid one invalid, with work and memory that do not grow with the part of the document already read (for schemas outside the documented exponential cases).",
 ["inputs", "histories"], "every unambiguous correct schema with repetition or recursion, documents of thousands of elements",
 "Tests use documents of a few elements; growth of the residual pattern or its table only shows after many steps.",
 [V], [("hash-consing and simplification keep the set of residual patterns finite", V + " Schema::push/choice/group")],
 ["Validator::validate_next"])
prop("C25", "A compiled datatype tells the bounds that were declared for it",
 "For a numeric or string datatype of a compiled model, bounded() tells whether any bound (or length) was declared, the least and greatest value (or length) that the accessors report are those declared, an exclusive bound of an integer type counting as the next integer inwards, none is reported where none was declared, and the reported pattern matches exactly the strings the declared pattern matches.",
 ["programs"], "every supported numeric type and the two string types with any acceptable set of facets, in any order",
 "Tests read one accessor of one datatype; the answers range over types, kinds of bounds, signs and sizes.",
 [D + "xsd.rs"], [("answers of the facets", D + "xsd.rs MinMaxFacet::min/max/min_cloned/max_cloned/bounded, StringFacets::min_len/max_len/bounded/regex")],
 ["MinMaxFacet and StringFacets accessors"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
