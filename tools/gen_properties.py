#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The text of every property lives here, in one place.
import json, os, re
M = "rust/pact_models/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": [M+f if not f.startswith("rust/") else f for f in files],
         "mechanism": [{"name": n, "where": (M+w if not w.startswith("rust/") else w)} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": M+w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A V4 pact survives being written and read back",
  "Any pact with V4 interactions (HTTP, asynchronous messages, synchronous messages) that is written as a V4 document and loaded again is the same pact: consumer, provider, every interaction with its keys, descriptions, provider states, requests, responses, messages, bodies, metadata, matching rules, generators, comments, pending flag, plugin configuration, markup and transport, and the pact's own metadata and plugin data. Writing the loaded pact gives the same document again. (The format has no place for, and the property does not ask for: empty comments, markup without text, internal ids, and the order of interactions, which are written by description; the library versions in the metadata are those of the writer.)",
  ["inputs"], "all pacts built from the public model (bounded number and size of parts), every combination of present/absent parts",
  "The unit tests of the V4 pact module are not even built in this environment, and elsewhere each field is sampled by one or two fixed documents; which combination of present, absent, empty and unusual fields is lost on the way is a question over all of them.",
  ["v4/pact.rs","v4/interaction.rs","v4/synch_http.rs","v4/async_message.rs","v4/sync_message.rs","v4/http_parts.rs","v4/message_parts.rs"],
  [("to_json / from_json pairs","v4/synch_http.rs"),("from_json dispatch on the interaction type","v4/interaction.rs"),("metadata and plugin data extraction","v4/pact.rs")],
  observe=["Pact::to_json", "pact::load_pact_from_json", "PartialEq and field access of the V4 models"])
p("C02", "V1, V2 and V3 HTTP pacts survive being written and read back",
  "A request/response pact written at the V2 or V3 specification and loaded again has the same consumer, provider and interactions: descriptions, provider states, method, path, query, headers, status, body, pact metadata, and (as far as that specification version can express them) matching rules and generators: V1 and V2 keep the name of the first provider state and no generators. The version written into the document is the version it is loaded as.",
  ["inputs"], "all HTTP pacts built from the public model within the size bounds, for each specification version",
  "The pact-level tests that exist sample fixed documents and are not built for the target the stable tests run on; the property is about every combination of parts and every specification version.",
  ["sync_pact.rs","sync_interaction.rs","request.rs","response.rs","pact.rs"],
  [("Request/Response to_json and from_json","request.rs"),("specification version dispatch","pact.rs")],
  observe=["RequestResponsePact::to_json", "pact::load_pact_from_json"])
p("C03", "V3 message pacts survive being written and read back",
  "A message pact written at V3 and loaded again has the same consumer, provider and messages: description, provider states, contents, metadata, matching rules and generators. The messages are in the same order and none is dropped.",
  ["inputs"], "all message pacts within the size bounds",
  "Existing tests check single attributes of fixed messages; losing an attribute in combination with another (e.g. generators, non-JSON contents) is invisible to them.",
  ["message.rs","message_pact.rs"], [("Message::to_json / from_json","message.rs"),("MessagePact::to_json","message_pact.rs")],
  observe=["MessagePact::to_json","MessagePact::from_json"])
p("C04", "No document can crash the loader",
  "Loading a pact, interaction, request, response, message, matching rules, generators, provider states or metadata from any JSON document returns a model or an error. It never panics, loops for ever or overflows, whatever the types and values at each position of the document, and neither does converting or writing what was loaded.",
  ["inputs"], "every JSON document shape within the bounds: each known attribute absent, null, or of any JSON type with arbitrary small values",
  "Pact files come from other tools and brokers. Tests feed well-formed documents and a few fixed malformed ones; a wrong type at an untested position crashes the verifier.",
  ["pact.rs","v4/pact.rs","request.rs","response.rs","v4/http_parts.rs","matchingrules/mod.rs","generators/mod.rs","json_utils.rs","provider_states.rs"],
  [("total matches on serde_json values","json_utils.rs"),("load_pact_from_json","pact.rs")],
  observe=["Result of pact::load_pact_from_json and the from_json functions"])
p("C05", "Query strings survive encoding and decoding",
  "Turning any query parameter map into a query string and parsing that string gives the same parameters with the same values in the same order per key. Parsing any string as a query string never panics, and writing and reading the query in the V1/V2 string form or the V3/V4 object form of a request keeps it.",
  ["inputs"], "all parameter names and values (any Unicode text, empty, absent) within the length bound; all query strings within the length bound",
  "Percent encoding is defined for every character; the tests try a handful of ASCII and Cyrillic samples in one direction each.",
  ["query_strings.rs","request.rs"], [("encode_query","query_strings.rs"),("decode_query","query_strings.rs"),("parse_query_string / build_query_string","query_strings.rs")],
  observe=["parse_query_string(build_query_string(q))", "query_to_json / query_from_json"])
p("C06", "Path expressions: parsing is total and printing is its inverse",
  "Parsing any string as a path expression gives a path or an error, never a crash. Every path, whether parsed or built by pushing fields, indices and wildcards, prints to an expression that parses back to the same path, so field names with dots, quotes, brackets or spaces keep addressing the same element.",
  ["inputs"], "all expression strings and all field names/indices within the length bounds",
  "The tests list concrete expressions; quoting and escaping interact for every combination of special characters.",
  ["path_exp.rs"], [("parse_path_exp","path_exp.rs"),("Display / expression rendering of tokens","path_exp.rs")],
  observe=["DocPath::new", "DocPath::to_string", "DocPath::tokens"])
p("C07", "The matcher selected for a location is the most specific applicable one",
  "A path expression applies to a concrete location exactly when each of its segments (root, field, index, wildcard) matches the corresponding leading segment of the location. Among the rules of a category the one selected for a location is an applicable one with the greatest weight (the product of 2 for each exact segment and 1 for each wildcard, times the number of segments), and which one it is does not depend on the order in which rules were added.",
  ["inputs"], "all pairs of path expressions and locations over a small alphabet of segments, all insertion orders of up to three rules",
  "Tests check particular expressions against particular paths; selection is a maximum over all rule sets and iteration orders.",
  ["path_exp.rs","matchingrules/mod.rs"], [("path_weight / matches_path","path_exp.rs"),("select_best_matcher, max_by_path","matchingrules/mod.rs")],
  observe=["DocPath::path_weight", "MatchingRuleCategory::select_best_matcher", "MatchingRules::resolve_matchers_for_category"])
p("C08", "Matching rules survive being written and read back",
  "Every set of matching rules, in every category and with every combination logic, written for the V3 or V4 specification and loaded again is the same set: same categories, same paths (for headers and query parameters: same names), same non-empty lists of rules with all their attributes, same AND/OR; the value type and example text kept inside an each-key or each-value definition are not part of the format. Written for V2 it keeps every rule V2 can express at the same location.",
  ["inputs"], "all rule kinds with arbitrary attribute values within bounds, all categories, all path shapes within bounds, AND/OR",
  "One rule kind with one attribute value per test; the writer and the loader are two long tables that must agree on every entry.",
  ["matchingrules/mod.rs"], [("MatchingRule::to_json / create","matchingrules/mod.rs"),("MatchingRuleCategory::to_v3_json / to_v2_json","matchingrules/mod.rs"),("matchers_from_json","matchingrules/mod.rs")],
  observe=["matchers_to_json", "matchers_from_json", "MatchingRules::rules_for_category"])
p("C09", "Generators survive being written and read back",
  "Every set of generators, in every category, written to a document and loaded again is the same set: same categories, same paths or names, same generator with all its attributes.",
  ["inputs"], "all generator kinds with arbitrary attribute values within bounds, all categories",
  "Tests sample one attribute value per generator and rarely go through both directions.",
  ["generators/mod.rs"], [("Generator::to_json / from_map","generators/mod.rs"),("Generators::load_from_map, to_json","generators/mod.rs")],
  observe=["generators_to_json", "generators_from_json"])
p("C10", "Matching-rule definitions mean exactly what they say, or are refused",
  "Parsing any string as a matching rule definition gives a definition or an error, never a crash. A well-formed definition yields exactly the rule kinds, parameters, example value and value type it spells out (quoted text with its escapes undone), and text that is not a complete definition, including trailing text, is an error. (An escape for a surrogate or for a value that is no character stands for U+FFFD.)",
  ["inputs"], "all definition strings within the length bound; all well-formed definitions with arbitrary quoted text and numbers within bounds",
  "The grammar is recursive and its inputs are user-written strings; tests enumerate a few dozen.",
  ["matchingrules/expressions.rs"], [("parse_matcher_def","matchingrules/expressions.rs"),("lexer","matchingrules/expressions.rs"),("process_raw_string","matchingrules/expressions.rs")],
  observe=["parse_matcher_def", "is_matcher_def"])
p("C11", "Equal models hash equally and keys do not depend on map order",
  "Two equal matching rules, generators, rule categories, provider states, requests, responses, messages or interactions have the same hash, and equality is reflexive, symmetric and tells apart values that differ in any compared attribute. The unique key calculated for an interaction is a function of its contents alone: it is the same for every order in which its maps were filled and for every run, it takes the description, the provider states, every part of the request, responses or contents and the pending flag into account, and it does not depend on the id, the comments or a key set before. An interaction that has a key keeps it as its unique key.",
  ["inputs","histories"], "all small models built in every insertion order and with different per-process hash seeds",
  "A single test run uses one map order per map; a hash that follows map iteration order passes tests with one entry and differs from run to run with two.",
  ["matchingrules/mod.rs","generators/mod.rs","provider_states.rs","v4/synch_http.rs","v4/async_message.rs","v4/sync_message.rs","v4/http_parts.rs","v4/message_parts.rs"],
  [("Hash and PartialEq implementations","matchingrules/mod.rs"),("calc_hash / unique_key","v4/synch_http.rs")],
  observe=["Hash", "PartialEq", "V4Interaction::unique_key"])
p("C12", "Merging pacts loses nothing and repeats nothing",
  "Merging a pact of the same consumer and provider into another gives every interaction of both, sorted by description and provider states, and those with the same identity (the key if both have one, otherwise description, names of the provider states and type; each pact by itself has distinct ones) appear once: as in the pact merged in for V1-V3 HTTP and message pacts, as in the pact merged into for V4, whose plugins are combined too. Merging a pact with itself or the same pact twice changes nothing. Pacts of a different consumer or provider are refused, message and HTTP interactions do not mix before V4, and for V1-V3 HTTP pacts a conflict is reported and the merge refused exactly when interactions with the same description and provider states differ in method, path, query or status.",
  ["inputs","histories"], "all pairs of pacts with up to two or three interactions over a small alphabet of identities, in every order",
  "Merge joins two lists; the result depends on the relative order and duplication of their elements, which tests sample in one or two arrangements (and those tests are not built here).",
  ["sync_pact.rs","message_pact.rs","v4/pact.rs","sync_interaction.rs"], [("ReadWritePact::merge","sync_pact.rs"),("conflicts_with","sync_interaction.rs")],
  observe=["ReadWritePact::merge", "Interaction::conflicts_with"])
p("C13", "Converting between specification versions keeps the interaction",
  "Upgrading an HTTP interaction or a message to V4 keeps its identity, description, provider states, request, response, contents, metadata, matching rules and generators, and downgrading the result gives back the original (a message whose metadata has no contentType may be given one); whole pacts are converted in the same way, keeping their interactions in order, participants and metadata. A V4 pact that mixes interaction types or holds synchronous messages is refused when written at an earlier version rather than truncated. Adding an interaction to a pact keeps it, converted to the version of the pact, or refuses it where its type has no place there.",
  ["inputs"], "all interactions and pacts of up to two interactions within bounds, all mixes of up to three interactions, each earlier version",
  "Conversions copy a dozen fields; tests compare a default interaction or none at all.",
  ["sync_interaction.rs","message.rs","v4/synch_http.rs","v4/async_message.rs","v4/pact.rs","request.rs","response.rs","sync_pact.rs","message_pact.rs"],
  [("as_v4 / as_request_response / as_message","sync_interaction.rs"),("V4Pact::to_json for earlier versions","v4/pact.rs")],
  observe=["Interaction::as_v4", "Pact::as_v4_pact", "Pact::as_request_response_pact", "Pact::as_message_pact"])
p("C14", "Bodies are preserved byte for byte",
  "Any body, text or binary, of any content type, written into a document (plain text, JSON or base64 as the format requires) and loaded again with the same content type has the same bytes, and missing, empty and null bodies stay distinct. JSON bodies keep their JSON value (the JSON value null being the null body). (The V1 to V3 formats have no form for bytes that are no UTF-8 text under a text type or without a content type, nor for a body that is no JSON under a JSON type.)",
  ["inputs"], "all byte strings within the length bound, each content type class, each body state",
  "Which bytes are representable as text is a property of every byte sequence; tests use ASCII and one binary sample.",
  ["bodies.rs","v4/http_parts.rs","http_parts.rs","request.rs","message.rs"], [("OptionalBody::to_v4_json","bodies.rs"),("body_from_json","v4/http_parts.rs")],
  observe=["OptionalBody::value", "HttpRequest/HttpResponse/Message JSON"])
p("C15", "Content types print as they parse and are classified consistently",
  "Every content type that parses prints to a string that parses to an equal content type, and parsing never crashes. A content type is JSON, XML, text or binary according to its base type, its suffix (which decides where both name a format) and its main type regardless of case or parameters, the classes JSON, XML and binary exclude each other, and content detection from bytes never crashes and never calls something JSON or XML that starts like neither.",
  ["inputs"], "all content type strings within the length bound; all byte prefixes within the bound",
  "Tests list known media types; parameters, suffixes, case and arbitrary bytes are unbounded.",
  ["content_types.rs"], [("ContentType::parse / Display","content_types.rs"),("is_json, is_xml, is_text, is_binary, base_type","content_types.rs"),("detect_content_type_from_bytes/_string","content_types.rs")],
  observe=["ContentType::parse", "ContentType Display", "classification predicates"])
p("C16", "Headers are found and replaced regardless of case, and their lists survive",
  "A header is found under its name in any mixture of case, setting it replaces the one value under any case and leaves every other header alone. Header values written to a document and read back are the same lists of values (in V1 to V3 form: non-empty lists of values without commas or surrounding blanks), a header that may hold only one value is never split, and parsing any header value keeps all its non-blank parts.",
  ["inputs"], "all header names within bounds in all case mixtures; all header values within the length bound",
  "Case-insensitivity and comma splitting are universal statements; tests try a few names.",
  ["headers.rs","http_parts.rs","json_utils.rs","v4/http_parts.rs","response.rs","request.rs"], [("lookup_header_value, has_header, add_header, set_header","http_parts.rs"),("parse_header","headers.rs"),("headers_from_json / headers_to_json","json_utils.rs")],
  observe=["HttpPart header functions", "headers_from_json(headers_to_json(h))"])
p("C17", "Expression substitution replaces exactly the expressions",
  "Evaluating a text with embedded provider-state expressions replaces each complete expression by the value of that name and leaves every other character in place and in order. It never crashes: an unterminated expression or a name without a value is an error, a text without expressions is returned as it is.",
  ["inputs"], "all texts within the length bound, all value maps over a small set of names",
  "Nesting, adjacency and stray delimiters occur in any order in user text; tests try a dozen texts.",
  ["expression_parser.rs"], [("parse_expression / replace_expressions","expression_parser.rs"),("contains_expressions","expression_parser.rs")],
  observe=["parse_expression", "contains_expressions"])
p("C18", "Value conversions are exact or are refused",
  "Converting a value between the supported data types (string, integer, decimal, float, boolean, raw JSON, and the numeric and text types used for statuses, sizes and bodies) gives the same mathematical value or text, or an error (an integer taken from a decimal or floating-point value drops the fraction; a Boolean is true exactly for a positive number). A number outside the range of the type asked for is an error, or the default where the reader has one; it never wraps, saturates or changes silently, and nothing crashes.",
  ["inputs"], "all 64-bit integers, all finite doubles, all numeric strings within the length bound, all JSON kinds",
  "Truncation shows only outside the sampled range: tests use three-digit numbers.",
  ["expression_parser.rs","json_utils.rs","response.rs","generators/mod.rs"], [("DataType::wrap, DataValue conversions","expression_parser.rs"),("JsonToNum, json_to_num","json_utils.rs"),("status parsing","response.rs")],
  observe=["DataValue TryFrom conversions", "json_to_num", "Response::from_json().status"])
p("C19", "Generated values satisfy the generator for every random outcome",
  "Whatever the random source returns, a random integer lies in its closed range (an empty range gives an error; for a 16-bit value the part of the range that fits is used), a random decimal has exactly the requested number of digits around one point, hexadecimal and string values have exactly the requested length and alphabet, UUIDs have the requested format, and booleans are boolean. Generating never crashes for any parameters the model accepts.",
  ["inputs"], "all random outcomes, all parameter values within bounds",
  "A test run draws a handful of random values; rare draws (leading zeros, range ends, large sizes) are exactly what it does not see.",
  ["generators/mod.rs"], [("GenerateValue implementations","generators/mod.rs"),("generate_decimal, generate_hexadecimal, generate_ascii_string","generators/mod.rs")],
  observe=["Generator::generate_value"])
p("C20", "Date and time expressions compute the documented date and time",
  "Evaluating any date, time or date-time expression against any base gives the date and time the documentation defines (bases, noon for 12 o'clock and 12 o'clock pm, next/last units and weekdays and months, additions and subtractions of units, where adding months or years keeps to the last day of the month arrived at) or, out of the calendar, an error, never a crash. Adding and then subtracting days, weeks, hours, minutes or seconds returns to the base, and text that is not a complete expression is refused.",
  ["inputs"], "all base instants within a bounded range of years, all amounts within bounds, all expression texts within the length bound",
  "The tests evaluate fixed expressions on a single base date; month ends, leap years, year boundaries and large amounts are the interesting inputs.",
  ["generators/datetime_expressions.rs","generators/date_expression_parser.rs","generators/time_expression_parser.rs"],
  [("execute_date_expression, execute_time_expression, execute_datetime_expression","generators/datetime_expressions.rs"),("expression parsers","generators/date_expression_parser.rs")],
  observe=["execute_date_expression", "execute_time_expression", "execute_datetime_expression"])
p("C21", "Date patterns accept exactly the dates they describe",
  "Validating any text against any date/time pattern gives a verdict and never crashes. A text of a real calendar date and time rendered in the pattern's layout is accepted, an impossible one (month 13, 30 February, hour 24, minute 60) is refused, and what is generated from a pattern is accepted by the same pattern.",
  ["inputs"], "all digit strings in fixed layouts, all short patterns, all short values",
  "Tests try single dates per pattern; calendar rules hold for each day, month and year.",
  ["time_utils.rs"], [("parse_pattern","time_utils.rs"),("validate_datetime_string, validate_matched_values","time_utils.rs"),("to_chrono_pattern","time_utils.rs")],
  observe=["validate_datetime", "parse_pattern", "generate_string"])
p("C22", "Generators change exactly the addressed parts of a document",
  "Applying a generator at a path to a JSON or form body changes every element the path addresses and nothing else: wildcards in a JSON path expand to exactly the existing elements, a form path is a parameter name with or without an index, a path to something absent changes nothing, and the rest of the document is unchanged. Generators for a mode other than the current one are not applied.",
  ["inputs"], "all small JSON documents and all paths over a small alphabet of segments",
  "Which elements a path addresses depends on document shape and path together; tests pair a few.",
  ["generators/mod.rs","generators/form_urlencoded.rs"], [("JsonHandler::apply_key, resolve_path, query_object_graph","generators/mod.rs"),("FormUrlEncodedHandler::apply_key","generators/form_urlencoded.rs")],
  observe=["ContentTypeHandler::apply_key / process_body", "apply_generators"])
p("C23", "Provider states survive in every format",
  "A list of provider states with names and parameters written into an interaction and loaded again is the same list in the same order with the same parameter values, in the V2, V3 and V4 formats as far as each can express it. Malformed provider-state attributes lose nothing of the well-formed ones and never crash.",
  ["inputs"], "all lists of up to two or three states with arbitrary names and small parameter values; all JSON shapes of the attributes",
  "Three historic formats share one loader; tests cover one example each.",
  ["provider_states.rs","sync_interaction.rs","message.rs"], [("ProviderState::from_json / to_json","provider_states.rs")],
  observe=["ProviderState::from_json", "interaction JSON"])
p("C24", "The specification version is recognised and reported exactly",
  "The specification version of a document is read from its metadata in every supported spelling and position (the version attribute of pactSpecification, or of pact-specification), a known version is loaded by the loader for that version, the version a writer was asked for is the one its document is loaded as, and printing a version and parsing it gives the version back. A document whose version has a known major number is loaded as that version whatever its minor number, one without a version as V3. Other versions, unknown or malformed, never crash and are reported as unknown or as an error, never as a different known version.",
  ["inputs"], "all version strings within the length bound, all metadata shapes",
  "Tests list the known spellings; anything else about the text is unsampled.",
  ["lib.rs","pact.rs","message_pact.rs","sync_pact.rs"], [("PactSpecification parse and print","lib.rs"),("determine_spec_version, load_pact_from_json","pact.rs")],
  observe=["PactSpecification::parse_version", "determine_spec_version", "Pact::specification_version"])
p("C25", "JSON helpers keep values: deep merge, text and type conversions",
  "Deep-merging two JSON values keeps every key of both, merges objects recursively, joins arrays (the elements of the first, then those of the second) and otherwise takes the second value, so merging a value without arrays with itself changes nothing; plugin configuration is merged into the same way. Converting JSON scalars to text is exact, comparing or hashing JSON by content does not depend on key order, and resolving a path expression (of one or more segments) against a document lists exactly the locations of the elements it addresses.",
  ["inputs"], "all pairs of small JSON values within the depth and width bounds",
  "Merging is defined over pairs of arbitrary documents; tests pair a handful.",
  ["json_utils.rs","plugins.rs","iterator_utils.rs"], [("json_deep_merge, json_to_string, hash_json, is_empty","json_utils.rs"),("PluginData::merge","plugins.rs"),("CartesianProductIterator","iterator_utils.rs")],
  observe=["json_deep_merge", "json_to_string", "hash_json"])
p("C31", "The file verifier reports exactly the departures from the format",
  "Verifying any JSON document as a pact file in the HTTP format of versions 1 to 3 reports an error at exactly the elements (participants, interactions, descriptions, provider states, metadata version) whose type is not the one the format asks for, naming the type found. Attributes that are missing or unknown are reported as warnings, or as errors in strict mode. What the library itself writes has no errors in strict mode, and no document makes the verifier fail.",
  ["inputs"], "all documents one or two replacements, removals or additions away from a full pact file",
  "The verifier is for files nobody wrote a test for.",
  ["verify_json.rs","sync_pact.rs","sync_interaction.rs","provider_states.rs"], [("PactJsonVerifier for RequestResponsePact, RequestResponseInteraction, Consumer, Provider and ProviderState","sync_pact.rs"),("verify_metadata","pact.rs"),("json_type_of","verify_json.rs")],
  observe=["PactJsonVerifier::verify_json"])
p("C32", "Views of interactions and pacts show, copy and change the value itself",
  "Through the traits an interaction or a pact shows the attributes, type, conversions and contents of the value behind it and exactly those of its own kind, every kind of copy (boxed, shared, locked, cloned) has the same content, and interactions are listed in order and found by their type and id. A change made through a mutable view (id, description, states, comments, plugins, markup, transport, parts) changes that attribute of the value and nothing else. Adding an interaction, plugin or version appends or merges that one entry, or is refused with no change.",
  ["inputs","histories"], "all interactions and pacts with one group of attributes symbolic",
  "Views exist for five kinds of interactions and three of pacts; tests look at few attributes of some.",
  ["interaction.rs","v4/interaction.rs","pact.rs","v4/pact.rs"], [("Interaction and V4Interaction for each kind","v4/synch_http.rs"),("Clone and Display of Box<dyn Interaction>","interaction.rs"),("Pact for V4Pact, RequestResponsePact and MessagePact","v4/pact.rs")],
  observe=["methods of the traits Interaction, V4Interaction and Pact"])
p("C33", "Collections of rules and generators keep what is put in them",
  "Lists of rules, categories, rule sets and sets of generators hold exactly what was added to them, in the order it was added and with the combination logic given first, and renaming, merging, filtering, copying or removing duplicates keeps all the rest. The generators of a part of an interaction are its own and those its matching rules bring. A rule or generator created from the name and the values another one reports is the same, and categories, kinds and modes are told apart by exactly their names.",
  ["inputs","histories"], "all short sequences of additions over a small set of paths, all rule and generator kinds with arbitrary attribute values within bounds",
  "What a collection holds depends on the sequence of calls; tests make one or two additions and look at one entry.",
  ["matchingrules/mod.rs","generators/mod.rs"], [("RuleList, MatchingRuleCategory and MatchingRules operations","matchingrules/mod.rs"),("MatchingRule::create / values, name","matchingrules/mod.rs"),("Generators operations","generators/mod.rs")],
  observe=["methods of RuleList, MatchingRuleCategory, MatchingRules and Generators"])
# other parts of the system
p("C26", "Matching: an actual equal to the expected matches, and differences are reported",
  "An HTTP request, response or message compared with itself has no mismatches under any matching rules that its own values satisfy. Any difference not permitted by a matching rule is reported as a mismatch, and every mismatch reported names a real difference.",
  ["inputs"], "all pairs of requests, responses, messages and rule sets within bounds",
  "Matching is a relation over two arbitrary documents and a rule set; tests sample pairs.",
  ["rust/pact_matching/src/lib.rs","rust/pact_matching/src/json.rs","rust/pact_matching/src/matchers.rs"], [("match_request, match_response, compare_json","rust/pact_matching/src/lib.rs")],
  observe=["match_request", "match_response"])
p("C27", "Verification fails exactly when an interaction is not honoured",
  "A verification run reports success if and only if every selected, non-pending interaction got a response that matches it after its provider states were set up. Provider state changes run before, and teardowns after, the interaction they belong to.",
  ["inputs","fault_sequences"], "all pacts, provider behaviours and callback failures",
  "Requires every combination of provider outcome, pending flag and callback failure.",
  ["rust/pact_verifier/src/lib.rs"], [("verify_pact_internal, verify_interaction","rust/pact_verifier/src/lib.rs")], observe=["verify_provider_async result"])
p("C28", "The C interface is safe for every handle and pointer a caller can pass",
  "Every exported function returns an error value for null pointers, stale handles and invalid text, and never unwinds into the caller or touches freed memory.",
  ["inputs","histories"], "all call sequences with valid, stale and null handles",
  "Call histories are unbounded; tests follow the happy path.",
  ["rust/pact_ffi/src/lib.rs","rust/pact_ffi/src/mock_server/handles.rs"], [("handle tables and catch_panic wrappers","rust/pact_ffi/src/mock_server/handles.rs")], observe=["exported C functions"])
p("C29", "The mock server answers and records exactly what happened",
  "A mock server answers a request with the response of the interaction it matches and with an error otherwise, records each request once, and reports a test as passed only if every expected interaction was received and nothing unexpected was.",
  ["inputs","schedules"], "all sequences and interleavings of requests",
  "Concurrent requests interleave; tests issue one at a time.",
  ["rust/pact_consumer/src/mock_server/http_mock_server.rs","rust/pact_ffi/src/mock_server/mod.rs"], [("driving the mock server (its crate is maintained out of tree)","rust/pact_consumer/src/mock_server/http_mock_server.rs")], observe=["mock server HTTP responses and mismatch report"])
p("C30", "Concurrent writers of one pact file lose no interaction",
  "When several processes or threads write pacts for the same consumer and provider to the same file, the file afterwards is a valid pact containing the interactions of all of them, at every interleaving and whatever one of them fails at.",
  ["schedules","crash_points"], "all interleavings of writers, all failure points",
  "Tests write from a handful of threads once; interleavings and failures are not controlled.",
  ["pact.rs","file_utils.rs"], [("write_pact with read/write lock retries","file_utils.rs")], observe=["contents of the pact file"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert re.match(r"^[A-Z][0-9]{2,3}$", x["id"]) and len(x["title"]) <= 80, x["id"]
        assert len(re.findall(r"[.?!](?=\s|$)", x["statement"])) <= 3, (x["id"], x["statement"])
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
