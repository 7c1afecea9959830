#!/usr/bin/env python3
# Writes known_findings.json: the findings below, and the repairs committed in /repo (commit ids are looked up by subject).
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def finding(i, what): F.append({"id": i, "property": i[:3], "what": what})
finding("C05-non-ascii", "encode_query writes a non-ASCII character as the hex digits of its code point (U+2764 as %27%64) instead of its UTF-8 bytes, so a value or parameter name with such a character is not read back (V1/V2 query strings); the existing test request_to_json_with_a_query_must_encode_the_query_with_utf8_chars demands that output")
finding("C10-quote-escape", "an escaped quote in a string of a matching rule definition keeps its backslash: 'don\\'t' is parsed as don\\'t although the documentation lists \\' as an escape of the quote; the existing test parse_string_test demands that output")
finding("C14-null-v4", "a null body of a V4 request, response or message is written as no body at all and read as missing (reader and format know {\"content\": null}); the existing tests http_request_to_json_with_null_body and http_response_to_json_with_null_body demand that output")
finding("C21-day-of-year", "days of the year 357 to 366 are refused (and generated for a date at the end of the year): the existing test parse_day_in_year demands that 357 is refused")
finding("C21-zone-name", "the pattern z (time zone name) generates an offset (+00:00) or UTC and zzzz accepts nothing: the names are not known to the date library used")
finding("C21-fields-without-text", "fields the date library can not print are generated in another form: Q q W F A N print nothing, k at 0h prints 00, K at 12h prints 12, S and SS print three digits, w in the first days of a year prints week 00")
# subject prefix -> (property, what failed)
X = [
 ("non-ASCII characters in a query string", "C05", "parse_query_string(\"a=é\") gave mojibake (each UTF-8 byte became a character)"),
 ("encoding a query string panicked", "C05", "build_query_string panicked on a character whose code point has an odd number of hex digits (U+E9F)"),
 ("query parameter names are encoded", "C05", "a parameter named 'a&b' or 'a=b' was written unencoded and read back as other parameters"),
 ("a non-string query value in a list", "C05", "query {\"a\": [1]} was read as the value \"[1]\""),
 ("a request written as V4 is read with its query", "C05", "HttpRequest/Request JSON written with the V4 form lost its query when read"),
 ("a path expression with an index that is not a usize", "C06", "DocPath::new(\"$[99999999999999999999]\") panicked"),
 ("quotes and backslashes escaped in a path expression", "C06", "a field name with a quote or a backslash did not survive printing and parsing"),
 ("the matcher selected for a path does not depend", "C07", "of two rules with equal weight the one selected depended on hash map order"),
 ("matching rules written in V2 form keep", "C08", "V2 rules of the metadata/method/status categories, or with '$' or special characters in a name, were written or read at another location"),
 ("rules for a header or query parameter named", "C08", "rules for a header or query parameter named 'matchers' were lost"),
 ("quoted strings in matching rule definitions", "C10", "matching(regex,'\\\\','b') was refused; matching(type,'a\\nb') was not unescaped; a trailing escaped quote was stripped"),
 ("text that is not a token is an error", "C10", "matching(type,'a')? and matching(type,1.) were accepted"),
 ("a decimal definition from a provider state", "C10", "matching(decimal, fromProviderState('e', 1.5)) gave a number rule"),
 ("only fromProviderState is taken for it", "C10", "matching(date,'f',fromProviderStateX('e','v')) was accepted"),
 ("the closing brace of an expression", "C17", "parse_expression(\"} ${a}\") panicked (the closing brace was looked for before the expression)"),
 ("a value outside the range of the integer type", "C18", "provider state value 65636 for a status became 100, -1 as u64 became 18446744073709551615, 1e300 as an integer became 9223372036854775807"),
 ("a response status that is not one", "C18", "Response JSON with status 65736 was read as 200, with a text or negative status it panicked"),
 ("a status code outside the range", "C18", "status rule [65736] was read as [200], [-1] as [65535]"),
 ("a number outside the range of the type asked for is not", "C18", "RandomInt min 4294967297 was read as 1, RandomString size 65537 as 1; json_to_num(4294967297) gave 1 on 32-bit, -1.5 gave 0"),
 ("a generated value that can not be converted to text", "C18", "generating text from a provider state value that is no integer with type INTEGER panicked"),
 ("a sign is not a hex digit", "C10", "'\\u+041' was accepted"),
 ("a provider states attribute that is no list", "C23", "{\"providerStates\": null, \"providerState\": \"x\"} was read as no provider state"),
 ("an empty list of Content-Type header values", "C04", "a request, response or message with \"Content-Type\": [] panicked when read or asked for its content type"),
 ("the content type in the metadata of a message", "C14", "lookup_content_type of a message indexed the metadata text and gave \"null\""),
 ("the suffix of a content type decides", "C15", "application/xml+json was both JSON and XML"),
 ("attribute values of a content type are quoted", "C15", "a content type with boundary=\"a b\" printed as a text that does not parse"),
 ("a string read as the JSON text of a body", "C14", "the V3 JSON body \"a\\\"b\" was read as the text \"a\"b\", which is no JSON"),
 ("a body with an empty JSON string", "C14", "the V4 JSON body \"\" was read as an empty body"),
 ("bodies written in V1 to V3 form", "C14", "in V1-V3 form the text abcd of a binary type was read as its base64 decoding, [INFO] x without a content type as base64 text, the JSON string \"{}\" as an object"),
 ("merging pacts lost interactions", "C12", "merging {d, no states} with {d, [s]} kept one of the two; merging pacts whose interactions are not sorted repeated interactions and gave an unsorted pact"),
 ("status code rules with another status", "C11", "MatchingRule::StatusCode(Success) == MatchingRule::StatusCode(ClientError)"),
 ("hashes of models do not depend", "C11", "equal provider states, matching rules, array contains rules and generators and asynchronous messages had different hashes (and unique keys) when a map with two entries was filled in another order"),
 ("values with -0.0 and 0.0", "C11", "provider states and metadata with -0.0 and 0.0 are equal but had different hashes"),
 ("a V3 message is read with its generators", "C03", "Message::from_json dropped the generators of a message"),
 ("escape the field names in the JSON pointers", "C22", "a generator for $['a/b'] changed another element or none; resolve_path gave a pointer that addresses nothing"),
 ("apply a generator to every form parameter", "C22", "a generator for the form parameter name without an index or with a wildcard changed nothing but the first or none"),
 ("generate random integers from the whole range", "C19", "RandomInt(min, max) never generated max for some types, and panicked when min >= max"),
 ("random hexadecimal values have", "C19", "RandomHexadecimal gave fewer digits than requested when the first was zero"),
 ("a mock server URL regex without a group", "C19", "MockServerURL with a regex without a capture group panicked"),
 ("the body of a V4 response is written with", "C14", "a V4 response whose content type is in its headers was read with content type */* after writing"),
 ("a date or time expression with something after its end", "C20", "\"now xyz\" or \"+1 day foo\" was accepted and the rest ignored"),
 ("12 o'clock and 12 o'clock pm", "C20", "\"@ 12 o'clock\" and \"@ 12 o'clock pm\" kept the time of the base or gave hour 24"),
 ("adjustments of an expression that lead out", "C20", "\"+ 99999999 years\" and other adjustments out of the calendar panicked"),
 ("adding months or years to a date", "C20", "2000-01-31 + 1 month, or 29 February + 1 year, panicked or gave a day of another month"),
 ("validating a date with a year of more than four", "C21", "validating a text with a year of many digits panicked"),
 ("the day of the month is checked for patterns with 'L'", "C21", "30 February was accepted by yyyy-LL-dd"),
 ("fractions of a second of any number", "C21", "validating a long run of digits against S panicked"),
 ("a date generator whose format has time fields", "C19", "a Date generator with format HH or a Time generator with format yyyy panicked"),
 ("each pair of quotes in the quoted text", "C21", "'a''b''c' in a pattern was not the text a'b'c"),
 ("time zone offsets of twelve hours and more", "C21", "+12:00 and +1300 were refused, +-1:00 was accepted"),
 ("all time zone ids are valid", "C21", "time zone ids of some regions were refused by V/VV, and Z or an offset not taken as documented"),
 ("the pact file verifier reports the type", "C31", "{\"name\": 1} of a consumer was reported as \"Must be a String, got Object\" (the type of the object it is in)"),
 ("V4 synchronous messages can be cloned and displayed", "C32", "cloning a boxed V4 synchronous message as an interaction panicked, and so did converting it to text"),
 ("the metadata of a V4 pact as a message pact", "C32", "the message pact made from a V4 pact kept pactSpecification version 4.0, so its spec_version() was V4"),
 ("the values of a generator have the names", "C33", "values() of a RandomString named its size digits and of a ProviderState its type data_type, so create(name, values) lost them"),
 ("min-max-type and array-contains rules", "C33", "no rule could be created from the name and values of min-max-type, and array-contains got index 0 and equality rules for each variant"),
 ("renaming a category of matching rules", "C33", "renaming onto an existing category kept the rules of only one of the two, depending on the map order"),
 ("a date expression that leads over an end", "C20", "\"next monday\", \"tomorrow\" and the like panicked where the calendar ends before such a day"),
 ("29 February is a valid date", "C21", "\"02-29\" was refused by MM-dd, and refused when generated by it on that day"),
 ("generated years, days of the week and time zone offsets", "C21", "values generated for y/yy, e, x/X patterns were refused by the pattern they were generated from"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
fixed, used = [], set()
for sub, prop, what in X:
    c = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + sub)]
    if len(c) != 1: sys.exit("no commit for " + sub)
    used.add(c[0]); fixed.append("fixed: property=%s %s %s" % (prop, c[0].split()[0], what))
for l in log:
    if " fix: " in l and l not in used: print("not listed:", l)
json.dump({"findings": F, "fixed": fixed}, open(H + "/known_findings.json", "w"), indent=1)
open(H + "/known_findings.json", "a").write("\n")
