#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; no check reads it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, state=state))

BASE = "Exploration: no counterexample among the generated cases; a violation is shrunk to a replay file. Trusts the reference model and generators in harness/src."

p("C01", "Header collections are case-insensitive, ordered multimaps",
  "After any history of inserts, appends, removals, in-place edits and clones on the headers of a request, response, trailers or a bare collection, every way of reading (lookup, iteration by value, reference or mutable reference, names, values, equality with text) shows exactly the names and ordered values that the history left, with names compared without letter case. Inserting replaces what was there and returns it, appending adds at the end, removing returns what was removed, and no operation touches another name. Size hints and lengths of iterators agree with what they yield.",
  ["histories"], "all sequences of header operations (up to 120 long) over colliding spellings of names and value lists of any length",
  "The tests run a handful of fixed two- or three-step sequences; the claim is over every history and every spelling of a name.",
  ["src/headers/headers.rs", "src/headers/header_values.rs", "src/headers/iter.rs", "src/headers/iter_mut.rs", "src/headers/into_iter.rs", "src/headers/names.rs", "src/headers/values.rs", "src/trailers.rs"],
  [("insert/append/remove/get on the map", "src/headers/headers.rs"), ("lists of values", "src/headers/header_values.rs"), ("delegation from messages and trailers", "src/request.rs, src/response.rs, src/trailers.rs")],
  "stateful model-based property testing (proptest histories against a sorted-map model)", BASE)
p("C02", "Header names are ASCII and case-blind; header values are ASCII and exact",
  "A header name or value can be made from text or bytes if and only if they are ASCII, by every constructor; anything else is refused, never altered. Names made from two spellings that differ in letter case only are equal, hash alike and print in lower case, also for the predefined constants; values keep their exact text through insertion and appending in every kind of message. A typed header or value built by this library never produces a header value that is not ASCII.",
  ["inputs"], "all texts and byte strings as names and values, all letter cases, every typed header holding free text",
  "Tests try two or three spellings of one name and one non-ASCII value; the claim covers every byte string, spelling and typed header.",
  ["src/headers/header_name.rs", "src/headers/header_value.rs", "src/headers/constants.rs", "src/headers/to_header_values.rs"],
  [("ASCII check and lower-casing", "src/headers/header_name.rs"), ("ASCII check", "src/headers/header_value.rs"), ("lower-case constants", "src/headers/constants.rs")],
  "property-based testing against an ASCII/case-folding oracle", BASE + " Typed headers given non-ASCII text by infallible setters are listed as known findings.")
p("C03", "A body delivers exactly its bytes under every read schedule",
  "A body made from bytes, text, a reader, a file or a chain of bodies delivers exactly the bytes it was given, in order, up to the declared length if there is one, whatever mixture of plain reads, buffered reads and whole-body reads consumes it, however the reader underneath splits, delays or fails them, and whatever messages it is moved through. Its length and emptiness tell what is known, an error of the reader is reported and not turned into an end, and a file's body has the file's length and the media type found in its content or name. Memory use follows the content, not the declared length.",
  ["schedules", "fault_sequences", "inputs"], "all byte contents, all splits into pieces with pending polls and injected reader failures, all sequences of read calls, declared lengths below, equal to and far above the content",
  "Tests read a few literal bodies in one go with an in-memory reader; partial reads, pending polls, failing readers and lying lengths are never sampled.",
  ["src/body.rs"],
  [("poll_read / poll_fill_buf with remaining-length accounting", "src/body.rs"), ("chain and into_* conversions", "src/body.rs"), ("file bodies and type detection", "src/body.rs")],
  "property-based testing over generated read schedules and reader fault scripts against a byte-queue model", BASE)
p("C04", "Setting, replacing, swapping and taking bodies keeps content and type right",
  "Over any history of setting, replacing, swapping and taking bodies of a request or response, each body that is moved out is exactly the one that was put in, and a message whose body was taken is left with an empty one. Setting a body gives the message that body's content type when the message has none of its own and leaves an explicitly set one alone. Any JSON value or form goes in and comes out equal, and content of the wrong shape is refused as 422 without a panic.",
  ["histories", "inputs"], "all histories of body and content-type operations on both message kinds, all JSON values and form lists, arbitrary bytes for the refusal side",
  "Tests cover single set/take steps with one JSON struct; interactions of content type, swap, partial reads and repeated replacement are not sampled.",
  ["src/request.rs", "src/response.rs", "src/body.rs"],
  [("copy_content_type_from_body", "src/request.rs, src/response.rs"), ("from_json/into_json/from_form/into_form", "src/body.rs")],
  "stateful model-based property testing; round-trip and differential tests against serde_json / serde_urlencoded", BASE)
p("C05", "Media types parse, print and compare by the WHATWG rules",
  "Any text is accepted or refused as a media type exactly as the WHATWG MIME Sniffing algorithm says, with the same essence and parameters, and printing an accepted one gives text that parses to an equal one. Equality, parameter lookup and removal, and the subset relation follow from type, subtype and parameters alone. The predefined media types, file extensions and magic numbers give the documented media types and nothing panics on other input.",
  ["inputs"], "all texts (grammar-derived, token soup, arbitrary Unicode), all pairs from a closed universe for the relation, all constants, file extensions and leading bytes",
  "Tests parse a few dozen literals; the grammar (quoting, escapes, whitespace, duplicates, character classes) is unbounded.",
  ["src/mime/parse.rs", "src/mime/mod.rs", "src/mime/constants.rs"],
  [("WHATWG parser and serialiser", "src/mime/parse.rs"), ("subset_eq, params, sniff, from_extension", "src/mime/mod.rs"), ("constants", "src/mime/constants.rs")],
  "differential property-based testing against an independent WHATWG parser/serialiser", BASE)
p("C06", "HTTP dates are exact, and the three date formats are read as what they denote",
  "Every instant from 1970 to 9999 is written by the date-carrying headers (Date, Expires, Last-Modified, If-Modified-Since, If-Unmodified-Since, Retry-After) as the IMF-fixdate of its second, with the right weekday, and reads back as that second. Dates in IMF-fixdate, RFC 850 and asctime form denote the same instant, the last value of the header counts, and any other text is refused with status 400 and without a panic. Retry-After holds either a date or whole seconds, and both survive a round trip.",
  ["inputs"], "all instants in range with sub-second parts, favouring leap days, month and century ends; all three forms; arbitrary edits of valid dates",
  "Tests check about a dozen fixed dates; calendar arithmetic fails at particular years, leap days or month ends.",
  ["src/utils/date.rs", "src/other/date.rs", "src/other/retry_after.rs", "src/cache/expires.rs", "src/conditional/last_modified.rs", "src/conditional/if_modified_since.rs", "src/conditional/if_unmodified_since.rs"],
  [("civil-date arithmetic and three parsers", "src/utils/date.rs"), ("typed date headers", "src/cache/expires.rs, src/conditional, src/other")],
  "property-based testing against an independent proleptic-Gregorian reference and reference date parser", BASE)
p("C07", "Hostile header lines never panic a reader; refusals are client errors",
  "Whatever ASCII text the header lines of a message hold, reading them as any typed header of this library, and asking the message for its content type, host or remote address, never panics and never reads a present header as absent. A refusal carries a client-error status (Forwarded, Referer and SourceMap, which report 500, excepted). What was read writes a single ASCII value that reads back and writes as the same value again, independent of other headers.",
  ["inputs"], "all lists of 1-3 header lines for each of the typed headers, from each header's vocabulary spliced, repeated and mixed with arbitrary ASCII; messages carrying several such headers",
  "Tests try one malformed literal per header; hostile input is unbounded and panics hide in slicing, arithmetic and unwraps.",
  ["src/auth", "src/cache", "src/conditional", "src/content", "src/other", "src/proxies", "src/security", "src/server", "src/trace", "src/transfer"],
  [("from_headers / header_value of every typed header", "src/*/"), ("text parsers", "src/parse_utils.rs, src/mime/parse.rs, src/utils/date.rs")],
  "grammar-aware fuzzing of every header parser with a write-read fixed-point oracle", BASE + " A quote inside a Server-Timing metric name is left open.")
p("C08", "Caching headers round trip and parse by their grammar",
  "Any list of cache directives, with durations over the whole range of whole seconds, is written and read back equal and in order, over several header lines as over one. In received text directives are read without letter case, unknown directives and empty elements are skipped, and malformed durations are refused with status 400. Clear-Site-Data directives and its wildcard, and Age, survive the same, with malformed values refused as 400.",
  ["inputs"], "all lists of directives and u64 second counts, arbitrary letter case, several lines, malformed numbers",
  "Tests push one or two directives and read one line; the cross product of directives, number ranges, line splits and letter case is unbounded.",
  ["src/cache/cache_control/cache_control.rs", "src/cache/cache_control/cache_directive.rs", "src/cache/clear_site_data/mod.rs", "src/cache/clear_site_data/directive.rs", "src/cache/age.rs"],
  [("directive parser and writer", "src/cache/cache_control/cache_directive.rs"), ("list handling", "src/cache/cache_control/cache_control.rs, src/cache/clear_site_data/mod.rs"), ("Age", "src/cache/age.rs")],
  "round-trip and reference-parser property testing", BASE)
p("C09", "Validators keep their text: entity tags, If-Match, If-None-Match, Vary",
  "An entity tag of any allowed text is written and read back with its text and strength, two tags are equal only if both agree, and malformed tags are refused with status 400. If-Match and If-None-Match keep their tags in order, including tags that contain commas, over several lines and with empty elements skipped, and keep their wildcard. Vary keeps its header names in order and its wildcard.",
  ["inputs"], "all entity tags over the grammar, all lists with wildcards split over lines, arbitrary text judged by a reference parser",
  "Tests use one or two literal tags; characters inside tags and splits over lines are not sampled.",
  ["src/conditional/etag.rs", "src/conditional/if_match.rs", "src/conditional/if_none_match.rs", "src/conditional/vary.rs"],
  [("entity tag parser", "src/conditional/etag.rs"), ("lists", "src/conditional/if_match.rs, src/conditional/if_none_match.rs, src/conditional/vary.rs")],
  "round-trip and reference-parser property testing", BASE)
p("C10", "Framing and resource headers carry their values exactly",
  "Content-Length over the whole u64 range, Content-Type, Content-Encoding, Transfer-Encoding, Expect and sets of methods in Allow are written and read back equal, the last line counting where only one value is meant. Content-Location, Referer and SourceMap resolve a relative reference against the base URL as URL resolution says. Malformed values are refused, and none is mistaken for another value.",
  ["inputs"], "all u64 lengths, texts, known and unknown codings, method sets in any letter case, base URLs with references of all kinds",
  "Tests sample one value per header; numeric limits, several lines, letter case and URL resolution are unbounded.",
  ["src/content/content_length.rs", "src/content/content_type.rs", "src/content/content_encoding.rs", "src/content/content_location.rs", "src/transfer/transfer_encoding.rs", "src/other/referer.rs", "src/other/source_map.rs", "src/other/expect.rs", "src/server/allow.rs"],
  [("typed headers", "src/content, src/transfer, src/other, src/server"), ("codings", "src/content/encoding.rs, src/transfer/encoding.rs")],
  "round-trip, reference-parser and differential (URL resolution) property testing", BASE)
p("C11", "Content negotiation picks the entry with the highest weight",
  "Given any list of weighted codings or media ranges and any list of available ones, negotiation by Accept, Accept-Encoding and TE picks the available one whose matching entry has the highest weight; ties go to the later entry, entries without a weight come after those with one, a weight of zero refuses, and wildcards cover what is not listed. If nothing acceptable is available, the answer is an error with status 406. Lists survive being written and read over several lines with any whitespace and letter case of the weight, and a weight outside 0 to 1 is refused.",
  ["inputs"], "all lists of up to several weighted entries, wildcards and available candidates, in built, written-and-read and decorated textual form",
  "Tests negotiate three or four literal lists; ordering, ties, wildcards and zero weights interact combinatorially.",
  ["src/content/accept.rs", "src/content/accept_encoding.rs", "src/content/encoding_proposal.rs", "src/content/media_type_proposal.rs", "src/transfer/te.rs", "src/transfer/encoding_proposal.rs", "src/utils/mod.rs"],
  [("negotiate", "src/content/accept.rs, src/content/accept_encoding.rs, src/transfer/te.rs"), ("ordering by weight", "src/utils/mod.rs"), ("weights", "src/content/*_proposal.rs, src/transfer/encoding_proposal.rs")],
  "property-based testing against a reference negotiation model", BASE)
p("C12", "Forwarded is written, read and converted without loss",
  "A Forwarded value built from any printable text for by, for, host and proto is written and read back equal, quoting what needs it. Text written by other proxies, with pairs in any order, letter case, quoting and escapes and with extension pairs, is read field by field; malformed or repeated pairs are refused and no text makes it panic. Without a Forwarded header the X-Forwarded-For, -By, -Host and -Proto headers give the same fields, and every converted or owned form equals the original.",
  ["inputs"], "all printable texts in the four fields, all orders, quotings and letter cases of pairs, arbitrary text",
  "Tests read five literal lines; quoting, escapes and cut-up input are unbounded.",
  ["src/proxies/forwarded.rs", "src/parse_utils.rs"],
  [("Forwarded parser and formatter", "src/proxies/forwarded.rs"), ("token and quoted-string parsing", "src/parse_utils.rs")],
  "round-trip and grammar-based property testing with an independent reference", BASE)
p("C13", "Messages keep what was set on them; addresses come from the documented sources",
  "Over any history of changes to method, URL, version, status, addresses and headers, a request or response reports exactly what was last set and nothing else changes. A request's remote address is the first `for` of Forwarded, else the first X-Forwarded-For entry, else the peer address; its host is the first `host` of Forwarded, else the first X-Forwarded-Host entry, else Host, else that of the URL. Quoting, letter case, whitespace and several elements do not change that.",
  ["histories", "inputs"], "all histories of setters on both message kinds; all combinations of the seven sources of an address with quoted, multi-element values",
  "Tests check three combinations of sources and single setters; precedence over presence subsets and state histories is combinatorial.",
  ["src/request.rs", "src/response.rs"],
  [("host/remote/forwarded_header_part", "src/request.rs"), ("setters and constructors", "src/request.rs, src/response.rs")],
  "stateful model-based property testing; precedence oracle", BASE)
p("C14", "Authentication headers keep credentials and realms, and refuse malformed ones",
  "A basic-auth user name without colons and any password, a scheme with credentials, and a scheme with a realm of any printable text are written and read back equal, the scheme in any letter case. Basic credentials are split at the first colon only and must be standard base64 of UTF-8; anything malformed is refused with status 400. The last header line counts.",
  ["inputs"], "all user/password texts, schemes in any letter case, realms with quotes and backslashes, damaged base64",
  "Tests use one fixed user and realm; text content, base64 padding and letter case are unbounded.",
  ["src/auth/basic_auth.rs", "src/auth/authorization.rs", "src/auth/www_authenticate.rs", "src/auth/authentication_scheme.rs"],
  [("credential encode/decode", "src/auth/basic_auth.rs"), ("scheme", "src/auth/authentication_scheme.rs"), ("realm quoting", "src/auth/www_authenticate.rs")],
  "round-trip property testing with an independent base64 decoder and reference parser", BASE)
p("C15", "Status codes, methods and versions convert both ways over their whole range",
  "Every status code converts to its number and back and is written and read by serde as that number, and every other number is refused; the class predicates follow from the number and the canonical reason is the registered one. Every method converts to its name and back in any letter case and other text is refused, and the safe methods are exactly those registered as safe. Versions order and print as documented and round trip through serde.",
  ["inputs"], "all integers (including those congruent to a code modulo powers of two), all methods in any letter case, near-miss texts",
  "Tests compare two or three values; the tables have over 60 codes and 39 methods and a wrong row or truncating cast shows only at that value.",
  ["src/status_code.rs", "src/method.rs", "src/version.rs"],
  [("code tables and predicates", "src/status_code.rs"), ("method table", "src/method.rs"), ("versions", "src/version.rs")],
  "exhaustive-by-sampling property testing against independent registry tables", BASE)
p("C16", "Conversions to and from the http crate lose nothing",
  "A request, response, header collection, name, value, method, status or version converted to the http crate's type and back keeps method, URL, version, status, all headers with repeated values in order, and body. Building the same message on either side gives the same result, and a conversion that can fail refuses exactly what the other crate cannot hold.",
  ["inputs"], "all messages with repeated headers, bodies of any bytes, names and values the other crate refuses",
  "One doctest-sized conversion is tested; loss of repeated values, versions or unusual bytes is not.",
  ["src/hyperium_http.rs"],
  [("From/TryFrom implementations", "src/hyperium_http.rs")],
  "round-trip and differential property testing against the http crate", BASE + " The infallible conversions' panics on values the other crate cannot hold are listed as known findings.")
p("C17", "Errors keep their status, message, cause and concrete type",
  "An error made in any way (from an error value, a message, the error macros, or a result given a status) reports the status and message it was given, keeps the concrete error for downcasting, and keeps them through every later conversion, boxing and change of status. Attaching a status changes only errors: success values come through untouched, and a missing value becomes an error with the requested status. A failed downcast hands the error back unchanged.",
  ["histories", "inputs"], "all ways of making an error, followed by any sequence of status changes, extension-trait calls and downcasts",
  "Tests check single constructors; combinations and the preservation through chains are not sampled.",
  ["src/error.rs", "src/status.rs", "src/macros.rs"],
  [("Error", "src/error.rs"), ("Status extension trait", "src/status.rs"), ("ensure/bail/format_err macros", "src/macros.rs")],
  "stateful model-based property testing", BASE)
p("C18", "Extensions are a map from type to value",
  "Over any history of inserting, reading, changing, removing and clearing values of several types in the extensions of messages, each type's slot holds the last value put in under exactly that type, replacing returns the earlier one, and other types are not affected. Every value is dropped exactly once, none early and none leaked.",
  ["histories"], "all histories of operations over twelve types, some of equal layout, on two messages, with a ledger of drops",
  "One test inserts two types; histories, same-layout types and drop counts are not sampled.",
  ["src/extensions.rs"],
  [("TypeId-keyed map", "src/extensions.rs")],
  "stateful model-based property testing with a drop ledger", BASE)
p("C19", "Trailers and upgraded connections are delivered once, and nobody waits for ever",
  "Whatever the order of taking the sending and receiving ends of a message's trailers or connection upgrade, sending, polling and dropping either end or the message, what is sent is received once and unchanged. A receiver whose sender is gone is told that nothing will come instead of waiting, and a waiting receiver is woken when something happens. Having taken an end is reported by the message, and an upgraded connection passes reads, writes, flushes, closes and their errors to the stream underneath.",
  ["schedules", "histories"], "all orders of taking, sending, polling (with counted wake-ups) and dropping on requests and responses; all call/answer scripts of a connection",
  "Two happy-path tests send once and receive once; orderings with drops, pending sends and missed wake-ups are never tried.",
  ["src/trailers.rs", "src/upgrade/sender.rs", "src/upgrade/receiver.rs", "src/upgrade/connection.rs", "src/request.rs", "src/response.rs"],
  [("bounded channels", "src/trailers.rs, src/upgrade"), ("sender/receiver hand-out and drop", "src/request.rs, src/response.rs")],
  "schedule-generating property testing with manual polling and counted wakers", BASE)
p("C20", "Security headers say exactly what they were given",
  "A content security policy built from any directives, sources, flags and reports is applied as the same policy text however often, in the order documented. Strict-Transport-Security over its whole range and Timing-Allow-Origin lists are written and read back equal, directives in any order, letter case and quoting, with malformed values refused as 400. Each one-call protection sets exactly its documented header and value, and leaves the other headers of the message alone.",
  ["inputs", "histories"], "all policies and sequences of protections on messages that already have headers; all max-age values; all origin lists",
  "Tests apply each protection once to an empty response; repeated application, ordering and existing headers are not sampled.",
  ["src/security/mod.rs", "src/security/csp.rs", "src/security/strict_transport_security.rs", "src/security/timing_allow_origin.rs"],
  [("policy builder", "src/security/csp.rs"), ("presets", "src/security/mod.rs"), ("HSTS and Timing-Allow-Origin", "src/security")],
  "round-trip, model-based and reference-parser property testing", BASE + " Applying a policy with a non-ASCII source is a known finding.")
p("C21", "Trace contexts and server timings survive being written and read",
  "A trace context keeps version, trace id, parent id and sampling flag through writing and reading, for all values of its fields, and a child keeps the trace and sampling decision with the parent's span id as its parent. Lists of server timings with durations over the whole range and descriptions of any printable text are written and read back equal, also over several lines and as other servers write them. Anything malformed is refused with status 400 and never panics.",
  ["inputs", "histories"], "all field values in any letter case, sequences of children and sampling changes, all metric lists, arbitrary text and numbers",
  "Tests parse one fixed traceparent and three fixed metrics; ranges, escapes and number formats are unbounded.",
  ["src/trace/trace_context.rs", "src/trace/server_timing/mod.rs", "src/trace/server_timing/metric.rs", "src/trace/server_timing/parse.rs"],
  [("traceparent parser", "src/trace/trace_context.rs"), ("metric parser and writer", "src/trace/server_timing")],
  "round-trip and reference-parser property testing", BASE)
p("C22", "Query strings carry structures unchanged",
  "A structure put into the query of a request's URL (text of any kind, numbers, options, lists, maps, nesting) is read back equal, also after the URL has travelled as text, and is seen as the same pairs by any reader of query strings. Setting a query replaces the earlier one and leaves the rest of the URL and message alone. A missing query reads as an empty one, and a query of another shape is refused with status 400.",
  ["inputs"], "all structures of the stated shapes over any text, arbitrary query strings, all URLs with user, port and fragment",
  "Tests read two fixed queries; escaping, nesting and replacement are unbounded.",
  ["src/request.rs"],
  [("query / set_query", "src/request.rs")],
  "round-trip and differential property testing", BASE + " Limits of the query format itself (an option holding an empty text, brackets in keys) are left out.")

exec(open(os.path.join(V, "tools", "more.py")).read()) if os.path.exists(os.path.join(V, "tools", "more.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]], "hook_needed": None}
        if q["observe"]: a["observe_at"] = q["observe"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"], "anchors": a}, ensure_ascii=False) + "\n")
        assert len(q["title"]) <= 80, q["title"]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": q["id"], "quick_cmd": f"bash run.sh {q['id']}", "thorough_cmd": f"bash run.sh {q['id']}", "technique": q["technique"], "level": "exploration", "level_note": q["note"]} for q in P],
     "not_applicable": [], "notes": "No hooks: every check drives the public API. DESIGN.md describes each property's laws, oracle and open points."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
