#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SC = "src/mws/query/SearchContext.cpp"
IT = "src/mws/index/IndexIterator.hpp"
EE = "src/mws/index/ExpressionEncoder.cpp"
IB = "src/mws/index/IndexBuilder.cpp"
TI = "src/mws/index/TmpIndex.cpp"
MSC = "src/mws/index/memsector.c"
MSH = "src/mws/index/memsector.h"
IX = "src/mws/index/index.h"
PH = "src/mws/xmlparser/processMwsHarvest.cpp"
RQ = "src/mws/xmlparser/readMwsQuery.cpp"
CT = "src/mws/types/CmmlToken.cpp"
DM = "src/mws/daemon/Daemon.cpp"
GR = "src/mws/daemon/GenericHttpResponses.hpp"
HQ = "src/mws/daemon/HarvestQueryHandler.cpp"
IQ = "src/mws/daemon/IndexQueryHandler.cpp"
UT = "src/common/utils/util.cpp"

prop("Q01", "Search answers are exactly the matching indexed subterms",
 "For every collection of harvests and every query formula, the hits the search daemon reports are exactly one per pair (harvested expression, distinct subterm of it) whose subterm is an instance of the query: none missing, none extra, none duplicated, each with the expression's url, the position of the subterm's first occurrence in it, and the document data attached to that expression. The reported total equals the number of hits. Matching looks at element name (with or without the m: prefix), whitespace-free text (ignored for mtext) and children in order, and ignores other attributes.",
 ["inputs", "configurations"],
 "All harvest collections (any tree shape, arity, sharing, unicode text, repeated expressions, several documents) and all query trees (ground, with named, repeated and anonymous query variables), served from harvests or from a persisted index.",
 "Existing tests run one or two hand-made queries against a hand-built index; the backtracking search over shared prefixes only fails for particular combinations of sibling order, arity and variable position.",
 [SC, IT, EE, IB, TI, CT, HQ, IQ, "src/mws/types/VectorMap.hpp", "src/mws/index/TmpIndexAccessor.hpp", "src/mws/index/IndexAccessor.hpp", "src/mws/dbc/DbQueryManager.cpp", "src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/LevFormulaDb.cpp"],
 [("backtracking search over the term trie", SC + " getResult"), ("enumeration of complete subterms below a node", IT), ("insertion of every subterm", IB + " indexContentMath")],
 ["HTTP responses of mwsd -I and mwsd -D compared with a reference matcher over the generated terms"])

prop("Q02", "Every answer is a checkable witness in its source document",
 "For every answer to a query, following the reported position in the harvested expression with the reported url reaches a subterm that the query formula matches, and following each reported substitution position reaches the subterm bound to that query variable, with equal subterms for equal variable names. The list of named query variables and their positions in the answer follows the query's reading order, one entry per occurrence.",
 ["inputs"],
 "All harvests and queries with any number and placement of (possibly repeated) query variables, in XML and JSON output.",
 "Tests never resolve a reported XPath against the document it talks about; wrong positions only show for particular nesting and sibling indices.",
 [CT, EE, "src/mws/xmlparser/MwsXmlResponseFormatter.cpp", "src/mws/xmlparser/MwsJsonResponseFormatter.cpp", IB, SC],
 [("position bookkeeping while parsing", CT + " newChildNode"), ("relative variable positions", CT + " getXpathRelative"), ("first-occurrence selection", IB)],
 ["answers' uri/xpath/substpair attributes evaluated with an independent XPath walk over the generated harvest"])

prop("Q03", "Paged result windows tile the full answer list",
 "For every query, the answers returned for offset o and page size s are exactly positions o..o+s-1 of one fixed answer order (fewer only at the end of the list), so consecutive windows reproduce the unpaged answer list without gap, overlap or duplicate. The total is the same for every window, and without an explicit page size at most 30 answers starting at offset 0 are returned.",
 ["inputs", "histories"],
 "All queries, and all offsets and page sizes including 0, windows that straddle formulas with several hits, and windows beyond the end.",
 "No test issues two windows of one query; windows that begin or end inside a formula's hit list need specific hit multiplicities.",
 [SC, "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/MemFormulaDb.cpp", RQ, "src/mws/types/Query.hpp"],
 [("offset/size arithmetic per leaf", SC + " getResult"), ("skipping within a formula's hits", "src/mws/dbc/LevFormulaDb.cpp queryFormula")],
 ["HTTP answers for many (limitmin, answsize) pairs against the concatenated full list"])

prop("Q04", "Range queries match exactly the numbers within their bounds",
 "A range element in a query matches a childless number element exactly when the number's value lies between the given bounds, both inclusive, and matches nothing else; a missing or unparsable bound leaves that side unbounded. Several ranges and query variables in one query constrain independently, and every combination is reported exactly once.",
 ["inputs"],
 "All harvests with numbers (negative, zero, fractional, exponent, non-numeric text) and all queries with one or more ranges placed before, between or after variables and constants.",
 "One test covers one range over a hand-made index; negative numbers, open bounds, several ranges, and ranges re-entered while backtracking are not sampled.",
 [SC, CT, EE, "src/mws/index/encoded_token.h"],
 [("range candidate enumeration", SC + " RangeCtxt"), ("bound parsing and defaults", CT + " getRangeBounds")],
 ["HTTP answers of mwsd for range queries against a numeric reference matcher"])

prop("Q05", "Every output format is well-formed and reports the same answers",
 "For every query the XML and JSON responses are well-formed, carry the matching content type, and report the same total, the same answers in the same order (url, position, document data) and the same query variables; strings containing markup, quotes, control characters allowed in XML, or any unicode come back unchanged. The id-only format reports the identifiers of exactly the distinct matching formulas within the requested window, with total the number of distinct matching formulas, and identical formulas always have the same identifier.",
 ["inputs"],
 "All harvests and queries, with urls, data, tags, texts and variable names containing any character XML allows, in all three output formats.",
 "Tests format one fixed answer set as XML; escaping and cross-format agreement depend on the content.",
 ["src/mws/xmlparser/MwsXmlResponseFormatter.cpp", "src/mws/xmlparser/MwsJsonResponseFormatter.cpp", "src/mws/xmlparser/MwsIdsResponseFormatter.cpp", RQ, SC, DM],
 [("writers", "src/mws/xmlparser/*ResponseFormatter.cpp"), ("format selection", RQ)],
 ["HTTP bodies parsed with independent XML and JSON parsers and compared field by field"])

prop("Q06", "Identifier renaming makes search insensitive to variable names, only",
 "With identifier renaming enabled, a complete harvested expression is found by a query if and only if the two become equal under a consistent one-to-one renaming of their single-character identifiers, where identifiers in function position, multi-character identifiers and p/P exempted by the system keep their names. With renaming disabled, names are compared literally.",
 ["inputs", "configurations"],
 "All pairs of whole expressions and queries (ground or with query variables) over single- and multi-character identifiers, in both modes.",
 "One test compares two fixed expressions; capture (two names merged) and missed renamings depend on occurrence patterns.",
 [EE, "src/mws/index/ExpressionEncoder.hpp", IB, HQ, IQ],
 [("canonical renaming by first occurrence", EE + " _getCiMeaning")],
 ["HTTP totals of mwsd -c / mws-index -c against canonical-renaming reference"])

prop("Q07", "A persisted index answers exactly like the harvests it was built from",
 "For every harvest collection and query, a daemon serving the saved index returns the same total and the same set of answers (url, position, data) as a daemon serving the harvests directly, and the same answers again after any number of restarts. Building the index twice from the same harvests gives the same answers.",
 ["inputs", "histories", "configurations"],
 "All harvest collections (any alphabet size, more than ten hits per formula, large fan-out), all queries and options, and all sequences of stop/start of the serving process.",
 "The persisted path (index file, dictionary file, two databases, mapped search) has no test at all; differences appear only for particular key orders and sizes.",
 ["src/mws/index/IndexWriter.cpp", "src/mws/index/IndexLoader.cpp", TI, MSC, IX, "src/mws/index/MeaningDictionary.hpp", "src/common/types/IdDictionary.hpp", "src/common/types/Parcelable.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/mws/dbc/LevFormulaDb.cpp", IQ, "src/mws/mws-index.cpp", "src/mws/mwsd.cpp"],
 [("export of the trie to the index file", TI + " exportToMemsector"), ("dictionary save/load", "src/common/types/IdDictionary.hpp"), ("sorted binary search in mapped nodes", IX)],
 ["HTTP answers of mwsd -I versus mws-index + mwsd -D over restarts"])

prop("Q08", "The experimental query engine agrees with the standard one",
 "For every query without range elements that fits within a single page, the experimental engine over a persisted index returns the same total and the same set of answers as the standard engine, without crashing.",
 ["inputs", "configurations"],
 "All persisted indexes built from ground harvests and all queries with named, repeated and anonymous variables.",
 "Engine tests use hand-made indexes with at most two sibling terms and one hit per query.",
 ["src/mws/query/engine.c", IQ, IX],
 [("recursive unification", "src/mws/query/engine.c process_query_token, match_var_to_index")],
 ["HTTP answers of mwsd -D -x compared with mwsd -D and with the reference matcher"])

prop("I01", "Exactly the requested harvest files are indexed",
 "Indexing loads every regular file whose name ends in the configured extension directly inside each given directory, and inside its subdirectories exactly when recursion is requested; hidden files and directories, non-regular files and files with other endings contribute nothing. An unreadable directory or an empty, malformed or non-harvest file does not prevent the remaining files and directories from being loaded.",
 ["inputs", "configurations"],
 "All directory trees, extensions, repeated directory arguments and mixtures of good and bad files, for the daemon and the index builder.",
 "No test walks a directory.",
 [UT, IB, "src/mws/mwsd.cpp", "src/mws/mws-index.cpp", "src/common/utils/FlagParser.cpp"],
 [("directory walk", UT + " foreachEntryInDirectory"), ("suffix filter", IB + " loadHarvests")],
 ["answers to one distinctive query per generated file, compared with the set of files that should be loaded"])

prop("I02", "Harvest data and expressions are ingested faithfully",
 "Every expression of a harvest file that is read before the file's first XML error is searchable with its url and with the content of the data element it refers to by local id (resolved within the same file, among data elements read before it; otherwise no data); nothing after the error is. Data content comes back as equivalent markup (same elements, attributes and text), unless the daemon was told to ignore data, in which case it is empty.",
 ["inputs", "fault_sequences"],
 "All harvest files: any interleaving of data, expressions and unknown elements, entities, CDATA, comments, nested markup, missing or dangling ids, repeated ids, and truncation or corruption at any byte.",
 "Tests load five well-formed files and check counts only.",
 [PH, IB, "src/mws/dbc/MemCrawlDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/mws/dbc/DbQueryManager.cpp", CT],
 [("SAX state machine", PH), ("local id to stored data map", PH + " localIdToCrawlIds")],
 ["answers and their data over generated harvests, including truncated ones, versus an independent reader"])

prop("I03", "The saved index is structurally sound and conserves hits",
 "Every saved index forms a tree in which all references stay inside the file and point to earlier, correctly typed records, child entries are strictly ordered so that lookup finds each of them, every root-to-leaf path spells one complete formula, and no two leaves share a formula identifier. The hit counts of all leaves add up to the number of (expression, distinct subterm) pairs harvested, agree with what the index statistics log and the analytics tool report, and equal what searching for each formula returns.",
 ["inputs"],
 "All harvest collections, including wide nodes, deep terms, repeated subterms within and across expressions and files.",
 "One test exports one small tree and re-walks it with the code's own accessors.",
 [TI, MSH, MSC, IX, IB, "src/mws/analytics/analytics.cpp", "analytics/example.cpp", "src/mws/types/VectorMap.hpp", "src/mws/index/CallbackIndexIterator.hpp"],
 [("bottom-up writer", TI + " exportToMemsector"), ("header and checksum", MSC), ("sorted children", "src/mws/types/VectorMap.hpp")],
 ["the index file parsed byte by byte by an independent reader; statistics log; analytics output"])

prop("I04", "A damaged index is refused, never served",
 "If the saved search index file is missing, empty, truncated at any length, extended or altered in any byte that matters, or the term dictionary or a database is missing, a daemon or tool asked to load it exits with an error (or rebuilds when told how) instead of crashing, hanging or serving answers from it.",
 ["fault_sequences", "crash_points", "inputs"],
 "All single- and multi-byte alterations of the search index file, all truncation points of it, and all subsets of missing files.",
 "No test loads a damaged file.",
 [MSC, "src/common/utils/mmap.c", "src/mws/index/IndexLoader.cpp", "src/mws/index/MeaningDictionary.hpp", "src/mws/mwsd.cpp", "third_party/common"],
 [("magic, version and checksum tests", MSC + " memsector_load")],
 ["exit status and served answers of mwsd -D, harvests2json and the analytics tool on corrupted copies"])

prop("I05", "Index builds that fail say so and never leave a servable wrong index",
 "When building an index is interrupted or a write fails at any point (crash, disk or file-size limit, unwritable location, no expressions), the builder exits with an error status, and whatever it leaves behind is either refused when loaded or answers exactly like a complete index.",
 ["crash_points", "fault_sequences"],
 "All points in the build at which the process is killed or a write starts failing.",
 "Tests never interrupt or starve a build.",
 ["src/mws/index/IndexWriter.cpp", MSC, "src/common/types/IdDictionary.hpp", "src/mws/index/MeaningDictionary.hpp", "src/mws/mws-index.cpp"],
 [("order in which databases, index and dictionary are written", "src/mws/index/IndexWriter.cpp createCompressedIndex")],
 ["builder exit status under kill, file-size limits and failing writes, then mwsd -D on the leftovers"])

prop("I06", "An existing index is only replaced when explicitly requested",
 "Building an index into a location that already holds one fails with an error and leaves the existing index serving the same answers; a daemon given both an index location and harvests serves the existing index when it is valid and builds one only when it is not. Only the explicit delete-old-data option lets the daemon replace old data, and the replacement then answers from the new harvests alone.",
 ["histories", "configurations"],
 "All sequences of build, rebuild, serve and forced rebuild over changing harvest sets.",
 "No test builds twice into one directory.",
 ["src/mws/index/IndexWriter.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/mwsd.cpp", "src/mws/mws-index.cpp", "src/mws/index/IndexBuilder.hpp", "src/mws/index/IndexWriter.hpp"],
 [("create-only database open", "src/mws/dbc/LevFormulaDb.cpp create_new"), ("load-else-build logic", "src/mws/mwsd.cpp")],
 ["exit codes and answers over generated build/serve histories against a small state model"])

prop("D01", "The HTTP interface answers every request with the right status",
 "Every request gets one complete response: a POST with a well-formed query gets 200 with the answer's content type and cross-origin header; a POST whose body is empty, malformed or contains no query formula gets 400 with an XML message; GET on the root path gets 200 with an XML description; OPTIONS gets 200 with the allowed methods (GET only on the root path); any other method or GET elsewhere gets 405 listing the allowed methods. Request framing (chunking, splitting, keep-alive, pipelining, path, size) never changes the answer.",
 ["inputs", "histories"],
 "All methods, paths, bodies, body chunkings and request sequences on one or several connections, for the search and the schema daemon.",
 "The HTTP layer has no unit test; the integration script is not runnable here and only sends two queries.",
 [DM, GR, RQ],
 [("request dispatch and body accumulation", DM + " accessHandlerCallback"), ("canned responses", GR)],
 ["raw responses on loopback sockets against a response model"])

prop("D02", "No request body can crash the daemon or change later answers",
 "For every byte sequence posted to the search or schema daemon, in any number and order, the daemon performs no invalid memory access or undefined operation, replies, stays up, and keeps answering a reference query exactly as before.",
 ["inputs", "histories"],
 "All request bodies: random bytes, mutated queries, unusual but well-formed queries (very many variables or ranges, nested variables, huge arity or depth, extreme attribute values, unknown elements, doctypes and entities).",
 "Tests parse two well-formed query files.",
 [RQ, DM, EE, SC, "src/mws/query/SchemaEngine.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", IQ, HQ, CT],
 [("error handling of the query parser", RQ), ("id space limits for variables and ranges", EE)],
 ["sanitizer reports, daemon liveness, and a reference query interleaved with the hostile ones"])

prop("D03", "Concurrent clients get the same answers as a lone client",
 "Whatever queries run at the same time over any number of connections, each response equals the response the same query gets when it is the only one, and no data race occurs.",
 ["schedules", "histories"],
 "All interleavings of concurrent search, schema, malformed and aborted requests on the in-memory, persisted and schema daemons.",
 "No test starts a daemon, let alone two clients.",
 [DM, RQ, HQ, IQ, "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/mws/index/MeaningDictionary.hpp", "src/mws/xmlparser/xmlparser.cpp"],
 [("one thread per connection over shared read-only index data", DM), ("parser lock", RQ)],
 ["ThreadSanitizer build of the daemons under concurrent load; responses compared with serial ones"])

prop("D04", "Serving requests does not accumulate memory, threads or descriptors",
 "After any number of completed, failed and aborted requests, the daemon's live memory, open descriptors and threads stay within a fixed bound that does not grow with the number of requests served.",
 ["histories", "fault_sequences"],
 "All sequences of successful queries, rejected requests, and connections dropped before, during or after the upload.",
 "Unit tests are too short to show accumulation and do not drop connections.",
 [DM, RQ, SC, "src/mws/types/MwsAnswset.hpp", "src/mws/types/SchemaAnswset.hpp", "src/mws/xmlparser/MwsXmlResponseFormatter.cpp"],
 [("ownership of query, answer and upload buffers", DM + " accessHandlerCallback")],
 ["leak checker report at shutdown and /proc descriptor, thread and heap counters after N and 3N requests"])

prop("D05", "Daemons start, report and stop as their options say",
 "A daemon that starts listens on the requested port (default otherwise), writes its own process id to the requested pid file and its output to the requested log file; on SIGTERM or SIGINT it stops and exits with status 0. Invalid, missing or conflicting options, unusable paths or an occupied port make it exit with an error status without serving.",
 ["configurations", "schedules"],
 "All option combinations (including repeated and clustered options), all moments at which the stop signal arrives, with and without requests in flight.",
 "No test runs the programs.",
 ["src/mws/mwsd.cpp", "src/mws/schemad.cpp", "src/common/utils/FlagParser.cpp", "src/common/utils/save_pid_file.c", DM],
 [("option parsing", "src/common/utils/FlagParser.cpp"), ("signal handling", "src/mws/mwsd.cpp wait_for_signal")],
 ["process status, pid file, listening port and log file of generated invocations"])

prop("S01", "Schemata partition the posted formulas and generalise each member",
 "For every list of formulas posted to the schema daemon, each formula belongs to exactly one schema group, two formulas share a group exactly when they are equal after every subterm below the cut-off depth is blanked out (the operator heading a kept application is always kept, and only its own parts are blanked), and the schema shown for a group is that common truncated formula with a fresh query variable for each blanked position. The cut-off is the requested number of levels, or the requested percentage of each formula's own depth in relative mode.",
 ["inputs"],
 "All lists of formulas of any shape, all depths 0-255, both cut-off modes, with and without identifier renaming.",
 "Tests reduce and decode a handful of fixed token lists.",
 ["src/mws/query/SchemaEngine.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", EE, RQ],
 [("truncation by depth", "src/mws/query/SchemaEngine.cpp reduceFormula"), ("reconstruction", "src/mws/query/SchemaEngine.cpp decodeFormula")],
 ["schemad responses against a reference truncation and grouping"])

prop("S02", "Schema answers are ranked, limited and reported consistently",
 "Schemata are reported in order of decreasing coverage, at most the requested number of them (all when zero is requested) and always the best covered ones; the coverage equals the number of member formulas, the total counts all schemata, the listed member indices refer to the posted order, and the substitutions listed for a schema are the cross-references of the parts of its first member that the schema's variables stand for, in order. The XML and JSON outputs agree.",
 ["inputs"],
 "All formula lists, limits, depths and output formats, with and without cross-references.",
 "Nothing above the engine's helper functions is tested.",
 ["src/mws/query/SchemaEngine.cpp", "src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/xmlparser/SchemaJsonResponseFormatter.cpp", "src/mws/xmlparser/SchemaXmlResponseFormatter.cpp"],
 [("ranking and cut", "src/mws/query/SchemaEngine.cpp getSchemata"), ("substitution walk", "src/mws/daemon/SchemaQueryHandler.cpp getSubstitutions")],
 ["schemad JSON and XML responses against the reference grouping"])

prop("A01", "Analytics sees every indexed formula exactly once and intact",
 "For every saved index, the analytics driver presents each distinct indexed formula exactly once, reconstructed as the same tree that was indexed, together with its number of hits, and the example report's totals and averages follow from that. It stops when the user code says so and works for indexes built with identifier renaming.",
 ["inputs"],
 "All saved indexes, with and without identifier renaming.",
 "The analytics driver has no test.",
 ["src/mws/analytics/analytics.cpp", "analytics/example.cpp", "src/mws/index/CallbackIndexIterator.hpp", IT, CT],
 [("token tree maintained along the index walk", "src/mws/analytics/analytics.cpp CmmlTokenBuilder")],
 ["output of the analytics example and of a dumping analytics program linked against the driver"])

prop("H01", "Document conversion extracts every identified formula and its metadata",
 "For every readable XHTML, XML or HTML document, the converter emits one harvest containing, for each math element with an identifier and content markup, one expression holding that content markup unchanged apart from removed ids, cross-references, namespaces and comments, with a url that identifies the element (by its number within the document's data, or as the document's id, '#' and the element's id when data is off), plus the document's id, text and configured metadata; unreadable documents and math elements without id or content are skipped without affecting the others. The output is always a well-formed harvest.",
 ["inputs", "configurations"],
 "All documents and lists of documents, all configurations (data on or off, id path, text path, metadata paths), any characters in text, ids and file names.",
 "The converter has no test.",
 ["src/crawler/docs2harvest.cpp", "src/crawler/parser/MathParser.cpp", "src/crawler/parser/XmlParser.cpp", UT],
 [("per-document harvest assembly", "src/crawler/parser/MathParser.cpp createHarvestFromDocument")],
 ["docs2harvest output parsed independently and compared with the generated documents; also fed to mws-index and queried"])

prop("H02", "Search-engine export agrees with the index it was exported from",
 "For every harvest and the index built from it, the export writes, next to each harvest file with the configured extension, one line pair per data element with its id, text, metadata and formulas, listing exactly the formula identifiers that the index assigns to the subterms of the expressions referring to it, and for each identifier the urls of the expressions it occurs in, each with the position of an occurrence there. Files already exported are left alone, and every line is valid JSON.",
 ["inputs", "histories"],
 "All harvests with data (any characters, any number of expressions per document, expressions without data, expressions unknown to the index) and repeated runs.",
 "The exporter has no test.",
 ["src/crawler/harvests2json.cpp", "src/crawler/parser/XmlParser.cpp", UT, SC],
 [("looking each subterm up in the index", "src/crawler/harvests2json.cpp processExpression")],
 ["harvests2json output versus ids returned by mwsd -D for the same formulas"])

prop("C01", "The crawler stays within its bounds and fetches each page once",
 "Starting from the given page, the crawler fetches at most the requested number of pages, stays on the host it started on, never requests the same page twice, never requests a link that robots.txt or the request's exclusion list disallows, and visits every allowed page reachable by links when the limit permits.",
 ["inputs", "histories"],
 "All link graphs (cycles, repeated links, relative and absolute forms, broken links), robots.txt files, exclusion lists and page limits.",
 "The crawler has no test.",
 ["src/crawler/crawler/MwsCrawler.cpp", "src/crawler/types/Robotstxt.cpp", "src/crawler/utils/Page.cpp"],
 [("visited set and link clean-up", "src/crawler/crawler/MwsCrawler.cpp cleanupLinks"), ("robots rules", "src/crawler/types/Robotstxt.cpp")],
 ["request log of a loopback web server crawled by crawlerd"])

prop("C02", "Crawl requests are queued once, in order, and their math is harvested",
 "Every accepted crawl request posted to the crawler daemon is executed exactly once, in arrival order, with its own limits and exclusions, and all well-delimited, well-formed formulas of the fetched HTML and XHTML pages end up, under the url of their page, in well-formed harvest files written for it, pack by pack as the crawl goes on; malformed requests get an error page and start nothing. No request or page content makes the daemon access invalid memory.",
 ["inputs", "histories", "schedules"],
 "All sequences and interleavings of crawl requests and all page contents.",
 "The crawler daemon has no test.",
 ["src/crawler/daemon/CrawlerDaemon.cpp", "src/crawler/types/SharedQueue.hpp", "src/crawler/crawler/MwsCrawler.cpp", "src/crawler/utils/MwsGetMath.cpp", "src/crawler/crawlerd.cpp"],
 [("shared request queue", "src/crawler/types/SharedQueue.hpp"), ("formula extraction", "src/crawler/utils/MwsGetMath.cpp")],
 ["crawlerd over loopback: request log order, harvest files, sanitizer reports"])

prop("M01", "Arbitrary harvest and document bytes never corrupt memory",
 "For every byte content of harvest files, documents and configuration files, the daemon, the index builder, the converter and the exporter perform no invalid memory access or undefined operation and terminate or serve normally, treating bad input as an error of that input alone.",
 ["inputs"],
 "All file contents: random bytes, mutated and truncated harvests, extreme nesting, arity, sizes, entities, doctypes, encodings, and harvests containing query-language elements.",
 "Tests load five small well-formed files without sanitizers.",
 [PH, CT, EE, IB, TI, "src/crawler/parser/MathParser.cpp", "src/crawler/parser/XmlParser.cpp", "src/crawler/docs2harvest.cpp", "src/crawler/harvests2json.cpp", UT],
 [("SAX error handling", PH), ("arity limit", EE), ("iterative tree destruction", CT)],
 ["address and undefined-behaviour sanitizer builds of all tools over generated files; exit status"])

prop("U01", "Message transport delivers every byte, or reports failure",
 "Whatever the size of a transmission and however the network splits or delays it, the socket layer and the control-sequence protocol deliver exactly the bytes and the format tag that were sent, in order, or report an error; a closed or failing peer is reported and never yields wrong data or a crash. Threads started through the thread wrapper all run exactly once and shutdown waits for all of them.",
 ["inputs", "schedules", "fault_sequences"],
 "All message sizes, splittings, delays, early closes, and concurrent thread starts and stops.",
 "These parts have no test.",
 ["src/common/socket/InSocket.cpp", "src/common/socket/OutSocket.cpp", "src/common/types/ControlSequence.cpp", "src/common/types/DataFormat.cpp", "src/common/thread/ThreadWrapper.cpp"],
 [("read/write loops", "src/common/socket/OutSocket.cpp"), ("control sequence framing", "src/common/types/ControlSequence.cpp"), ("thread registry", "src/common/thread/ThreadWrapper.cpp")],
 ["a driver program linking the library, talking to an adversarial peer over loopback, under sanitizers"])

prop("U02", "Stored records and dictionaries read back exactly what was written",
 "For every sequence of stored formulas, documents and terms, the in-memory and the on-disk stores return the same records: looking up a formula from any offset with any limit yields the stored entries of that formula only, each exactly once, documents come back byte for byte, and a term dictionary reloaded from disk gives every term the identifier it had and unknown terms none.",
 ["inputs", "histories"],
 "All byte strings (embedded NULs where permitted, any length), identifiers up to the maximum, insertion orders, offsets and limits, and reopen sequences.",
 "Tests store one or two records in the in-memory stores; the on-disk stores and the dictionary file are untested.",
 ["src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/MemCrawlDb.cpp", "src/common/types/Parcelable.cpp", "src/common/types/IdDictionary.hpp", "src/mws/index/MeaningDictionary.hpp", "src/mws/types/FormulaPath.hpp"],
 [("record encoding", "src/common/types/Parcelable.cpp"), ("key layout", "src/mws/dbc/LevFormulaDb.cpp"), ("dictionary file", "src/common/types/IdDictionary.hpp")],
 ["a driver program exercising both store implementations against a reference map"])

prop("U03", "Shared text and path helpers meet their contracts on every input",
 "JSON escaping yields a string that decodes to its input; suffix tests, duplicate-space removal, byte-count formatting, boolean parsing and file reading return the specified result for every input; option parsing accepts exactly the declared options, requires the mandatory ones, and returns the values given.",
 ["inputs"],
 "All strings, sizes, files and argument vectors.",
 "These helpers are untested.",
 [UT, "src/common/utils/FlagParser.cpp", "src/common/utils/getBoolType.cpp", "src/common/utils/Path.hpp", "src/common/utils/mmap.c"],
 [("helper functions", UT)],
 ["a driver program calling the helpers, compared with reference implementations"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
