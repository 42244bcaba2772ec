NOT_APPLICABLE = []
INPUTS, HIST, SCHED, CONF, FAULT = 'inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'

prop('C01', 'HTML parsing loses nothing of the document',
 'Writing back, in order, everything the HTML parser reports (tags, attributes with their quotes, text, tag ends) gives the document that was read: no byte is lost, duplicated or reordered, apart from whitespace between the parts of a tag. '
 'This holds for malformed documents too (unterminated tags, quotes, comments and scripts), and parsing always ends without touching memory outside the document.',
 [INPUTS], 'every NUL-free byte string as document, well-formed or not',
 'The unit tests compare a handful of hand-written snippets; the guarantee is over all documents, and rewriting proxies feed arbitrary pages from the web.',
 ['src/html_parser.cpp', 'src/html_parser.hpp', 'src/filter_http_rewrite.cpp'],
 [('tokenizer loop with a start-of-text pointer', 'src/html_parser.cpp: HTMLParser::Rep::parse_str'), ('callbacks handed pointer and length into the document', 'src/html_parser.hpp')],
 'property-based testing: round-trip of re-serialized parser events, token-soup, grammar and byte generators with coverage guidance',
 'Round-trip equality modulo in-tag whitespace over a few million generated documents under ASan/UBSan.')

prop('C02', 'HTML markup is recognised as what it is',
 'Every tag, attribute (name, value, presence of a value, quote style), comment, declaration and piece of text of a document is reported once, in document order, with exactly its own text, and nothing that is not markup is reported as such. '
 'In particular attribute values never swallow or lose neighbouring text, comments end only at their terminator, and the content of a script element is plain text up to its end tag, in any letter case.',
 [INPUTS], 'every NUL-free document, over all combinations of tag shapes, quoting, whitespace, comments and scripts',
 'Tests check seven snippets; recognition must be right for every adjacency of constructs, which only a generator with a reference tokenizer covers.',
 ['src/html_parser.cpp', 'src/html_parser.hpp'],
 [('tag, attribute, comment and script recognisers', 'src/html_parser.cpp: tagStart, tagEnd, tagAttrs, tagText')],
 'property-based testing: documents constructed with known events, and differential comparison with a reference tokenizer',
 'Expected events are known by construction for well-formed pieces; malformed text is compared with an independent tokenizer written from the behaviour of the base tree after its fixes.')

prop('C03', 'URL recipes expand to what the record and patterns say',
 'Expanding a URL recipe against a record keeps all literal text and replaces every ${field} (or its percent-encoded form %{field}) by the value of the named metadata field, empty when the record has none; with [pattern/replacement/flags] the regular-expression substitution is applied first, to the first match or to all with the g flag, ignoring case with the i flag. '
 'A leading md- in a field name is optional and nothing else of a name is ignored. Any recipe text ends in a result without memory errors.',
 [INPUTS], 'every recipe and every metadata record',
 'The single test expands a dozen fixed recipes against one record; names, patterns, flags and escapes combine without bound.',
 ['src/url_recipe.cpp', 'include/metaproxy/xmlutil.hpp'],
 [('recipe scanner and field lookup', 'src/url_recipe.cpp: mp_xml::url_recipe_handle')],
 'property-based testing: recipes and records built together with a reference expander (std::regex based)',
 'Patterns come from a grammar on which std::regex (ECMAScript) and boost::regex agree; subjects stay under 100 bytes when a pattern is applied.')

prop('C04', 'Configuration values are read as written',
 'Text, boolean and integer values, attributes and child elements of a configuration are read exactly as the XML says: values in full, booleans true only for "true" and "1", defaults only when nothing is given, and child nodes of the wanted kind visited once each in document order. '
 'Element and attribute identity takes namespace and full name into account, and unknown attributes or unexpected child elements are refused with a message that names them.',
 [INPUTS, CONF], 'every XML document used as (part of) a configuration, over namespaces, comments, mixed content and entity-escaped values; not CDATA sections',
 'Existing tests read a few fixed snippets; the accessors are used by every filter with every configuration.',
 ['src/xmlutil.cpp', 'include/metaproxy/xmlutil.hpp'],
 [('value and identity accessors', 'src/xmlutil.cpp')],
 'property-based testing: random XML trees, every accessor compared with the abstract tree',
 'Every accessor is compared on every node of each generated tree.')

prop('C05', 'A configuration is honoured completely or refused',
 'A valid configuration file yields exactly the routes it defines, each with exactly its filters in order, every filter created once and given its own configuration, and start and stop reach every filter in use; shared filters are one instance. '
 'Any configuration that breaks the rules (unknown element, attribute, filter type, filter or route reference, duplicate id, missing part, filter that refuses its settings, text that is not XML) is refused as a whole with an error and leaves nothing behind.',
 [CONF, INPUTS], 'every configuration document built from the configuration grammar and every small mutation of one; also parts placed in included files',
 'The tests try about ten fixed configurations; the rules interact (references, nesting, order), and the routes that result are never compared.',
 ['src/router_flexml.cpp', 'src/router_flexml.hpp', 'src/router_xml.cpp', 'src/factory_filter.cpp'],
 [('configuration parser and reference checks', 'src/router_flexml.cpp: parse_xml_config_dom, parse_xml_filters, parse_xml_filters1, parse_xml_routes, check_routes_in_filters')],
 'property-based testing: configuration grammar with mutations against an independent validator and interpreter',
 'A <filter> in a route with neither refid nor type is left unspecified (skipped and counted). Filter types are recording stand-ins registered through the real factory.')

prop('C06', 'Packages visit exactly the filters of their route, in order',
 'A package sent along a route is processed by each filter of that route in configured order, one step per request to move on, until the route ends; asking for a named route continues at that route\'s first filter, and asking for an unknown one reaches no filter and leaves the position usable. '
 'Copies of a package or of its position advance independently of the original, and packages routed at the same time by several threads do not affect each other; a package keeps its own session.',
 [HIST, CONF, SCHED], 'every configuration and every sequence of moves, route changes and copies made by filters, also concurrently',
 'Tests route one package over one or two filters; positions, copies and route changes compose without bound.',
 ['src/router_flexml.cpp', 'src/router_chain.cpp', 'src/package.cpp', 'include/metaproxy/package.hpp'],
 [('route position', 'src/router_flexml.cpp: RouterFleXML::Pos'), ('chain position', 'src/router_chain.cpp: RouterChain::Pos'), ('package move and copy', 'src/package.cpp')],
 'property-based testing: model-based histories of moves, clones and scripted filters against a reference router; threads',
 'Thread interleavings are whatever the scheduler gives; single-threaded histories are deterministic.')

prop('C07', 'Session identity and per-session state',
 'Every session gets an id no other session has or had, even when sessions are created by many threads at once, and copies of a session keep its id and closed state; closing affects only the handle it was called on. '
 'State stored per session is found for that session exactly from when it is created until it is released, and never for another one, and may be used by several threads at once without data races.',
 [HIST, SCHED], 'every history of creation, copying, assignment, closing, storing and releasing, in any number of threads',
 'Tests count ids from fixed loops; uniqueness and lookup must hold for every interleaving and history.',
 ['src/session.cpp', 'include/metaproxy/session.hpp'],
 [('id counter under a lock', 'src/session.cpp'), ('session map', 'include/metaproxy/session.hpp: session_map')],
 'property-based testing: model-based histories, and generated multi-threaded histories under ThreadSanitizer',
 'Data races are found by ThreadSanitizer on generated thread programs, which does not need the bad interleaving to occur.')

prop('C08', 'Filter types are found by name',
 'After any sequence of registering, dropping and dynamically loading filter types, creating a filter by name gives a new instance of the type registered under exactly that name, a name in use cannot be registered again, and an unknown name is refused with an error naming it. '
 'Loading a module that is missing, broken or lacks its filter definition fails cleanly and registers nothing.',
 [HIST, INPUTS], 'every history of factory operations and every name',
 'The test registers two types once; histories with re-registration, dropping and loading are unbounded.',
 ['src/factory_filter.cpp', 'src/factory_filter.hpp', 'src/filter_dl.cpp'],
 [('creator map and module loading', 'src/factory_filter.cpp')],
 'property-based testing: model-based histories against a map',
 'A real shared module is compiled for the run from the tree\'s header; symbols of the program itself stand for built-in modules.')

prop('C09', 'The origin of a request is what each hop reported',
 'The origin carried with a request gives the address of the peer that connected, the address it connected to, and the connection limit exactly as they were set, whatever is added later; its printed form shows the first entry of the client address list reported last, its number and, when set, the custom session label. '
 'Copies carry the same information.',
 [HIST, INPUTS], 'every sequence of addresses, labels and limits',
 'No test prints or reads back an origin after a forwarded address is added.',
 ['src/origin.cpp', 'include/metaproxy/origin.hpp'],
 [('address parsing and printing', 'src/origin.cpp')],
 'property-based testing: histories of setters against a small model',
 'Pure data type; the whole observable state is compared after every step.')

prop('C10', 'Virtual databases hide which server answers',
 'With the virt_db filter a client sees one server: each search, present and scan goes to exactly the servers configured for the databases it names (globs in configuration order, routes kept apart, each server told the database part of its own address), and the answers are those of that server, with record database names mapped back to the names the client used. '
 'A named result set keeps giving the records of its own last successful search however many other sets, databases and servers are used in between, and unknown databases, sets and combinations are refused with a diagnostic, never answered from another database.',
 [HIST, CONF, FAULT, SCHED], 'every configuration of virtual databases and every session history of init, search, present, scan and close, with servers that fail, refuse or drop the connection, also with several clients at once',
 'No test runs the filter beyond an empty package; result set bookkeeping depends on long histories and on which server supports named sets.',
 ['src/filter_virt_db.cpp', 'src/filter_virt_db.hpp'],
 [('backends and result sets of a session', 'src/filter_virt_db.cpp: Virt_db::Frontend'), ('database map', 'src/filter_virt_db.cpp: add_map_db2target')],
 'property-based testing: model-based session histories through the real filter against simulated servers whose every record names its origin; threads under ThreadSanitizer',
 'The servers are simulated inside the process at the package level; libyaz does the encoding of every PDU that passes.')

prop('C11', 'Sharing server sessions never mixes clients up',
 'With the session_shared filter every client gets, for each of its searches, presents and scans, the hits, records and errors it would get alone, whoever else is using, filling, expiring or breaking the shared server sessions and result sets; clients that authenticate differently never share a session. '
 'Result sets are reused only for the same query on the same databases and options, sessions above the configured limit are refused rather than mixed up, and a lost or expired server session is replaced without the client noticing where the filter promises so.',
 [HIST, CONF, FAULT, SCHED], 'every configuration and every interleaving of client histories, with a controlled clock, and server faults',
 'No test of the base suite shares anything; the guarantee is about interleavings of clients, expiry and faults.',
 ['src/filter_session_shared.cpp', 'src/filter_session_shared.hpp'],
 [('shared backends per class', 'src/filter_session_shared.cpp: BackendClass'), ('result set lookup and replay', 'src/filter_session_shared.cpp: Frontend::get_set, override_set')],
 'property-based testing: model-based multi-client histories with a fake clock and simulated servers; threads under ThreadSanitizer',
 'time() is replaced at link time, so that expiry is decided by the generated history.')

prop('C12', 'Searching several targets at once gives one merged answer',
 'A session that names several targets in its init request searches all of them: each target gets the request on the route and with the credentials configured for it and with the databases of its own address, the hits are the sum, and every record position of the merged set gives one fixed record of one target (taking turns or target after target, as configured), whatever window is asked for; scan lists are merged with summed counts. '
 'Failing targets and diagnostics are reported, or left out exactly where hideunavailable and hideerrors say so, unless all fail; requests out of range are refused, and no target session outlives the client\'s.',
 [HIST, CONF, FAULT, SCHED], 'every configuration, set of targets, sizes of their result sets, window, history of requests and combination of targets failing, refusing or going away; also several clients at once',
 'The tests of the filter only look at empty packages and at bad configurations; merging positions depends on all result set sizes at once.',
 ['src/filter_multi.cpp', 'src/filter_multi.hpp', 'src/util.cpp'],
 [('merge orders', 'src/filter_multi.cpp: FrontendSet::round_robin, serve_order'), ('merging of responses', 'src/filter_multi.cpp: Frontend::search, present, scan')],
 'property-based testing: model-based session histories with simulated targets, and windows over generated result set sizes; threads under ThreadSanitizer',
 'What a result set contains after a failed search is left open, and so is the kind of answer to a scan when a target is gone and hideunavailable is on.')

prop('C13', 'Load balancing picks the least loaded target that answers',
 'With the load_balance filter a session whose init request names several targets goes to the one with the least load among them - open sessions plus requests in progress plus sessions it lost while in use; the first named when equal - and to the next one when that target refuses the connection; only when all do, the client is told so. '
 'All later requests of the session go to that target, and load is counted correctly however sessions end.',
 [HIST, FAULT, SCHED], 'every history of sessions beginning, ending (close, lost client, lost target) and requesting, with any requests still in progress, and with targets going down and up',
 'The filter has no test; loads follow from the whole history of all sessions.',
 ['src/filter_load_balance.cpp'],
 [('per-target statistics', 'src/filter_load_balance.cpp: add_session, remove_session, cost')],
 'property-based testing: model-based histories comparing the targets tried with a model of the loads; requests held in progress; threads under ThreadSanitizer',
 'The number of lost sessions counts as long as the target has open sessions, which is how the filter forgets them.')

prop('C14', 'Only the right password opens what was granted',
 'With the auth_simple filter an init request reaches the servers only with a user and password that the user register pairs, however they are transmitted; searches and scans reach them only when all their databases are granted to the user of that session, and target hosts only when granted in the target register, otherwise they are dropped or the init is refused as configured. '
 'Everything refused is answered with the diagnostic for it and ends the session; what is allowed passes unchanged, and sessions do not affect each other. Registers that cannot be read completely are refused.',
 [INPUTS, CONF, HIST, SCHED], 'every register content, every credential, database and target list, in any number of sessions at once',
 'The test looks at two fixed inits; registers, letter case, credential forms and combinations of both registers are unbounded.',
 ['src/filter_auth_simple.cpp'],
 [('register reading', 'src/filter_auth_simple.cpp: config_userRegister, config_targetRegister'), ('checks per request', 'src/filter_auth_simple.cpp: process_init, process_search, process_scan, check_targets')],
 'property-based testing: generated registers and credentials against a reference decision; threads under ThreadSanitizer',
 'Sessions that never authenticated are not asserted about, as the filter refuses them at init.')

prop('C15', 'A session over its limits is slowed down, others are not',
 'With the limit filter every session is counted on its own over the last 60 seconds: after each answer the client is held for as many seconds as the number of its searches contains the search limit plus the number of bytes transferred contains the bandwidth limit, and, once it sent more requests than the pdu limit, for at least 60 divided by that limit (at least one). '
 'Nothing else is delayed, a present asks the server for no more records than the retrieve limit, and apart from that requests and answers pass unchanged.',
 [HIST, CONF, SCHED], 'every choice of limits, every history of several sessions and every passage of time',
 'The filter has no test; the delay depends on everything each session did in the last minute.',
 ['src/filter_limit.cpp'],
 [('statistics per session and the delay', 'src/filter_limit.cpp: Impl::process')],
 'property-based testing: multi-session histories with a fake clock and a recorded sleep against a model of the counts; threads under ThreadSanitizer',
 'time() and sleep() are replaced at link time; the sliding window itself comes from YAZ++, here a stand-in.')

prop('C16', 'A present in chunks gives what one present would give',
 'With the present_chunk filter a present request for more records than the configured chunk reaches the server as consecutive presents of at most that many records, and the client gets one response with exactly the records, in order, and the reference id, number, status and next position that a single present would have given it. '
 'Servers that give fewer or more records than asked, diagnostics, lost sessions and missing answers in any chunk are reported as they come, nothing loops or overruns, and every other request passes unchanged.',
 [INPUTS, CONF, FAULT], 'every chunk size, window and sequence of short, refused, lost or excessive answers',
 'The filter has no test.',
 ['src/filter_present_chunk.cpp'],
 [('splitting and joining', 'src/filter_present_chunk.cpp: chunk_it')],
 'property-based testing: generated windows and server behaviour, compared with the records one present gives',
 'The server is simulated inside the process.')

prop('C17', 'Static files: exactly the files below the document root',
 'With the http_file filter a GET for a path below the prefix of an area (the first that matches, at the boundary of a path component) gives the file of that name below its document root byte for byte, with the content type the mime types file gives for its extension; other methods give 405, and what is not a regular file of at most a million bytes 404, or pass on when passthru is set. '
 'Nothing outside a document root is ever served, whatever dots, slashes, escapes, queries or fragments the path has; files of raw areas are sent as the responses they contain; everything else passes on unchanged.',
 [INPUTS, CONF], 'every path, method and configuration of areas, and every mime types file',
 'The filter has no test; containment is about paths nobody thought of.',
 ['src/filter_http_file.cpp', 'src/plainfile.cpp', 'src/util.cpp'],
 [('path to file', 'src/filter_http_file.cpp: fetch_uri, fetch_file'), ('mime types file', 'src/plainfile.cpp: getline')],
 'property-based testing: generated paths over a scratch file tree with a reference resolution',
 'Symbolic links below the root are followed, as the filter does; they are not generated.')

prop('C18', 'HTTP is rewritten exactly where and how the rules say',
 'With the http_rewrite filter the request line, header values, HTML attributes and element texts and quoted literals named by the configuration, and nothing else, are rewritten: from the left, at each point by the rule whose pattern matches first (the one listed first when several do, ^ rules only at the beginning), to its recipe with the named groups matched so far in this exchange, request and response, filled in. '
 'Links the client asked to skip stay; bodies of other types or with NUL bytes stay; no exchange influences another, no input makes the filter fail or loop, and malformed rules are refused when configured.',
 [INPUTS, CONF, SCHED], 'every set of rules and places, every request, document and skip list, also several exchanges at once',
 'The two tests use one rule set and one document each.',
 ['src/filter_http_rewrite.cpp', 'src/html_parser.cpp'],
 [('application of rules', 'src/filter_http_rewrite.cpp: Rule::test_patterns, Replace::sub_vars'), ('named groups of a pattern', 'src/filter_http_rewrite.cpp: Replace::parse_groups'), ('places in documents', 'src/filter_http_rewrite.cpp: Event, embed_quoted_literal')],
 'property-based testing: generated rules, places and documents against a reference matcher and document model; threads under ThreadSanitizer',
 'Patterns are made of literals, classes, repeats, groups and assertions; what an empty match is replaced with is not asserted, only that it ends.')

prop('C19', 'SRU requests get the answer the Z39.50 server gives',
 'With the sru_z3950 filter an SRU searchRetrieve request (GET, POST or SOAP) becomes an Init with its credentials, target and client address, a search of its database with its query, and presents for exactly the records asked for that exist, within the configured limit; the answer has the hit count, these records in order with position, schema and packing, the next position, and every diagnostic the server gave, for the request or for single records. '
 'Each request has its own Z39.50 session, closed afterwards however it went; explain gives the configured or a minimal well-formed record; unsupported operations and parameters are answered with diagnostics, requests that are not SRU with 400. Short, excessive, empty, refused or missing server answers never crash it, loop or lose what was reported.',
 [INPUTS, HIST, FAULT, CONF], 'every SRU request, server behaviour and configuration of the filter, several requests per connection',
 'The filter has no test besides its creation.',
 ['src/filter_sru_to_z3950.cpp', 'src/sru_util.cpp', 'src/util.cpp'],
 [('request translation', 'src/filter_sru_to_z3950.cpp: z3950_init_request, z3950_search_request, z3950_build_query'), ('record retrieval', 'src/filter_sru_to_z3950.cpp: z3950_present_request'), ('explain and responses', 'src/sru_util.cpp')],
 'property-based testing: generated requests and scripted server behaviour against a reference translation; answers read with an independent XML reader',
 'Decoding of SRU itself is YAZ; what YAZ refuses (parameters out of range, unknown parameters) is only checked to be reported. A SOAP request that names no database is not settled.')

prop('C20', 'Sorted result sets hold the server\'s records, in order',
 'With the sort filter the first records of a result set that a client gets in a record syntax and element set are those that come first, ascending or descending, by the text the XPath picks from each record, among as many records as were asked for or the configured number to prefetch, whichever is larger; later presents within that range are answered in the same order, each with its own reference id and next position, each record exactly once. '
 'Everything else (other ranges, forms, deleted or replaced sets, diagnostics, lost sessions, missing answers) is as the server says.',
 [HIST, INPUTS, CONF, FAULT], 'every history of searches, presents and deletes with every result set, and every configuration',
 'The filter has no test.',
 ['src/filter_sort.cpp', 'src/util.cpp'],
 [('fetching and sorting', 'src/filter_sort.cpp: Frontend::handle_records, RecordList'), ('presents from memory', 'src/filter_sort.cpp: Frontend::handle_present')],
 'property-based testing: generated histories against a simulated server; positions checked against the sorted keys of the records handed out',
 'The order of records with equal keys is not asserted, only that it does not change.')

prop('C21', 'Records come in the syntax and schema asked for, converted as configured',
 'With the record_transform filter a search or present that asks for a record syntax and element set of a configured retrieval reaches the server with the syntax and element set of its backend part, and the client gets every record run through the conversion steps of that retrieval, in the syntax asked for, with its database, position, reference id and everything else kept. '
 'A syntax or element set no retrieval has is refused with the diagnostics for it, a record that cannot be converted is a diagnostic in its place, diagnostics and records of other syntaxes pass, and requests that ask for no records pass unchanged.',
 [INPUTS, CONF, FAULT], 'every set of retrievals and every combination of syntax, element set, kind of record (XML, MARC, OPAC, surrogate diagnostics) and server behaviour',
 'The filter has no test besides its creation.',
 ['src/filter_record_transform.cpp'],
 [('choice of the retrieval', 'src/filter_record_transform.cpp: Impl::frontend_net_search, present'), ('conversion of records', 'src/filter_record_transform.cpp: convert loop')],
 'property-based testing: generated retrievals, requests and records against a reference of the matching and of each step',
 'Conversions themselves are YAZ; stylesheets generated here tag records so that the steps taken can be read from the result.')

prop('C22', 'Queries are rewritten as configured and never by accident',
 'With the query_rewrite filter a Type-1 query is sent on as its configured stylesheets and character set conversion make it, and with cql_rpn a CQL query as the RPN the conversion file gives (or, in reverse, an RPN query as its CQL), with everything else of the request unchanged. '
 'A query that cannot be converted is answered with the diagnostic that says so and never reaches the server; queries of other types and all other requests pass unchanged; bad configurations are refused.',
 [INPUTS, CONF], 'every query tree (any operators, attributes and terms in any character set), CQL text, and every stylesheet and conversion file generated',
 'The tests create the filters and rewrite one query.',
 ['src/filter_query_rewrite.cpp', 'src/filter_cql_rpn.cpp', 'src/xmlutil.cpp'],
 [('stylesheets and character sets', 'src/filter_query_rewrite.cpp: Impl::process'), ('CQL to RPN and back', 'src/filter_cql_rpn.cpp: Impl::process')],
 'property-based testing: generated query trees, stylesheets and conversion files against a reference rewrite; round trip of CQL and RPN',
 'CQL and RPN conversion rules are those of YAZ. A stylesheet that names an unknown attribute set and characters that do not exist in the target character set are left out.')

prop('C23', 'What sessions and requests took is given back when they end',
 'A proxy runs for months: after a session of any requests has ended (by close, hang-up, server failure or refusal), its memory and files are given back by every filter, so that repeating the same session any number of times does not make the process grow; likewise for every configuration read, accepted or refused. '
 'What is kept on purpose (result sets and sessions that session_shared keeps, within its limits) does not grow either.',
 [HIST, CONF, FAULT], 'every chain of the filters and every history of requests, answers and failures repeated',
 'A leak of a few bytes per session shows in no test; it needs the repetition and the rare ending.',
 ['src/filter_virt_db.cpp', 'src/filter_multi.cpp', 'src/filter_session_shared.cpp', 'src/filter_load_balance.cpp', 'src/filter_auth_simple.cpp', 'src/filter_sort.cpp', 'src/filter_limit.cpp', 'src/filter_record_transform.cpp', 'src/filter_cql_rpn.cpp', 'src/router_flexml.cpp', 'src/package.cpp'],
 [('sessions of filters', 'src/filter_multi.cpp: release_frontend and the same elsewhere'), ('configurations', 'src/router_flexml.cpp: RouterFleXML')],
 'property-based testing: generated sessions repeated, bytes allocated after each compared',
 'Growth must be seen in each of the last six of twelve rounds. A leak inside YAZ (yaz_retrieval_request) is taken out of the count.')

prop('C24', 'The log says what happened, a line for each entry, and changes nothing',
 'The log filter writes, for each package and each category switched on, exactly one line with the time in the configured format, the message, the user (user-access), the address and session of the client, the time elapsed and the values of request or response in their documented places, a dash for what is absent; the user of a session is the one of its last Init with credentials. '
 'Values with line breaks do not make further lines; sessions handled at once and filters that share a file never mix their lines or dumps; requests and responses pass unchanged.',
 [INPUTS, CONF, HIST, SCHED], 'every combination of categories, message and format, every request and response, any number of sessions and threads',
 'The test only switches categories on and looks at nothing.',
 ['src/filter_log.cpp', 'src/gduutil.cpp', 'src/origin.cpp', 'src/package.cpp'],
 [('entries', 'src/filter_log.cpp: Impl::process, log_1line_Z_APDU'), ('values', 'src/gduutil.cpp: operator<<'), ('one line per entry', 'src/filter_log.cpp: LFile::log')],
 'property-based testing: generated configurations, requests and responses against a reference of every line; threads under ThreadSanitizer',
 'The elapsed time is checked for its form only. Values with blanks and open authentication with a password are left out.')

prop('C25', 'No odd request or answer takes the proxy down or spoils other sessions',
 'Whatever a client sends (any APDU with any optional part missing or out of range, in any order, HTTP where Z39.50 is expected and the reverse) and whatever a server answers (another type, records that do not fit, parts missing, no answer, a closed session), every filter and chain of filters goes on: no crash, no hang, no memory error, and what the client gets can be sent to it. '
 'A session opened afterwards gets exactly what it gets from a proxy that never saw any of it.',
 [INPUTS, HIST, FAULT], 'every type of APDU with every optional part and odd values, every such answer, over every filter and several chains',
 'Tests send well-formed requests to well-behaved backends.',
 ['src/filter_backend_test.cpp', 'src/filter_log.cpp', 'src/gduutil.cpp', 'src/filter_multi.cpp', 'src/filter_virt_db.cpp', 'src/filter_session_shared.cpp', 'src/filter_sort.cpp', 'src/filter_limit.cpp', 'src/filter_present_chunk.cpp', 'src/filter_record_transform.cpp', 'src/filter_sru_to_z3950.cpp', 'src/filter_http_rewrite.cpp', 'src/filter_http_file.cpp', 'src/util.cpp'],
 [('optional parts', 'src/filter_log.cpp: log_1line_Z_APDU'), ('ranges of presents', 'src/filter_backend_test.cpp: fetch'), ('answers of servers', 'src/filter_multi.cpp, src/filter_session_shared.cpp')],
 'property-based fuzzing: generated APDUs and answers over every filter under sanitizers; a later session compared with the same session over a fresh proxy',
 'Packages that the decoder of YAZ refuses or crashes on are left out, as are filters that need a network.')
prop('C26', 'The network server answers every request once, to the connection it came from',
 'Whatever clients of the frontend send and however they send it (many connections over several listeners, requests in pieces or pipelined, answers read late, a connection dropped with requests under way), every request that arrived whole is handled once, in the session of its connection, with the address of the peer, the forwarded address and the route of its port; its answer goes to that connection and none other, whole, and answers to Z39.50 requests can be told apart by their reference. '
 'A request without an answer gets a Close or a 500, a session closed by the chain ends after its answer, and every session ends once in the chain, and only after the last of its requests. '
 'No connection is accepted beyond connect-max and connect-total of its address and no HTTP request handled beyond http-req-max, idle connections end after (not before) their timeout, requests over max_recv_bytes are not handled, and below the limits nothing is refused. Told to stop with SIGUSR1 the server takes no new connection, serves those it has and ends with the last; SIGTERM ends it.',
 [HIST, SCHED, FAULT], 'up to 8 connections over up to 3 listeners, pipelined requests, aborts at any point, worker threads as the scheduler runs them, limits and timeouts',
 'Tests configure a frontend and stop it; none sends a request.',
 ['src/filter_frontend_net.cpp', 'include/metaproxy/filter.hpp', 'src/filter_frontend_net.hpp', 'src/thread_pool_observer.cpp', 'src/thread_pool_observer.hpp', 'src/pipe.cpp'],
 [('requests and results', 'src/filter_frontend_net.cpp: ThreadPoolPackage::handle, ThreadPoolPackage::result, ZAssocChild::recv_GDU'), ('end of connections', 'src/filter_frontend_net.cpp: ZAssocChild::failNotify, timeoutNotify, connectNotify'), ('limits', 'src/filter_frontend_net.cpp: ZAssocServer::sessionNotify'), ('worker threads', 'src/thread_pool_observer.cpp: ThreadPoolSocketObserver::run, socketNotify, cleanup')],
 'stateful property-based testing over real sockets: generated histories of connections, requests and faults against a bookkeeping model, under ASan and TSan',
 'YAZ++ (sockets, limits per address, framing of PDUs) is a stand-in, with real sockets under it; its own limits bookkeeping is not under test. Answers to pipelined requests may come in any order when there are several workers.')
prop('C27', 'The Z39.50 client keeps sessions and servers together',
 'Every session gets a connection of its own to the server that its Init names (or the default or the forced one), and nothing else uses it: each request reaches that server once and unchanged (the Init without its target, with the client IP and the character set where configured), and its answer comes back to that request unchanged, diagnostics of init, search and present naming the server. '
 'An Init naming no server (without default) or several, or beyond max-sockets, is refused with the diagnostic for it and no server is asked; a request before Init gets a Close. '
 'When a server is not there, goes away, answers rubbish or says nothing until the timeout of that phase, the client gets a Close for its request and the session ends. The connection ends with its session, after a Close if force_close is set, and connections to one server never exceed max-sockets. What one session waits for never holds up another.',
 [HIST, SCHED, FAULT], 'several interleaved or concurrent sessions over three servers, every point at which a server may fail, max-sockets and timeouts',
 'Tests connect once to a host that is not there.',
 ['src/filter_z3950_client.cpp', 'src/filter_z3950_client.hpp', 'src/util.cpp'],
 [('which server', 'src/filter_z3950_client.cpp: Rep::get_assoc'), ('requests and answers', 'src/filter_z3950_client.cpp: Rep::send_and_receive, Assoc::recv_GDU, fixup_nsd, fixup_init'), ('failures', 'src/filter_z3950_client.cpp: Assoc::failNotify, timeoutNotify'), ('end of sessions', 'src/filter_z3950_client.cpp: Rep::release_assoc')],
 'stateful property-based testing over real sockets: generated histories of sessions against scripted servers and a model of what each must see, under ASan and TSan',
 'YAZ++ is a stand-in with real sockets under it. A second Init in a session and bind_host are left out (the first is documented in the code as not working, the second is not supported by the installed YAZ).')
prop('C28', 'The HTTP client passes requests and answers on unchanged',
 'A request whose path is an absolute URI goes to the server of that URI, any other to the default host, through the proxy that the X-Metaproxy-Proxy header or the configuration names. That server gets it once: same method, path, body and headers in the same order, except that Host tells the server, Host and User-Agent appear once however spelled, X-Metaproxy-Proxy is gone, and X-Forwarded-For has the address of the client appended if configured (the request itself stays readable). '
 'The client gets the code, headers and whole body that the server sent, however it was transferred. Redirects are followed as often as max-redirects says, and passed on beyond that. A request without target gets 404 and one whose server cannot be reached or breaks off gets 502. '
 'Anything but HTTP is passed on, and concurrent requests do not influence each other.',
 [HIST, SCHED, FAULT], 'requests with all kinds of paths, headers and bodies, answers in every transfer mode, redirects, servers that break off, concurrent clients',
 'No test fetches anything through it.',
 ['src/filter_http_client.cpp', 'src/util.cpp'],
 [('where a request goes', 'src/filter_http_client.cpp: Rep::proxy'), ('configuration', 'src/filter_http_client.cpp: configure'), ('errors', 'src/util.cpp: odr::create_HTTP_Response_details')],
 'property-based testing over real sockets: generated requests and scripted servers against a model of what server and client must see, under ASan and TSan',
 'The HTTP exchange itself is done by the installed YAZ: it follows 301, 302 and 307 only, and requests with Transfer-Encoding chunked get lost where YAZ++ copies them, before any filter. With bind_host the address is sent along in the request line (known finding: YAZ offers no other way).')

prop('C29', 'A ZOOM search reaches the target its database stands for',
 'A search through the zoom filter goes to the target whose profile has that database name, from the configuration or from the service asked with the query, database and realm that apply, with the user of the search or else of the profile, the parameters it gives, and the query translated as the profile says (RPN as it came, CCL and CQL by its maps, CQL text for SRU), on a connection that no other session and no other database uses. '
 'Hits, facets and diagnostics come back as the target gave them; records are those asked for, of that result set, in the syntax and element set that apply, transformed by the stylesheets of the profile, with the name of the database searched. A failure is tried again only as told, and proxies in the order given. '
 'Access is granted only if the service or the address allows it, and then for the realm it said. Explain lists what the service knows; each session for content has a file of its own. No database name, profile, query or answer of a target ends the proxy.',
 [HIST, SCHED, FAULT], 'profiles of all kinds, local and from a service, sequences of searches and presents of concurrent sessions, targets and services that fail',
 'The test of this filter only loads a configuration.',
 ['src/filter_zoom.cpp', 'src/torus.cpp'],
 [('target of a search', 'src/filter_zoom.cpp: Frontend::get_backend_from_databases'), ('query and hits', 'src/filter_zoom.cpp: Frontend::handle_search'), ('records', 'src/filter_zoom.cpp: Frontend::get_records'), ('access', 'src/filter_zoom.cpp: Frontend::auth'), ('content sessions', 'src/filter_zoom.cpp: Frontend::create_content_session'), ('target profiles from a service', 'src/torus.cpp: get_searchable')],
 'property-based testing over real sockets: generated profiles, histories and scripted Z39.50, SRU and profile services against a model of what each target and client must see, under ASan and TSan',
 'The exchange with targets is done by ZOOM of the installed YAZ: what it does by itself (versions of SRU tried after a failure, windows of presents) is left open, and so are results after a target broke off in a present. Not covered: Solr, rpn2cql files, HTTPS, urlRecipe.')
prop('C30', 'A CGI program gets the request as it came, and its output is the answer',
 'An HTTP request whose path begins with that of a map of the cgi filter (the first one that does) runs the program of that map, once, in the directory it is in below the configured document root, with REQUEST_METHOD, REQUEST_URI, SCRIPT_NAME, PATH_INFO, QUERY_STRING, CONTENT_TYPE, CONTENT_LENGTH and the HTTP_ variables for cookie, agent and accept headers as the request has them, other headers not passed, and configured variables over these. '
 'The program reads exactly the content of the request, then its end; the headers and content it writes are those of the answer, whatever their size and however much of the content it read. No output, output that is no answer and a program that cannot be run are reported as 400. '
 'Requests have nothing to do with each other: one never waits for the program of another one, nor gets its input or output. Programs are waited for and no files stay open. Other requests pass on to the next filter; a wrong configuration is refused.',
 [HIST, SCHED, FAULT], 'maps, requests, programs that read and write in all ways, orders and concurrent requests',
 'There is no test of this filter.',
 ['src/filter_cgi.cpp'],
 [('which program, and the exchange with it', 'src/filter_cgi.cpp: CGI::process'), ('environment and directory', 'src/filter_cgi.cpp: CGI::Rep::child'), ('configuration', 'src/filter_cgi.cpp: CGI::configure')],
 'property-based testing with generated maps, requests and shell programs that record what they got, in sequence and from concurrent threads, under ASan and TSan',
 'Programs are shell scripts below a scratch directory. Not covered: a program that takes over 60 s, and the end of the proxy while one runs.')
prop('C31', 'Bounced, made a record, or explained: exactly as configured',
 'The bounce filter answers every request itself and lets none go on: an HTTP request with 400 (with echo, the request itself, byte for byte, as its content), a Z39.50 request with a Close for a system problem that has its reference and a text that names the request; the session is over. '
 'The sd_remove filter puts in place of each surrogate diagnostic of a search or present response a SUTRS record with its number, meaning and text, in its position and of its database; all else of the answer, other answers, and requests stay as they were. '
 'The zeerex_explain filter answers an SRU explain request for a database that it is configured for with the record of that database, packed as asked for, for as long as the proxy runs; SRU requests of other kinds, for other databases, and Z39.50 requests go on unchanged; what is no SRU request is refused and ends the session. The template filter changes nothing. Wrong configurations are refused.',
 [HIST, INPUTS, CONF, SCHED], 'requests of all types, answers with records and diagnostics of all kinds, configurations, concurrent sessions',
 'The test of bounce sends one Init; there are none for the others.',
 ['src/filter_bounce.cpp', 'src/filter_sd_remove.cpp', 'src/filter_zeerex_explain.cpp'],
 [('end of a route', 'src/filter_bounce.cpp: Bounce::process'), ('surrogate diagnostics', 'src/filter_sd_remove.cpp: SD_Remove::process'), ('explain records', 'src/filter_zeerex_explain.cpp: ZeeRexExplain::Impl::process'), ('configured explain records', 'src/filter_zeerex_explain.cpp: ZeeRexExplain::Impl::configure')],
 'property-based testing with generated requests, server answers and configurations: an answer must be byte for byte that which a second, independent construction gives, under ASan and TSan',
 'A POST of text/plain that YAZ takes for a broken SOAP request gets the fault that YAZ makes of it.')
prop('C32', 'The program starts as its options say, and ends orderly on a signal',
 'metaproxy -t says by its exit status whether metaproxy can be started with that configuration (no configuration, bad XML, a missing include, an unknown filter, a wrong option, and a -w directory that is not there are refused), opens nothing, and leaves neither a process nor a pid file. '
 'A program that is started serves what is configured, in the working directory (-w), as the user (-u), with at most as many open files (-s) as the options say, writes its log where and how they say (-l, -m) and its process number to the pid file (-p), whatever the order of the options. '
 'With -D it goes to the background and ends with 0, and the server is started again when it crashes. SIGTERM ends all processes of it; SIGUSR1 ends listening at once and the program when the open sessions are over.',
 [HIST, CONF, FAULT], 'all combinations and orders of the options, configuration files right and wrong, signals while sessions are open, crashes of the server',
 'No test starts the program.',
 ['src/metaproxy_prog.cpp', 'src/router_xml.cpp'],
 [('options and order of start', 'src/metaproxy_prog.cpp: sc_main'), ('serving', 'src/metaproxy_prog.cpp: work_common'), ('signals', 'src/metaproxy_prog.cpp: sig_x_handler')],
 'stateful property-based testing of the real program as a process of its own: generated command lines, configurations and signals, compared with a model of what must then be seen (exit status, processes, files, limits, answers)',
 'Where the check may not become another user, -u is left out. When a signal arrives is not controlled. The Windows service is not covered.')
prop('C33', 'Content of HTTP answers is rewritten by the patterns configured, and only it',
 'The http_rewrite1 filter applies to the content of an HTTP answer, in their order, the rules that are configured for exactly its Content-Type: what the pattern (a Perl regular expression) matches is replaced, the first match only or with mode g all, ignoring case with mode i, groups that matched are put in for $1, $2 and $&. '
 'All bytes that no pattern matches, the status and the headers, requests, answers of other types, Z39.50, and requests that get no answer stay as they are. Wrong configurations are refused.',
 [HIST, INPUTS, CONF, SCHED], 'rules, contents of arbitrary bytes, answers of all kinds and none, concurrent sessions',
 'No test covers the filter.',
 ['src/filter_http_rewrite1.cpp'],
 [('replacing', 'src/filter_http_rewrite1.cpp: HttpRewrite1::Rep::rewrite_response'), ('what is rewritten', 'src/filter_http_rewrite1.cpp: HttpRewrite1::process'), ('rules', 'src/filter_http_rewrite1.cpp: HttpRewrite1::configure')],
 'property-based testing with generated rules and contents against a matcher of our own (backtracking over the generated pattern tree), under ASan and TSan',
 'Patterns that match nothing (the empty text), look-around and back references are not generated.')
