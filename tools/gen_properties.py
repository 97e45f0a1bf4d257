#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the anchors are easy to edit)."""
import json, os
M='rust/pact_models/src/'
V='rust/pact_verifier/src/'
X='rust/pact_matching/src/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=state
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':qtext},why_tests_cant=why,anchors=a))

p('C01','Concurrent pact writers never lose an acknowledged interaction',
 "When several threads and processes call write_pact (overwrite=false) on the same path, every interaction of every call that returned Ok is present, with the content it was written with, in the file once the writers stop. A call that returned Err (merge conflict, lock not obtained, I/O error) leaves the interactions of all other calls in place. This holds from the first write, when the file does not exist yet, and for request/response, message and V4 pacts. (Request/response and message pacts: writing an interaction whose description and provider states are already stored keeps the stored one.)",
 ['schedules','histories'],'every interleaving of the system calls of N processes x M threads writing pacts to one path, every lock contention pattern and back-off timing',
 'A test runs one interleaving of one or two writers; a lost update needs two writers to overlap inside a window of a few system calls in different processes.',
 [M+'pact.rs',M+'file_utils.rs',M+'sync_pact.rs',M+'message_pact.rs',M+'v4/pact.rs'],
 [('write_pact: process-wide mutex + file lock + read/merge/write',M+'pact.rs: write_pact, WRITE_LOCK'),('file lock with retries',M+'file_utils.rs: with_read_lock_for_open_file, with_write_lock')],
 ['return values of write_pact','bytes of the file after quiescence'])
p('C02','A failed or killed pact write never destroys what was stored before',
 "If write_pact fails because of an I/O error (disk full, EIO, short or interrupted write), or the process is killed during the call, then a later read of the path gives either the complete old pact or the complete new pact, never an unreadable or partial file and never a file without the previously stored interactions. The same holds for a write asked to replace the file (overwrite=true): until it succeeds the old pact stays, and when it returns Ok the file is exactly its pact. After such a failure the locks are free again and later writes to the same path (by the same process, a restarted one or another one) succeed and keep the earlier interactions.",
 ['crash_points','fault_sequences'],'every system call of a write as kill point or as the place of an injected disk error, in every history of earlier and concurrent writes',
 'Unit tests have no disk faults and cannot stop a process between two system calls; a fault-free run writes the file in one go.',
 [M+'pact.rs',M+'file_utils.rs'],
 [('write_pact truncate/seek/write under the exclusive lock',M+'pact.rs: write_pact'),('lock release on every path',M+'file_utils.rs: with_write_lock')],
 ['bytes of the file after each fault','result of the next write_pact/read_pact'])
p('C03','Readers and writers of one pact file are isolated and wait a bounded time',
 "A read_pact that returns Ok while other processes are writing returns a pact that was completely stored at some instant between its call and its return; whether they merge into the file or replace it; it never reports a torn or malformed file as an error or as a pact (a file no writer has completed yet counts as absent). When the lock is held by others the call gives up with an error after its documented number of attempts (3) within a bounded time instead of blocking, and every lock it took is released when it returns, whether it succeeded or failed.",
 ['schedules','histories'],'every interleaving of readers, writers and lock holders of one path, with arbitrary lock hold times',
 'The lock is only contended when calls overlap; tests read and write one after the other.',
 [M+'file_utils.rs',M+'pact.rs'],
 [('shared/exclusive flock with retry and back-off',M+'file_utils.rs: with_read_lock, with_read_lock_for_open_file, with_write_lock'),('read_pact',M+'pact.rs: read_pact, read_pact_from_file')],
 ['return values and simulated durations of read_pact/write_pact','lock table of the simulated disk'])
p('C04','Merging pacts is independent of order and repetition',
 "Writing a set of pacts between the same consumer and provider into one file one after the other gives a file with exactly the union of their interactions, each once, whatever the order of the writes and however often a write is repeated. A write whose interaction conflicts with a stored one (V2/V3 request/response: same description and provider states but another method, path, query or status) or whose consumer or provider differs is refused and leaves the file unchanged. Interactions are the same if description and provider states are equal (V2: the first state's name) and, for V4, also the type, or if both have an explicit key and the keys are equal. This holds for request/response, message and V4 pacts (all interaction types, with and without explicit keys) and for mixtures of versions.",
 ['histories','inputs'],'every sequence (order, repetition, interleaved by several processes) of writes drawn from a pool of pacts, of every specification version and interaction type',
 'The result depends on the history of earlier merges, not on one call; tests merge a few fixed pairs.',
 [M+'sync_pact.rs',M+'message_pact.rs',M+'v4/pact.rs',M+'pact.rs',M+'iterator_utils.rs'],
 [('merge by description and states',M+'sync_pact.rs: merge; message_pact.rs: merge'),('V4 merge by key / description / states / type',M+'v4/pact.rs: merge; v4/interaction.rs: unique_key, with_unique_key')],
 ['set of interactions in the stored file','Ok/Err of each write'])
p('C05','Reading, merging and rewriting a pact preserves every stored interaction',
 "When a pact file in the format of its specification version is read and written again by other processes (loaded and saved, merged with further interactions, any number of times), every attribute of the interactions already in it keeps its value: descriptions, keys, provider states and their parameters, method, path, query, headers, status, bodies of every kind, message contents and metadata, matching rules, generators, comments, pending flag, plugin configuration and references. So do the consumer's and provider's names, the metadata other tools added, and the plugins' data (merged by plugin name and version). This holds for every form a document of its version may take: attributes in any order, optional ones left out or given their default, provider states as a single name or a list, headers as text or list, queries as text in any legal encoding, body contents with and without encoding, content type told by the headers. A model built through the API and stored reads back equal to what was stored. Field names in paths may hold any character, quotes and backslashes included. A matching rule or generator created again from its name and values is the same one.",
 ['histories','inputs'],'every pact document of V2, V3 and V4 over the whole attribute vocabulary, and every sequence of load/merge/save steps by several processes',
 'Tests check single attributes of fixed documents for one conversion; loss shows only for particular combinations of attributes and versions and after more than one cycle.',
 [M+'pact.rs',M+'request.rs',M+'response.rs',M+'message.rs',M+'http_parts.rs',M+'v4/synch_http.rs',M+'v4/async_message.rs',M+'v4/sync_message.rs',M+'v4/http_parts.rs',M+'v4/message_parts.rs',M+'matchingrules/mod.rs',M+'generators/mod.rs',M+'provider_states.rs',M+'bodies.rs',M+'query_strings.rs',M+'headers.rs'],
 [('to_json / from_json of every model type',M+'v4/*.rs, sync_interaction.rs, message.rs, request.rs, response.rs'),('matching rule and generator (de)serialisation',M+'matchingrules/mod.rs, generators/mod.rs')],
 ['JSON document in the file after each step'])
p('C06','Equal inputs give equal outputs in every process',
 "For the same inputs, every process produces the same result, independently of its hash-map seed, of other threads and of what it did before: byte-identical pact files, the same interaction keys, the same merge result, equality and ordering of models, the same matching rule selected for a path, the same parsed matching-rule definition. Only values produced by random generators may differ. Equality of models, rules and generators depends on their contents only, not on the order or way in which they were built: copies are equal and have the same hash and key; models that differ in a part of their identity or contents are not equal, and interactions that differ in what their key covers have different keys.",
 ['schedules','inputs'],'every hash seed of every thread/process (std HashMap iteration order is random per process) and every pact',
 'One test process sees one hash seed; an order dependence shows up in another process with another seed.',
 [M+'v4/interaction.rs',M+'provider_states.rs',M+'matchingrules/mod.rs',M+'generators/mod.rs',M+'json_utils.rs',M+'sync_pact.rs',M+'v4/pact.rs'],
 [('calculate_key/unique_key hashing',M+'v4/interaction.rs, provider_states.rs, json_utils.rs: hash_json'),('HashMap iteration in to_json, hash and rule selection',M+'matchingrules/mod.rs: max_by_path, to_v2_json; generators/mod.rs')],
 ['bytes of the file','interaction keys','selected rule lists'])
p('C07','Generated values always satisfy their generator',
 "Whatever the random source returns, a generator that reports success gives a value inside its own constraints: RandomInt between min and max inclusive (and every value of the range is reachable), RandomDecimal and RandomHexadecimal and RandomString with exactly the requested number of digits and the right alphabet, RandomBoolean true/false, Regex a string the expression matches, Uuid a well-formed v4 UUID in the requested format, ProviderState the value of the expression in the requested type, MockServerURL the example with the mock server's base URL. A generator never panics, and unsatisfiable configurations are reported as errors.",
 ['inputs','fault_sequences'],'every output of the random source (entropy of every thread) and every generator configuration, for string, integer and JSON values',
 'Results are random: a test sees a few draws of one configuration, boundary draws come once in thousands of runs.',
 [M+'generators/mod.rs',M+'expression_parser.rs'],
 [('GenerateValue implementations',M+'generators/mod.rs: impl GenerateValue<u16|String|Vec<String>|Value> for Generator'),('random string/number helpers',M+'generators/mod.rs: generate_value_from_context, generate_decimal, generate_hexadecimal, generate_ascii_string')],
 ['generated value compared with a reference predicate'])
p('C08','Date and time expressions follow the calendar at every instant',
 "For every current instant and every date, time or date-time expression, the evaluated value equals the calendar arithmetic the expression denotes (base now/today/yesterday/tomorrow/o'clock bases, then the +/- operations on years, months, weeks, days, hours, minutes, seconds, milliseconds and next/last weekday or month, in order; 12 o'clock is noon, next/last MONTH is the first day of that month, days, months and years change the calendar date and keep the local time, a day the resulting month does not have becomes its last day). Malformed expressions and results outside the representable range are reported as errors, never as a panic or a wrong date.",
 ['inputs','schedules'],'every wall-clock instant (month ends, leap days, year ends, 12 o\'clock, midnight, daylight saving changes, clock jumps between reads) and every expression of the grammar',
 'Tests evaluate against the real current date or a few fixed ones; month-end, leap-year and noon/midnight cases occur on few days of the year.',
 [M+'generators/datetime_expressions.rs',M+'generators/date_expression_parser.rs',M+'generators/time_expression_parser.rs',M+'generators/mod.rs'],
 [('expression execution',M+'generators/datetime_expressions.rs: execute_date_expression, execute_time_expression, execute_datetime_expression'),('expression parsers',M+'generators/date_expression_parser.rs, time_expression_parser.rs')],
 ['evaluated date-time compared with an independent calendar model'])
p('C09','Generated dates and times are valid in their own format at every instant',
 "Date, Time and DateTime generators with a format give, at every instant of the years 1 to 9999 and in every time zone, the text of that instant in that format, and the library's own validation of that text with the same format accepts it; with no format they give the ISO form. The validation refuses a text in which a field is outside its range (months, days, hours, minutes, seconds, milliseconds, nanoseconds, weeks, offsets). If an expression is present the text denotes the instant the expression evaluates to.",
 ['inputs','schedules'],'every wall-clock instant, local time zone (including daylight saving gaps and overlaps) and every supported format pattern',
 'The formatted text depends on the current clock and zone; tests run at one instant in UTC.',
 [M+'generators/mod.rs',M+'time_utils.rs'],
 [('Generator::Date/Time/DateTime',M+'generators/mod.rs: impl GenerateValue'),('pattern parser, chrono conversion and validator',M+'time_utils.rs: parse_pattern, to_chrono_pattern, validate_datetime')],
 ['generated text re-validated by the library and compared with a reference formatter'])
p('C10','Damaged stored pacts are reported as errors, never as crashes',
 "Reading a pact file whose bytes were truncated, torn, bit-flipped or partly replaced, or whose JSON values have unexpected types, returns either an error or a pact model; it never panics, aborts or hangs, and neither does using the resulting model (serialising, merging, computing keys). A read error or interruption of the storage while reading is returned as an error.",
 ['fault_sequences','inputs'],'every corruption of every stored pact document and every read fault position',
 'Tests read well-formed fixtures; the number of ways stored data can be damaged is unbounded.',
 [M+'pact.rs',M+'sync_pact.rs',M+'message_pact.rs',M+'v4/pact.rs',M+'v4/http_parts.rs',M+'response.rs',M+'request.rs',M+'message.rs',M+'matchingrules/mod.rs',M+'generators/mod.rs',M+'path_exp.rs',M+'json_utils.rs'],
 [('read_pact / load_pact_from_json',M+'pact.rs'),('from_json of all models',M+'*.rs, v4/*.rs')],
 ['outcome of read_pact/load_pact_from_json and of operations on the model'])
p('C11','Applying generators changes exactly the addressed values',
 "Applying an interaction's generators to a request, response or message replaces the value at every path that has a generator for the current mode with that generator's output and leaves every other part of the body, headers, query, path, status and metadata as it was (and the content type of the body), for JSON, form-urlencoded and plain bodies, in the same way in every process. A header, query parameter or metadata key that has a generator and does not exist is added, a generator that fails or whose path does not exist in the body changes nothing, and the original interaction is not modified.",
 ['inputs','schedules'],'every combination of generators, document shapes, paths and random outcomes, in every hash-map iteration order',
 'The set of changed positions depends on path shapes (wildcards, arrays, nested and escaped names) and on random outcomes; tests use a few fixed ones.',
 [M+'generators/mod.rs',M+'generators/form_urlencoded.rs',M+'path_exp.rs',X+'generators/mod.rs',X+'generators/bodies.rs',X+'lib.rs'],
 [('JsonHandler / FormUrlEncodedHandler apply_key',M+'generators/mod.rs, generators/form_urlencoded.rs'),('generate_request / generate_response',X+'lib.rs')],
 ['document before and after, compared position by position'])
p('C12','Pacts fetched over HTTP are loaded whole or not at all',
 "Loading a pact from a URL or a broker over an unreliable network gives either the pact the server holds or an error: a refused or reset connection, a timeout, a truncated or malformed body, an error status or a redirect loop never yields a partial or different pact and never a panic or an endless wait. The configured credentials (basic auth or bearer token) are sent with every request that needs them.",
 ['fault_sequences','inputs'],'every sequence of network faults (connect failure, reset, delay, truncation, error status, redirect) over the requests of a fetch',
 'Tests talk to a mock server on loopback that always answers completely.',
 [M+'http_utils.rs',V+'pact_broker.rs',V+'utils.rs'],
 [('fetch_json_from_url',M+'http_utils.rs'),('HALClient fetch/navigate',V+'pact_broker.rs: fetch, fetch_url, with_retries')],
 ['return value compared with the document on the simulated server','requests received by the simulated server'])
p('C13','The broker client finds exactly the pacts the broker offers',
 "Following HAL links, fetch_pacts_from_broker and fetch_pacts_dynamically_from_broker return exactly the pacts the broker lists for the provider and selectors, each with its notices, tags and links, or an error for what could not be obtained; a pact that could not be fetched or parsed is never dropped silently. Server errors are retried at most the configured number of times with back-off and client errors are not retried.",
 ['fault_sequences','histories'],'every broker state (pacts, links, notices) and every sequence of network faults and server errors over the navigation',
 'The outcome depends on which request of a multi-request navigation fails and how; tests script one failure-free conversation.',
 [V+'pact_broker.rs',V+'lib.rs',V+'utils.rs'],
 [('HAL navigation',V+'pact_broker.rs: HALClient::navigate, find_link, fetch, post_json, put_json'),('retries',V+'utils.rs: with_retries'),('fetch_pacts_*',V+'pact_broker.rs')],
 ['returned pacts/errors compared with the simulated broker state','request log of the simulated broker'])
p('C14','Published verification results state what actually happened',
 "When publishing is configured, for every verified pact that came from a broker exactly one verification result is posted to the link that pact carries, with success=true if and only if every interaction of that pact was executed and passed (pending failures count as failures), with the configured provider version, branch and tags. Nothing is published for pacts that were not verified completely or when publishing is off, and a failure to publish never turns a failed verification into a success. The broker's notices shown for a pact are those for the result it really had and for whether that result was published.",
 ['fault_sequences','histories'],'every mixture of passing, failing, pending, filtered interactions and pacts, provider faults and broker faults during publication',
 'Publishing happens at the end of a long conversation with provider and broker; tests do not run it against a failing provider and broker together.',
 [V+'lib.rs',V+'pact_broker.rs',V+'verification_result.rs'],
 [('publish_result',V+'lib.rs: publish_result, publish_to_broker'),('publish_verification_results',V+'pact_broker.rs')],
 ['requests received by the simulated broker compared with what the simulated provider answered'])
p('C15','The verifier reports success only for a provider that honoured the pact',
 "verify_provider_async returns success only if, for every selected non-pending interaction of every configured pact source, the provider received the interaction's request and its complete answer matched the expected response; every provider fault, mismatch or source that cannot be loaded gives a failed result with an error entry for it. An interaction whose provider answered correctly is not reported as failed, and failures of one interaction or source never hide or change the result of another. Filters select exactly the interactions they describe.",
 ['fault_sequences','schedules','histories'],'every sequence of provider behaviours and network faults over the interactions and pacts of a verification, and every combination of sources, filters and options',
 'The verdict is the aggregate of many exchanges; tests exercise single interactions with a healthy server.',
 [V+'lib.rs',V+'provider_client.rs',V+'messages.rs',V+'request_response.rs',V+'verification_result.rs',X+'lib.rs'],
 [('verify_provider_async / verify_pact_internal / verify_interaction',V+'lib.rs'),('make_provider_request',V+'provider_client.rs')],
 ['VerificationExecutionResult and the request log of the simulated provider'])
p('C16','Provider states are set up before and torn down after each interaction',
 "For every executed interaction with provider states, a setup call for each of its states, in order and with its parameters, precedes the interaction's request, and when teardown is enabled each state that was set up is torn down after it, whatever happened in between (mismatch, provider fault, failing request). If a state cannot be set up the interaction's request is not sent and the interaction fails; values returned by the state change are used by its generators and by no other interaction.",
 ['fault_sequences','histories'],'every sequence of provider-state handler outcomes (success, values, error status, reset, timeout) and interaction outcomes',
 'It is an ordering property over the whole call history under failures; tests look at one call with a working handler.',
 [V+'lib.rs',V+'callback_executors.rs',V+'provider_client.rs'],
 [('execute_state_change, verify_interaction',V+'lib.rs'),('HttpRequestProviderStateExecutor',V+'callback_executors.rs'),('make_state_change_request',V+'provider_client.rs')],
 ['call log of the simulated state handler and provider'])
p('C17','A message damaged in flight is never accepted, an intact one always is',
 "For an interaction with matching rules (including arrays and maps matched by example, values, each-key, each-value, array-contains and status rules, and rules on path, query, headers and metadata, for JSON, XML, form and text bodies), a response, request or message that a reference reading of what is expected and its rules accepts is reported as matching; one that differs from it in a way no rule permits (changed value, missing or extra element, wrong type, wrong length, cut, lost or replaced body, XML element, attribute or text, changed content type, changed status, method, path, query, header or metadata) is reported as a mismatch that names the place and no other place. Which of several rules applies to a place depends only on their paths: the most specific one, however deep the place lies. The verdict is the same in every process.",
 ['inputs','fault_sequences'],'every corruption of an in-flight response, request or message of every expectation with matching rules, in every hash-map iteration order',
 'The number of ways a message can deviate is unbounded and the verdict depends on map iteration order; tests compare fixed examples.',
 [X+'lib.rs',X+'json.rs',X+'headers.rs',X+'query.rs',X+'matchers.rs',X+'matchingrules.rs',X+'form_urlencoded.rs',X+'xml.rs',M+'xml_utils.rs',M+'matchingrules/mod.rs',M+'path_exp.rs'],
 [('match_response / match_request / match_message',X+'lib.rs, json.rs, headers.rs, query.rs'),('rule selection',M+'matchingrules/mod.rs: select_best_matcher; '+M+'path_exp.rs: path_weight; '+X+'matchingrules.rs')],
 ['mismatches returned by match_response, match_request and match_message'])
p('C18','Network stalls never hang the verifier or the broker client',
 "Every verification, broker fetch, state change and result publication ends within a time bounded by its configuration (request timeout, number of retries and their back-off), even if a peer accepts requests and never answers or answers arbitrarily slowly; once the faults stop, the next verification succeeds.",
 ['fault_sequences','schedules'],'every placement and length of stalls over the requests of a verification',
 'A stall of minutes at an arbitrary request cannot be run in a unit test; in simulated time it costs microseconds.',
 [V+'lib.rs',V+'provider_client.rs',V+'pact_broker.rs',V+'utils.rs',V+'callback_executors.rs'],
 [('request timeout of the provider client',V+'lib.rs: verify_pact_internal, provider client set-up'),('with_retries back-off',V+'utils.rs')],
 ['simulated time at which each call returns'])
p('C19','The format check accepts what is written and finds what departs',
 "The check of a pact file's format (PactJsonVerifier of request/response, message and V4 pacts) accepts every file the library itself writes, in strict and lenient mode, and such a file conforms to the JSON schema the library gives for its version. For a document that departs from the format (a missing or unknown attribute, a value of a wrong type at any depth, a malformed specification version) it reports each departure, and nothing else, with the place, the severity the mode calls for and the attribute or type concerned; it never panics, and every process reports the same.",
 ['inputs','histories'],'every document written by any history of writes, and every departure of it from the format, at every place',
 'Tests check a handful of small documents with one departure each, never a file as written by the library after a history of merges.',
 [M+'verify_json.rs',M+'pact.rs',M+'sync_pact.rs',M+'message_pact.rs',M+'v4/pact.rs',M+'provider_states.rs',M+'lib.rs'],
 [('verify_json of each pact type',M+'sync_pact.rs, message_pact.rs, v4/pact.rs, provider_states.rs'),('schemas of the pact types',M+'sync_pact.rs, sync_interaction.rs, lib.rs: schema; verify_json.rs: PactJsonVerifier')],
 ['list of PactFileVerificationResult'])
p('C20','Pacts survive upgrades and downgrades between specification versions',
 "A pact of V2, V3 or V4 form that is read by a process and converted to another version - in memory (as_v4_pact, as_request_response_pact, as_message_pact and the same conversions of single interactions), by writing it with another version, by adding its interactions to a pact of another version, or by merging a pact of another version into its file - keeps everything both versions can hold: descriptions, ids, provider states, method, path, query, headers, status, bodies and their content types, message contents and metadata, matching rules, generators, consumer, provider and the metadata of other tools; what only V4 has gets its default, or is dropped. The file says the version it was written with. Going up and down again gives an equal pact. Every interaction is of exactly one kind (request/response, message, synchronous messages): the predicates, the conversions, the lists by kind and the shared copies all agree on it. A pact with interactions that the version written does not have is refused and the file stays as it was.",
 ['histories','inputs'],'every sequence of upgrades, downgrades, additions and merges by several processes over pacts of every version and content, with any form of the first document',
 'Tests convert single interactions once; loss shows only for particular attributes after a chain of conversions and rewrites.',
 [M+'sync_interaction.rs',M+'message.rs',M+'request.rs',M+'response.rs',M+'v4/pact.rs',M+'v4/synch_http.rs',M+'v4/async_message.rs',M+'v4/sync_message.rs',M+'v4/http_parts.rs',M+'v4/message_parts.rs',M+'sync_pact.rs',M+'message_pact.rs',M+'interaction.rs'],
 [('conversion of pacts',M+'sync_pact.rs, message_pact.rs, v4/pact.rs: as_v4_pact, as_request_response_pact, as_message_pact, to_json, add_interaction'),('conversion of interactions',M+'sync_interaction.rs, message.rs, v4/*.rs: as_v4*, as_request_response, as_message'),('content type of parts',M+'v4/mod.rs: calc_content_type; http_parts.rs: content_type')],
 ['stored file after each step','models returned by the conversions'])
NA=[
('N01','Doc path and matching-rule-definition parsing is total and round-trips',
 "Every string given as a path expression or matching-rule definition is either parsed or refused with an error, and a parsed path prints back to an equivalent path.",
 M+'path_exp.rs','parse_path_exp', 'parser','no schedule, clock, fault or interleaving: a pure function of its input text.'),
('N02','The C ABI never exposes freed or foreign handles',
 "Every exported FFI function tolerates null, stale and foreign handles and reports an error instead of undefined behaviour, from any thread.",
 'rust/pact_ffi/src/models/mod.rs','ffi handles','handle table','pact_ffi cannot be built offline (it needs registry crates that are not here), so there is nothing to simulate.'),
('N03','The mock server reports exactly the requests that did not match',
 "After a consumer test the mock server's result lists every request that did not match and every expected request that was not received, and nothing else.",
 'rust/pact_consumer/src/mock_server.rs','mock server','mock server','the mock server lives in the pact_mock_server crate, which is not in this repository and not in the offline registry.'),
]
for id,t,s,f,n,m,why in NA:
    p(id,t,s,['inputs'],'every input','Inputs are unbounded.',[f],[(m,f+': '+n)])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as fh:
    for x in P: fh.write(json.dumps(x,ensure_ascii=False)+'\n')
json.dump([dict(property=n[0],reason=n[6]) for n in NA],open(os.path.join(os.path.dirname(__file__),'na.json'),'w'),indent=1)
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
