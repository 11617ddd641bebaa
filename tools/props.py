MC = "model_checking"
EX = "exploration"
HIST = "stateless exploration of the real code under a controlled scheduler and environment, against a reference model"
INP = "exhaustive enumeration of a bounded input space on the real code, against a reference model"
PROPS = []
NOT_APPLICABLE = []

def P(id, title, statement, over, quant, why, files, mech, level, technique, note, hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, level=level, technique=technique, note=note, hook=hook))

P("C01", "Batched loads return exactly their own keys' results",
  "Whatever the timing of concurrent loads through the batching data loader, every load that is not abandoned ends, and returns exactly the values its batch produced for the keys it asked for: no other key, no missing key, and the error of its own batch when that batch failed. Abandoning one load changes nothing for the others.",
  ["schedules", "histories"], "All orders of polls, timers, answers and cancellations of up to 3 (4) concurrent loads; all thread schedules with up to 2 (3) deviations of 2-3 threads.",
  "The unit tests run one schedule of the runtime with an always successful loader.",
  ["src/core/data_loader/data_loader.rs"], [("load_many, do_load", "src/core/data_loader/data_loader.rs")],
  MC, HIST, "every event order and every schedule within the stated bounds, on the real loader", "locks, atomics and the batching delay under cfg(vp_mc)")
P("C02", "Keys waiting to be loaded go out once, in full batches, on time",
  "A batch sent by the data loader is never empty, names no key twice and carries exactly the distinct keys of the loads waiting when it is sent. It is sent as soon as the distinct waiting keys reach the maximum batch size, otherwise when a delay ends, at the latest the configured one after its first load; no key ever waits without a timer that will send it.",
  ["schedules", "histories"], "All event orders of up to 3 loads for maximum batch sizes 1,2,3,4,1000; all schedules of 2 threads with up to 2 (3) deviations.",
  "The tests check one batch size on one timing.",
  ["src/core/data_loader/data_loader.rs"], [("Requests, Action, max_batch_size, delay", "src/core/data_loader/data_loader.rs")],
  MC, HIST, "every event order and every schedule within the stated bounds, on the real loader", "locks, atomics and the batching delay under cfg(vp_mc)")
P("C03", "The data loader's cache behaves like a map, and forgets failures",
  "In front of the data loader the cache behaves like a map (or a least-recently-used list of its capacity): a cached key is returned without being sent again, every value of a successful batch and every fed value is kept, clearing empties it and a failed batch adds nothing. Switched off, it is neither read nor written, and what it held is there again once it is back on.",
  ["histories", "schedules"], "All histories of up to 4 (5) operations over 11, LRU capacities 1-3, all event orders of up to 3 loads in flight with the cache emptied or fed at any moment, all schedules of 2 threads with up to 2 (3) deviations.",
  "The tests follow three fixed histories.",
  ["src/core/data_loader/data_loader.rs", "src/core/data_loader/cache.rs"], [("CacheStorage, enable_cache, enable_all_cache, feed_many, clear", "src/core/data_loader")],
  MC, HIST, "every history within the bounds, on the real loader and caches", "locks and an LRU constructor under cfg(vp_mc)")

P("C04", "Deduplicated work runs once per key and reaches every caller",
  "Callers that share a key at the same time run its work once between them and all get the result of that run, whatever the timing. Callers of different keys never share a result. A caller that gives up does not take the others with it: as long as one still waits, it ends with a result. A result that is kept is returned to later callers without running again; one that is not kept is computed afresh by the next caller.",
  ["schedules", "histories"], "All event orders of up to 3 (4) callers over 2 keys with cancellation, all thread schedules with up to 3 (5) deviations of 2-3 callers.",
  "The tests run one timing of a fixed number of callers.",
  ["src/core/data_loader/dedupe.rs"], [("Dedupe::dedupe", "src/core/data_loader/dedupe.rs")],
  MC, HIST, "every event order and schedule within the stated bounds, on the real type", "the lock of the table under cfg(vp_mc)")
P("C05", "The in-memory cache is a map whose entries expire, and reports its hit rate",
  "A value put in the in-memory cache is returned until its time to live is over and never afterwards; the last value put for a key wins, with its own time to live. The cache never holds more than its capacity. The hit rate is the part of the gets so far that were answered, and absent before the first get. Concurrent operations behave as if run one after another.",
  ["histories", "schedules"], "All histories of up to 5 (6) puts, gets and clock steps over 2 keys and 2 times to live; all thread schedules with up to 4 (6) deviations.",
  "The tests follow three fixed histories on the real clock.",
  ["src/core/cache/cache.rs"], [("InMemoryCache", "src/core/cache/cache.rs")],
  MC, HIST, "every history and schedule within the bounds, on the real cache under a controlled clock", "the hit counters under cfg(vp_mc)")
P("C06", "The HTTP response cache keeps the latest responses, each with its policy",
  "The HTTP response cache returns for a key exactly the response and policy last put for it, until it is deleted or cleared; deleting a key leaves the others alone. It keeps at most its capacity, dropping the responses used least recently.",
  ["histories"], "All histories of up to 4 (5) puts, gets, deletes and clears over 3 keys for capacities 1, 2 and 10.",
  "The tests put, get and delete one key.",
  ["tailcall-http-cache/src/cache.rs"], [("HttpCacheManager", "tailcall-http-cache/src/cache.rs")],
  MC, HIST, "every history within the bounds, on the real cache manager")
P("C07", "A response is cached no longer, and no more openly, than its upstreams allow",
  "The max-age of a response is the smallest max-age any upstream answer allowed, with no caching at all for one that forbids it, and the response is private as soon as one of them is, whatever the order or the concurrency in which the answers arrive. Counters hand out consecutive numbers, never the same twice.",
  ["histories", "schedules"], "All sequences of up to 3 (5) of 10 cache-control headers; all schedules of 2 threads with up to 4 (8) deviations.",
  "The tests have no concurrent answers.",
  ["src/core/http/request_context.rs", "src/core/counter.rs"], [("set_cache_control", "src/core/http/request_context.rs"), ("Counter", "src/core/counter.rs")],
  MC, HIST, "every sequence and schedule within the bounds, on the real context", "locks and counters under cfg(vp_mc)")

P("C08", "Only equal upstream requests share a batch slot or a cached answer",
  "Two upstream requests count as the same load exactly when they agree in URL, in body and in the values of the headers the upstream declares as relevant for batching. This is an equivalence, hashes agree with it, and requests that merely hash alike stay apart. A copy of a request, and the request finally sent, are the request itself.",
  ["inputs"], "All pairs of requests from 15 URLs, 15 bodies, 3 methods, up to two of 7 headers and batch header sets of up to two names; pairs built to collide in the 64-bit hash.",
  "The tests compare four pairs.",
  ["src/core/http/data_loader_request.rs", "tailcall-hasher/src/lib.rs"], [("DataLoaderRequest", "src/core/http/data_loader_request.rs"), ("TailcallHasher", "tailcall-hasher/src/lib.rs")],
  EX, INP, "every pair within the bounds, against the identity the statement gives")
P("C09", "A query batch asks for every id of its requests, and for nothing else",
  "A batch of requests that differ in one query parameter is sent as one request: the first one, with the other parameters once each and the grouping parameter once for every request of the batch, in order. Path, headers, body and method are the first request's.",
  ["inputs"], "All batches of up to 3 (4) of 10 requests onto 3 base requests, and of 2 onto 6, for 5 grouping parameters; long batches up to 1000.",
  "The tests merge two fixed batches.",
  ["src/core/http/transformations/query_batching.rs"], [("QueryBatching", "src/core/http/transformations/query_batching.rs")],
  EX, INP, "every batch within the bounds, on the real transformation")
P("C10", "A body batch is the JSON list of exactly its requests' bodies, in order",
  "A batch of requests that differ in their body is sent as one request whose body is the list of the bodies of the batch, in order, nothing lost, repeated or altered. The rest of the request stays as it was.",
  ["inputs"], "All batches of up to 3 (5) of 11 bodies or none, on 3 base requests; long batches up to 1000, bodies up to 100 kB.",
  "The tests merge two fixed batches.",
  ["src/core/http/transformations/body_batching.rs"], [("BodyBatching", "src/core/http/transformations/body_batching.rs")],
  EX, INP, "every batch within the bounds, on the real transformation")
P("C11", "A batched answer is distributed to exactly the requests it belongs to",
  "Every entry of a batched answer whose id at the configured path equals the id a request asked for reaches that request, in order, and no other request; a request with no entry gets nothing. Ids are compared as they are written, large integers included. Only requests that agree in everything but the id are batched together.",
  ["inputs"], "All documents of depth up to 2, all lists of up to 3 (4) of 16 entries, all pairs of 26 ids, all batches of up to 3 (4) of 5 requests, lists up to 1000.",
  "The tests group three fixed documents.",
  ["src/core/json/json_like.rs", "src/core/json/json_like_list.rs", "src/core/config/group_by.rs", "src/core/http/data_loader.rs"],
  [("gather_path_matches, group_by_key", "src/core/json/mod.rs"), ("HttpDataLoader::load", "src/core/http/data_loader.rs"), ("GroupBy", "src/core/config/group_by.rs")],
  EX, INP, "every document and batch within the bounds, against an independent grouping")
P("C12", "Every JSON representation answers every question about a document alike",
  "The representations a document can take inside the system agree on its kind, its scalars, its elements and fields in their order, and what any path leads to. Converting between them loses nothing, and building a document piece by piece yields the document it describes.",
  ["inputs"], "All documents of depth up to 1 over 23 leaves and of depth 2 over 2 (3) leaves; objects and lists up to 1000 entries, nesting up to 100 levels; all histories of up to 4 (5) insertions.",
  "The tests look at a handful of values of one representation.",
  ["src/core/json/json_like.rs", "src/core/json/graphql.rs", "src/core/json/borrow.rs", "src/core/json/serde.rs"], [("JsonLike, JsonObjectLike", "src/core/json/json_like.rs")],
  EX, INP, "every document within the bounds in each representation, against one reference reading")
P("C13", "A union or interface value is given the type name it says it has",
  "Where a field may return several types, each object of the answer, however deep in lists, gets as its type name the name it carries at the discriminating field (or, without such a field, the name of its only key), provided that is one of the possible types. A missing, ill-typed or foreign name is an error that says so, and null stays null. Setting a type name changes nothing else.",
  ["inputs"], "All lists of up to 4 (5) of 11 values, all objects of depth up to 2, all pairs of 12 type names, lists, objects and type sets up to 1000.",
  "The tests resolve a few fixed values.",
  ["src/core/ir/discriminator.rs", "src/core/json/json_like_list.rs"], [("Discriminator", "src/core/ir/discriminator.rs"), ("TypedValue", "src/core/ir/discriminator.rs")],
  EX, INP, "every value within the bounds, against a reference reading")
P("C14", "Merging configurations keeps all of the left and lets the right win",
  "Merging two configuration values keeps what only one of them says, takes the right-hand one where both give a single value, joins lists, and merges maps key by key; it is associative and an empty right-hand side changes nothing. A merged structure is the merge of its parts. A pair table finds an entry from either of its two names, and a list of key-value pairs keeps one value per key, the right-hand one's.",
  ["inputs"], "All pairs of containers over 4 keys, of GraphQL and YAML values of depth up to 2, all histories of up to 3 (4) additions to a pair table, containers up to 1000 entries, nesting up to 100 levels.",
  "The tests merge a few fixed values.",
  ["src/core/merge_right.rs", "src/core/config/key_values.rs", "src/core/config/transformer/merge_types"],
  [("MergeRight", "src/core/merge_right.rs"), ("PairMap, PairSet", "src/core/config/transformer/merge_types/pair_map.rs"), ("merge_key_value_vecs", "src/core/config/key_values.rs")],
  EX, INP, "every pair within the bounds, against reference merge rules")
P("C15", "Every setting given by two configurations ends as the last one says",
  "After merging server, upstream, telemetry and CORS settings, each setting has the value of the last configuration that mentions it (lists and header tables are joined), and one that nobody mentions has its documented default. A setting that does not exist is refused, and settings survive being written and read again.",
  ["inputs"], "All pairs of settings of each kind, each absent or at one of up to 8 values, on both sides; each setting left out on the right; all triples in the thorough tier.",
  "The tests merge two or three fixed settings.",
  ["src/core/config/directives", "src/core/config/cors.rs", "src/core/config/headers.rs"], [("Server, Upstream, Telemetry", "src/core/config/directives"), ("Cors", "src/core/config/cors.rs"), ("Headers", "src/core/config/headers.rs")],
  EX, INP, "every pair of settings within the bounds, against a reference table")
P("C16", "A template is read and rendered exactly as it is written",
  "Reading a template splits it into its literal text and its expressions without losing or inventing a character (a quotation mark that stands alone is dropped), text that is not a well-formed expression stays literal, and writing it again gives a template that means the same. Rendering replaces each expression by the value its path leads to, nothing if there is none, and leaves the literal text alone.",
  ["inputs"], "All texts of up to 5 (6) of 15 pieces, all sequences of up to 4 (5) of 11 segments, all paths of up to 3 of 5 names into 12 documents, templates up to 1000 segments.",
  "The tests read some twenty fixed templates.",
  ["src/core/mustache/parse.rs", "src/core/mustache/model.rs", "src/core/path.rs"], [("Mustache::parse", "src/core/mustache/parse.rs"), ("Mustache, Segment", "src/core/mustache/model.rs")],
  EX, INP, "every text within the bounds, against an independent scanner")
P("C17", "A REST endpoint matches its own paths and passes values as typed",
  "A request matches a REST endpoint exactly if it has the endpoint's method and all of its path segments, literal ones equal and parameters of a text its type allows. Each path and query parameter reaches the operation as a value of the type of the variable it is bound to, and a text of another type is an error that names that type. A parameter that no variable declares is refused when the endpoint is read.",
  ["inputs"], "All patterns of up to 3 (4) of 6 segments against all paths of up to 4 of 7; 28 texts as each type; all sets of up to 3 of 5 query parameters bound to 7 variables; patterns up to 1000 segments.",
  "The tests match a few fixed paths.",
  ["src/core/rest"], [("Path", "src/core/rest/path.rs"), ("QueryParams", "src/core/rest/query_params.rs"), ("UrlParamType, TypedVariable", "src/core/rest/typed_variables.rs"), ("Endpoint", "src/core/rest/endpoint.rs")],
  EX, INP, "every pattern and request within the bounds, against a reference matcher")
P("C18", "The REST directive of an operation is read as it is written",
  "Reading the directive that turns an operation into a REST endpoint yields exactly its method, path, query bindings and body variable, whatever the order of the arguments. A document yields one endpoint for each operation that carries the directive, and a malformed directive is an error.",
  ["inputs"], "All sequences of up to 4 (5) of 20 arguments in every order and with repetitions; all documents of up to 3 of 4 operations.",
  "The tests read one directive.",
  ["src/core/rest/directive.rs"], [("Rest", "src/core/rest/directive.rs")],
  EX, INP, "every directive within the bounds, against a reference reading")
P("C19", "Every scalar accepts exactly the values of its kind",
  "Each predefined scalar accepts exactly the values it is documented to stand for: an integer scalar the integers of its width, given as a number or (where it is wider than a JSON number can carry) as a text, a date or time scalar the dates and times there are, and JSON every value. Any other name is no predefined scalar, and a custom scalar accepts everything. What a scalar is described as agrees with what it accepts.",
  ["inputs"], "Every scalar with all documents of depth up to 1 over 23 leaves, all numbers at and around every bound with up to two further characters, dates and times put together from parts in and out of range; all scalar names and 100 other names.",
  "The tests try two or three values of a few scalars.",
  ["src/core/scalar.rs"], [("Scalar", "src/core/scalar.rs")],
  EX, INP, "every scalar with every value within the bounds, against a reference table")
P("C20", "A wrapped type is what it is written as, however deep its lists",
  "A type of any number of lists, each level required or not, keeps its name, its nesting and which levels are required through every question asked of it, is written as GraphQL writes it and read back as the same type, and is equal only to itself. Making it a list, nullable or required changes only its outermost level.",
  ["inputs"], "All types of up to 6 (9) lists with each level required or not, every operation on each; all pairs of types of up to 3 lists and two names.",
  "The tests look at four fixed types.",
  ["src/core/wrapping_type.rs"], [("Type", "src/core/wrapping_type.rs")],
  EX, INP, "every type within the bounds, against a reference printing")
P("C21", "Names and types generated from foreign schemas say where they come from",
  "A type generated from a foreign schema is named after its namespace and its own name, every part in its order and marked as generated unless it is a predefined scalar; fields and enum values keep their own names and numbered names never repeat. A value (not a fractional number) is given the type of its kind. A comment or a descriptor path belongs to exactly the element it is asked for.",
  ["inputs"], "All texts of up to 3 (4) of 14 pieces and of 12 characters, all documents of depth up to 1, all kinds of names in namespaces of up to 3 of 9 parts, all bases and indices of descriptor paths, all comments at up to 3 of 6 locations.",
  "The tests check a dozen fixed names.",
  ["src/core/generator/graphql_type.rs", "src/core/generator/proto", "src/core/helpers/gql_type.rs", "src/core/counter.rs"],
  [("GraphQLType, Namespace", "src/core/generator/graphql_type.rs"), ("CommentsBuilder", "src/core/generator/proto/comments_builder.rs"), ("PathBuilder", "src/core/generator/proto/path_builder.rs"), ("to_gql_type, is_valid_field_name", "src/core/helpers/gql_type.rs")],
  EX, INP, "every text and name within the bounds, against a reference reading")
P("C22", "Composed configuration steps run in order and report every failure",
  "Steps composed one after the other each see what the one before made of the configuration; if one fails, the next still runs on what it was before, and the errors of all of them are reported, in order and under their traces. A chain of transformations, by contrast, stops at the first that fails, and one that is switched off leaves the configuration as it is.",
  ["inputs"], "All compositions of up to depth 2 by each combinator over 4 steps; all lists of up to 6 (8) of 3 steps; all chains of transformations of depth up to 3; a list of 1000 steps.",
  "The tests compose three fixed steps.",
  ["src/core/try_fold.rs", "src/core/transform.rs"], [("TryFold", "src/core/try_fold.rs"), ("Transform, TransformerOps", "src/core/transform.rs")],
  EX, INP, "every composition within the bounds, against a reference interpreter of steps", "core::transform made public under cfg(vp_mc)")
P("C23", "A directive is read as it is written and written as it was read",
  "Reading a directive gives exactly the arguments it is given, with the documented default for each one left out; a required argument that is missing, a value of the wrong kind and (where the directive is strict) an argument it does not know are errors that name the directive. Writing it again gives a directive that reads the same, and of several directives of one name the first counts.",
  ["inputs"], "For each of 14 directives, every choice of the required arguments (or all but one) and up to 2 (3) others, each with any of up to 20 values right and wrong, and an unknown argument; all lists of up to 4 of 4 directives; any directive with documents of depth up to 1.",
  "The tests read two directives.",
  ["src/core/directive.rs", "src/core/config/directive.rs", "src/core/config/directives"], [("DirectiveCodec", "src/core/directive.rs"), ("to_directive, to_const_directive", "src/core/config/directive.rs"), ("Http, Grpc, GraphQL, Call, Expr, Link, ...", "src/core/config/directives")],
  EX, INP, "every directive within the bounds, against a table of its arguments", "the generic directive made public under cfg(vp_mc)")
P("C24", "A reported error tells all it knows: message, place, and every cause",
  "The report of an error shows its message, its description and where it happened, and below it every cause, each indented one step further than what it explains, colours apart the same with and without colour. Turning any error of the system into a report keeps its message, its description, its trace and its causes, and never fails.",
  ["inputs"], "All trees of up to 2 causes (each with up to one) over 4 messages, 3 descriptions and 3 traces; trees of up to 3 causes with up to 3 each over 4 messages; chains up to 40; all validation errors of up to 3 causes; chains of up to 3 errors of each kind.",
  "The tests print five fixed errors.",
  ["src/core/errata.rs", "src/core/error.rs"], [("Errata", "src/core/errata.rs")],
  EX, INP, "every error within the bounds, against an independent printer")
P("C25", "Of several authentication providers the right verdict is given",
  "Authentication by one provider or another succeeds exactly if one of them lets the request in, and otherwise reports the most specific failure (an invalid credential over an unreadable one over a missing one); by one and another it succeeds exactly if both do, and otherwise reports the first failure. Passing a verdict on changes nothing about it.",
  ["inputs"], "All formulas of depth up to 2 over 6 verdicts; all chains of up to 5 (6) verdicts.",
  "The tests combine two verdicts.",
  ["src/core/auth/verification.rs", "src/core/auth/error.rs"], [("Verification", "src/core/auth/verification.rs")],
  EX, INP, "every formula within the bounds, against its truth table", "the verdict type made public under cfg(vp_mc)")

P("C26", "What a name, a header or a value is taken for is what it is written as",
  "The format of a configuration (and the formatter of a file) is told by the ending of its name alone, whatever its case and the folder it is in. A header is accepted exactly if its name is one, and every one that is not is reported; values that are equal have equal hashes whatever the order of their fields, and different texts different ones. An HTTP method is written, read and sent as its own name, and the log level is the one that is set.",
  ["inputs"], "All paths of up to 2 of 5 folders, 7 names and 12 endings in 3 spellings; up to 3 headers of 11 names and 4 values; all pairs of values of depth up to 1 and of texts of up to 3 of 4 characters; all methods; 9 values of each of two settings.",
  "The tests try three paths and four values.",
  ["src/core/config/source.rs", "src/core/helpers/headers.rs", "src/core/helpers/value.rs", "src/core/http/method.rs", "src/core/tracing.rs", "tailcall-prettier", "tailcall-version"],
  [("Source", "src/core/config/source.rs"), ("to_mustache_headers", "src/core/helpers/headers.rs"), ("hash, HashableConstValue", "src/core/helpers/value.rs"), ("Method", "src/core/http/method.rs"), ("get_log_level", "src/core/tracing.rs"), ("Parser", "tailcall-prettier/src/parser.rs")],
  EX, INP, "every name, header and value within the bounds, against an independent reading")
P("C27", "The published definition of the configuration language is what is read",
  "Each directive of the configuration language is published with exactly its name, its places, whether it may be repeated, and its arguments with their types; and every type an argument needs is published once. Any input or directive described by a JSON schema is published with all of its fields, required exactly if they are, and their descriptions. Printing a served schema yields a document that reads as that schema.",
  ["inputs"], "All 17 directives, each after every other; all input types of up to 2 fields of 11 shapes; all directives of one field in 5 (21) sets of places with up to 2 further definitions, of which one may be known; schemas of up to 2 objects of up to 2 fields.",
  "The tests publish three fixed types.",
  ["tailcall-typedefs-common", "tailcall-macros", "src/core/print_schema.rs", "src/core/config/directives"],
  [("into_directive_definition", "tailcall-typedefs-common/src/directive_definition.rs"), ("into_input_definition", "tailcall-typedefs-common/src/input_definition.rs"), ("DirectiveDefinition", "tailcall-macros"), ("print_schema", "src/core/print_schema.rs")],
  EX, INP, "every schema within the bounds, against a reference reading")
P("C28", "Protected data reaches only those who may see it",
  "A request that reads anything protected, anywhere in it and however it is spelled, gets the data exactly if its credentials satisfy every provider that any of it demands; otherwise it gets an error and no data, and no upstream of a protected field is asked. Nothing that anyone was told before, in the same batch or in an earlier request, changes that.",
  ["inputs", "histories"], "All sets of up to 2 (3) of 7 protected places, each by one of 4 sets of providers, with 15 queries by 6 visitors; 6 sites with every history of 2 (3) of 15 queries by 4 visitors, every batch of two, and every pair of visits to two endpoints.",
  "The tests send one request with right and with wrong credentials for a few configurations, each to a fresh server.",
  ["src/core/auth", "src/core/blueprint/auth.rs", "src/core/blueprint/operators/protected.rs", "src/core/jit/transform", "src/core/jit/graphql_executor.rs", "src/core/http/request_handler.rs"],
  [("CheckProtected, is_protected", "src/core/jit/transform/check_protected.rs"), ("AuthPlanner", "src/core/jit/transform/auth_planner.rs"), ("GlobalAuthContext, AuthVerifier", "src/core/auth"), ("update_protected", "src/core/blueprint/operators/protected.rs")],
  MC, HIST, "every history on the real server, against the answer of an unprotected one and a table of permissions")
P("C29", "A request is answered as if it were the only one ever sent",
  "Whatever has been asked before, is asked at the same time or is sent in the same batch, by the same user or by others, and in whatever order the upstreams answer: every request gets the data and the errors it would get on its own from a fresh server, as long as the upstreams answer the same. In particular it is its own operation, its own variables and its own user whose answer it gets.",
  ["histories", "schedules"], "48 requests (several operations in one document, variables that skip, include and fail, shared, cached and batched fetches by three users, mutations, introspection, invalid ones): every history of 2 (3), every pair at the same time and every batch of 2, with and without upstream batching, in every order in which upstreams answer and delays end.",
  "The tests send each request to a fresh server, one after the other.",
  ["src/core/jit/graphql_executor.rs", "src/core/async_graphql_hyper.rs", "src/core/app_context.rs", "src/core/http/request_handler.rs", "src/core/ir/eval_io.rs", "src/core/http/request_template.rs", "src/core/graphql/request_template.rs", "src/core/data_loader"],
  [("JITExecutor", "src/core/jit/graphql_executor.rs"), ("OperationId", "src/core/async_graphql_hyper.rs"), ("eval_io", "src/core/ir/eval_io.rs"), ("CacheKey", "src/core/ir/model.rs")],
  MC, HIST, "every history and schedule on the real server, against the answers of fresh ones", "time and locks replaced under cfg(vp_mc)")
P("C30", "A query is answered with what it selects, from where the schema says",
  "The answer has exactly the fields the query selects, under the names and in the order it selects them: fragments apply to the objects that are of all the types around them, what is selected several times is answered once with all of its parts, and what is skipped or not included, itself or with a fragment around it, is not there. Every field has the value its own resolver or its parent's answer gives for that very object, at any depth, in lists and under aliases.",
  ["inputs"], "Queries on a schema with objects, lists, an interface, a union and nested resolvers: every pair of 17 fields under 4 roots, up to 3 roots, fragments on 5 types inside one another around 4 fields, every pair of conditions with all values of 2 variables, objects selected in up to 3 places.",
  "The tests fix one query per feature.",
  ["src/core/jit/builder.rs", "src/core/jit/model.rs", "src/core/jit/exec.rs", "src/core/jit/exec_const.rs", "src/core/jit/synth/synth.rs", "src/core/jit/transform/skip.rs"],
  [("Builder::iter", "src/core/jit/builder.rs"), ("Field::skip, field_is_part_of_value", "src/core/jit/model.rs"), ("ExecutorInner::execute", "src/core/jit/exec.rs"), ("Synth", "src/core/jit/synth/synth.rs")],
  MC, INP, "every query within the bounds, sent to the real server and compared with a reference executor")
P("C31", "Resolvers are given the arguments of the query, and mutations run in order",
  "The upstream is sent exactly the arguments the query gives, by text or by variable: what is not given has the default value of the variable, the argument or the input field, or is absent, and a null or nothing where a value is required is refused before anything is sent. The root fields of a mutation run one after another, in the order of the query, each with everything below it, whatever the order in which upstreams answer.",
  ["inputs", "schedules"], "10 fields with up to 2 arguments of 6 types, each given in every way (absent, null, text, variables null or not, with or without default, set or not); every input object of 4 fields, one in another; mutations of up to 4 (5) fields in every order of answers.",
  "The tests give one value to each kind of argument and no mutation has two fields.",
  ["src/core/jit/transform/input_resolver.rs", "src/core/jit/exec.rs", "src/core/jit/builder.rs", "src/core/jit/context.rs"],
  [("recursive_parse_arg", "src/core/jit/transform/input_resolver.rs"), ("ExecutorInner::init", "src/core/jit/exec.rs")],
  MC, HIST, "every request and every order of answers within the bounds, on the real server")
P("C32", "Upstream is sent exactly the request its template says",
  "Whatever the values are, the request @http sends is the one the template says with the values in their places: each query parameter has its name and the whole value (a list several times), and no value adds, drops or changes another parameter or the ones of the URL; segments of the path, headers and the strings of a JSON or form body hold exactly the text of the value; the method and the encoding are the ones given, and there is nothing else in it but allowed headers of the client.",
  ["inputs"], "3 base URLs with 6 query templates, paths, headers, 5 methods, 4 bodies in 2 encodings, over 7 types of arguments with 13 texts and up to 4 other values, null or none, in pairs; values from the parent, nested ones, variables of the server, headers of the client; @call.",
  "The tests use plain words as values.",
  ["src/core/http/request_template.rs", "src/core/http/query_encoder.rs", "src/core/mustache", "src/core/path.rs", "src/core/ir/eval_context.rs", "src/core/serde_value_ext.rs", "src/core/helpers/headers.rs", "src/core/endpoint.rs"],
  [("RequestTemplate::to_request", "src/core/http/request_template.rs"), ("QueryEncoder", "src/core/http/query_encoder.rs"), ("PathString, PathValue", "src/core/path.rs")],
  MC, INP, "every request within the bounds, sent by the real server and read back as an upstream would read it")
P("C33", "An answer is of the types of the schema, or an error",
  "Whatever the upstream answers: at each place of the data there is a value of its declared type at every level of its lists, and null only where the type permits it. An enum has one of its values, the scalars tailcall defines have values in their range, an object is an object and has what its type requires, a list is a list. What is of the right type is answered as the upstream gave it; otherwise there is null where that is permitted for a value of the wrong shape, or no data and an error at the place that has no right answer. The values of predefined and custom scalars are passed on, not judged.",
  ["inputs"], "9 wrappings (up to two lists, null or not at each level) of 6 types in 5 places (root, property, resolver, and properties and resolvers of a list of two) with 174 answers (atoms, objects, lists of up to two, lists of lists).",
  "The tests have a handful of answers with a null.",
  ["src/core/jit/synth/synth.rs", "src/core/jit/exec.rs", "src/core/jit/store.rs", "src/core/wrapping_type.rs", "src/core/scalar.rs", "src/core/blueprint/definitions.rs", "src/core/blueprint/index.rs"],
  [("Synth::iter_inner", "src/core/jit/synth/synth.rs"), ("fix_dangling_resolvers", "src/core/blueprint/definitions.rs")],
  MC, INP, "every type and answer within the bounds, on the real server, against the completion rules of the specification")
P("C34", "Data joined in batches is the data joined one by one",
  "Fields that fetch what belongs to each of many parents in calls for many ids at once (batchKey of @http, by a query parameter or a JSON body, or batched @graphQL) answer each parent with exactly the records the upstream has for its id, one or all of them in the order of the upstream, and with null or none for an id without any, whatever the number and order of parents, ids that repeat, are null or of several types, how the calls are cut and in which order they are answered. If a call fails the query has an error, not data of the others.",
  ["inputs", "schedules"], "8 ways to ask (parameter, several parameters, nested and wrapped records, other names, JSON and text bodies, GraphQL), every list of 2 parents out of 7 ids with every choice of up to 2 (3) of 6 records in both orders; up to 3 (4) parents with calls of at most 1, 2 or 3 ids in every order of answers; 3 levels; a failing call.",
  "The tests join two fixed tables whose answer is always complete and immediate.",
  ["src/core/data_loader", "src/core/http/data_loader.rs", "src/core/http/data_loader_request.rs", "src/core/http/transformations", "src/core/config/group_by.rs", "src/core/graphql/data_loader.rs", "src/core/ir/eval_http.rs", "src/core/json"],
  [("HttpDataLoader::load", "src/core/http/data_loader.rs"), ("BodyBatching, QueryBatching", "src/core/http/transformations"), ("GroupBy", "src/core/config/group_by.rs"), ("DataLoader", "src/core/data_loader/loader.rs")],
  MC, HIST, "every table, list of parents and schedule on the real server, against a join done one by one", "time and locks replaced under cfg(vp_mc)")
P("C35", "A GraphQL upstream is asked for what the query selects, and answers it",
  "The request @graphQL sends is valid JSON with a query the upstream can parse, whatever the values are: it calls the field the configuration names with exactly the configured arguments, and selects the fields of the client's query that are the upstream's own, under the upstream's names, at any depth, in fragments by type, each with the arguments and directives given, by text or by variable; fields with resolvers of their own are not asked for, and abstract types are asked for their type. The answer's data are answered and its errors passed on, and what is no answer is an error, alone or in a batch. (A field asked for twice under aliases with different arguments is out of scope: Tailcall sends no aliases; so are enumerators in variables.)",
  ["inputs"], "21 values at 12 places, written or in variables, alone or in a batch; 6 headers; every selection of up to 2 (3) of 25 fields and fragments in 4 places; up to 3 of 10 on an interface; 15 answers in pairs; 9 batch answers with 2 statuses.",
  "The tests compare the text of a dozen queries with plain values.",
  ["src/core/graphql", "src/core/jit/transform/graphql.rs", "src/core/ir/eval_io.rs", "src/core/ir/eval_http.rs", "src/core/ir/eval_context.rs", "src/core/path.rs", "src/core/mustache"],
  [("RequestTemplate::render_graphql_query", "src/core/graphql/request_template.rs"), ("compute_selection_set", "src/core/jit/transform/graphql.rs"), ("GraphqlDataLoader", "src/core/graphql/data_loader.rs"), ("parse_graphql_response", "src/core/ir/eval_http.rs")],
  MC, INP, "every query, value and answer within the bounds, sent by the real server and read by a GraphQL parser")
P("C36", "A gRPC upstream is sent the message meant, and its answer is the data",
  "The message @grpc sends is the one its body describes: every field present with the value given, whatever the value is, of every kind of field a proto3 file can declare, in one frame with the right length, to the path of the method. The answer's message is the data, by protobuf's JSON mapping, every field of the types the configuration declares, whatever encoding the upstream chose among the valid ones. With a batch key the values asked for at once go in one message, each key once and none left out, users' headers apart, and each field gets the element with its key. A status other than OK is an error with its code, message and details; an answer that cannot be read is an error; types that contain themselves are served. (Templates in a field of their own are in scope for texts, numbers and enumerators; batch keys for integers, texts and enumerators; answers uncompressed.)",
  ["inputs", "schedules"], "23 kinds of fields with every value of a pool and all pairs, sent in 3 forms and answered in 4 encodings, batching or not; batches of up to 2 (3) fields of 3 keys of 5 kinds and 2 users; 17 statuses with up to 2 details; every cut of a message.",
  "The tests convert a handful of messages of one service.",
  ["src/core/grpc", "src/core/blueprint/operators/grpc.rs", "src/core/ir/eval_io.rs", "src/core/ir/eval_http.rs", "src/core/json/json_schema.rs", "src/core/mustache", "tailcall-upstream-grpc"],
  [("ProtobufOperation", "src/core/grpc/protobuf.rs"), ("RequestTemplate::render", "src/core/grpc/request_template.rs"), ("GrpcDataLoader", "src/core/grpc/data_loader.rs"), ("execute_grpc_request", "src/core/grpc/request.rs")],
  MC, INP, "every message, answer and batch within the bounds, sent by the real server and read and made by an independent protobuf encoder")
P("C37", "A configuration generated from samples serves what was sampled",
  "The configuration made from sampled requests and answers, as it is or after any of the transformations that tidy it, is one the server accepts; in front of the upstream that was sampled it answers each sample's own data, under its own names, with a type for every part of it, and it calls the URL that was sampled, with the same path, query parameters and body, when it is given the arguments they stand for. (What stands in one place of the elements of a list is always an object, always a list, or always neither, null aside; a parameter that is a list with commas is sent as several parameters; the numbers sampled are integers.)",
  ["inputs"], "Every uniform document of depth 2 over 3 (4) leaves and 2 keys with lists of up to 2, and of depth 3; every pair of 22 (36) names; every pair (triple) of 14 samples with queries and mutations of 2 (5) bodies; every URL of up to 2 (3) of 16 segments and up to 2 of 14 parameters; with 1 (3) sets of transformations.",
  "The tests compare the text generated from a handful of recorded answers.",
  ["src/core/generator", "src/core/config/transformer", "src/core/helpers/gql_type.rs", "src/core/config/into_document.rs"],
  [("Generator::generate", "src/core/generator/generator.rs"), ("TypeGenerator", "src/core/generator/json/types_generator.rs"), ("Preset", "src/core/config/transformer/preset.rs"), ("detect_gql_data_type", "src/core/helpers/gql_type.rs")],
  MC, INP, "every sample within the bounds, generated by the real generator and served by the real server")
P("C38", "Tidying up a configuration changes no answer",
  "Merging types that are alike, giving better names, removing what is unused, telling input from output types, flattening nested unions and every combination of them in a preset leave what the configuration serves as it is: each query that does not name types has the same answer after the same calls upstream, with the same arguments. (Names of types may become others.)",
  ["inputs"], "Every type of up to 2 (3) of 19 fields (of values, lists, other types, with resolvers, arguments, other names, other types of the same name) and another one like it but for one field, with 2 (4) transformations; up to 2 (3) of 13 groups of types of every kind with 9 transformations.",
  "The tests compare the text of a few transformed configurations.",
  ["src/core/config/transformer", "src/core/config/config.rs"],
  [("TypeMerger", "src/core/config/transformer/merge_types/type_merger.rs"), ("Similarity", "src/core/config/transformer/merge_types/similarity.rs"), ("ImproveTypeNames", "src/core/config/transformer/improve_type_names.rs"), ("NestedUnions", "src/core/config/transformer/nested_unions.rs"), ("TreeShake", "src/core/config/transformer/tree_shake.rs")],
  MC, INP, "every configuration within the bounds, served before and after by the real server")
P("C39", "A configuration that is written out is read again as it was",
  "What is written of a configuration, when it is generated, composed of several or shown, reads as a configuration equal to it: every type of every kind with its fields, arguments, defaults, directives and settings, whatever texts they contain (the white space of documentation aside).",
  ["inputs"], "23 texts in 37 places; fields of objects and interfaces of 4 (7) types with 4 (8) lists of arguments and up to 2 (3) of 23 directives; fields of inputs with 5 (11) defaults; 9 families of types with up to 2 (3) of 13 directives; every pair of 44 settings.",
  "The tests compare the text of configurations with few of these, and only some of them are read again.",
  ["src/core/document.rs", "src/core/config/into_document.rs", "src/core/config/from_document.rs", "src/core/directive.rs", "src/core/config/directives", "src/core/config/directive.rs"],
  [("print", "src/core/document.rs"), ("config_document", "src/core/config/into_document.rs"), ("from_document", "src/core/config/from_document.rs"), ("DirectiveCodec", "src/core/directive.rs")],
  MC, INP, "every configuration within the bounds, read, written and read again by the real code")
