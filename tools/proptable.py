# One entry per property; read by mkmeta.py.
prop("P01", "A path parameter value is always exactly one URL path segment",
 """For every string given as a path parameter, the URL a generated client requests has that value as
 exactly one path segment at the parameter's position, percent-decoding to the identical string. No value can
 add, remove or alter other segments, start a query or fragment, or change the server contacted, and its encoded text
 is already in the form sent on the wire (the URL parser has nothing left to repair).
 (The two values "." and ".." are a recorded exception.)""",
 ["inputs"], "All Unicode strings, alone or several per path, at any position of any path template and base URL.",
 "The suite encodes one string (an IP prefix with a slash); the claim is over all strings and combinations.",
 [PC], [("percent-encoding set for path segments", PC + " PATH_SET, encode_path")], ["the URL of the built request"],
 chk("property-based testing: exhaustive ASCII pairs + all code points + generated templates, round-trip through the client's URL parser",
 """Every 1- and 2-character ASCII value and every Unicode scalar value inside a segment is tried, plus generated values in
 multi-parameter URLs; assumes the url crate (which reqwest uses) is what decides segments."""))

prop("P02", "Query parameters arrive as exactly the pairs their value denotes",
 """A scalar parameter contributes one name=value pair, a list one pair per element in order under the parameter's name, an
 absent or unit value nothing, and an object or map one pair per present member under the member's own name; a wrapper
 type (optional, newtype) contributes what its content does, and an enum a pair with the variant (no data: as the value;
 with data: as the name). Several parameters on a request contribute their pairs in the order given, after whatever the URL already had,
 and decoding the query yields exactly the original texts (numbers read back equal).""",
 ["inputs"], "All values of all types serializable as query parameters, any parameter name, any number of parameters per request.",
 "The suite serializes about twenty fixed values; values with delimiters, non-ASCII text, extreme numbers, nesting of options and newtypes, unknown-length maps and sequences of parameters are not reached.",
 [PC], [("query parameter serializer", PC + " QueryParam, QuerySerializer, QuerySeq")], ["the query string of the built request"],
 chk("model-based property testing with a dynamic serde value covering every serializer method",
 "Exploration of generated values against a reference model; assumes serde_urlencoded's pair encoding and the url crate's decoding are right."))

prop("P03", "Values with no query form are refused, never dropped or mangled",
 """A query parameter value that cannot be written as name/value pairs (nested lists or objects, tuples, enum variants
 carrying several fields) makes the request fail before anything is sent, wherever it appears among the
 request's parameters. It is never silently omitted, truncated or flattened into something else.""",
 ["inputs"], "All values of all serializable types, alone and mixed with other parameters.",
 "The suite has six such values, all at the top level and each alone on a request.",
 [PC], [("query parameter serializer's unsupported cases", PC + " QuerySerializer::serialize_tuple*, serialize_struct_variant, QuerySeq")],
 ["result of building the request"],
 chk("model-based property testing: representability classifier over arbitrary nested values",
 "Generated arbitrary serde values; top-level tuples made only of pairs, unit structs and raw bytes are outside the property."))

prop("P04", "Form bodies carry exactly the members of the body value",
 """A form-encoded request body decodes to exactly the present members of the body object, in order, with
 their exact texts, and is labelled application/x-www-form-urlencoded once; method, URL and other headers stay as they were.
 A body that has no form representation is reported as an invalid request and never sent.""",
 ["inputs"], "All objects and maps of scalars, options and newtypes, and arbitrary values for the refusal; any prior headers and query.",
 "No test exercises form bodies at run time; golden files only show the call.",
 [PC], [("form body helper", PC + " RequestBuilderExt::form_urlencoded")], ["the built request's headers and body"],
 chk("property-based testing with an independent form decoder as oracle", "Exploration of generated bodies; decoder is hand-written and strict."))

prop("P05", "Typed responses decode faithfully, or fail keeping the evidence",
 """For any response to a typed operation, the caller gets the value the complete body denotes together with the
 response's exact status and headers; if the body is not a valid value of the type, the error holds the exact
 body bytes and the reason. A body that breaks off is always a body error, even when the part received would decode.""",
 ["inputs", "fault_sequences"], "All bodies, result types, chunkings, statuses, headers, and transport failures at any point.",
 "No test covers response handling; it needs arbitrary bodies and injected failures.",
 [PC], [("JSON response constructor", PC + " ResponseValue::from_response")], ["returned value or error"],
 chk("differential property testing with fault injection, in memory and over loopback sockets", "serde_json on the whole body is the reference; faults are injected at generated chunk boundaries."))

prop("P06", "Byte streams deliver the whole body in order and never hide a failure",
 """A streamed response yields exactly the body's bytes, in order, as they arrive and without waiting for later ones, with the response's
 status and headers, however the stream is taken out. If delivery fails, the bytes
 received before are followed by an error, never by a clean end.""",
 ["inputs", "fault_sequences", "schedules"], "All bodies, chunkings, pauses, ways of consuming, and failures after any chunk.",
 "No test reads a stream.",
 [PC], [("stream constructor and accessors", PC + " ByteStream, ResponseValue::stream, into_inner_stream")], ["items of the stream"],
 chk("property-based testing with injected stream failures and pauses", "Generated deliveries in memory and on loopback sockets; scheduling is single-threaded and owned by the harness."))

prop("P07", "Upgrades hand over the connection only on 101, and otherwise lose nothing",
 """A protocol upgrade succeeds exactly when the server answers 101: the caller then gets a two-way byte connection on which
 everything either side sends arrives unchanged, including bytes sent together with the handshake. Any other status is reported as an
 unexpected response whose status, headers and body are still readable, and a 101 whose connection cannot be taken over is an
 upgrade error.""",
 ["inputs", "histories"], "All statuses 100-999, headers, bodies, and message exchanges after the handshake.",
 "No test performs an upgrade.",
 [PC], [("upgrade constructor", PC + " ResponseValue::upgrade")], ["upgraded connection or error"],
 chk("property-based testing of generated handshakes and message histories over loopback; statuses enumerated", "Real reqwest/hyper connection against a scripted raw server."))

prop("P08", "Errors keep their kind, status and contents through conversion",
 """An error reports the status of the response it carries, or of the transport error it wraps, and none if there is neither. Dropping the typed payload
 of an error keeps its kind, message, status, headers, raw payload, wrapped error and still-readable response.
 Transport errors become communication errors, and text that cannot be a header value becomes an invalid request.""",
 ["inputs"], "All nine kinds of error with arbitrary contents and payload types.",
 "No test constructs an error.",
 [PC], [("error enum, status and untyped conversion", PC + " Error::status, Error::into_untyped, From impls")], ["fields of the error"],
 chk("property-based testing: each error is built twice from data and compared field by field after conversion", "Whether an undecodable response reports a status is left open."))

prop("P09", "Error text shows the cause once and completely",
 """The text of an error names its kind and shows its message, or its status, headers and payload, or the underlying error;
 different kinds read differently, and debug output equals display output. The alternate form is that text followed by every deeper cause exactly once, in order, and
 the standard cause chain starts at the wrapped error, if any.""",
 ["inputs"], "All kinds of error, contents, payload types (including streams) and format modes.",
 "No test formats an error.",
 [PC], [("Display, Debug and source", PC + " impl Display for Error, ErrorFormat, Error::source")], ["formatted text, source()"],
 chk("property-based testing against the errors' own contents and cause chains", "Containment and chain equality, not fixed wording."))

prop("P10", "Response values keep value, status and headers through every accessor",
 """Whatever sequence of construction, mapping, in-place change and reading a response value goes through, it behaves as the triple of
 value, status and headers: mapping calls the function once on the value and keeps the rest, and debug output is the value's. The content length is reported
 exactly when the header is present and a decimal number that fits 64 bits; a response taken as bodyless keeps its metadata and never fails.""",
 ["inputs", "histories"], "All values, statuses, header maps, Content-Length texts, and operation sequences.",
 "No test uses a response value.",
 [PC], [("response wrapper", PC + " ResponseValue")], ["accessor results"],
 chk("stateful model-based property testing", "Histories against a triple model; Content-Length against an independent parser (leading plus and whitespace left open)."))

MT = IM + "method.rs"
prop("P11", "A generated client sends exactly the request its document describes",
 """Calling a generated operation with any arguments sends one request (none if the arguments cannot be sent) with the document's method, path template with
 the arguments in their places, every supplied query and header parameter under its documented name and no other, the body in the documented media type, the
 api-version header, and an Accept header for JSON exactly when the documented answer is JSON. Path-level parameters apply to every
 operation that does not redefine them; parameters not supplied leave no trace.""",
 ["programs", "inputs"], "All supported API descriptions (any mix of parameters, references, bodies, names) and all arguments, in every interface style.",
 "The existing runnable tests touch no generated code; the golden files show text for a handful of documents and execute none of it.",
 [MT, IM + "template.rs", IM + "lib.rs"],
 [("request assembly for an operation", MT + " Generator::method_sig_body"), ("URL assembly", IM + "template.rs PathTemplate::compile"),
  ("parameter merging", IM + "util.rs parameter_map, Generator::process_operation")], ["the request a server receives"],
 chk("property-based testing: generated API descriptions are generated, compiled and called against a recording server; oracle is an independent reading of the description",
 "openapiv3, schemars and typify are not available offline; stand-ins written for this framework take their place, so only progenitor's own part is decided."))

prop("P12", "A response becomes the outcome the document assigns to its status",
 """For every operation and every answer: a documented success status yields the success value (typed, bytes, empty or an upgraded connection), a documented error
 status yields an error response of the documented type, an undocumented status is an unexpected response with the whole response in hand. Exact codes take precedence over
 ranges, and ranges over the default; an operation documenting no success accepts any 2xx as bytes. Statuses, headers and bodies come through unchanged; a typed body that does not
 decode is an invalid payload with its bytes, a body that breaks off a body error, no answer a communication error.""",
 ["programs", "inputs", "fault_sequences"], "All sets of documented responses and all answers: every status class in and around the documented ones, any body, cut at any point.",
 "No existing test sends an answer to a generated operation.",
 [MT], [("response dispatch", MT + " Generator::method_sig_body, extract_responses"), ("status patterns", MT + " OperationResponseStatus")], ["result of the call"],
 chk("property-based testing of compiled generated clients against a scripted server, oracle is an independent status-to-outcome table",
 "Documented 1xx/3xx statuses next to a default response are left open; the stand-in type generator decides typed decoding with serde."))

prop("P13", "A paginated operation's stream is the concatenation of its pages",
 """The item stream of a paginated operation yields every item of every page once and in order, whatever the pages hold (none, empty or many items, any token text),
 and ends after the first page without a token. The first request carries the caller's parameters; each later one repeats only the limit and the path and header parameters and adds the
 token of the page before. A failure on any page is yielded once, after all items of the pages before, and no request is made before its items are needed or after the stream ended.""",
 ["programs", "inputs", "histories"], "All paginated operations, page sequences, tokens, failures at any page, and consumers that stop early.",
 "No existing test runs a stream.",
 [MT], [("stream bodies", MT + " positional and builder stream implementations"), ("eligibility", MT + " Generator::dropshot_pagination_data")],
 ["items, final error and requests"],
 chk("model-based property testing of compiled generated clients against a server scripted with page sequences",
 "Positional, builder and tagged streams; at most seven pages."))

prop("P14", "All interface styles make the same calls and report the same outcomes",
 """For every document, operation, arguments and answers, the positional client, the builder client with merged tags and the builder client with separate tags (through each
 tag's trait) send identical requests and yield identical outcomes or streams; the order in which a builder's setters are called does not matter.""",
 ["programs", "inputs"], "All supported documents, arguments, setter orders and answers.",
 "The existing tests never compile two styles of one document side by side, let alone call them.",
 [MT, IM + "lib.rs"], [("positional methods", MT + " Generator::positional_method"), ("builders", MT + " Generator::builder_struct"), ("tag traits", MT + " Generator::builder_tags")],
 ["requests and outcomes of the three clients"],
 chk("differential property testing of the three generated clients of one document", "Outcome of real calls; the order of members within a JSON map body is ignored."))

prop("P15", "A builder sends what it was last given, or refuses and sends nothing",
 """Through any sequence of setter calls, repetitions, body adjustments and clones of a generated operation builder, the request carries for each parameter the last value given. If a required parameter was never given, or the
 last value given for any parameter does not convert to its type, sending fails as an invalid request naming such a parameter, and nothing is sent. A later good value repairs an earlier bad one.""",
 ["programs", "histories"], "All builders of supported documents and all setter histories with convertible and unconvertible values.",
 "No existing test uses a generated builder.",
 [MT], [("builder setters and send", MT + " Generator::builder_struct")], ["request received or error returned"],
 chk("stateful model-based property testing of compiled generated builders", "Histories of up to about forty setter calls against a per-parameter last-value model."))

prop("P16", "Hooks run once per request, in order, and their refusals are final",
 """With any combination of configured hooks, with or without an inner value, every request is preceded by the pre hook and then the asynchronous pre hook and followed by the post hook and then the
 asynchronous post hook, each exactly once and with the request as it goes out (changes by the asynchronous pre hook included) or the result as it came in (transport failures included). A refusing pre hook means nothing is sent
 and the caller gets its error; a refusing post hook means the caller gets its error. This holds for single calls and for each page of a stream.""",
 ["programs", "histories"], "All combinations of hooks, inner values, styles, operations, answers and refusals at any request.",
 "No existing test configures a hook.",
 [MT, IM + "lib.rs"], [("hook invocations", MT + " Generator::method_sig_body"), ("settings", IM + "lib.rs GenerationSettings")], ["hook invocations recorded by the hooks, requests, outcome"],
 chk("property-based testing of compiled generated clients with recording hooks against a model of the order", "Sixteen hook combinations with and without an inner value, sampled."))

prop("P17", "Schema conversion preserves which values a schema accepts",
 """Every schema of an API description, converted for the type generator, accepts exactly the JSON values the OpenAPI schema accepts: types, formats, bounds, lengths,
 patterns, enumerations, required and additional properties, references, combinators, and null where and only where it is allowed.""",
 ["inputs"], "All OpenAPI 3.0 schema objects progenitor accepts, nested to any depth, in every combination of keywords.",
 "The unit tests of the conversion cover three schemas and do not build here.",
 [IM + "to_schema.rs"], [("conversion", IM + "to_schema.rs impl Convert")], ["the schemas handed to the type generator"],
 chk("differential property testing: two independently written validators on boundary instances drawn from generated schemas",
 "Combinations the two dialects leave open (DESIGN.md) are skipped; integers beyond 2^53 are not compared."))

prop("P18", "Every supported document yields code that compiles",
 """For every well-formed document using supported features, whatever its operations and parameters are called (reserved words, punctuation, other scripts, names that the generated code uses itself, names
 differing only in case or separators from those), generation succeeds in all interface styles and the resulting code is Rust that compiles.""",
 ["programs"], "All documents of the supported class and all operation, parameter and tag names in it.",
 "The golden documents use one naming convention and are compared as text only.",
 [IM + "lib.rs", MT, IM + "util.rs"], [("identifier construction", IM + "util.rs sanitize, unique_ident_from, builder_name"), ("code assembly", IM + "lib.rs Generator::generate_tokens")],
 ["generator result and compiler verdict"],
 chk("property-based testing: generated documents with adversarial names, judged by the Rust parser and compiler",
 "Names that collide with the client's or a builder's own methods are excluded (DESIGN.md); types are the stand-in generator's."))

prop("P19", "A path template means its literal text and parameters, or is refused",
 """A path of the document whose braces pair up into named parameters yields requests for exactly its literal segments with each parameter's value in its own place, whatever
 characters the literals and names contain, next to each other or repeated; parameters are found by their exact name, in template order. A path with an unmatched, nested or empty brace, or not starting with a slash, is refused.""",
 ["inputs", "programs"], "All path template strings and all parameter values.",
 "Existing tests parse about eight templates; none is used to send a request.",
 [IM + "template.rs"], [("template parser and code", IM + "template.rs parse, PathTemplate::compile")], ["generator result; URL received by the server"],
 chk("grammar-based property testing: mutated templates against an independent grammar, and calls of clients compiled from generated templates",
 "Query, fragment and backslash characters in literals are outside the class; dot segments likewise (DESIGN.md)."))

prop("P20", "What a document says that cannot be represented is refused, not dropped",
 """A document with an element the generator has no faithful code for (another OpenAPI version, operations without or with repeated ids, parameters that are in cookies, use unsupported styles or content, or
 disagree with the path, bodies of unsupported or several types, encodings, dangling references, answers of several types) is refused as a whole by every output; no client that silently ignores the element is produced.
 (One kind, parameters with explode: false, is a recorded exception.)""",
 ["programs"], "All documents containing at least one such element, anywhere.",
 "Existing tests have two or three such documents.",
 [IM + "lib.rs", MT, IM + "util.rs"], [("document validation", IM + "lib.rs validate_openapi"), ("operation processing", MT + " Generator::process_operation, get_body_param, extract_responses"), ("reference lookup", IM + "util.rs ReferenceOrExt")],
 ["generator result"],
 chk("property-based testing by flaw injection: generated valid documents with one generated flaw", "Twenty-six kinds of flaw; a panic of the generator counts as refusal."))

prop("P21", "Streams are offered exactly for paginated listings",
 """A generated client offers an item stream for an operation exactly when the operation declares pagination, has optional limit and page-token query parameters and no required ones, sends no raw body,
 and succeeds with one type whose only properties are an array of items and an optional next-page string; every output (methods, builders, CLI) agrees on which operations those are, and what the generator says it needs (futures, websockets) is what its code uses.""",
 ["programs"], "All supported documents, with operations meeting all but any of the conditions.",
 "The golden documents contain only the fully conventional listing and operations without the extension.",
 [MT], [("pagination test", MT + " Generator::dropshot_pagination_data")], ["methods present in the generated code"],
 chk("property-based testing: operations one generated step away from the convention, judged by an independent statement of it", "Presence is read from the parsed generated code; behaviour of the streams is P13."))

prop("P22", "Documents that say the same thing yield the same client",
 """Restating a document without changing its meaning (references for definitions and back, through any chain; shared parameters written out per operation; order of parameters, answers, components, keys and operations;
 defaults spelled out; unused components, servers, security, examples and unknown extensions added) leaves every output unchanged, documentation text and order of methods aside.""",
 ["programs"], "All supported documents and all such restatements, in combination.",
 "Existing tests generate each document once.",
 [IM + "lib.rs", MT, IM + "util.rs"], [("reference resolution", IM + "util.rs ReferenceOrExt, items, parameter_map"), ("ordering", MT + " sort_params, extract_responses")], ["generated code"],
 chk("metamorphic property testing of the generator over meaning-preserving rewrites of generated documents", "Sixteen rewrites, up to three at a time, five outputs."))

prop("P23", "Generation is a function of the document and the settings",
 """Generating any output from the same document and settings gives the same code and makes the same demands of the type generator every time: again in the same process, from clones, on several threads at once, in another process with another
 environment and directory, and with independent settings made in another order.""",
 ["programs", "schedules"], "All documents, settings, repetitions and environments.",
 "Existing tests generate once per setting.",
 [IM + "lib.rs"], [("code assembly", IM + "lib.rs Generator::generate_tokens, cli, httpmock"), ("settings", IM + "lib.rs GenerationSettings, Generator::new")], ["generated code; settings and schemas handed to the type generator"],
 chk("metamorphic property testing by repetition across orders, threads and processes", "The stand-in type generator is itself deterministic, so differences are progenitor's."))

prop("P24", "generate_api! yields the generator's code for the same settings",
 """The code that `generate_api!` puts in place of its call is what the generator makes of the named document with the settings the call gives: each setting of the call (interface, tags, derives, inner type, hooks, patches, replacements, conversions,
 crates, unknown-crate policy, map type) has the effect of the corresponding method of GenerationSettings, and of no other, on the code and on what is asked of the type generator; settings not given are the defaults. The document may be JSON or YAML, and
 its path is taken from the calling crate's directory. The expansion depends on the document's content: a changed document changes the code at the next build. A call with an unknown key or value, a repeated or missing key, a malformed type or a document
 that cannot be read or that the generator refuses is a compile error.""",
 ["inputs"], "All setting combinations and documents.",
 "The suite expands a handful of calls for fixed documents and compares nothing with the library interface.",
 ["progenitor-macro/src/lib.rs", IM + "lib.rs"], [("the macro", "progenitor-macro/src/lib.rs do_generate_api, open_file"), ("settings", IM + "lib.rs GenerationSettings, Generator::new")], ["the macro's expansion", "settings handed to the type generator"],
 chk("differential property testing: generated macro calls are expanded by the real compiler and compared with the library interface",
 "A thin stand-in for progenitor_impl records what the macro passes on; calls outside the documented grammar are only required to be refused."))

prop("P25", "cargo progenitor writes a crate that stands alone",
 """For any document the generator accepts, cargo progenitor writes a crate into the output directory (created if need be, overwriting what an earlier run wrote) with the given name, version, license and registry, whose code is the generator's
 for the given interface and tag style and whose manifest depends on every crate the code uses (including the client code, when that is included rather than depended on); the crate builds as it is. An unreadable or refused document, or a malformed command line, makes the program
 fail without writing anything. (A builder-style crate with the client code included is a recorded exception.)""",
 ["inputs"], "All documents, options and previous contents of the output directory.",
 "The suite runs the program on fixed documents and compares the code; it does not build the result.",
 ["cargo-progenitor/src/main.rs"], [("the program", "cargo-progenitor/src/main.rs main, dependencies, load_api")], ["the files written", "whether the crate builds"],
 chk("differential property testing of the program against the library, and generated crates compiled each alone",
 "The type generator and YAML reader are stand-ins, so only crates the generated operations use are covered by the build."))

prop("P26", "The generated command line makes the call it was given",
 """For every operation with a JSON or form body (or none) and JSON or empty answers, the generated CLI has one command, with one flag per parameter (the page token of a paginated operation excepted) and per simple body member, required exactly when the operation needs it,
 and the document's summary, description and parameter descriptions as help. A well-formed command line sends exactly the request (for a paginated operation, the requests, up to --limit items) that the builder client sends for the same values, after the program's override has agreed, and reports the client's outcome through the
 callback that fits it, once each, items in order; it ends in an error iff the client's call does. A command line without a required flag, with an unknown one or a value that is not of the flag's type is refused without a request. (List- and object-typed query parameters and a --limit that is not a NonZeroU32 are recorded exceptions.)""",
 ["inputs", "histories"], "All documents, command lines and answers.",
 "The suite compares the generated text for fixed documents; no generated command line is ever run.",
 [IM + "cli.rs"], [("commands and flags", IM + "cli.rs Generator::cli, cli_method_args, clap_arg"), ("execution", IM + "cli.rs cli_method")], ["requests on the wire", "callbacks", "clap's description of the command"],
 chk("differential and model-based property testing of compiled generated programs",
 "Real clap, reqwest and sockets; the type generator is a stand-in. Both --json-body and member flags on one line is left open, as are names clap itself uses."))

prop("P27", "Mock helpers match the operation's own requests and give the answers they name",
 """The httpmock helpers generated for a document match what the client generated for it sends: a mock set up for an operation matches every request of that operation whose arguments meet the stated requirements (path parameters, required and optional query parameters or their absence, JSON and text bodies), and no request with another method, a path that is not
 the operation's, or an argument that differs from a requirement. A response helper answers with its status (a class helper and the default one with the status given, which must be in the class), content type application/json and the JSON value given where the response has content, and exists for every response the document lists. (Header and form requirements, query parameters whose document name is not their Rust name,
 path values with characters special to URLs or regular expressions, and scalar or list types the helpers cannot take are recorded exceptions.)""",
 ["inputs"], "All documents, requirements and requests.",
 "The suite compares the generated text for fixed documents; no generated mock is ever compiled or matched against a request.",
 [IM + "httpmock.rs"], [("requirements", IM + "httpmock.rs httpmock_method when_methods"), ("path expressions", IM + "template.rs as_wildcard, as_wildcard_param"), ("answers", IM + "httpmock.rs httpmock_method then_methods")], ["which requests match", "the answer set up"],
 chk("model-based property testing of compiled generated mocks against the generated client's real requests",
 "httpmock's own matching is a stand-in written from its documentation; the type generator is a stand-in."))

prop("P28", "A generated client is what it was made with",
 """For every document, interface style, base URL, reqwest client and inner value: a client made with new_with_client reports exactly that base URL, that HTTP client and that inner value, and info.version of the document as its API version, whatever text these are. It and every clone of it can be shared between threads, sends its requests
 with that HTTP client to the base URL followed by the operation's path, and hands its hooks that inner value; other clients of the same type do not affect it. A client made with new behaves like one made with a default reqwest client that gives up, with a communication error, after 15 seconds. (A version with characters outside visible ASCII is a recorded exception:
 its client's requests panic.)""",
 ["inputs", "histories"], "All documents, base URLs, HTTP clients, inner values and numbers of clones.",
 "No test of the suite makes a generated client: generated code is only compared as text, for fixed documents.",
 [IM + "lib.rs"], [("construction and accessors", IM + "lib.rs generate_tokens"), ("version header", IM + "method.rs method_sig_body")], ["the accessors' results", "requests received"],
 chk("model-based property testing of compiled generated clients against a recording server",
 "The HTTP client is identified by a default header. The type generator is a stand-in."))

prop("P29", "Generated documentation says what the document says",
 """For every document the client type's documentation has the title, description, terms of service and version; every operation's method, in every interface style and on every trait that offers it, has the operation's summary (less trailing full stops and commas) and description, its HTTP method and path, and, once any argument is described, every argument under its Rust name with
 its description; the item stream's has the same without the page token. Nothing else of the document's texts appears there. Builder types link to the methods that make them, the example sets every argument once, and extension traits carry their tag's description. No text of a document, whatever it contains, keeps the generated code from being Rust. Layout of the output (space_out_items) only adds empty lines.""",
 ["inputs"], "All documents and texts (several lines, quotes, comment and attribute syntax, any script).",
 "The suite compares the generated text for fixed documents whose texts are plain sentences.",
 [IM + "method.rs", IM + "lib.rs"], [("operations", IM + "method.rs make_doc_comment, make_stream_doc_comment, builder_helper"), ("client", IM + "lib.rs client_docstring"), ("traits", IM + "method.rs builder_tags"), ("layout", IM + "lib.rs space_out_items")], ["documentation attributes of the generated code", "formatted output"],
 chk("model-based property testing: marked texts are traced from generated documents to the documentation attributes of the generated code",
 "Documentation of types is the type generator's (a stand-in here) and left out."))

prop("P30", "Every setting has its effect, and no other",
 """For every history of calls on the generation settings, what is generated follows the history: of interface, tags, inner type, each hook, unknown-crate policy and map type the last call counts, of patches, replacements and crates the last for each name, and derives and conversions count all, in order; each reaches the type generator (or the code) unchanged and nothing
 that was not asked for does. Settings of types leave the operations' code as it is, settings of the client leave what is asked of the type generator as it is, and every schema of the document is handed over once, under its own name. Separate tags in positional style are refused.""",
 ["inputs", "histories"], "All sequences of settings with all arguments, all documents.",
 "The suite generates with a handful of fixed settings and compares text; most settings (conversions, crates, policies, map type) are never set by any test of the library.",
 [IM + "lib.rs"], [("settings", IM + "lib.rs GenerationSettings"), ("hand-over", IM + "lib.rs Generator::new"), ("schemas", IM + "lib.rs generate_tokens")], ["set-up of the type generator", "generated code"],
 chk("model-based property testing over histories of setter calls",
 "What the type generator does with its set-up is its own affair (it is a stand-in that records it)."))
