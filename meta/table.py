prop("C01", "Composing outputs preserves value, knownness, secrecy and dependencies",
     "Whatever way outputs are combined (apply, nested outputs, all, concat, format, indexing, secret/unsecret, JSON), the result's value equals the plain function of the input values, its secrecy and dependency set are the union of those of everything that contributed, and it is unknown exactly when something it needs is unknown. "
     "This holds for every nesting, every order in which the parts resolve, and when parts fail.",
     ["inputs", "schedules", "programs"], "every output expression up to a bounded size over leaf states (known/unknown x plain/secret x dependency sets, failing) and every resolution order",
     "Tests sample a few expressions with already-resolved leaves; the guarantee is about every nesting, every knownness/secrecy combination and every resolution order.",
     ["output.py"], ["Output.apply/all/from_input/lifting @ " + L + "output.py"], ["four futures per output @ value, known, secret, resources @ " + L + "output.py"], ["Output.future(), is_known(), is_secret(), resources()"],
     "exhaustive expression x resolution-schedule exploration of the real Output class against a reference interpreter",
     "Every expression of the grammar up to the size bound and every order of leaf resolution is executed on the real code and compared with an independent reference algebra; larger expressions and other leaf values are outside the bound.")

prop("C02", "Apply callbacks run at most once, and never on unknown values in a preview",
     "A callback given to an output runs exactly once when all values it needs are known, with the resolved plain values as its argument, and does not run when any of them is unknown during a preview. "
     "An output that contains an unknown anywhere in its value is treated as unknown in previews whatever its nominal state.",
     ["inputs", "schedules", "programs"], "every output expression up to a bounded size, preview and update, legacy apply mode on and off, every resolution order",
     "Counting callbacks over all nestings and resolution orders is a statement about schedules; the tests run one order each.",
     ["output.py", "runtime/settings.py"], ["Output.apply run() @ " + L + "output.py"], [], ["calls received by the user's callback"],
     "exhaustive expression x resolution-schedule exploration of the real Output class",
     "As C01, with a call-recording callback at every apply node; bounded expression size. In addition every value of bounded nesting (lists, dicts, their subclasses, typed classes, cyclic values) with or without an unknown inside.")

prop("C03", "Every input value is encoded on the wire with its exact meaning",
     "Any property bag built from plain values, collections, resources, assets, archives, secrets, unknowns, awaitables and outputs nested arbitrarily is sent to the engine so that secrecy, unknownness, references and dependencies are all preserved and nothing else changes. "
     "Encodings the engine did not announce support for are never used, and values that cannot be represented are rejected rather than altered. Sending a value, however often and from however many places at once, leaves the value, its dependencies and the caller's collections as they were.",
     ["inputs", "configurations"], "all property bags up to a bounded shape over all value kinds x preview/update x engine feature sets",
     "Tests check a couple of dozen shapes; the interactions (secret in unknown in list, component dependencies, feature sets) are combinatorial.",
     ["runtime/rpc.py", "runtime/known_types.py"], ["serialize_properties/serialize_property @ " + L + "runtime/rpc.py"], [], ["protobuf Struct produced, dependency sets reported"],
     "exhaustive enumeration of a bounded value space through the real encoder against a reference encoder",
     "Every bag of the stated shapes is encoded by the real code and compared field by field with an independent reference; bounded nesting depth.")

prop("C04", "Engine answers are decoded faithfully into outputs",
     "Each output property of a resource, read, call or invoke resolves to the value the engine returned, is unknown exactly when the engine left it unknown, is secret exactly when the engine marked any part of it secret, and depends on what the engine said it depends on. "
     "Resource references, assets and archives in answers come back as equivalent objects. The id of a resource that is read by id is that id, as known and as secret as it was given.",
     ["inputs", "configurations"], "all answers up to a bounded shape x register/read/get/call/invoke x preview/update",
     "The tests decode a handful of answers; the guarantee ranges over every nesting of markers.",
     ["runtime/rpc.py", "runtime/resource.py", "runtime/invoke.py"], ["deserialize_property, resolve_outputs @ " + L + "runtime/rpc.py"], [], ["Output.future/is_known/is_secret/resources of resource properties"],
     "exhaustive enumeration of a bounded answer space through the real decoder against a reference decoder",
     "Every answer of the stated shapes is delivered to the real SDK over each route and compared with a reference; bounded nesting depth.")

prop("C05", "Registrations are complete, correct and ordered under every answer order",
     "Every resource a program creates is requested from the engine exactly once, with the declared inputs, parent, provider, and exactly the dependencies the program expressed, and only after everything it depends on has been answered but no later than that. "
     "This holds whatever the order in which the engine answers, and the program ends only when nothing is outstanding.",
     ["schedules", "programs"], "every program of a bounded resource/relation grammar x every order of RPC completions x iteration order of resource sets",
     "Tests answer instantly in issue order; only one of the possible interleavings is ever run.",
     ["runtime/resource.py", "runtime/rpc.py", "runtime/stack.py", "resource.py"], ["prepare_resource, register_resource, read_resource, get_resource @ " + L + "runtime/resource.py", "wait_for_rpcs @ " + L + "runtime/stack.py"],
     ["outstanding RPCs @ what the program must wait for @ " + L + "runtime/rpc_manager.py"], ["requests received by the monitor and what had been answered at that time"],
     "stateless exploration of all RPC completion orders of the real SDK under a controlled event loop",
     "All completion orders are explored for every program of the grammar (2 nodes: all relations; 3-4 nodes: reduced relations); the engine is a fake whose answers are fixed functions of requests.")

prop("C06", "A failure anywhere ends the program with an error, never a hang or success",
     "If any request fails, is answered with garbage, the engine goes away, or a callback or awaitable raises, the program terminates, reports failure, sends nothing that depends on the failed part, and leaves no output pending for ever. "
     "Without a failure it reports success.",
     ["fault_sequences", "schedules", "programs"], "every fault at every request of every program of a bounded grammar, in every completion order",
     "Fault points multiply with completion orders; tests exercise a few single failures.",
     ["runtime/resource.py", "runtime/rpc_manager.py", "runtime/stack.py", "runtime/invoke.py", "output.py"], ["RPCManager.do_rpc/unhandled_exception @ " + L + "runtime/rpc_manager.py", "wait_for_rpcs @ " + L + "runtime/stack.py"],
     ["unhandled exception @ first failure @ " + L + "runtime/rpc_manager.py"], ["program verdict, requests sent after the failure, state of all outputs"],
     "stateless exploration of all fault placements x completion orders of the real SDK",
     "Every single fault (and pairs at thorough) at every request, all completion orders, bounded programs; one fire-and-forget callback shape is recorded as a known finding.")

prop("C07", "Stack outputs are the values the program exported",
     "What the stack reports as its outputs equals, export by export, the plain meaning of the exported values: nested containers, objects, outputs, awaitables, secrets, resources and shared or cyclic references, in every order in which they resolve. "
     "Exporting the same object several times reports it every time, and a cyclic object does not prevent termination.",
     ["inputs", "schedules"], "every set of exports up to a bounded size over all value kinds x every resolution order",
     "Tests export fixed values; sharing, cycles and late resolution are combinations they do not reach.",
     ["runtime/stack.py"], ["massage @ " + L + "runtime/stack.py"], [], ["RegisterResourceOutputs request of the stack"],
     "exhaustive enumeration of exported object graphs x resolution orders through the real stack runner",
     "Every export graph within the bound, compared with a reference rendering; attribute-bearing objects beyond the listed classes are not covered.")

prop("C08", "Merging options follows a fixed algebra and never touches its arguments",
     "Merging two sets of resource or invoke options keeps every value of the first that the second leaves unspecified, lets the second win for single values, and concatenates the collection-valued ones in order, whatever sequence or awaitable type they are given as. "
     "Merging is associative, has the empty options as identity, and modifies neither argument.",
     ["inputs"], "all triples of option bags over all fields and all value shapes",
     "The algebraic laws quantify over all combinations of fields; tests check a few fields one at a time.",
     ["resource.py", "invoke.py"], ["ResourceOptions.merge, InvokeOptions.merge, _merge_lists, _collapse_providers @ " + L + "resource.py"], [], ["fields of merged options; dependencies in resulting requests"],
     "exhaustive enumeration of option bags through the real merge against a reference algebra",
     "All pairs/triples of single-field and double-field bags with several shapes each; larger bags only at thorough.")

prop("C09", "Inherited and explicit options reach the engine as documented",
     "Protection and providers set on an enclosing resource reach everything inside it unless overridden, an explicit option always reaches the engine in the corresponding request field, and transformations run innermost to outermost, each exactly once, seeing the result of the previous one. "
     "A method call carries the provider, version and plugin URL of its resource and what every argument depends on; an invoke carries those of its own options, or its parent's provider. "
     "The options object the caller passed is not modified.",
     ["configurations", "programs"], "all chains of enclosing resources x provider/protect settings at each level x leaf kind; all distributions of transformations; all pairs of option fields",
     "Inheritance is a product over levels; tests cover single levels.",
     ["resource.py", "runtime/resource.py", "runtime/invoke.py", "runtime/stack.py"], ["Resource.__init__ @ " + L + "resource.py", "register_resource @ " + L + "runtime/resource.py"], [], ["RegisterResource/ReadResource/Invoke request fields"],
     "exhaustive enumeration of option configurations over enclosing-resource chains through the real SDK against a reference",
     "Chains of up to two enclosing resources (three at thorough), two provider packages; requests compared with a reference.")

prop("C10", "Aliases sent are exactly those declared here and implied by ancestors",
     "The aliases of a resource are its own declared aliases with unspecified parts taken from the resource itself, plus, for every alias of its parent, the name the resource would have had under it; every given combination of name, type, parent, project and stack yields the same identity the engine would compute. "
     "A child named after its parent follows the parent's renaming.",
     ["inputs", "programs"], "all alias specifications (every subset of fields, every way of giving the parent, awaitable or not) x chains of aliased ancestors x naming patterns",
     "The result is a product over ancestors and fields; tests fix one or two of them.",
     ["resource.py", "urn.py"], ["collapse_alias_to_urn, inherited_child_alias, Resource.__init__ @ " + L + "resource.py", "create_urn @ " + L + "resource.py"], [], ["aliases in the RegisterResource request"],
     "exhaustive enumeration of alias specifications and ancestor chains through the real SDK against a string reference",
     "All specifications and chains up to three resources; the engine's own alias resolution is not part of the check, only what is sent to it.")

prop("C11", "Depending on a component waits for what is inside it, and never hangs",
     "A dependency on a component becomes dependencies on exactly the resources reachable inside it that the engine must wait for, local components being looked through and remote or nested ones handled at every depth, without sending resources that are not needed. "
     "Unless a program's data flow itself is circular (an input that needs the value of a resource, other than an enclosing one, which waits for that input), no combination of parents, explicit dependencies and input references makes it wait for itself.",
     ["programs", "schedules"], "every component tree up to a bounded size x every dependency edge between its nodes x order of creation",
     "Deadlocks depend on specific graph shapes and interleavings; tests include a few known ones.",
     ["runtime/rpc.py", "runtime/resource_cycle_breaker.py", "runtime/resource.py"], ["_expand_dependencies @ " + L + "runtime/rpc.py", "declare_dependency @ " + L + "runtime/resource_cycle_breaker.py"],
     ["resource dependency graph @ edges accepted so far @ " + L + "runtime/resource_cycle_breaker.py"], ["dependencies in requests; termination"],
     "stateless exploration of component trees x dependency edges x completion orders x set iteration orders of the real SDK",
     "All trees of 3-4 nodes with the stated relations; completion orders within a deviation budget; reference is the expansion minus edges that would close a cycle of real waits.")

prop("C12", "A component provider answers each request from that request alone",
     "A provider written with the SDK receives inputs with the values, secrecy, unknownness and dependencies the engine sent, and its answer, given only once everything it built is registered, carries the URN, state and dependencies of what it built; errors become error responses and input failures become failures. "
     "What it builds gets the parent, dependencies, aliases, protection and providers that were sent. Its server starts on any command line with the engine's address and answers for its version and schema. "
     "Nothing from an earlier or concurrent request - configuration, settings, failures - influences another.",
     ["histories", "inputs", "fault_sequences"], "every history of construct/call requests up to a bounded length x request contents x failing implementations",
     "State leaks show only in sequences of requests; tests send single requests.",
     ["provider/server.py", "provider/provider.py"], ["ProviderServicer.Construct/Call @ " + L + "provider/server.py"], [], ["responses of the provider server; inputs the implementation receives"],
     "exhaustive enumeration of request contents and stateless exploration of request histories (sequential, concurrent, cancelled) against the real servicer",
     "Every request of the stated shapes and every history of the stated lengths is run on the real servicer and compared with a reference; the gRPC transport itself is replaced.")

prop("C13", "Configuration reads return exactly what was configured, or a proper error",
     "For every stored value and every typed accessor, the result is the stored value parsed as that type, a default when absent, or an error naming the key; malformed values are always rejected, and values obtained through a secret accessor are always secret. "
     "Reading a secret through a plain accessor never changes the value.",
     ["inputs", "configurations"], "all accessor kinds x stored texts from a bounded alphabet x presence x secrecy x sources",
     "The accessor matrix (type x get/require x secret) times value space is far larger than the tests sample.",
     ["config.py", "runtime/config.py"], ["Config.* @ " + L + "config.py", "get_config/is_config_secret @ " + L + "runtime/config.py"], [], ["return values, raised errors, warnings"],
     "exhaustive enumeration of stored texts x accessors x sources and of all bounded write histories against a reference store",
     "Every accessor on every text of the alphabet from every source, and every history of configuration writes up to the bound, compared with a reference; texts outside the alphabet are not covered.")

prop("C14", "Programs running at the same time in one process do not see each other",
     "When several programs run concurrently in the same process, each sees only its own project, stack, configuration, resources and outputs, sends requests only to its own engine, and a failure of one does not fail another.",
     ["schedules", "histories"], "all interleavings of two programs up to a preemption bound",
     "Cross-talk needs specific interleavings of two programs; the tests run one program at a time.",
     ["runtime/settings.py", "runtime/_json.py", "runtime/rpc_manager.py", "runtime/stack.py", "automation/_server.py"], ["ContextVar-backed settings @ " + L + "runtime/settings.py"], ["outstanding RPCs @ shared by the process @ " + L + "runtime/rpc_manager.py"], ["requests received by each engine; outputs of each run"],
     "preemption-bounded stateless exploration of two real programs in two real threads under a baton scheduler",
     "All interleavings of the listed program pairs with one preemption (two for some) at the stated switch points; more threads and switches inside a line are outside the bound.")

prop("C15", "Synchronous invokes work at any point, nested or awaited, without losing work",
     "An invoke returns its result wherever it is made - at top level, inside callbacks, inside other invokes' waits, directly or awaited - and whatever else is outstanding, and its failure surfaces as an exception at that place. "
     "Other pending work continues meanwhile, and nothing runs twice or is lost.",
     ["schedules", "programs"], "all programs of a bounded grammar mixing invokes with resources and callbacks x all completion orders",
     "Re-entrancy of the event loop is a scheduling property; tests perform an invoke with nothing else pending.",
     ["runtime/sync_await.py", "runtime/invoke.py"], ["_sync_await @ " + L + "runtime/sync_await.py"], [], ["results of invokes, order and multiplicity of callbacks, verdict"],
     "exhaustive enumeration of bounded programs with invokes at every place x answer orders, early answers and failures on the real SDK against a reference interpreter",
     "All blocks singly and all pairs, four (pairs: two) deviations from the default answer order; three-block programs at thorough.")

prop("C16", "Typed inputs and outputs translate names without losing or mixing properties",
     "Properties declared on typed input, output and resource classes travel under their declared wire names and come back under their Python names at any nesting of lists, maps, optionals and nested types, and a round trip restores the value. "
     "Keys that are data (of plain maps, and undeclared names in input bags) are never translated or dropped.",
     ["inputs", "programs"], "all type declarations up to a bounded nesting x all values of those types",
     "Tests declare fixed types; the guarantee is over all type shapes.",
     ["_types.py", "runtime/rpc.py"], ["input_type/output_type/getter/property @ " + L + "_types.py", "translate_output_properties @ " + L + "runtime/rpc.py"], [], ["wire keys of requests; attributes and items of decoded values"],
     "exhaustive enumeration of generated type declarations x values x routes through the real encoder and decoder, against a reference translation",
     "All declared class shapes up to the nesting bound, over register, read, get, invoke and call; untyped dict-valued resource properties follow the SDK's older translation tables and are outside this property.")

prop("C17", "References resolve to the module or package of the right version",
     "When several versions of a module or package are registered, a reference naming a version gets the newest one of the same major version whose minor and patch numbers are each at least those named (or none), one without a version gets the newest, whatever the order of registration. "
     "A reference whose module is not registered yields the resource's id, or its URN when it has none.",
     ["histories", "inputs"], "all registration sequences over a bounded version set x all lookups",
     "The result must be independent of registration order, i.e. hold for all histories; tests register one order.",
     ["runtime/rpc.py"], ["register_resource_package/module, get_resource_package/module @ " + L + "runtime/rpc.py"], ["registries @ module/package versions @ " + L + "runtime/rpc.py"], ["which constructor is called with what"],
     "exhaustive enumeration of registration histories x lookups on the real registries, against a reference rule",
     "Every registration sequence over the bounded version set x every lookup, for modules, packages and the provider server's providers; larger version sets are outside the bound.")

prop("C18", "Dynamic providers behave as the user's provider object, every time",
     "Each engine request to a dynamic provider results in one call of the corresponding method of the user's object with the properties given, and its answer carries exactly what that method returned, defaults applying for unimplemented methods. "
     "Creating dynamic resources neither changes the caller's inputs nor affects other serialization in the process, and a provider object survives the round trip unchanged.",
     ["histories", "inputs"], "all request sequences up to a bounded length x provider objects implementing every subset of methods x property bags",
     "Existing tests cover neither the server side nor repeated creation.",
     ["dynamic/dynamic.py", "dynamic/__main__.py"], ["DynamicResourceProviderServicer @ " + L + "dynamic/__main__.py", "serialize_provider @ " + L + "dynamic/dynamic.py"], [], ["responses of the servicer; calls on the provider; global pickle behaviour"],
     "exhaustive enumeration of requests, request histories and serialization histories through the real servicer and serializer, against a reference",
     "All single requests over the value and result alphabets, all histories of up to three (thorough four) requests, all pairs of serializations, long runs, and small end-to-end programs; the gRPC transport itself is replaced by direct handler calls.")

prop("C19", "Event logs are delivered completely and once, however they are written",
     "Every event the engine appends to its log during an operation is delivered to the caller's handler exactly once and in order, no matter how the writer's chunks fall relative to line ends and to the reader's polls, up to the operation's end. "
     "The reader always stops when the operation has finished.",
     ["schedules", "crash_points"], "all splits of the written bytes into chunks x all interleavings of writer, reader and operation end within a bound",
     "Partial lines and races between writer, reader and process exit are schedules the tests never produce.",
     ["automation/_stack.py"], ["_watch_logs, _run_pulumi_cmd_sync @ " + L + "automation/_stack.py"], [], ["events passed to on_event; thread termination"],
     "exhaustive exploration of the interleavings of the real operation, its log-watching thread and a scripted CLI process, over every chunking of the log",
     "All interleavings at reads, waits and process steps (up to the stated preemption bound) under a controlled scheduler with virtual time; the operating system's file and pipe semantics are taken as atomic appends and reads. Event decoding is enumerated over the fields of the engine's JSON.")

prop("C20", "Project and stack settings survive a save and load unchanged",
     "Saving project or stack settings and loading them again yields equal settings, whichever optional parts are present, and a file written by other tools keeps its meaning for the settings the SDK knows when loaded, and as a whole when saved again. "
     "Other files, and settings of other stacks, are not affected.",
     ["inputs", "histories"], "all settings objects over every subset of optional fields and value shapes; all save/load sequences up to a bound",
     "Round-trip over all shapes; tests load fixed files.",
     ["automation/_project_settings.py", "automation/_stack_settings.py", "automation/_local_workspace.py"], ["save_project_settings/save_stack_settings @ " + L + "automation/_local_workspace.py"], [], ["loaded settings, file content"],
     "exhaustive enumeration of settings objects, foreign files and save/load/appear/disappear histories through the real workspace, against a reference parser and a model of the directory",
     "All subsets of optional fields with every value shape of the alphabet, all histories of up to three (thorough four) operations; PyYAML itself is trusted.")

prop("C21", "Automation commands run the CLI with exactly the requested arguments",
     "Each automation operation invokes the CLI with exactly the flags its options call for, values passed verbatim as single arguments, and in the right stack, directory and environment. "
     "A failing CLI surfaces as the matching error, a succeeding one yields its parsed result, and temporary files and servers are gone afterwards in either case.",
     ["inputs", "fault_sequences", "histories"], "all option subsets and value classes of each operation x all CLI outcomes",
     "The CLI is not present in the test environment; option combinations are unexplored.",
     ["automation/_stack.py", "automation/_local_workspace.py", "automation/_cmd.py", "automation/errors.py"], ["Stack.up/preview/refresh/destroy @ " + L + "automation/_stack.py", "create_command_error @ " + L + "automation/errors.py"], [], ["argv/env/cwd seen by a recording CLI; raised errors; left-over files"],
     "exhaustive enumeration of operations x options x environments x CLI outcomes, and of operation pairs, on the real code against a recording stand-in for the process, with a reference for arguments, errors and results",
     "Every option subset up to size three and from all but two (thorough five and four), every value class in every option, every command of every operation failing in every way; the CLI's own behaviour is represented by the formats it documents.")

prop("C22", "Stack references read other stacks' outputs with their secrecy",
     "Reading an output of another stack yields its value, or nothing or an error when absent as requested, and is secret whenever that output is secret or it cannot be told. "
     "The reference is identified by the given stack name, also when the name is an output.",
     ["inputs", "configurations"], "all answers about the other stack (names, secrets list, absent fields) x all accessors x known/unknown/secret names",
     "Tests cover a few accessors with one fixed answer.",
     ["stack_reference.py"], ["StackReference.get_output/require_output @ " + L + "stack_reference.py"], [], ["resolved outputs, their secrecy; the read request"],
     "exhaustive enumeration of engine answers x accessors x name forms x arrival orders on the real StackReference against a reference",
     "All answers with up to two outputs (thorough three) over 13-16 value kinds and seven forms of the list of secret names, and all arrival orders of names and answers.")

prop("C23", "An inline program server reports each run's outcome and leaves nothing behind",
     "Each request to run a program executes it once with the settings of that request, answers with no error exactly when the program succeeded and with a bail-or-error result otherwise, and restores the surrounding process state. "
     "Consecutive runs are independent.",
     ["histories", "fault_sequences"], "all sequences of run requests up to a bound x program outcomes",
     "Leaks between runs need sequences; tests perform single runs.",
     ["automation/_server.py", "runtime/stack.py"], ["LanguageServer.Run @ " + L + "automation/_server.py"], [], ["Run responses; settings during and after; live tasks"],
     "exhaustive enumeration of run-request histories x program outcomes x completion orders on the real language server",
     "All single requests and pairs, bounded triples, over 23 program outcomes and 6 configurations; the gRPC server around the servicer is not included.")

prop("C24", "Mocked programs behave like real ones as seen by the user's mocks",
     "Under mocks every resource, read and invoke reaches the user's mock exactly once with decoded inputs, in the project, stack and mode that were set, and its result becomes the resource's state and id, references between resources included; unknowns and secrets are handled as in a real run. "
     "A failure of the mock, of the test or of an output it returns fails the test. Tests run one after another do not influence each other.",
     ["programs", "histories", "schedules"], "all bounded programs under mocks in preview and update x mock behaviours x sequences of tests",
     "The existing tests use mocks but do not test them over programs.",
     ["runtime/mocks.py"], ["MockMonitor, test decorator @ " + L + "runtime/mocks.py"], [], ["mock calls and resolved outputs"],
     "exhaustive enumeration of bounded programs, mock behaviours and test histories x answer orders on the real mock runtime with real executor threads",
     "All two-operation programs over 18 input values, 10 mock behaviours; histories of two and three tests; runtime.call has no mock in this version.")

prop("C25", "Engine capabilities are respected throughout a run and forgotten after it",
     "The answer an engine gives about a capability, positive, negative, unimplemented or failing, is respected by every request of that run, is not asked for again, and does not carry over to another run or engine.",
     ["histories", "schedules", "configurations"], "all capability sets x query failures x sequences of runs",
     "Caches leak across runs; tests use one engine.",
     ["runtime/settings.py"], ["monitor_supports_feature @ " + L + "runtime/settings.py"], ["feature cache @ answers per run @ " + L + "runtime/settings.py"], ["SupportsFeature requests; encodings used"],
     "exhaustive enumeration of capability assignments, query failures and run histories x answer orders on the real SDK",
     "All assignments (single runs) and all pairs of capability sets; concurrent first queries of one capability are allowed.")

prop("C26", "Log messages reach the engine once, as logged, before the program ends",
     "Every message a program logs - at top level, in callbacks, coroutines or constructors, in a program or a component provider - reaches the engine exactly once with its severity, text, stream, ephemerality and the URN of the resource it is about; a message about no resource is with the engine when the call returns, others before the program ends, also when it fails. "
     "Without an engine, messages other than debug messages are printed.",
     ["programs", "schedules", "fault_sequences"], "all bounded programs of logging statements x endings x answer orders x failing registrations x program/construct/call",
     "Messages about resources are sent asynchronously; whether they get lost depends on when the program ends, which no test varies.",
     ["log.py", "runtime/stack.py", "runtime/rpc_manager.py"], ["_log @ " + L + "log.py"], [], ["Log requests at the engine; standard error"],
     "exhaustive enumeration of bounded logging programs x answer orders x faults on the real SDK against a list of what was logged",
     "All single statements over severities, targets, streams, ephemerality and places, pairs and some triples; messages about a resource whose registration fails may be lost.")

prop("C27", "The program runner runs a program as asked and reports truly how it ended",
     "The runner executes the given program once, as the main program, in the given directory with the given arguments, configuration, secret keys and deployment settings, and everything the program declared has reached the engine before it ends. "
     "It exits with success exactly when the program and all its requests succeeded; otherwise exactly one error message says why, with the traceback of the program's own code for unexpected exceptions, and a status of its own when the program chose one. A policy pack is run likewise, with the settings and configuration of its environment.",
     ["programs", "configurations", "fault_sequences", "schedules"], "all bounded programs and endings x command lines x environments x engine answers and failures in every order",
     "No test executes the runner at all; which messages, statuses and registrations result depends on where a program fails and in what order answers arrive.",
     ["sdk/python/cmd/pulumi-language-python-exec", "policy/__main__.py", "runtime/stack.py", "runtime/settings.py"], ["pulumi-language-python-exec @ sdk/python/cmd/pulumi-language-python-exec", "run_in_stack @ " + L + "runtime/stack.py", "Settings/configure @ " + L + "runtime/settings.py"], [], ["exit status; engine log messages; registrations; what the program sees"],
     "exhaustive enumeration of programs, endings, command lines, engine faults and answer orders through the real runner script on a controlled event loop",
     "All programs of up to two (partly three) statements over nine statement kinds and 30 endings, all command line forms for a part of them; the process boundary and gRPC are replaced, program arguments that look like options are not considered.")
