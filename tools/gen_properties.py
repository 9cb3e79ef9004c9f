#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
S="src/GraphQLService.cpp"; H="include/graphqlservice/GraphQLService.h"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","A query's response is the same under every schedule and launch policy",
 "For every valid query over every schema and data set, the response holds exactly the fields, values, list elements, key order and error list that the GraphQL execution algorithm prescribes for the document, operation name, variables and data. It does so for every launch policy, every interleaving of the library's threads with the service's threads, and every mix of accessors that answer with a value, through a deferred future, or later from another thread in any completion order. Once every accessor has answered, the response becomes available within a bounded number of steps.",
 ["schedules","inputs","programs","fault_sequences"],
 "All documents/variables/data over all schemas, all launch policies, all thread interleavings, all accessor answer modes and completion orders.",
 "The tests run a handful of queries against one mock, almost all with the deferred policy; the async runs take whatever single interleaving the OS happens to produce, and never one in which accessors complete out of order.",
 [S,H],[("selection visitor + gather in document order",S+" SelectionVisitor / Object::resolve"),("result conversion per type modifier",H+" ModifiedResult")],
 ["service::Request::resolve future value","accessor invocations"],
 [("per-selection-set list of pending children","each entry is a response key and its future",S+" SelectionVisitor::_values")])
p("C02","A failing field costs exactly that field, and is reported exactly once",
 "Whenever an accessor fails - by throwing, by an exception delivered through its future at any later time, or by abandoning its promise - the response has null at exactly the position of that field (and a failing list element has null at its own index, the other elements keeping theirs), and the error list has exactly one entry per reported failure, carrying the failure's message, the line and column of the field in the document and the response path of the field or element. All other fields hold the values they would have had without the failure. This holds for every set of failing accessors, every launch policy and every schedule.",
 ["fault_sequences","schedules","inputs"],
 "All subsets of failing accessors, all failure kinds and times, all documents, launch policies and schedules.",
 "A few tests make one accessor throw synchronously; failures delivered through futures, from other threads, inside lists and in combination are not sampled.",
 [S,H,"doc/fieldparams.md"],[("per-field exception capture",S+" SelectionVisitor::visitField"),("gather with per-child catch",S+" Object::resolve"),("list gather with per-child catch",H+" ModifiedResult::convert<List>"),("error path chain",S+" buildErrorPath")],
 ["data and errors of the response"])
p("C03","Mutation root fields execute serially, in document order",
 "While a mutation runs, the accessor of a root field is not called until the previous root field, in document order, has completed together with its whole sub-selection. This holds under every launch policy given by the caller, every accessor answer mode and every schedule, so the effects and the response of a mutation are those of executing its root fields one after the other.",
 ["schedules","inputs","fault_sequences"],
 "All mutation documents, launch policies, accessor answer modes (value, deferred, other thread, failing) and schedules.",
 "The tests run mutations with a single root field only, so order and overlap never show.",
 [S],[("deferred policy forced for mutations",S+" Request::resolve"),("field order of the selection visitor",S+" SelectionVisitor::visitField")],
 ["order of accessor calls, accessor completions and sub-selection calls"])
p("C04","Requests running concurrently on one service do not affect each other",
 "For every number of requests that are executed concurrently, or one after another, on the same service object - valid, invalid, failing, cancelled by dropping their result, with the same or different documents, variables, directives and request states - each response equals the response of that request alone on a fresh service. Every accessor call sees the request state, arguments and directives of its own request only.",
 ["schedules","histories","inputs"],
 "All histories of requests on one service and all interleavings of concurrent ones.",
 "The tests issue one request at a time; one test happens to run async resolvers and still has a single request in flight.",
 [S,"src/Validation.cpp",H],[("per-operation data",S+" OperationData"),("validation visitor owned by the service",S+" Request::validate"),("schema shared between requests","src/Schema.cpp")],
 ["responses","accessor parameters"],
 [("validation visitor","mutable scratch state of the validator, shared by all requests of a service",H+" Request::_validation")])
p("C05","Validation verdicts depend on the document and the schema alone",
 "For every document, the verdict and the list of validation errors (messages, locations, order) are a function of the document and the schema: they do not depend on which documents, valid or not, the service validated before, on documents being validated at the same time, on when earlier documents were destroyed, or on how often the document is validated. A document accepted once stays accepted, and a rejected document is never executed or registered.",
 ["histories","schedules","inputs"],
 "All histories and interleavings of validations of valid and invalid documents on one service.",
 "The validation tests share one service object but in one fixed order, with single-threaded calls and documents that stay alive.",
 [S,"src/Validation.cpp","include/graphqlservice/GraphQLParse.h"],[("reset between documents","src/Validation.cpp ValidateExecutableVisitor::visit"),("validated flag on the document",S+" Request::validate")],
 ["Request::validate result","errors of responses"],
 [("validator scratch members","variables, fragments and scopes of the document being validated","src/Validation.cpp ValidateExecutableVisitor")])
p("C06","Accessors get exactly what the request says, and never overlap on one object",
 "In services generated from a schema, each accessor is called exactly once per selected and not skipped response field, with the arguments, defaults and variables of the request converted to their typed values, the request state, and the directives of its operation, fragments and field. Two accessors of the same object are never executing at the same time, the accessor calls of a selection set are bracketed by exactly one begin and one end notification, and this holds for every request, launch policy, number of concurrent requests and schedule.",
 ["schedules","inputs","programs"],
 "All requests against generated services, all launch policies and interleavings, including concurrent requests that share objects.",
 "Tests exercise generated accessors one request at a time, where no two calls can overlap whatever the locking.",
 ["src/SchemaGenerator.cpp",S,H,"doc/fieldparams.md"],[("per-object resolver mutex taken by generated resolvers","src/SchemaGenerator.cpp outputObjectImplementation"),("begin/end selection set",S+" Object::resolve")],
 ["accessor entry/exit, parameters"],
 [("per-object resolver mutex","held while an accessor runs",H+" Object::_resolverMutex")])
p("C07","Every event reaches each matching live subscription exactly once",
 "When an event is delivered, the callback of every subscription that is registered for that event name throughout the delivery and whose arguments and directives match the event's filter is called exactly once, with the response of evaluating that subscription's own query, variables and state against the event object; no other callback is called. When the deliver call returns, all those callbacks have completed. This holds for every history and interleaving of subscribe, unsubscribe and deliver calls from any threads, and every launch policy.",
 ["histories","schedules","inputs"],
 "All histories and interleavings of subscribe/unsubscribe/deliver, filters, documents and launch policies.",
 "Tests register one or two subscriptions and deliver from the same thread; nothing overlaps, and registries with many subscriptions and removals are not sampled.",
 [S,H,"doc/subscriptions.md"],[("registry and listener index",S+" Request::subscribe/unsubscribe/deliver"),("filter callbacks",S+" Request::deliver"),("subscription definition visitor",S+" SubscriptionDefinitionVisitor")],
 ["callback invocations and their payloads","deliver return"],
 [("subscription registry","key to registration",H+" Request::_subscriptions"),("listener index","event name to keys",H+" Request::_listeners")])
p("C08","Registering and removing subscriptions is atomic, whatever fails or re-enters",
 "A subscribe call that succeeds returns a key that no other live subscription has, and a subscribe call that fails - invalid document, failing notification accessor, failing thread creation - reports its error and leaves no subscription behind. After an unsubscribe call has returned, no later delivery calls the callback, which is then released; unsubscribing an unknown key changes nothing. This also holds when callbacks throw, or themselves subscribe, unsubscribe or deliver.",
 ["histories","schedules","fault_sequences"],
 "All histories and interleavings, all failure points of registration, all re-entrant uses from callbacks.",
 "Tests never fail a notification accessor, never throw from a callback and never call back into the service from one.",
 [S,H,"doc/subscriptions.md"],[("async subscribe/unsubscribe with notification",S+" Request::subscribe(launch), unsubscribe(launch)"),("key allocation",S+" Request::_nextKey")],
 ["keys","errors","callback invocations and lifetime"],
 [("next key","smallest key above all live ones",H+" Request::_nextKey")])
p("C09","In-flight work keeps what it needs alive, and releases everything at the end",
 "Whatever the caller drops while work is in flight - the result future before or during execution, its reference to the service, the request state, the subscription or the event object - no thread touches destroyed memory, no two threads race on memory, and no call deadlocks, as long as the document outlives the results of its own requests. Once all results are consumed or dropped, every accessor object, request state, callback and payload has been released.",
 ["schedules","histories","fault_sequences"],
 "All points in time at which a caller drops any of the objects, under all launch policies and interleavings.",
 "Tests always wait for the result and keep everything alive; a use-after-free or race that needs another interleaving passes silently.",
 [S,H],[("operation data kept alive by the pending operation",S+" OperationDefinitionVisitor::visit"),("shared registration captured by callbacks",S+" Request::deliver"),("service kept alive by async subscribe/unsubscribe",S+" Request::subscribe(launch)")],
 ["memory accesses","object lifetimes"])
p("C10","Running out of threads or memory never corrupts or silently alters a result",
 "When thread creation or memory allocation fails at any point of parsing, validating, executing, subscribing, delivering or unsubscribing, the call reports an error (an exception, or an error entry with null for what could not be computed) or the process stops; it never hangs, never returns a result that differs silently from the fault-free one, and never touches invalid memory. After the fault has cleared, requests on the same service get correct responses and live subscriptions get their events.",
 ["fault_sequences","crash_points","schedules"],
 "Every allocation and every thread creation of every operation as failure point, alone and in combination.",
 "The tests never make an allocation or a thread creation fail.",
 [S,H,"src/SyntaxTree.cpp","src/Validation.cpp"],[("exception capture around accessors and children",S),("futures own their threads",H)],
 ["result or exception","follow-up requests"])
p("C11","Services and schemas can be created, introspected and dropped on any thread",
 "Creating services from a generated schema, looking up and wrapping types, running introspection queries and destroying services give, from any number of threads at the same time, the same results as from one thread: every service gets a complete schema, every introspection response equals the sequential one, and equal wrapped types of one schema are one object. A schema lives as long as any service or introspection object uses it.",
 ["schedules","histories"],
 "All interleavings of creation, lookup, introspection and destruction.",
 "Tests create services one after another on one thread.",
 ["src/Schema.cpp","src/Introspection.cpp","src/SchemaGenerator.cpp","include/graphqlservice/internal/Schema.h"],[("shared lock around the wrapped type caches","src/Schema.cpp Schema::WrapType"),("cached schema per generated service","src/SchemaGenerator.cpp GetSchema")],
 ["introspection responses","type identity"],
 [("wrapped type caches","non-null and list wrappers by inner type","src/Schema.cpp"),("weak reference to the schema","shared by services that exist at the same time","src/SchemaGenerator.cpp")])
p("C12","A generated client gets exactly what the service answered, or an exception",
 "Requests made by clientgen, sent in process or as JSON over a network that delays, reorders, duplicates, drops, truncates or corrupts messages and a service that restarts: the service gets the request document and every variable as the client filled it in (scalars, enums, lists, nullables, nested input objects); the typed response equals, member by member, what the received document says, which for an undamaged message is what the service computed, and service errors arrive with message, locations and path. Bytes that are not exactly one JSON document, or data that does not fit the response types, raise an exception; every other document is accepted. Concurrent clients may share the pre-parsed request objects. Once the network delivers again, a retried request completes.",
 ["fault_sequences","schedules","inputs"],
 "All requests and variables of generated clients, all sequences of message faults.",
 "Client tests hand in-process responses to the parser; no message is ever serialised, lost or cut off.",
 ["src/GraphQLClient.cpp","src/JSONResponse.cpp","src/ClientGenerator.cpp","include/graphqlservice/GraphQLClient.h","src/GraphQLResponse.cpp"],[("JSON reader/writer","src/JSONResponse.cpp"),("typed response parsing","include/graphqlservice/GraphQLClient.h ModifiedResponse"),("variables serialisation","include/graphqlservice/GraphQLClient.h ModifiedVariable")],
 ["typed responses","exceptions"])
p("C13","A generator run that reports success has written every file completely",
 "When a code generator run exits with success, it has written the list of its files, and every file on it exists and is complete and byte-for-byte the one a fault-free run writes. If it cannot bring that about, because an open, write, close or read fails, the disk is full or an input is missing or invalid, it exits with a failure and a diagnostic; it neither crashes nor hangs (short or interrupted operations may be absorbed). A run that follows failed or killed runs on the same directories, without further faults, writes the same files as a first run.",
 ["fault_sequences","crash_points","configurations"],
 "Every I/O operation of a run as failure or crash point, all option combinations.",
 "The build runs the generators on a healthy disk only.",
 ["src/SchemaGenerator.cpp","src/ClientGenerator.cpp","src/GeneratorUtil.cpp","src/SchemaLoader.cpp","src/RequestLoader.cpp"],[("output streams and exit status","src/SchemaGenerator.cpp main / Build"),("output streams and exit status","src/ClientGenerator.cpp main / Build")],
 ["exit status","announced files on disk"])
p("C14","Parsing a file gives the parse of its content, or an error",
 "For every executable or schema document, parsing the file gives the same tree as parsing its content from memory; when opening, measuring, mapping or reading the file fails or the content is no document, the call throws (for the content: the error at the position the parse from memory reports) and leaves no file open or mapped. The tree stays the same for as long as it exists, even if the file is removed, renamed or replaced by another one. Parsing from any number of threads at the same time gives the same trees as parsing alone.",
 ["fault_sequences","inputs","schedules"],
 "All documents, all I/O fault points, all interleavings of concurrent parses.",
 "File parsing is not tested at all with faults, and parsing never runs concurrently in a test.",
 ["src/SyntaxTree.cpp","include/graphqlservice/internal/SyntaxTree.h"],[("input kinds behind one document type","src/SyntaxTree.cpp parseFile/parseString")],
 ["trees","exceptions","open files"])
# Pure functions of their input: stated for completeness, not claimed (see MANIFEST not_applicable).
p("C15","Validation accepts exactly the documents the GraphQL specification allows",
 "For every schema and executable document, validation reports an error if and only if the document breaks one of the rules of the June 2018 specification, and the errors point at the offending location.",
 ["inputs","programs"],"All schemas and documents.","The tests check about one example per rule.",
 ["src/Validation.cpp"],[("validation visitors","src/Validation.cpp")],["Request::validate result"])
p("C16","The grammar accepts exactly GraphQL documents and decodes strings per the spec",
 "Every document the specification allows is parsed, every other text is rejected with a position, and string, block string, name and number tokens have the values the specification gives them.",
 ["inputs"],"All byte strings.","The tests parse a fixed set of documents.",
 ["src/SyntaxTree.cpp","include/graphqlservice/internal/Grammar.h"],[("PEG grammar","include/graphqlservice/internal/Grammar.h")],["parse result"])
p("C17","Response values survive conversion to JSON text and back",
 "For every response value made of JSON types, converting it to JSON text gives valid JSON and parsing that text gives an equal value; Base64 identifiers decode to the bytes they encode.",
 ["inputs"],"All values.","The tests sample a few values.",
 ["src/JSONResponse.cpp","src/Base64.cpp","src/GraphQLResponse.cpp"],[("JSON writer/reader","src/JSONResponse.cpp"),("Base64","src/Base64.cpp")],["text and values"])
p("C18","Generated code matches the schema it was generated from",
 "For every valid schema, the generated sources compile, and declare exactly one accessor with the right argument and result types per field, one typed conversion per enum and input type, and an introspection description equal to the schema.",
 ["programs","inputs"],"All schemas.","The build generates code for two sample schemas.",
 ["src/SchemaGenerator.cpp","src/ClientGenerator.cpp","src/SchemaLoader.cpp"],[("code output","src/SchemaGenerator.cpp")],["generated sources"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
