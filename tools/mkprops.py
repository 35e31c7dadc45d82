#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so wording stays easy to revise)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=hook)))
RC="src/rtmessage/rtConnection.c"; RD="src/rtmessage/rtrouted.c"; RT="src/rtmessage/rtRoutingTree.c"
CORE="src/core/rbuscore.c"; RB="src/rbus/rbus.c"; SUBS="src/rbus/rbus_subscriptions.c"; EL="src/rbus/rbus_element.c"
VC="src/rbus/rbus_valuechange.c"; IV="src/rbus/rbus_intervalsubscription.c"; AS="src/rbus/rbus_asyncsubscribe.c"
HD="src/rbus/rbus_handle.c"; MSG="src/rbus/rbus_message.c"; DIR="src/rtmessage/rtrouteBase.c"; SM="src/session_manager/session_manager.c"

prop("C01","A caller receives the response to its own request and no other",
 "Every get, set, table or method call that returns an answer returns the answer its provider produced for exactly that call: the values, output parameters and error code handed to one caller are never those of another concurrent or earlier call, whether from the same or another thread or process. This includes late answers: an answer that arrives after its caller timed out is discarded and is never delivered to a later call.",
 ["schedules","histories","fault_sequences"],"all interleavings of concurrent requests from several threads and processes through the router, all stream fragmentations, and slow providers that answer after the caller's timeout",
 "Tests issue one request at a time against a prompt provider; correlation of overlapping requests and of late answers depends on schedules they never produce.",
 [RC,RD,CORE,RB],[("sequence numbers and the pending-request list","%s: rtConnection_SendRequestInternal"%RC),("request header copied into the response, routed by reply topic","%s: rtConnection_SendResponse; %s: rtRouted_ForwardMessage"%(RC,RD))],
 [("pending_requests_list","requests waiting for an answer",RC)],["rbus_get","rbus_set","rbusMethod_Invoke"])
prop("C02","A request runs its handler once, with the arguments the caller sent",
 "While every process stays up and no timeout expires, each get, set, table and method request that is sent runs the addressed provider's handler exactly once, with the element name, value and parameters the caller supplied; a request that fails or times out has run its handler at most once. No handler ever runs for a request nobody sent.",
 ["schedules","histories","fault_sequences"],"all interleavings of concurrent callers and several providers, all stream fragmentations, and provider or router failures at any point",
 "Duplicated or lost dispatch shows only under particular reader/worker interleavings, queue pressure or partial I/O; the tests run single requests over an undisturbed local socket.",
 [RC,RD,CORE,RB],[("router forwards to one route per request","%s: rtRouted_ForwardMessage/rtRouter_DispatchMessageFromClient"%RD),("reader thread hands frames to the callback thread through a queue","%s: rtConnection_ReaderThread, rtConnection_CallbackThread"%RC)],
 (),["provider get/set/method handlers"])
prop("C03","Every blocking call completes within its timeout",
 "A blocking get, set, setMulti, method, table or discovery call returns within its configured timeout plus a small constant, whatever its provider does: answer, stall, exit, or crash before or after receiving the request. If the destination does not exist, or is known to have gone, the caller gets a not-found or not-reachable error promptly instead of waiting out the timeout, and success is never reported for a call that got no answer.",
 ["schedules","crash_points","fault_sequences"],"all crash and stall points of provider relative to the request, all interleavings of answer, timeout and disconnect, and spurious condition-variable wakeups",
 "Tests exercise one timeout with an idle provider; the races between answer and timeout, spurious wakeups, and crashes in mid-request are not reachable from them.",
 [RC,"src/rtmessage/rtSemaphore.c",RD,CORE,RB,HD],[("timed semaphore wait on the monotonic clock","src/rtmessage/rtSemaphore.c: rtSemaphore_TimedWait"),("router bounces undeliverable requests","%s: rtRouter_DispatchMessageFromClient"%RD),("timeouts per operation","%s"%HD)],
 (),["return code and simulated duration of each API call"])
prop("C04","Events arrive in order, complete, unmodified and only at their subscribers",
 "While a subscriber keeps up and the bus stays connected, every event published after its subscription was acknowledged and before it unsubscribed is delivered to that subscriber's handler exactly once, with the published name, type and data, and events of one publisher arrive in the order it published them. No handler receives an event it is not subscribed to.",
 ["schedules","histories","fault_sequences"],"all interleavings of several publishers, subscribers and unrelated traffic, all stream fragmentations and delays",
 "Tests publish a few events between one publisher and one subscriber; order and exactly-once delivery across concurrent publishers, subscribers and partial reads are properties of schedules.",
 [RB,SUBS,CORE,RC,RD],[("per-subscriber publish over the ordered stream","%s: rbusEvent_Publish"%RB),("single callback thread per connection preserves order","%s: rtConnection_CallbackThread"%RC)],
 [("rbusSubscriptions_t","provider-side list of subscriptions",SUBS)],["rbusEventHandler_t callbacks"])
prop("C05","A name has at most one owner and requests reach only its current owner",
 "At any time at most one process owns a data element name: registering a name another live process already holds is refused and leaves the existing owner's registration working, and a name nobody holds is never refused. Requests for a name are delivered only to its current owner; once the router has learnt that the owner unregistered, closed or died, the name answers not-found and can be registered by anyone.",
 ["schedules","histories","crash_points"],"all interleavings of register, unregister, close, crash and requests by several processes on overlapping names",
 "Tests register fixed names from one provider in a fixed order; racing registrations and owner death at arbitrary points are not sampled.",
 [RD,RT,CORE,RB],[("routing tree rejects a duplicate alias","%s: rtRoutingTree_AddTopicRoute"%RT),("routes of a disconnected client are purged","%s: rtRouted_ClearClientRoutes"%RD)],
 [("gRoutingTree","name -> owning client",RT)],["rbus_regDataElements","rbus_get","rbus_discoverComponentName"])
prop("C06","One client's failure or departure leaves other clients unaffected",
 "When a client disconnects, crashes, unregisters elements, or unsubscribes, only its own registrations and subscriptions are removed: elements, subscriptions and pending requests of every other client keep working, including ones with names that share a prefix or a table with it. The router keeps serving.",
 ["schedules","crash_points","histories"],"all points at which a client can crash or depart, with any registrations and in-flight traffic of the others",
 "Tests tear components down cleanly at the end of a run; they do not kill one among several while traffic is in flight.",
 [RD,RT,CORE,SUBS],[("client cleanup on disconnect","%s: rtRouted_ClearClientRoutes, rtRouted_OnClientDisconnect"%RD),("routes removed by owner","%s: rtRoutingTree_RemoveRoute, rtRoutingTree_RemoveTopic"%RT)],
 (),["later gets, events and discovery by surviving clients"])
prop("C07","A multi-property set reports honestly and commits or rolls back as a whole",
 "A setMulti that returns success has applied every property in it, each with the value given, and committed; if a provider rejects a property, or a provider is unreachable or does not answer, setMulti returns an error and the properties it had already applied at providers that are reachable and answer are restored to their previous values (what a provider holds whose own answer timed out is not specified). A successful set is visible to every later get until another set.",
 ["histories","crash_points","fault_sequences","schedules"],"all groupings of properties over several providers, all positions of a rejection, and provider crashes at any point of the operation",
 "Tests cover one provider with one rejected property; batches across providers combined with crash, stall or unreachability between batches are not sampled.",
 [RB],[("batching by provider and rollback from cached values","%s: _setMultiInternal"%RB),("provider-side set with session/commit","%s: _set_callback_handler"%RB)],
 (),["rbus_setMulti/rbus_setMultiExt return codes; provider stores; later rbus_get"])
prop("C08","A multi-property get returns complete, correct results or an error",
 "A get over several names, partial paths or wildcards that reports success returns, for each existing readable element addressed, exactly its current value once, and nothing for elements not addressed. If any provider involved fails, is unreachable, or does not answer, the call returns an error rather than success with part of the result (a single partial path that spans several providers is answered by those of them that can).",
 ["histories","fault_sequences","schedules"],"all groupings of names over several providers and tables, and provider errors, stalls or crashes during the call",
 "Tests read fixed lists from healthy providers; partial failure across providers during one call is not produced.",
 [RB,EL],[("grouping by destination and collecting per-provider responses","%s: rbus_getExt"%RB),("partial-path expansion","%s: get_recursive_wildcard_handler, _get_callback_handler"%RB)],
 (),["rbus_getExt result list"])
prop("C09","Subscribing is acknowledged once, effective, and undone by unsubscribing",
 "A subscribe call that reports success is registered at the provider (the provider's subscribe handler saw it and may veto it), a duplicate subscribe is refused, and a subscribe the provider rejects delivers nothing. After unsubscribe returns, or after the subscriber closes, the provider holds no subscription for it and the handler is not called again for events published later.",
 ["histories","schedules"],"all sequences and interleavings of subscribe, unsubscribe, publish, provider veto and close over several subscribers and event names, rows and wildcards",
 "Tests run fixed subscribe/unsubscribe pairs; interleavings with publication, vetoes and several subscribers of the same element are not explored.",
 [RB,SUBS,CORE],[("subscription records per element instance","%s"%SUBS),("subscribe/unsubscribe requests and handler veto","%s: subscribeHandlerImpl, rbusEvent_SubscribeWithRetries, rbusEvent_Unsubscribe"%RB)],
 (),["rbusEventSubHandler_t calls, event handler calls, return codes"])
prop("C10","Value-change subscribers learn of every lasting change, with filters honoured",
 "If an element's value changes and then stays, every value-change subscriber receives an event carrying the new value within a bounded number of polling periods, and each event's old value is the new value of the previous event (the value at subscription for the first). A subscriber with a filter gets an event exactly when the filter's truth value flips between polls, and no value-change event is sent when the value did not change.",
 ["schedules","histories","inputs"],"all timings of value changes relative to polling, all interleavings of subscribe, unsubscribe, row deletion and polling, several subscribers with different filters",
 "Tests wait real seconds for a handful of changes; the timing of changes against the poll thread and concurrent subscription changes are uncontrolled there.",
 [VC,RB,SUBS],[("poll thread comparing cached with current values","%s: rbusValueChange_pollingThreadFunc"%VC),("filter evaluation at publish","%s: rbusEvent_Publish"%RB)],
 [("ValueChangeRecord","cached value per polled property",VC)],["rbusEventHandler_t with RBUS_EVENT_VALUE_CHANGED"])
prop("C11","Interval subscriptions tick on schedule and stop when told",
 "An interval subscription delivers the element's current value once per interval, neither more often nor (while the provider is up) skipping intervals, and with a duration it delivers until the duration has elapsed, then one duration-complete event and nothing more. After unsubscribe returns no further interval event is published for it, and unsubscribing completes promptly whatever the interval.",
 ["schedules","histories"],"all intervals and durations, and all interleavings of ticks, duration completion, unsubscribe, row deletion and other subscriptions of the same element",
 "Tests use one or two fixed intervals in real time; races between tick, completion and unsubscribe are not reachable.",
 [IV,RB,SUBS],[("one timer thread per interval subscription","%s: PublishingThreadFunc"%IV)],
 [("sRecord","per-subscription timer thread",IV)],["rbusEventHandler_t with RBUS_EVENT_INTERVAL / DURATION_COMPLETE"])
prop("C12","An asynchronous subscribe reports its outcome once and takes effect",
 "Subscribing asynchronously to an element calls the response callback exactly once, with success as soon as a provider for the element is reachable (also if it registers long after the call), with the provider's error if it refuses, or with an error after the configured retry time; events are delivered from success on. If the subscriber unsubscribes or closes first, the callback is not called after that returns, and no subscription is left behind.",
 ["schedules","histories","fault_sequences"],"all arrival times of the provider relative to the retry schedule, and all interleavings of several pending subscriptions with unsubscribe and close",
 "Tests need real minutes to reach the retry schedule and so start the provider at one or two fixed moments.",
 [AS,RB],[("retry thread with doubling waits","%s: AsyncSubscribeRetrier_ThreadFunc"%AS)],
 [("gRetrier","list of pending asynchronous subscriptions",AS)],["rbusSubscribeAsyncRespHandler_t"])
prop("C13","A restarted provider serves its surviving subscribers again",
 "When a provider process crashes or exits and is started again under the same component name and re-registers its elements, subscribers that are still alive receive newly published events again without resubscribing, with the same filter, interval and data kind, each exactly once; subscriptions of processes that have died, or that unsubscribed, are not revived. A missing, truncated or corrupted subscription record on disk never crashes the provider or stops it from serving.",
 ["crash_points","fault_sequences","histories"],"all crash points of the provider relative to subscribe, unsubscribe and record writing, disk errors, short, torn and corrupted records",
 "Tests never crash a provider at a chosen write, nor damage the stored record.",
 [SUBS,RB,EL],[("subscription cache file per component, rewritten on change and loaded at open","%s: rbusSubscriptions_saveCache, rbusSubscriptions_loadCache"%SUBS),("resubscription when elements register","%s: rbusSubscriptions_resubscribeElementCache"%SUBS)],
 [("/tmp/rbus_subs_<component>","durable subscription list",SUBS)],["events delivered after provider restart"])
prop("C14","The router survives arbitrary bytes from a client",
 "Whatever bytes a connected client sends the router - truncated, oversized, inconsistent or random frames, malformed control messages, in any fragmentation, ended at any point - the router keeps running, touches no memory out of bounds, and keeps serving other clients correctly. At worst the offending client is disconnected.",
 ["inputs","fault_sequences","schedules"],"all byte streams on a client connection, all fragmentations, and disconnection at any byte, interleaved with legitimate traffic of others",
 "Tests only send frames produced by the client library.",
 [RD,"src/rtmessage/rtMessageHeader.c","src/rtmessage/rtEncoder.c","src/rtmessage/rtMessage.c",RT],[("incremental frame reader per client","%s: rtConnectedClient_Read"%RD),("header decoding","src/rtmessage/rtMessageHeader.c: rtMessageHeader_Decode"),("control-message handlers","%s: rtRouted_OnMessageSubscribe/Hello/Discover*"%RD)],
 (),["liveness of the router and of other clients' requests"])
prop("C15","Message framing is independent of how the stream is cut up",
 "A message of any permitted size is received byte for byte as sent - by the router, by clients and on direct connections - no matter how the transport splits or merges the bytes, how slowly it delivers them, or how small the socket buffers are, and never mixes with other messages sent concurrently by other threads.",
 ["schedules","inputs","fault_sequences"],"all splits of the byte stream, all socket-buffer sizes and stalls, sizes from empty through well beyond the internal buffers, and concurrent senders",
 "Local sockets deliver small messages in one piece; the tests cannot choose where the stream is cut or make a send partial.",
 [RC,RD,DIR],[("frame reader state machine","%s: rtConnectedClient_Read; %s: rtConnection_ReadUntil, rtConnection_Read"%(RD,RC)),("buffer growth to the message size","%s, %s"%(RC,RD)),("atomic frame writes under the connection lock","%s: rtConnection_SendInternal"%RC)],
 (),["payload checksums at handlers and callers"])
prop("C16","Clients recover when the router restarts",
 "After the router stops, crashes or drops a connection and a router is available again, every client process reconnects by itself within a bounded time and its listeners and registered elements are reachable again, so that later gets, sets, methods and events succeed without the application doing anything. Calls made during the outage return an error or succeed; they never hang or report false success.",
 ["crash_points","fault_sequences","schedules"],"all crash points of the router relative to client activity, connection resets at any byte, repeated outages, and connect attempts that fail several times",
 "Tests start the router once and keep it; no test restarts it in mid-traffic.",
 [RC,CORE,RD],[("reconnect and re-registration of listeners","%s: rtConnection_ConnectAndRegister, rtConnection_ReaderThread"%RC)],
 (),["API calls after the outage"])
prop("C17","Closing a handle is orderly",
 "Closing a bus handle returns in bounded time from any state - with calls, events, timers, pending asynchronous work or subscriptions in progress - without deadlock or memory error, and once it has returned no handler or callback of that handle runs any more and nobody can reach its elements. Other handles of the process keep working, and the component can be opened again.",
 ["schedules","histories","crash_points"],"all interleavings of close with incoming requests, events, value-change and interval timers, and with other handles opening and closing in the same process",
 "Tests close at the end of a run with nothing in flight.",
 [RB,CORE,RC,HD],[("teardown sequence","%s: rbus_close; %s: rbus_closeBrokerConnection; %s: rtConnection_Destroy"%(RB,CORE,RC))],
 (),["handler invocations and calls after rbus_close"])
prop("C18","An asynchronous method call calls back exactly once",
 "Each asynchronous method invocation that was accepted calls its callback exactly once, with the provider's result for that invocation or with an error no later than its timeout; a provider may answer later from another thread and the answer still reaches the right caller, synchronous or not. Concurrent invocations neither lose nor swap results.",
 ["schedules","histories","crash_points"],"all interleavings of concurrent invocations, deferred provider answers in any order, and provider crash or silence",
 "Tests make one or two asynchronous calls against a prompt provider.",
 [RB,CORE],[("one worker thread per invocation","%s: rbusMethod_InvokeAsync"%RB),("deferred response carries the request header","%s: rbusMethod_SendAsyncResponse"%RB)],
 (),["rbusMethodAsyncRespHandler_t callbacks"])
prop("C19","At most one session exists and only its holder's id is honoured",
 "Of any number of concurrent session-create requests at most one succeeds until the session is closed; the others get a session-already-exists error. The current-session query returns the live session's id or none, closing with any other id is refused and leaves the session in place, and after a successful close a session can be created again.",
 ["schedules","histories"],"all interleavings of create, query and close by several processes",
 "The session tests run one client through a fixed script.",
 [SM,RB],[("single session id in the manager process","%s"%SM)],
 [("g_current_session_id","live session",SM)],["rbus_createSession, rbus_getCurrentSession, rbus_closeSession"])
prop("C20","Direct connections behave like the bus and fall back to it",
 "Opening a direct connection to an element changes only the route: gets, sets and events give the same results as over the bus, before, during and after opening and closing it. If the direct connection is closed, or its consumer or provider dies, the provider and the other clients keep working and the elements remain reachable over the bus once a provider serves them.",
 ["schedules","crash_points","histories"],"all interleavings of open/close of direct connections with traffic, and provider or consumer crash at any point",
 "Tests open one direct connection and use it without failures.",
 [CORE,DIR,RB],[("private listener per consumer in the provider","%s: rtRouteDirect_StartInstance"%DIR),("lookup of private connection before the broker","%s: rbuscore_FindClientPrivateConnection"%CORE)],
 (),["API results over direct handles"])
prop("C21","Table rows: unique, consistent with events, and fully removed",
 "Rows added to a table, by the provider or by any consumer, are immediately addressable under their instance number and alias, each reported by exactly one object-created event to table subscribers; removing a row makes the row and everything under it unreachable, is reported by exactly one object-deleted event, and removes no other row. The row list equals the rows added and not removed, and subscriptions to elements of a table wildcard apply to rows created later.",
 ["histories","schedules"],"all sequences and interleavings of adding, registering, removing and querying rows from several processes, with subscriptions on tables, rows and wildcards",
 "Tests use fixed row scripts from one consumer.",
 [RB,EL,SUBS],[("row instantiation in the element tree","%s: instantiateTableRow, deleteTableRow"%EL),("subscription propagation to rows","%s: rbusSubscriptions_onTableRowAdded/Removed"%SUBS)],
 (),["rbusTable_* calls, row events, rbus_get on row elements"])
prop("C22","The bus API is safe for concurrent use",
 "Any mix of bus calls made concurrently from several threads of one process on one or several handles, while handlers and callbacks run, completes without deadlock, memory error or lost update: each call behaves as it would in some one-at-a-time order. Handlers may themselves make bus calls.",
 ["schedules","programs"],"all interleavings at the granularity of synchronisation, I/O and function-internal preemption points, of threads registering, getting, setting, subscribing, publishing and closing",
 "Tests are largely single-threaded; a thread-safety violation needs a particular interleaving.",
 [RB,CORE,RC,HD,SUBS,"src/rtmessage/rtList.c"],[("per-handle and global mutexes","%s, %s, %s"%(RB,CORE,RC))],
 (),["all API results; absence of memory errors and stuck threads"])
prop("C23","Raw messaging delivers each message in order, once, to its listeners",
 "A raw message sent on a topic is delivered with identical bytes, exactly once and in sending order, to each listener of that topic while it keeps up; a send with confirmation succeeds only if a listener received the message, and fails if there is none. After a listener is removed it receives nothing more, and other listeners are unaffected.",
 ["schedules","histories","fault_sequences"],"all interleavings of several senders, listeners, listener removal and crash, and stream fragmentation",
 "Tests send fixed messages to one listener.",
 [MSG,RC,RD],[("topic listeners on the client connection","%s; %s"%(MSG,RC))],
 (),["rbusMessageHandler_t callbacks and rbusMessage_Send results"])
prop("C24","Timers and deadlines are immune to wall-clock changes",
 "Stepping the system's wall-clock time forwards or backwards at any moment neither shortens nor lengthens request timeouts, subscription intervals and durations, value-change polling or reconnection beyond their normal bounds, and causes no hang or busy loop.",
 ["fault_sequences","schedules"],"all moments and sizes of wall-clock steps relative to outstanding timers",
 "Tests cannot set the clock.",
 ["src/rtmessage/rtSemaphore.c","src/rtmessage/rtTime.c",IV,VC,AS,RC],[("condition variables on the monotonic clock","src/rtmessage/rtSemaphore.c; %s; %s; %s"%(IV,VC,AS))],
 (),["timing of events and call returns in simulated monotonic time"])
prop("C25","Discovery and listing report exactly what is there",
 "Asking for the components that provide some elements, for the elements of a component, for information about the elements in an object to a given depth, or for the rows of a table returns everything that was there throughout the query, nothing that was absent throughout, each once, with its right name, component, type, access and alias, while elements and rows come and go. A table with a sync handler is listed as the handler left it during that query.",
 ["schedules","histories","fault_sequences"],"all interleavings of queries with registration, row creation and removal by consumers and by the provider's own threads, table syncing, provider close, crash and restart",
 "Tests list a fixed tree once; torn listings need a change between counting and emitting.",
 [RB,"src/rbus/rbus_element.c",CORE,RD,"src/rtmessage/rtRoutingTree.c"],[("element tree traversal in the provider; routing tree queries in the router","%s: _get_parameter_names_handler; %s: rbus_discover*; %s: rtRouted_OnMessageDiscover*"%(RB,CORE,RD))],
 (),["results of rbus_discoverComponentName, rbus_discoverComponentDataElements, rbusElementInfo_get, rbusTable_getRowNames and wildcard gets"])
prop("C26","A trace context reaches exactly the call it was set for",
 "A method handler sees exactly the trace context that the thread making the synchronous call had set for that call (or none if none was set, it was cleared, or it is too long to carry); calls made by a handler while it serves carry the context on; a caller's own context is unchanged by its calls; and a context never leaks to later calls, to event handlers or to other threads, whether a method is answered at once or later.",
 ["schedules","histories"],"all interleavings of calls with differing contexts from several threads, nested calls, methods answered later, get and set served by the same threads",
 "Tests set one context on one thread; a leak needs a particular sequence of calls served by the same thread.",
 [CORE,RB,"src/rbus/rbus_tracecontext.c" if os.path.exists("/repo/src/rbus/rbus_tracecontext.c") else HD],[("thread-local context set in dispatch and cleared afterwards","%s; %s"%(CORE,RB))],
 (),["rbusHandle_GetTraceContextAsString in handlers and callers"])
prop("N01","Values survive encoding unchanged",
 "Every value, property and object that can be built with the public API is equal to itself after being encoded, sent and decoded, and its string form parses back to the same value.",
 ["inputs"],"all values of all types","Tests sample a few values per type.",
 ["src/rbus/rbus_value.c","src/rbus/rbus_property.c","src/rbus/rbus_object.c","src/rbus/rbus_buffer.c"],[("TLV encoding","src/rbus/rbus_value.c: rbusValue_encode/decode")])
prop("N02","Filters evaluate like their logical expression",
 "A relational or logical filter evaluates to the truth value of the expression it states for every pair of comparable values, and printing, copying and comparing filters is faithful.",
 ["inputs"],"all filters and values","Tests sample a few filters.",
 ["src/rbus/rbus_filter.c","src/rbus/rbus_value.c"],[("recursive evaluation","src/rbus/rbus_filter.c: rbusFilter_Apply")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
