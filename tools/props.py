#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit).  Run: python3 tools/props.py > properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Mailbox queue loses, duplicates and reorders nothing",
  "Every item pushed by any number of concurrent producers is popped exactly once, and the items of one producer come out in the order it pushed them. A single consumer that pops one item for each readiness signal eventually obtains every pushed item: no wake-up is lost, and the queue reports empty exactly when nothing is left.",
  ["schedules","inputs"],"every interleaving of the producers' and the consumer's atomic steps, every item value",
  "the mailbox has no test of its own; the actor tests drive it with whatever interleaving the machine happens to produce",
  ["lib/mpsc/mpsc.go"],[("Push: swap head, then link, then count+signal","lib/mpsc/mpsc.go Push/setCount"),("Pop / Empty over the tail stub","lib/mpsc/mpsc.go Pop/Empty")],
  [("head/tail/next","linked list with stub","mpsc.Queue"),("count, C","number of items and 1-slot readiness signal","mpsc.Queue")],["values returned by Pop, Count, Empty"])

p("C02","An actor handles every accepted message once, one at a time",
  "Each message an actor accepts is handed to the handler registered for its event exactly once, handlers of one actor never overlap, and messages from one sender are handled in the order they were accepted. A handler that fails or panics, and a message for an unregistered event, neither stop the actor nor leave the caller waiting.",
  ["schedules","inputs"],"every interleaving of senders, the actor loop and waiters; every event name, handler outcome (ok, error, panic) and mix of messages",
  "call and send tests run a handful of messages on one lucky schedule and never make a handler panic while others are queued",
  ["core/actor/actor_runtime_impl.go","lib/mpsc/mpsc.go"],[("single update goroutine draining the mailbox","actor_runtime_impl.go update"),("deferred recover and waitgroup release","actor_runtime_impl.go update"),("Received accounts for the message before queueing","actor_runtime_impl.go Received")],
  None,["handler invocations","return of Call"])

p("C03","A local call returns only after the whole call tree has finished",
  "A synchronous call to a local actor that starts a call tree (its message has no outstanding handlers) returns success only once the target's handler and every handler reached by nested calls made with the same message have finished, and the response they wrote is then visible to the caller; a nested call only queues. If the caller's context ends first, or the actor refuses the message, the call returns an error; if the five second limit passes first, the message carries an error.",
  ["schedules","inputs","fault_sequences"],"every interleaving of caller, actors and timers; every depth of nesting up to the bound; every moment the context or the limit can expire",
  "the call tests use one actor chain with generous timeouts; they never race completion against cancellation",
  ["core/node/system_impl.go","router/msg/msg.go","lib/warpwaitgroup/warpwaitgroup.go"],[("root call detection by shared wait group","system_impl.go localCall"),("ready/waitCh/Done channels and timeouts","system_impl.go localCall")],
  [("wait group in the message context","outstanding handlers of this call tree","msg.WaitGroupKey")],["result of ISystem.Call, Wrapper.Res, Wrapper.Err"])

p("C04","Actor shutdown drains what was accepted and then refuses",
  "When an actor is shut down, every message it accepted is handled before the shutdown returns (unless the ten second limit passes), no handler or timer callback runs after it returned, and every later delivery is refused with an error. Shutdown returns.",
  ["schedules"],"every interleaving of senders, the actor loop and the shutdown",
  "the existing tests stop actors only at the end, with empty mailboxes",
  ["core/actor/actor_runtime_impl.go"],[("shutdownCh / checkClose / closeCh protocol","actor_runtime_impl.go update, Exit"),("closed flag checked on delivery","actor_runtime_impl.go Received")],
  [("closed","0 open, 1 draining, 2 closed","actor.Runtime")],["handler invocations relative to the return of Exit; error of Received"])

p("C05","Sender identity is recorded and calls back to the origin are refused",
  "The first actor to call with a message is recorded as its origin and stays so over every further hop, while the previous-sender type always names the latest actor to call; plain sends stamp nothing. A message delivered to the actor recorded as its origin is refused with the self-call error instead of being queued, for every id.",
  ["inputs","histories"],"every actor id/type and every chain of hops up to the bound, including origins that are a prefix of, or equal to, the target",
  "tests check one two-actor chain; they do not vary ids or hop patterns",
  ["core/actor/actor_runtime_impl.go","core/node/system_impl.go"],[("Call/ReenterCall stamp the header","actor_runtime_impl.go Call, ReenterCall"),("Received compares origin with own id","actor_runtime_impl.go Received")])

p("C06","A future completes once and runs every callback once",
  "Only the first completion of a future counts. Every callback registered on it, before or after completion and from any goroutine, runs exactly once with that first result, also while another callback waits, and the future returned by registering a callback completes with the same result after that callback has run.",
  ["schedules","inputs"],"every interleaving of completers and registrations, every number of callbacks up to the bound",
  "the reenter tests use one completer and one callback",
  ["core/actor/actor_reenter_impl.go"],[("mutex, done channel, callback list","actor_reenter_impl.go Then, Complete, IsCompleted")])

p("C07","A reentrant call answers its future exactly once and never blocks",
  "Issuing a reentrant call returns immediately, and while the calling actor lives its future completes exactly once: with the callee's response if the call succeeds, with an error if the call fails or the request's context ends first. The response is filled in on the calling actor's own turn, so other messages of that actor are handled meanwhile.",
  ["schedules","inputs","fault_sequences"],"every interleaving of caller, callee, cancellation and the actor loop; every callee outcome",
  "the reenter tests run the success path on one schedule",
  ["core/actor/actor_runtime_impl.go","core/actor/actor_reenter_impl.go","router/msg/msg.go"],[("goroutine + callFuture + reenter queue","actor_runtime_impl.go ReenterCall"),("Swap isolates the wait group","msg.go Swap")])

p("C08","Actor timers fire when due, on the actor's turn, until cancelled",
  "A registered timer first fires after its delay (at once if the delay is zero) and then once per interval, or only once if the interval is zero; a reset to another interval on the actor's turn makes it fire once per that interval from then on. Callbacks never overlap handlers of the same actor. A callback that fails or panics does not stop the actor or the timer, and after a cancellation made on the actor's turn (or by shutting the actor down) no further callback of that timer runs; no sequence of register, cancel, stop and reset crashes the process.",
  ["schedules","inputs","histories"],"every delay/interval (including zero), every interleaving of ticking, cancelling and shutting down",
  "the timer tests sleep for real time with fixed delays; ten of their subtests do not even pass on the unchanged tree",
  ["core/actor/actor_runtime_impl.go","core/actor/actor_timer.go"],[("timer goroutine feeding the actor loop","actor_runtime_impl.go OnTimer"),("active flag","actor_timer.go Stop/Reset")])

p("C09","Handler chains run in order and events are registered once",
  "For every event a chain runs its before steps, its handler and its after steps in that order, stops at the first step that fails and reports that step's error. Registering an event that is already registered is refused and leaves the first registration in force.",
  ["inputs","configurations"],"every number of before/after steps up to the bound, every combination of step outcomes, every pair of event names",
  "tests register chains with one handler and no failing steps",
  ["core/actor/actor_chain.go","core/actor/actor_runtime_impl.go"],[("DefaultChain.Execute","actor_chain.go"),("OnEvent existence check","actor_runtime_impl.go OnEvent")])

p("C10","One live actor per id on a node, and failed registration leaves nothing",
  "However registrations race, at most one of those with the same id succeeds on a node while that actor lives; the others get an error. A successful registration makes the actor findable locally and in the address book under its id, type and weight, and a failed one (bad parameters, duplicate, limit reached, the store refusing a request) leaves neither a running actor nor a new record behind.",
  ["schedules","inputs","fault_sequences"],"every interleaving of concurrent registrations, every id/type including empty ones, every point where the shared store can fail",
  "tests register distinct ids sequentially against a healthy in-memory redis",
  ["core/node/system_impl.go","core/addressbook/addressbook_impl.go"],[("actor map under lock, address book record before construction","system_impl.go Register")],
  [("actoridmap","live actors of the node","node.NormalSystem")],["FindActor, Actors, AddressBook lookups"])

p("C11","Uniqueness and quantity limits hold",
  "A type declared unique per node never has two actors on one node, and a type with a global limit is refused when that many are already recorded in the cluster, while registrations below the limit are accepted. A type without either is never refused for that reason.",
  ["inputs","histories","configurations"],"every limit, every number of existing local and remote records, every combination of the two options",
  "tests use one fixed configuration per actor type and never reach a limit",
  ["core/node/system_impl.go","core/addressbook/addressbook_impl.go"],[("NodeUnique / GlobalQuantityLimit checks","system_impl.go Register"),("type count","addressbook_impl.go GetActorTypeCount")])

p("C12","Unregistering removes the actor everywhere and restores the books",
  "After an actor is unregistered it is shut down, no longer findable on its node nor in the address book under id or type, and its node's recorded weight is reduced by exactly what its registration added; the id can be registered again. The same goes for a record that an earlier run of the node left behind, when it is unregistered or called. Records and weights of other actors and nodes are untouched.",
  ["histories","inputs"],"every short sequence of registrations and removals over several ids, types, weights and nodes",
  "tests never compare address book contents before and after",
  ["core/node/system_impl.go","core/addressbook/addressbook_impl.go"],[("Unregister: exit, map delete, address book removal","system_impl.go Unregister"),("weight bookkeeping","addressbook_impl.go Unregister")])

p("C13","Calls and sends reach exactly the actor the address denotes",
  "A call or send by id goes to the local actor with that id if there is one and otherwise once to the node the address book names; the local-first symbol prefers a local actor of the type and the wildcard symbol uses the address book's choice, local or remote. The message arrives exactly once with event and target type set and, unless a symbol chose a local actor, with that actor's id as target id; an empty, unknown or unreachable target yields an error and no delivery.",
  ["inputs","configurations","fault_sequences"],"every id/symbol, type and population of local and remote actors up to the bound, every address book and transport failure",
  "tests exercise a few fixed topologies on the success path",
  ["core/node/system_impl.go","core/addressbook/addressbook_impl.go"],[("Call/Send switch over symbol","system_impl.go Call, Send"),("findLocalOrWildcardActor","system_impl.go")])

p("C14","Send never waits for the handler",
  "Sending to an actor returns without waiting for any handler to run or finish, whatever that handler or the rest of the mailbox does, and a nil result means the message was queued exactly once, on this node or on the one it was routed to; its handler's context does not end because the send has returned. A send refused by the target or by routing returns an error. Sends made with the message of a running call tree count as part of that tree.",
  ["schedules","inputs","fault_sequences"],"every interleaving of sender and target, handlers that block forever, every transport failure",
  "the send tests wait for their handlers and use one quick handler",
  ["core/node/system_impl.go"],[("Send → Received without waiting","system_impl.go Send"),("handleRemoteSend","system_impl.go handleRemoteSend")])

p("C15","A remote call carries request and response intact and reports failure",
  "A call to an actor on another node delivers the caller's header, custom data and body unchanged (the previous-sender type names the acceptor, and a symbol is replaced by the chosen actor's id) to exactly one handler invocation there and returns the handler's response unchanged. If the transport fails, or the receiving node cannot deliver the message, the caller gets an error rather than an empty success.",
  ["inputs","fault_sequences"],"every header/body/custom content up to the bound, every transport and remote routing failure",
  "tests that cross nodes need a real network; none of them makes the remote side fail",
  ["core/node/system_impl.go","core/node/system_acceptor.go","lib/grpc/client.go"],[("handleRemoteCall","system_impl.go"),("listen.Routing","system_acceptor.go"),("CallWait","client.go")])

p("C16","The RPC client bounds concurrency and never leaks a slot",
  "No more than the configured number of limited calls are in flight at once, every call gives its slot back however it ends (success, error, cancelled, bad option, unknown target), and a call that cannot get a slot ends when its context does. The call's method, arguments and options reach the connection, and errors of the connection and of the remote method reach the caller.",
  ["schedules","fault_sequences","inputs"],"every interleaving of concurrent calls, every limit up to the bound, every outcome per call",
  "the client test runs sequential calls against one good server",
  ["lib/grpc/client.go","lib/grpc/client_opt.go"],[("workers channel with deferred release","client.go Call"),("connection cache","client.go getConn, CallWait")])

p("C17","All address book views agree after any history",
  "After any sequence of registrations, removals and node clean-ups by several nodes (each id in use on one node at a time), lookup by id, lookup by type, the type count and each node's weight describe the same set of actors: exactly those registered and not removed. Clearing a node removes all of its own records and nothing of other nodes; looking up an unknown id reports the unknown-actor error.",
  ["histories","inputs"],"every sequence of operations up to the bound over two nodes, symbolic ids, types and weights, every map iteration order",
  "the address book test registers two actors and looks one up",
  ["core/addressbook/addressbook_impl.go"],[("pipelined records: id hash, type set, node hash","addressbook_impl.go Register, Unregister, Clear"),("local id cache","addressbook_impl.go IDMap")])

p("C18","Selection picks the least loaded node",
  "Wildcard lookup returns a registered actor of the requested type that lives on a node whose weight is minimal among the candidates it drew, skipping records it cannot use, and low-weight lookup returns a node whose recorded weight is minimal among all nodes. An error is returned exactly when there is no usable candidate.",
  ["inputs","configurations","schedules"],"every assignment of weights (any 64-bit value stored), every number of nodes and actors up to the bound, every iteration order",
  "tests have one or two nodes with equal weights",
  ["core/addressbook/addressbook_impl.go"],[("GetWildcardActor minimum search","addressbook_impl.go"),("GetLowWeightNodeForActor pipelined weights","addressbook_impl.go")])

p("C19","Address book reports store failures instead of guessing",
  "If the shared store fails during a registration, removal, lookup or clean-up, the operation returns an error and the node's local knowledge does not claim a change that was not acknowledged; an operation that returns success is fully visible to every other node. Failed lookups never return an address; a wildcard lookup may skip candidates whose node's weight it could not read, retries of the clean-up's own mutex are not failures, and a clean-up that failed half way is completed by repeating it.",
  ["fault_sequences","inputs"],"a failure (request lost, or reply lost) at every store round trip, for every operation and pre-state up to the bound",
  "no test injects a store failure",
  ["core/addressbook/addressbook_impl.go","3rd/redis/client.go"],[("error checks after each pipeline/command","addressbook_impl.go")])

p("C20","The distributed mutex excludes and is released only by its owner",
  "At any time at most one holder has acquired the same lock name and not yet released it or let it expire; acquisition gives up with an error after a bounded number of attempts, and an empty name is refused. Releasing succeeds only with the token returned by the current holder's acquisition and never removes another holder's lock.",
  ["schedules","inputs","fault_sequences"],"every interleaving of two or three contenders, expiry at any point, every store failure, every token",
  "tests never contend for the lock",
  ["lib/dismutex/dismutex.go","3rd/redis/client.go"],[("SETNX with expiry and bounded retries","dismutex.go Lock"),("compare-and-delete script","dismutex.go Unlock")])

p("C21","Published messages reach each channel once, in order, intact",
  "A message published to a topic is delivered exactly once per channel, with its event and body unchanged and in publish order, to the actor of every channel subscribed before it was published; several subscribers of one channel share its messages. What is published while a channel has no running subscriber (its actor has exited) is kept for the next one. This holds as long as the store's replies to the reader are not lost. Publishing without an event name or with a failing store returns an error, and publishing to a topic nobody on this node subscribed to works.",
  ["schedules","inputs","fault_sequences"],"every interleaving of publisher, channel reader and dispatcher, every event/body content up to the bound, one or two channels",
  "the pubsub tests publish a fixed batch to one channel and count",
  ["lib/pubsub/ps_channel.go","lib/pubsub/ps_topic.go","lib/unbounded/unbounded.go","core/node/system_impl.go"],[("stream append","ps_topic.go Pub"),("group reader loop and dispatcher","ps_channel.go loop, addHandlers")])

p("C22","Topic life cycle: options applied, closed only when unused",
  "Creating a topic that does not exist yet records it and applies the time-to-live (whole seconds) given by the first subscriber; asking for an existing one returns the same topic, and a creation the store refuses is reported by the subscription. A message leaves the topic once every channel has read it, not before. Closing a topic deletes it only if no channel is left and no message is pending, after which any node can create it again; closing a channel stops its reading and removes its group only when no consumer is left in it; store failures while closing are reported.",
  ["histories","inputs","fault_sequences"],"every short sequence of create, subscribe, publish, close over one or two topics/channels, every TTL value, every store failure",
  "the topic tests check one happy sequence",
  ["lib/pubsub/ps_topic.go","lib/pubsub/ps_channel.go","lib/pubsub/ps_mgr.go","core/node/system_impl.go"],[("newTopic init + EXPIRE","ps_topic.go newTopic"),("Close checks","ps_topic.go Close, ps_channel.go Close")])

p("C23","The unbounded buffer is a lossless FIFO",
  "Values put into the buffer by any goroutines come out of its channel exactly once, values of one producer in the order they were put, as long as the reader reloads after each read. Putting never blocks.",
  ["schedules","inputs"],"every interleaving of producers and the reader, every number of values up to the bound",
  "no test covers it directly",
  ["lib/unbounded/unbounded.go"],[("1-slot channel plus backlog under a lock","unbounded.go Put, Load")])

p("C24","Custom message fields read back what was written",
  "Adding custom fields to a request or response keeps all fields already there, overrides those with the same key, and reading a field as the type it was written with returns the written value; reading an absent field, or one of an incompatible type, returns the zero value. Malformed existing data is reported in the message error and left unmodified.",
  ["inputs","histories"],"every key/value of every supported scalar type, every sequence of additions up to the bound, request and response",
  "tests write and read a few fixed values",
  ["router/msg/msg_custom_map.go","router/msg/map_custom_object.go","router/msg/map_custom_serialize.go"],[("merge via decode + encode","msg_custom_map.go WithReqCustomFields"),("typed conversion table","msg_custom_map.go GetReqCustomField")])

p("C25","Message building keeps identity, headers and call accounting straight",
  "A new message has one identifier shared by request and response; applying a header transfers every one of its fields, body setters touch only the body, and re-opening a message for building edits that same message; a message that had a header of its own shares none with the one applied. Messages built from a context that already belongs to a call join that call's accounting, other messages get their own, and swapping detaches the accounting while keeping request, response and serializers.",
  ["inputs","histories"],"every header and body content, every nil/non-nil combination of header, every context",
  "tests build one message and ignore most fields",
  ["router/msg/msg.go","lib/warpwaitgroup/warpwaitgroup.go"],[("NewBuilder / WithReqHeader / Swap / GetWg","msg.go")])

p("C26","The wire codec round-trips and survives arbitrary bytes",
  "Encoding any routing message and decoding the bytes yields an equal message, and the encoded length equals the announced size. Decoding arbitrary bytes either succeeds or returns an error; it never crashes or loops.",
  ["inputs"],"every field content up to the bound, every byte string up to the bound",
  "no test decodes hostile bytes or varies field contents",
  ["router/router.pb.go"],[("generated Marshal/Size/Unmarshal/skipRouter","router.pb.go")])

p("C27","Tokens prove the entity they were created for",
  "Parsing a token created for a non-empty entity id (any text) returns that id, and creating one for an empty id is refused. A token that was not signed with the service key, or carries no entity id, is refused.",
  ["inputs"],"every entity id up to the bound, every signing key and signing method of a forged token",
  "the token test round-trips one id",
  ["lib/token/token.go"],[("Create / Parse / Claims.Valid","token.go")])

p("C28","Schedule expressions denote the right time values and always parse",
  "Parsing any schedule expression terminates. \"*\" means every value of the field, \"*/n\" every n-th, lists and (wrapping) ranges exactly the listed values with weekday 7 meaning Sunday, and a time matches exactly if its field is in that set.",
  ["inputs"],"every expression string up to the bound for every field type, every time",
  "no test covers the parser",
  ["lib/timer/timer_express.go"],[("parseExpress / IsMatch","timer_express.go")])

p("C29","Tick tasks run one at a time and stop when told",
  "A started tick task runs its handler once after the delay and then once per interval, and after it was stopped no further run begins (a run that was already due may still complete). A run its before-hook marks as ended is skipped. A handler that fails or panics is reported to the exception handler and does not change the pace or multiply the runs; starting a running task or stopping an unknown one has no effect, and the service may be used from several goroutines.",
  ["schedules","histories","inputs"],"every sequence of create, start, stop up to the bound, every handler outcome, every interleaving of ticking and stopping",
  "no test covers the service",
  ["lib/timer/timer_tick.go","lib/timer/timer.go"],[("startTickTask loop and recover","timer_tick.go"),("service task map","timer.go")])

p("C30","Error codes compare by code through any wrapping",
  "Two codes are equal exactly when their numbers are, with nil meaning success, however often an error was wrapped; a plain error counts as unknown with its text kept, and an empty text as success. Business codes must be positive and keep the number and message they were created with.",
  ["inputs"],"every code, message and wrapping depth up to the bound",
  "no test covers the package",
  ["lib/errcode/errcode.go"],[("New/Cause/Equal/EqualError","errcode.go")])

p("C31","Entity upgrades go through every registered version in order",
  "Looking up a version strategy returns the one registered for exactly that version or the not-found error. The next version of an entity is the smallest registered version greater than its own, or its own if there is none, whatever order strategies were registered in, so repeated upgrading terminates.",
  ["inputs","histories"],"every set and registration order of versions up to the bound, every start version",
  "no test covers it",
  ["core/entity.go"],[("GetVerStrategy / GetNextVersion","entity.go")])

p("C32","Store wrappers issue exactly the command they name",
  "Each store wrapper sends exactly one command of the kind it is named after, with its key and arguments in the documented order, with the caller's context to the configured store, and hands back that command's own reply or error. Pipelines and transactions send what was queued in one round trip and nothing if queueing fails. Each client option changes the setting it is named after and no other.",
  ["inputs","configurations"],"every key/argument value up to the bound for every wrapper, store errors and replies",
  "tests touch a third of the wrappers with fixed arguments",
  ["3rd/redis/client.go","3rd/redis/client_utils.go","3rd/redis/client_opt.go"],[("one-line wrappers around go-redis","client.go"),("options","client_opt.go")])

p("C33","Builders and actor contexts keep their own settings",
  "A builder returns exactly the id, type, limits, weight and options set on it; setting an option on one builder is not visible through another builder of the same type nor in the type's definition. Values stored in an actor's context are returned for their key until replaced, and the context always names its own actor and system.",
  ["inputs","histories"],"every sequence of option/value settings up to the bound over two builders / contexts",
  "tests build one actor at a time",
  ["core/actor/actor_build_impl.go","core/actor/actor_context_impl.go"],[("ActorLoaderBuilder accessors","actor_build_impl.go"),("context.WithValue chain","actor_context_impl.go")])

p("C34","Tracing observes calls without changing them",
  "With tracing configured, calls return what they would return without it, every span that is started is finished exactly once with the call's tags, and a span continues the parent found in the context or in the incoming metadata. Outgoing metadata of the caller is preserved, and its original is never modified.",
  ["inputs","configurations","fault_sequences"],"every metadata content up to the bound, every handler outcome, with and without a parent, every inject/extract failure",
  "no test enables tracing",
  ["lib/span/span_call.go","lib/span/span_grpc.go","core/node/system_impl.go"],[("Begin/End","span_call.go"),("interceptors","span_grpc.go")])

p("C35","The span reporter accounts for every span and closes cleanly",
  "Every span reported before a close begins is either handed on to the sender if sampled, discarded if not, or counted as dropped because the queue was full, and in each case released exactly once; reporting never blocks. Closing returns after everything queued before it was processed and flushed, and closing again does nothing.",
  ["schedules","inputs","fault_sequences"],"every interleaving of reporters, the queue worker and close, every sampling decision and sender failure",
  "no test covers it",
  ["lib/tracer/slow_reporter.go"],[("queue + worker","slow_reporter.go Report, processQueue, Close")])

p("C36","Node shutdown stops accepting, drains actors and clears its records",
  "Shutting a node down stops its acceptor, shuts down every actor registered on it before exactly once and lets the given group wait for them, and removes the node's records from the address book, also those of actors that are gone; actors are also shut down when the store fails. A process told to stop by signal does this and returns when its actors have finished, or after thirty seconds.",
  ["schedules","configurations","fault_sequences"],"every interleaving of actor shutdowns, every number of actors up to the bound, store failures",
  "tests shut nodes down only in teardown and check nothing",
  ["core/node/system_impl.go","core/node/node_process_impl.go"],[("Exit","system_impl.go"),("WaitClose","node_process_impl.go")])

p("C37","Database wrappers forward operations faithfully",
  "Each document-store wrapper performs exactly the operation it names on the configured database and collection and reports that operation's result or error.",
  ["inputs","fault_sequences"],"every argument and server failure",
  "there is no server in the test environment",
  ["3rd/mgo/mgr.go","3rd/mgo/collection.go"],[("one-line wrappers around the driver","collection.go")])

for d in P: print(json.dumps(d,ensure_ascii=False))
