import json
L=[]
def P(id,title,statement,over,q,why,files,mech,state=None,observe=None):
    a={'files':['src/arpc/'+f for f in files],'mechanism':[{'name':n,'where':w} for n,w in mech],'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    L.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})

S='schedules'; F='fault_sequences'; H='histories'; I='inputs'; C='configurations'
# ---- RPC
P('R01','A reply always belongs to the call it answers',
 'Whatever number of threads, clients and connections call a server at once, synchronously, asynchronously or inside a select, a call that returns a value returns exactly what the handler produced for that very call\'s arguments, and a call whose handler threw a known error reports that same error kind and message. Replies may come back in any order, in pieces, late, or after the caller gave up, without ever being handed to another call or corrupting its data. Shared pieces of the client and server are safe to use from several threads at once.',
 [S,F,I],'All interleavings of callers, reader, writer and worker threads; all argument values used as unique tokens; all segmentations and delays of the byte streams in both directions.',
 'No existing test runs a client against a server at all; the RPC half of the library is not even compiled by the test build.',
 ['client.h','server.h','interface.h','message_defs.h','connection.h','packet_protocols.h'],
 [('request id to pending reply matching','client.h:receive_thread, send_request'),('response written under a lock','server.h:connection_wrapper')])
P('R02','A call is executed at most once, and exactly once if it succeeds',
 'However connections break, stall, are re-established or retried by the library underneath, the server never runs the handler more than once for one call, and a call reported successful ran exactly once before its reply was delivered. A call that was rejected before anything was sent is never run.',
 [S,F,H],'All interleavings with resets, partitions, reconnections, cancellations and timeouts injected at arbitrary instants.',
 'Needs connection failures between sending a request and receiving its reply; no test exercises a connection.',
 ['client.h','server.h','connection.h'],
 [('one pending entry per request id','client.h:send_request'),('duplicate in-flight requests dropped','server.h:requests_')])
P('R03','Every call completes, and service resumes after a failure',
 'Every call ends with its reply or an error: none hangs past its deadline, and a connection failure makes calls in flight on that connection fail promptly rather than wait for their deadline. Once faults stop, a client over a reconnecting connection is served again within a bounded number of attempts, and stopping or destroying a client or server completes.',
 [S,F],'All interleavings with resets, partitions, refused connections, server restarts and stalls at arbitrary instants, followed by a fault-free period.',
 'A liveness property over failure schedules; no test exercises connections or failures.',
 ['client.h','server.h','connection.h','select.h'],
 [('pending calls told about a broken connection','client.h:broadcast_exception'),('reconnection','connection.h:reconnectable_connection'),('deadline reaction','client.h:send_request')])
P('R04','Cancelling a call frees the caller and reaches the handler',
 'When the context of a caller waiting for its call is cancelled, or an asynchronous call is cancelled by its request id, the caller is released promptly with a cancellation error, and the context the handler runs in becomes cancelled if the request had been delivered and its connection still works. Cancelling a call whose request has been sent affects no other call, before, after or concurrent, and a call that already completed keeps its result. (Cancellations beyond what the client is configured to queue may not reach the handler.) Cancelling while connecting or sending releases the caller as promptly and leaves the client usable.',
 [S,F],'All instants of cancellation relative to sending, execution and reply, over all interleavings and delays.',
 'The window between sending, cancelling and replying is only reachable with controlled schedules; no test covers it.',
 ['client.h','server.h','context.h','context.cpp'],
 [('cancellation message','client.h:cancel_request'),('handler context registry','server.h:requests_')])
P('R05','Deadlines and context data travel with calls, despite clock skew',
 'A handler sees exactly the context data its caller had, and a deadline that leaves it no more time than the caller had, to within transit time and millisecond rounding, however far apart the two machines\' clocks are. Where client or server options set a timeout, the earlier of the two holds. A caller with a deadline gets either its reply or an error no later than that deadline plus a small bound and never a deadline error before it, a handler minding its context learns of its own deadline in time, and a nested call made by the handler inherits what is left.',
 [S,F,C],'All clock skews between nodes, all latencies, deadlines from milliseconds to days, nested calls of any depth used.',
 'Needs two machines with different clocks and controlled latency.',
 ['context.h','context.cpp','client.h','server.h'],
 [('deadline sent as time left','context.h:save/load'),('handler context','server.h:handle_request')])
P('R06','A server survives any peer',
 'As long as worker threads remain, no sequence of bytes, truncation, disconnect or silence from some peers makes the server crash, leak a connection, corrupt memory or stop serving its other clients; nor does failing to accept connections or running out of descriptors for a while. A server limited to a number of connections never has more of them, and takes the next one as soon as one ends. A malformed or unintelligible request is answered with an error or ends that peer\'s connection only, and no handler ever runs with arguments that were not in a well-formed request.',
 [I,S,F],'All byte streams (random, mutated valid requests, truncations at every point), all disconnect instants, all interleavings with well-behaved clients.',
 'The space of peer behaviours is unbounded and the effects depend on schedules; there are no server tests.',
 ['server.h','binary_codecs.h','packet_protocols.h','registry.h'],
 [('per connection error handling','server.h:process_connection'),('bounded decoding','binary_codecs.h')])
P('R07','Stopping a server is clean at any moment',
 'Stopping or destroying a server while clients call it always finishes. Once it is stopped no handler starts but with a cancelled context, and the contexts of those running are cancelled; once it is destroyed no handler runs or starts, no connection or descriptor it owned stays open and nothing it owned is used again. Calls in flight end with a reply or an error, and a stopped server can be started again and serve new calls.',
 [S,F],'Stop requested at every instant relative to accepts, reads, handler executions, replies and disconnects.',
 'The shutdown races only manifest in specific interleavings; there are no server tests.',
 ['server.h','executor.cpp','thread.h','connection.h'],
 [('stop sequence','server.h:stop'),('connection teardown','server.h:connection_wrapper')])
P('R08','Calls to unknown, changed or removed objects fail cleanly',
 'Calling an object name that is not registered, or was unregistered, or has another interface, or a method that does not exist, fails with a lookup error for that caller only. No call made after an object was unregistered runs on it, destroying the unregistered object waits for the handlers still running on it and none starts afterwards, while calls to other objects proceed, and registering another object under the name routes later calls to the new object and its interface.',
 [S,H],'All interleavings of calls with registrations and unregistrations.',
 'The window between lookup and execution is schedule dependent; there are no server tests.',
 ['server.h','client.h','usage_lock.h','errors.h'],
 [('object table','server.h:objects'),('in-use references','usage_lock.h')])
P('R09','A client survives any server',
 'No sequence of bytes, truncation, disconnect or silence from a server makes a client crash, corrupt memory or hold a call past its deadline. A call succeeds only with an intelligible reply of its own, reports the error that its reply says, and otherwise ends with an error; calls over connections to other servers are unaffected, and the client is served again once the server behaves.',
 [I,S,F],'All byte streams in place of replies (random, mutated, truncated, repeated, of other ids, types and results), all disconnect instants, all interleavings of callers and the receiver.',
 'The space of server behaviours is unbounded and the effects depend on schedules; there are no client tests.',
 ['client.h','result_holder.h','binary_codecs.h','packet_protocols.h','errors.cpp'],
 [('failing all pending calls with the connection','client.h:receive'),('decoding of results','result_holder.h:load')])
# ---- async
P('A01','Mutexes exclude, and are never leaked or lost',
 'At most one thread holds a mutex at any time, and what a holder wrote is visible to the next. An acquisition that succeeds (blocking, try, or one of several alternatives of a select, with or without a timeout, deadline or cancellation) holds the mutex until released, while one that times out, is cancelled or fails has not taken it. A mutex that is free is obtained by some waiter.',
 [S,F],'All interleavings of lockers, timeouts, deadlines and cancellations; spurious signals.',
 'The only mutex test uses a few threads once under the host scheduler; cancellation and timeouts racing with the release need specific interleavings.',
 ['mutex.h','mutex.cpp','select.h'],
 [('lock token in a pipe','mutex.cpp'),('reaction run once per readiness','select.h:make_one_select_result')])
P('A02','Flags behave as one shared boolean and lose no wake-up',
 'Setting, resetting and reading a flag from any number of threads, including from cancelled or expired contexts, behaves like operations on one shared boolean taking effect one at a time. A wait returns only if the flag was set at some moment during it, never hangs while the flag stays set, and whatever a thread wrote before setting the flag is visible to those that saw it set.',
 [S,F,H],'All interleavings of setters, resetters, readers and waiters with cancellations and deadlines.',
 'The existing test checks one schedule of one setter and one waiter.',
 ['flag.h','flag.cpp'],
 [('state mirrored in a pipe','flag.cpp:set/reset')])
P('A03','Queues deliver every item exactly once, in order, within capacity',
 'Concurrent use of a queue is indistinguishable from one-at-a-time use of a first-in first-out queue of its capacity: every item put is got exactly once, in order, never beyond the capacity, and the size, empty and full observers tell the truth. A put or get that fails or is given up because of a timeout, deadline or cancellation has no effect, leaving its item unconsumed or undelivered. Nobody stays blocked while the operation they wait for is possible.',
 [S,F,H],'All interleavings of producers, consumers and observers, bounded and unbounded capacities, cancellations and timeouts.',
 'No queue test exists.',
 ['queue.h','select.h'],
 [('permits for items and slots','queue.h')])
P('A04','Semaphores grant exactly as many permits as were made available',
 'At every moment the permits granted never exceed the initial ones plus those returned, whatever the mix of blocking, try and alternative acquisitions. An acquisition that times out or is cancelled consumes no permit, and an available permit is granted to a waiter.',
 [S,F,H],'All interleavings of acquirers and releasers with cancellations and timeouts.',
 'No semaphore test exists.',
 ['semaphore.h','queue.h'],
 [('queue of permits','semaphore.h')])
P('A05','Futures deliver each promise\'s outcome once, transformed faithfully',
 'A future yields exactly the value or exception its promise was given, through any chain of transformations and error handlers, each of which runs at most once and only for the outcome it handles. A promise dropped without a value reports a broken promise, and dropping either side at any moment, or waiting with a timeout and again later, is safe. No waiter misses the outcome.',
 [S,F],'All interleavings of producer and consumer, all outcomes and chain shapes, drops at any moment.',
 'No future test exists; the interesting cases are races between delivering and waiting or dropping.',
 ['future.h','future.cpp','result_holder.h','awaitable.h'],
 [('shared state with a flag','future.h:future_state')])
P('A06','Waits wake for what they waited for, in time, whatever interrupts them',
 'A select returns when and only when at least one alternative completed, reporting exactly those that completed with their effects applied once and leaving the others without effect. Timeouts and deadlines fire neither before their time nor more than a small bound after it, from zero to months, whatever other wake-ups, signals or partial progress happen meanwhile, and polling repeats at its interval between them. Cancellation and deadlines of the current context interrupt every wait promptly, and cancellation takes precedence over the other alternatives.',
 [S,F,C],'All interleavings, signals at arbitrary instants, all durations up to months, any mix of alternatives.',
 'Existing awaitable tests check a handful of fixed cases in real time.',
 ['select.h','awaitable.h','wait.cpp','context.cpp'],
 [('poll loop','select.h:select'),('context alternatives','select.h')])
P('A07','Contexts form a tree for cancellation, deadlines and data',
 'Cancelling a context cancels all its present and future descendants, except those behind a shield, and no other context, and never un-cancels. A context\'s deadline is never later than its parent\'s when it was created nor extended afterwards, its data is a snapshot of its parent\'s at creation that later changes elsewhere do not affect, and a thread started from a context works under it and cannot outlive it. All of it is safe to use from many threads at once.',
 [S,H],'All interleavings of creation, cancellation, data changes and destruction of contexts across threads.',
 'No context test exists; the races between creating a child and cancelling the parent need controlled schedules.',
 ['context.h','context.cpp','thread.h'],
 [('children registry','context.cpp:add_child/remove_child'),('current context per thread','context.cpp:current_')])
P('A08','Thread pools run every accepted task exactly once',
 'A task accepted by an executor runs exactly once, on a pool worker, and whatever it throws does not disturb the pool; one that was rejected, or whose submission timed out or was cancelled, never runs. At most the configured number of tasks run at once, an accepted task never stays queued while a worker is idle, and destroying the pool cancels and waits for running tasks and drops those not yet started, so that none runs afterwards.',
 [S,F],'All interleavings of submitters, workers starting, idling and exiting, pool sizes and limits, and destruction at any moment.',
 'No executor test exists; lost wake-ups happen only between specific steps of worker and submitter.',
 ['executor.h','executor.cpp','thread.h','queue.h'],
 [('worker request and idle accounting','executor.cpp:run/request_work')])
P('A09','Dropping a shared resource waits for its users',
 'Once a guarded resource has been dropped, no user holds or can get it, and the drop returns only after every earlier user has released it. Getting, releasing and dropping are safe from any number of threads at once, and a drop completes once the users are gone.',
 [S],'All interleavings of getters, releasers and droppers.',
 'No test exists; the race between getting and dropping is schedule dependent.',
 ['usage_lock.h'],
 [('counted references','usage_lock.h:get/drop')])
P('A10','Channels and connections carry bytes intact and own descriptors once',
 'Bytes written to a channel or connection come out complete, unaltered and in order, whatever short transfers, interruptions, partial availability or timeouts occur, and reading past the end reports it; files, names and options of sockets are what was asked for. Every descriptor is closed exactly once, by its owner, whatever moves, swaps, failures or concurrent disconnects happen, and disconnecting interrupts whoever is blocked on the connection. A reconnecting connection connects again after a failure and never mixes bytes from two underlying connections within one session.',
 [S,F],'All splits, interruptions and failures of the underlying system calls, all orders of moves and closes, all failure instants.',
 'No channel or connection test exists; short transfers and interruptions cannot be provoked in a unit test.',
 ['channel.h','channel.cpp','connection.h','connection.cpp','pipe.cpp','file.cpp','socket.cpp'],
 [('retry loops','channel.cpp:read/write'),('exclusive ownership','channel.h')])
P('A11','Dialing reaches a listening address or fails with a reason',
 'Dialing a name tries its resolved addresses and succeeds if one that was tried last or earlier accepts, otherwise it fails with the error met; resolution failures are reported as such, an address that cannot even be tried is passed over, and with a deadline each has at least its equal share of the time left. Resolution and dialing can be interrupted by deadline or cancellation promptly, leaking no descriptor, and concurrent resolutions get the answer to their own question. A listener hands out every connection it accepted exactly once, whatever happens to others.',
 [S,F,C],'All resolver outcomes and delays, refused and silent hosts, cancellation at any instant.',
 'Needs a controlled resolver and network.',
 ['address_resolver.h','address_resolver.cpp','address.cpp','socket.cpp','connection.cpp'],
 [('resolver worker pool','address_resolver.cpp'),('connect loop','socket.cpp:dial')])
# ---- streams
P('S01','Serial-line packets arrive intact, in order, or not at all',
 'Every packet received over the byte-stuffed, checksummed packet protocols is identical to one that was sent, in sending order, no more often than it was sent, whatever bytes the line loses, corrupts, inserts or truncates. After the line becomes clean, reception resumes with no packet lost beyond those the damage touched.',
 [I,F],'All packet contents and sizes, all damage sequences; all splits of the byte stream.',
 'No packet test exists; resynchronisation depends on where damage falls relative to packet boundaries.',
 ['packet_protocols.h','packet_codecs.cpp','highway_hash.h'],
 [('byte stuffing','packet_codecs.cpp'),('checksum','packet_codecs.cpp')])
P('S02','Stream packets keep their boundaries under any fragmentation',
 'Packets sent over the length-prefixed protocol on a reliable stream are received identical, in order and with the same boundaries for every content, size and fragmentation of reads and writes. A stream that ends or fails inside a packet is reported as such, never as a shorter packet.',
 [I,F],'All packet sizes and contents, all fragmentations, truncation at every byte, failure at every call.',
 'No packet protocol test exists.',
 ['packet_protocols.h','packet_codecs.h','packet_codecs.cpp','io_adapters.h','binary_codecs.h'],
 [('length prefix','packet_protocols.h')])
P('S03','What is serialized is read back equal, or its truncation is reported',
 'Every supported value written through an encoder to any sink and read back by the matching decoder from any source, in whatever pieces the source delivers it, equals the original and consumes exactly the bytes written. If the source ends or fails before that, the decoder reports end of data or that failure and never a value made up from missing bytes.',
 [I,F],'All values of supported types (numbers, strings, containers, optionals, pointers, versioned classes), every truncation and failure point, every delivery fragmentation.',
 'Serialization tests only check compile-time traits.',
 ['binary_codecs.h','serializable_base.h','serializable.h','string_adapters.h','iostream_adapters.h','io_adapters.h'],
 [('element encoding','binary_codecs.h'),('exact reads','io_adapters.h:input_stream')])
P('S04','Corrupted input never harms the reader',
 'Decoding damaged or hostile data either yields a well-formed value of the requested type or reports an error, without crashing, invading memory, recursing or allocating without bound in relation to the input, or leaking. Data written with an incompatible structure is recognised as a mismatch and not decoded as something else.',
 [I,F],'All byte sequences near valid encodings and random ones; allocation failures at any point.',
 'No decoder test exists.',
 ['binary_codecs.h','registry.h','serializable_base.h','packet_codecs.cpp','errors.h'],
 [('bounds and type checks','binary_codecs.h')])
P('S05','A write that is reported successful reached the sink whole',
 'If every write and the final flush of an encoder, adapter or packet sender report success, the sink received exactly the intended bytes; if the sink fails or accepts only part at any moment, the writer is told by an error. Destroying a writer after a failure is safe.',
 [F,I],'Sink failures and short writes at every call and byte position.',
 'No test uses a failing sink.',
 ['iostream_adapters.cpp','string_adapters.cpp','io_adapters.cpp','binary_codecs.h','packet_codecs.cpp'],
 [('sink error translation','iostream_adapters.cpp')])
P('S06','Object graphs keep their shape through serialization',
 'Shared and weak pointers, cycles, nulls and polymorphic objects read back with the same identities as written: two pointers to the same object before are two pointers to the same object after, distinct ones stay distinct, and every object has its dynamic class and is owned without leaks or double destruction. An encoder and decoder reused for several messages keep this true, and using them after an error does no damage.',
 [I,F,H],'All graph shapes over the registered classes, multiple messages, truncation and failures at any point.',
 'No graph serialization test exists.',
 ['binary_codecs.h','registry.h','dynamic_base_class.h'],
 [('object table','binary_codecs.h:shared_ptr read/write'),('class registry','registry.h')])
P('S07','Flat containers equal their standard models, even when allocation fails',
 'Flat maps and sets behave as the corresponding standard ordered containers for every sequence of insertions, lookups, erasures, copies, moves and swaps and with any comparator, except for the relative order of equivalent elements in the multi variants. An operation that fails because memory ran out leaves the container valid, sorted and without duplicates or leaks, and a failed insertion of one element leaves it as it was.',
 [H,F],'All operation sequences, an allocation or copy failure at every point.',
 'Existing tests check single operations on fixed contents and inject no failures.',
 ['container/flat_map.h','container/flat_set.h'],
 [('sorted vector','container/flat_set.h')])
# ---- not applicable
P('T01','Type hashes tell structurally different types apart',
 'Two types have the same type hash exactly when their serialized structure is the same, on every platform and compiler.',
 ['programs'],'All pairs of serializable types.','Tests compare a fixed list of types.',
 ['type_hash.h'],[('structural hash','type_hash.h')])
P('T02','The keyed hash equals its published reference',
 'The checksum and name hash computed from any key and data equals the published algorithm\'s value, whatever the split of the data.',
 [I],'All keys and data.','No test vectors are checked.',
 ['highway_hash.h','highway_hash.cpp'],[('portable implementation','highway_hash.cpp')])
P('T03','Compile-time metaprogramming computes what its names say',
 'The tuple and preprocessor utilities produce, for every instantiation that compiles, the same result as the obvious elementwise definition.',
 ['programs'],'All instantiations.','Tests instantiate a few.',
 ['mpt.h','preprocessor.h'],[('fold expressions','mpt.h')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L:
    jsonschema.validate(x,sch)
    import re
    assert len(x['title'])<=80,x['title']
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement']))
    assert n<=3,(x['id'],n)
print(len(L))
