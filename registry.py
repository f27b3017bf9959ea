"""What each check runs and how its evidence describes it."""

_RULE = ('Each run draws its scenario, workload, fault mix, scheduling policy and every later decision from its own seed. '
         'A run counts as distinct and non-trivial if it had more than one context switch or an injected fault, and '
         'the hash of its sequence of (switch-from code site, switch-to thread) decisions differs from every other run of this check.')
_MEASURE = 'distinct hashes of the whole sequence of context switches (code site left, thread entered) of a run; and distinct pairs of code sites switched between'
_STUB = ['kernel: clocks, poll, pipes, sockets, TCP, files, DNS (simulated)', 'pthread threads, mutexes, condition variables, once guards (simulated scheduler)',
         'fu2::function (third_party/function2 is absent from this checkout: minimal stand-in)']
_ASSUME = ['simulated kernel semantics match Linux for the calls used', 'sequentially consistent memory: weaker orderings are covered by the data race detector only',
           'sampling of schedules and faults: a clean batch is evidence, not proof']


def _a(real, extra=()):
    return dict(target='arpc', rule=_RULE, measure=_MEASURE, real=real, stub=_STUB, assumptions=_ASSUME + list(extra))


_SYNC = ['awaitable, select, wait, context, flag, pipe, channel, errors (all real)']
CHECKS = {
    'A01': _a(_SYNC + ['mutex']),
    'A02': _a(_SYNC),
    'A03': _a(_SYNC + ['queue, mutex, semaphore']),
    'A04': _a(_SYNC + ['semaphore, queue, mutex']),
    'A05': _a(_SYNC + ['future, promise, result_holder, queue']),
    'A06': _a(_SYNC + ['mutex, queue, semaphore']),
    'A07': _a(_SYNC + ['context data, thread and daemon_thread']),
    'A08': _a(_SYNC + ['thread_pool, queue, semaphore, future, promise, daemon_thread']),
    'A09': _a(_SYNC + ['usage_lock, server_object']),
    'A10': _a(_SYNC + ['channel, pipe, socket, file, connection, reconnectable_connection, char_dev_connection, client_socket_connection, listener, address_resolver']),
    'A11': _a(_SYNC + ['address_resolver, address, dial, listener, channel, queue, future']),
}

_SRULE = ('Each run draws its scenario, inputs, operations, damage and faults from its own seed. A run counts as distinct and non-trivial if the hash of its '
          'whole execution (every decision drawn, every memory access of the code under test, every simulated call and fault) differs from every other run of this check.')
_SMEASURE = 'distinct hashes of the whole execution of a run (decisions drawn, instrumented memory accesses, simulated calls and faults)'
_SSTUB = ['byte sources and sinks at the end of the line (simulated, with faults)', 'memory allocator (simulated, with faults)',
          'fu2::function (third_party/function2 is absent from this checkout: minimal stand-in)']


def _s(real, extra=()):
    return dict(target='arpc', rule=_SRULE, measure=_SMEASURE, real=real, stub=_SSTUB,
                assumptions=['sampling of inputs and faults: a clean batch is evidence, not proof'] + list(extra))


_CODEC = ['binary_codecs, serialization traits, type_hash, registry, dynamic classes (all real)']
CHECKS.update({
    'S01': _s(['packet_protocols, packet_codecs, highway_hash, stream and connection adapters, channel, pipe']),
    'S02': _s(['packet_protocols, string and iostream adapters, io_adapters, channel, pipe, connection']),
    'S03': _s(_CODEC + ['io, iostream, string and buffered adapters']),
    'S04': _s(_CODEC + ['packet_protocols, packet_codecs, highway_hash']),
    'S05': _s(_CODEC + ['io, iostream, string and buffered adapters, packet_protocols']),
    'S06': _s(_CODEC + ['flat_map, flat_set']),
    'S07': _s(['flat_set, flat_multiset, flat_map, flat_multimap (all real)'], ['equivalent elements of multi containers may be in any order (existing tests pin one that differs from std)']),
})

_RPC = ['client, server, interface, object_name, result_holder, context, packet_protocols, binary_codecs, connection, channel, listener, address_resolver, thread_pool, usage_lock, select and everything below (all real)']
_RSTUB = ['object implementations that the servers serve (test handlers keeping a ledger)']


def _r(extra_real=(), assume=()):
    d = _a(_RPC + list(extra_real), assume)
    d['stub'] = d['stub'] + _RSTUB
    return d


_TIMELY = ['bounds on reaction times are checked in runs without injected thread stalls, since no bound holds for a thread that does not run']
CHECKS.update({
    'R01': _r(['char_dev_connection, serial_line_packet_protocol, packet_codecs, connection_producer']),
    'R02': _r(),
    'R03': _r(assume=_TIMELY),
    'R04': _r(assume=_TIMELY),
    'R05': _r(assume=_TIMELY + ['clocks are skewed by constant amounts while calls are under way']),
    'R06': _r(assume=_TIMELY + ['the server has worker threads left (a peer sending part of a packet, or not reading its replies, occupies one)']),
    'R07': _r(assume=_TIMELY),
    'R08': _r(assume=_TIMELY),
    'R09': _r(assume=_TIMELY),
})

NOTE = ('Seeded search over thread schedules (down to single memory accesses) and injected faults of the real library code; '
        'evidence, not proof. Trusts the simulated kernel and threads, the oracle and the function2 stand-in.')
TECH = 'deterministic simulation with fault injection: seeded schedule and fault search over the real code under a simulated kernel, scheduler and clock'

NOT_APPLICABLE = {
    'T01': 'A compile-time pure function of a type: no schedule, clock, I/O, fault or history in it for a simulator to control.',
    'T02': 'A pure function of key and data: nothing nondeterministic for a simulator to control (its use in packet checksums under line faults is S01).',
    'T03': 'Compile-time only: nothing runs that a simulator could schedule or disturb.',
}
