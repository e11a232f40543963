"""What is run for each property: harnesses, bounds, required witnesses, assumptions."""
COMMON_ASSUMPTIONS = [
    "memory allocation does not fail", "clang 18's translation of the sources to LLVM IR at -O1 has the semantics of the C++ program",
    "libstdc++'s out of line parts (rb-tree, hash policy, exceptions, strings streams) are replaced by rt/runtime.cpp in the encoding",
    "hash containers keyed by pointers are iterated in the order the encoding's address assignment gives",
]
def H(name, src, bounds, **kw):
    return dict(name=name, src=src if isinstance(src, list) else [src], bounds=bounds, **kw)

def T(name, src, bounds, **kw):
    return H(name, src, bounds, backends=kw.pop('backends', ['thread']), threads=True, quiet=kw.pop('quiet', 'smart_ptr'), **kw)

THREADS = ["sequential consistency with happens-before race detection: a schedule without a race has no other outcome on weaker memory", "threads are switched before atomic operations, mutex and condition variable operations; plain accesses are covered by the race detector; a signal wakes the first waiter; no spurious wake-ups; a timed wait times out only when no thread can run",
    "changes of reference counters are no scheduling points here (C36 decides them)", "the nodes of boost::lockfree containers are exempt from race detection (their reads are speculative by design)"]
LOOP = "the event loop is the harness' own backend (timers, queues and loop switching are decided by symbolic choices); the real backends are C26-C31"

BACKEND = ["the limits of time for a shutdown are longer than the delays of the loop (no timer expires while a shutdown has work to do)", "time is the harness' own: an expiry is as late as the operations run before it make it"]
BHIST = '%s; actors with timers (short, long, re-armed, cancelled), messages to each other and to themselves, requests (answered or not); %s things (a message with an operation, a shutdown of the child or of the root) happen outside at any moment'
QUIET2 = {'quick': '', 'thorough': 'smart_ptr'}

ASIOT = dict(backends=['asio'], flags=['-I@/include/stub/asio', '-DVP_ASIO_THREADS'])
CHECKS = {
 'C01': dict(assumptions=[LOOP], harnesses=[H('fifo', 'c01_fifo.cpp', '4 (thorough 5) sends by one sender to one receiver, each symbolically a plain message, a request or a response; receiver on the same locality, a child supervisor or another loop; every order in which the loops run')]),
 'C02': dict(assumptions=[LOOP], harnesses=[H('subs', 'c02_subs.cpp', 'histories of 4 (thorough 5) symbolic operations (subscribe, unsubscribe, send, shut down) of 2 actors, 2 message types and 2 addresses against a reference model; payloads are symbolic 64-bit values', witness=['end', 'handled']), H('foreign', 'c24_foreign.cpp', 'a subscriber on another loop: histories of 4 (thorough 5) messages from either loop, subscriptions, unsubscriptions, shutdown of the actor or of its loop, and every progress of the loops', witness=['end', 'got', 'got, leaving', 'stopped'])]),
 'C03': dict(assumptions=[LOOP], harnesses=[H('requests', 'c03_requests.cpp', '2 concurrent requests; answers (value, error, repeated, late) and expiry of the timers in every order; requester and responder on one loop or two', witness=['end', 'timeout', 'needless answer'])]),
 'C04': dict(assumptions=[LOOP], harnesses=[H('match', 'c04_match.cpp', 'up to 3 concurrent requests of 2 types by 2 actors, symbolic 64-bit payloads, answered in every order, plain or through a named address')]),
 'C05': dict(assumptions=[LOOP], harnesses=[H('timers', 'c05_timers.cpp', '3 timers and requests, symbolic starting value of the id counter; start, cancel, expiry and shutdown in every order, also from the callbacks', witness=['end', 'cancelled', 'triggered'])]),
 'C06': dict(assumptions=[LOOP], harnesses=[H('cleanup', 'c06_cleanup.cpp', 'an actor with timers, requests and subscriptions (own, foreign, other loop) is shut down at a symbolic moment with answers and expiries in flight', witness=['end', 'timers', 'responses'])]),
 'C07': dict(assumptions=[LOOP], harnesses=[H('life', 'c07_life.cpp', 'an actor below the root, a child supervisor (thorough: also another loop); shutdown requested at any message of the history or from any of 6 hooks (symbolic set); slow or endless initialization or shutdown; timers expire in every order', defs=['MODE=7'], witness=['end', 'fatal', 'operated', 'not operated']), H('start', 'c09_init.cpp', 'the children of a supervisor (root or child), with and without synchronized start, one of them created late', defs=['MODE=7'], witness=['end', 'operational', 'down', 'failed init'])]),
 'C08': dict(assumptions=[LOOP], harnesses=[H('life', 'c07_life.cpp', 'two shutdown requests (of the actor with or without reason, of its supervisor, of the root) at two symbolic moments: the first at any message of the history, the second up to 15 messages later (thorough: any later one), with or without a shutdown held up', defs=['MODE=8'], witness=['end', 'fatal', 'operated', 'not operated'])]),

 'C09': dict(assumptions=[LOOP], harnesses=[H('init', 'c09_init.cpp', 'a supervisor (root or child; thorough: also on a loop of its own) with two children and one created late (from a sibling, at any message or after the start); each child symbolically fine, slow or never ready, failing when configured, in init_start or in init_finish; both policies', defs=['MODE=9'], witness=['end', 'operational', 'down', 'failed init']), H('respawn', 'c09_respawn.cpp', 'a spawned child terminates (normally or not) while its supervisor waits for a slow sibling, and is replaced by an instance which is fine, slow or fails; every policy, with and without synchronized start, root or child supervisor, the sibling or the new instance ready first', witness=['end', 'replaced', 'failed', 'gone before start'])]),
 'C10': dict(assumptions=[LOOP], harnesses=[H('tree', 'c10_bottom_up.cpp', 'a root, a sub-tree on the same or another loop, leaves with a slow initialization or shutdown; shutdown of the root, of the sub-tree or of a leaf at any message; another child or sub-tree is created up to 12 messages later (thorough: at any later message)', witness=['end', 'fatal', 'late child', 'late sub-tree'])]),
 'C13': dict(assumptions=[LOOP], harnesses=[H('links', 'c13_links.cpp', 'a server and its client, or a chain of three, in every order of creation, on one loop or two; slow initialization or shutdown, deferred unlink, client which stays; shutdown of any of them or of the tree at any message; timers expire in the order of their intervals', defs=['MODE=13'], witness=['end', 'link failed', 'unlinked', 'fatal', 'stays'])]),
 'C14': dict(assumptions=[LOOP], harnesses=[H('linking', 'c13_links.cpp', 'a client links to a server which is fine, slow, absent or terminated, plain or operational-only; shutdown of the server, the client or the tree at any message', defs=['MODE=14'], witness=['end', 'link failed', 'unlinked'])]),
 'C23': dict(assumptions=[LOOP], harnesses=[H('start', 'c09_init.cpp', 'as for C09, with and without synchronized start', defs=['MODE=23'], witness=['end', 'operational', 'down', 'failed init'])]),
 'C24': dict(assumptions=[LOOP, 'a supervisor is not released before the loops which may still send to it (address.hpp); below the root that is given, siblings are held by the user'], harnesses=[H('foreign', 'c24_foreign.cpp', 'a subscriber on another loop: histories of 4 (thorough 5) messages from either loop, subscriptions, unsubscriptions, shutdown of the actor or of its loop, and every progress of the loops; the address belongs to the root; the user does not hold the actor', defs=['HOLD=0'], witness=['end', 'got', 'got, leaving', 'stopped']), H('siblings', 'c24_foreign.cpp', 'the same with 3 loops and histories of 3 (thorough 4) operations; the address belongs to a sibling loop', defs=['SIBLINGS'], witness=['end', 'got', 'got, leaving', 'stopped'])]),
 'C25': dict(assumptions=[LOOP], harnesses=[H('handover', 'c25_handover.cpp', '3 actors on 2 or 3 loops (also on a child supervisor of a loop), 3 (thorough 4) messages or requests between them in every combination, one of them relayed; every progress of the loops', witness=['end', 'handed over', 'local', 'relayed'])]),
 'C22': dict(assumptions=[LOOP, 'in the first harness the loops take turns (at message boundaries)'] + THREADS, harnesses=[T('threads', 'c36_loops.cpp', 'a routed message with recipients on two real thread loops, the follow-up address belongs to one of them; 1 preemption, also at the operations of reference counters (thorough: 2, not there)', defs=['MODE=4'], quiet=QUIET2, preempt={'quick': 1, 'thorough': 2}), H('routed', 'c22_routed.cpp', 'one or two routed messages with 0..3 recipients on 3 loops, one of which unsubscribes or terminates before or while the message is under way; follow-up address on any loop; the message is kept and redirected, or redirected along another route; every progress of the loops', witness=['end', 'no recipient', 'three recipients', 'redirected', 'redirected twice'])]),
 'C15': dict(assumptions=[LOOP], harnesses=[H('map', 'c15_registry.cpp', 'histories of 5 (thorough 6) registrations, revocations by name or address and lookups over 2 names and 2 addresses, against a reference map', defs=['MODE=15'])]),
 'C16': dict(assumptions=[LOOP], harnesses=[H('delayed', 'c15_registry.cpp', 'histories of 4 (thorough 5) delayed lookups by 2 clients, registrations, revocations, cancellations and expiries over 2 names, one after the other or (on one loop) several at once', defs=['MODE=16'], witness=['end', 'cancelled', 'answered'])]),
 'C17': dict(assumptions=[LOOP], harnesses=[H('services', 'c17_services.cpp', 'a server which registers two names (free or taken), a client which looks up one, two or a missing one, delayed or not, on one loop or two; shutdown of the server, the client, the tree or the registry at any message; timers expire in the order of their intervals', witness=['end', 'registered', 'discovered', 'name is taken', 'unknown', 'emptied']), H('boot', 'c17_boot.cpp', 'a tree which is put together before it starts (synchronized start of the root and of a supervisor below, a registry of either, on one loop or two): a server, possibly slow, and a client, which links to it or not, in any order; every progress of the loops; nobody may need a timeout', witness=['end', 'operational', 'synchronized']), H('names', 'c17_names.cpp', 'a client looks up two names of one server; the second one is registered by the server itself or by another actor, before, at any message or when the rest has settled; server and client possibly slow, on one loop or two; each progress callback exactly once and in order; nobody may need a timeout', witness=['end', 'operational'])]),
 'C18': dict(assumptions=[LOOP], harnesses=[H('spawner', 'c18_spawner.cpp', 'every policy, at most 0..2 restarts; each new instance fine, not made (factory throws) or failing its initialization; below the root or a nested supervisor, spawned before or after the start; 3 (thorough 4) terminations and timer expiries in any order, the supervisor shut down at any message', defs=['MODE=18'], witness=['end', 'restarted', 'not restarted', 'timer'])]),
 'C19': dict(assumptions=[LOOP], harnesses=[H('spawner', 'c18_spawner.cpp', 'as for C18, with and without escalation, symbolic time (microseconds) between the terminations, time zone shifts', defs=['MODE=19'], witness=['end', 'restarted', 'not restarted', 'timer', 'escalated'])]),
 'C20': dict(assumptions=[LOOP], harnesses=[H('escalate', 'c20_escalate.cpp', 'two children below the root or a supervisor (thorough: of the same loop, too) which has the settings itself; escalate_failure and autoshutdown_supervisor in every combination; a child or the supervisor terminates normally, with an error (at any message, before or after the start) or fails its initialization', witness=['end', 'stays', 'taken down', 'carried upward'])]),
 'C21': dict(assumptions=[LOOP], harnesses=[H('resources', 'c21_resources.cpp', 'an actor with 2 resource ids acquired in either configuration phase or in any of 4 hooks, with or without a pending link; 4 (thorough 6) symbolic acquisitions, releases and shutdown requests, one of them at any message; the initialization may time out', witness=['end', 'operated', 'timeout', 'preinit'])]),
 'C32': dict(assumptions=[LOOP], harnesses=[H('flag', 'c32_flag.cpp', 'a root or child supervisor with a shutdown flag and a poll period; the flag is raised at any message or between any two of 3 (thorough 4) poll expiries, also before the start, together with a shutdown request at any message', witness=['end', 'noticed', 'operational', 'poll while shutting down'])]),
 'C33': dict(assumptions=[LOOP], harnesses=[H('chains', 'c33_chain.cpp', 'chains of 0..3 (thorough 4) reasons with every code of both categories, with and without a request', defs=['MODE=0']), H('system', 'c33_chain.cpp', '10 kinds of failures (initialization, linking, registration, lookup, shutdown, ...) of an actor below the root, a supervisor or on another loop; with and without escalation, every policy', defs=['MODE=1'], witness=['end', 'supervisor down', 'supervisor up', 'root down'])]),
 'C34': dict(assumptions=[LOOP], harnesses=[H('actors', 'c34_builder.cpp', 'every subset and (within the bound of 4 calls) order of the settings of an actor, symbolic values', defs=['MODE=0'], witness=['end', 'built', 'rejected', 'escalated']), H('root', 'c34_builder.cpp', 'the same for a root supervisor', defs=['MODE=1'], witness=['end', 'built', 'rejected', 'flag']), H('child', 'c34_builder.cpp', 'the same for a child supervisor', defs=['MODE=2'], witness=['end', 'built', 'rejected', 'down by child', 'flag'])]),
 'C35': dict(assumptions=[LOOP], harnesses=[H('kinds', 'c35_text.cpp', 'each of the 28 message kinds and an unknown one: addresses present or missing, with and without error, symbolic ids, names and tags', defs=['MODE=0']), H('history', 'c35_text.cpp', 'each message of a history with links, services, a spawner, subscriptions across loops and a shutdown of any of 3 actors at any message: when it is sent, before it is handled and after everything is over (messages are kept)', defs=['MODE=1'], witness=['end', 'discovery_cancel', 'unlink_request', 'spawn_actor', 'external_subscription'])]),
 'C11': dict(assumptions=[LOOP, 'a fatal error ends the history'], harnesses=[H('mixed', 'c12_mixed.cpp', 'a service, a client of it (lookup, link, requests, timers, routed messages, foreign subscription, resource) and a spawned actor below a supervisor on the same or another loop, started or not; at any message one of 8 disturbances (shutdown of each, a client created late, more work, expiry of a timer) and another one right after it (thorough: up to 5 messages later); messages, requests and actors are held by the user', defs=['MODE=11'], witness=['end', 'busy', 'undisturbed', 'restarted', 'another client'])]),
 'C12': dict(assumptions=[LOOP, 'a fatal error ends the history', 'every memory access, assertion and call of terminate in the scenarios of all other checks is decided, too'], harnesses=[H('mixed', 'c12_mixed.cpp', 'as for C11; the second disturbance comes up to 2 (thorough 9) messages later', defs=['MODE=12'], witness=['end', 'busy', 'undisturbed', 'restarted', 'another client'])]),
 'C26': dict(assumptions=THREADS, harnesses=[
     T('pair', 'c26_loop.cpp', '2 senders (thorough: 2 preemptions instead of 1), one to the root supervisor, one to a child supervisor of the same loop; then an external shutdown', defs=['SENDERS=2', 'COUNT=1', 'IO=0', 'POLL=0'], preempt={'quick': 1, 'thorough': 2}),
     T('burst', 'c26_loop.cpp', '1 sender of 2 messages, 2 (thorough 3) preemptions; then an external shutdown', defs=['SENDERS=1', 'COUNT=2', 'IO=0', 'POLL=0'], preempt={'quick': 2, 'thorough': 3}),
     T('blocking', 'c26_loop.cpp', '2 senders to receivers with handlers marked as blocking (the loop takes messages before and after the handler), 1 preemption (thorough: 1 sender of 2 messages, 2 preemptions, too)', defs=['SENDERS=2', 'COUNT=1', 'IO=1', 'POLL=0'], preempt=1),
     T('blocking_burst', 'c26_loop.cpp', '1 sender of 2 messages, handlers marked as blocking, 2 preemptions', defs=['SENDERS=1', 'COUNT=2', 'IO=1', 'POLL=0'], preempt=2, tiers=['thorough']),
     T('poll', 'c26_loop.cpp', '1 sender of 1 message, the loop polls for 2 readings of the clock before it waits; 2 (thorough 3) preemptions', defs=['SENDERS=1', 'COUNT=1', 'IO=0', 'POLL=2'], preempt={'quick': 2, 'thorough': 3})]),
 'C27': dict(assumptions=['the clock is the harness\' own: symbolic durations of blocking handlers and symbolic lateness of waits; wait_until ends at its deadline or later', 'a handler which is not marked as blocking takes no time (the documentation asks for the mark; tests/142 pins that timers are wrong without it)'], harnesses=[
     H('timers', 'c27_timer.cpp', 'up to 4 (thorough 5) operations at any place (on_start, plain handler, blocking handler, timer callback): start a timer (1 us - 20 ms), cancel any, send a plain or blocking message, let time pass (blocking handlers), shut down; the loop is started late or at once', backends=['thread']),
     H('poll', 'c27_timer.cpp', 'the same with 2 (thorough 3) operations, where the loop polls before it waits and each reading of the clock takes 400 us', defs=['POLL'], backends=['thread']),
     H('requests', 'c27_req.cpp', '1 or 2 requests with timeouts of 1 - 14 ms (thorough 60), where client and server block for 0 - 14 ms and the server answers at once, later or never', backends=['thread'])]),
 'C28': dict(assumptions=BACKEND + THREADS + ['boost.asio is replaced by a stand-in with the documented semantics: strands run their handlers one at a time in order, ready handlers of the context run in any order, a timer completes at or after its expiry, cancel does not affect completions which are already queued; strands are switched between handlers and (polling) between two readings of the clock'], harnesses=[
     H('loop', 'c28_asio.cpp', BHIST % ('root and child supervisor on one strand or two, with and without polling, released by the user or not', 'the handlers of the strands, ready completions and expiries are run in every order with at most 2 (thorough 4) deviations from the first one; 2'), backends=['asio'], flags=['-I@/include/stub/asio']),
     H('forwarder', 'c28_fwd.cpp', 'up to 2 (thorough 3) operations of an actor, with and without result and error handler, complete with symbolic value or error in another strand or outside of any, at the same time or one after another', backends=['asio'], flags=['-I@/include/stub/asio'], witness=['end', 'forwarded']),
     T('strands', 'c28_wake.cpp', 'two threads run the context, root and child supervisor on a strand each, a third thread sends a message; 1 preemption', defs=['WORKERS=2', 'STRANDS=2', 'SENDERS=1', 'TOWARDS=1'], preempt=1, **ASIOT),
     T('burst', 'c28_wake.cpp', 'one thread runs the context, another one sends 2 messages; 2 (thorough 3) preemptions', defs=['WORKERS=1', 'STRANDS=1', 'SENDERS=1', 'COUNT=2'], preempt={'quick': 2, 'thorough': 3}, **ASIOT),
     T('workers', 'c28_wake.cpp', 'two threads run the context with a single strand; 1 preemption', defs=['WORKERS=2', 'STRANDS=1', 'SENDERS=1'], preempt=1, tiers=['thorough'], **ASIOT),
     T('senders', 'c28_wake.cpp', 'one thread runs the context, two threads send a message; 2 preemptions', defs=['WORKERS=1', 'STRANDS=1', 'SENDERS=2'], preempt=2, tiers=['thorough'], **ASIOT)]),
 'C29': dict(assumptions=BACKEND + THREADS + ["libev's functions are replaced by the harness' own (real <ev.h>): watchers run in any order, an async watcher sent several times runs once"], harnesses=[
     H('loop', 'c29_ev.cpp', BHIST % ('root and child supervisor on one loop, with and without polling, released by the user or not', 'woken watchers and expiries are run in every order with at most 2 (thorough 3) deviations from the first one; 2 (thorough 3)'), backends=['ev']),
     T('wake', 'c29_wake.cpp', '2 threads send a message each while the loop sleeps until an async watcher is sent; 1 (thorough 2) preemptions', defs=['SENDERS=2', 'COUNT=1'], backends=['ev'], preempt={'quick': 1, 'thorough': 2}),
     T('wake_burst', 'c29_wake.cpp', '1 thread sends 2 messages; 2 (thorough 3) preemptions', defs=['SENDERS=1', 'COUNT=2'], backends=['ev'], preempt={'quick': 2, 'thorough': 3})]),
 'C30': dict(assumptions=BACKEND + THREADS + ["FLTK's functions are replaced by the harness' own (real <FL/Fl.H>); the program runs do_process() and Fl::wait() in turn, as the examples do"], harnesses=[
     H('loop', 'c30_fltk.cpp', BHIST % ('root and child supervisor; another context before it (a message comes too late) or beside it', 'awake callbacks (in order) and timeouts are run in every order with at most 2 (thorough 3) deviations; 2 (thorough 3)'), backends=['fltk']),
     T('wake', 'c30_wake.cpp', '2 threads send a message each while the loop sleeps in Fl::wait() until it is woken; 1 (thorough 2) preemptions', defs=['SENDERS=2', 'COUNT=1'], backends=['fltk'], preempt={'quick': 1, 'thorough': 2}),
     T('wake_burst', 'c30_wake.cpp', '1 thread sends 2 messages; 2 (thorough 3) preemptions', defs=['SENDERS=1', 'COUNT=2'], backends=['fltk'], preempt={'quick': 2, 'thorough': 3})]),
 'C31': dict(assumptions=BACKEND + ["wxWidgets' event handler and timers are replaced by stand-ins: events run in order, timers expire at or after their time; intervals of whole milliseconds"], harnesses=[
     H('loop', 'c31_wx.cpp', BHIST % ('root and child supervisor, released by the user or not', 'events and expiries are run in every order with at most 2 (thorough 4) deviations; 2 (thorough 3)'), backends=['wx'], flags=['-I@/include/stub/wx'])]),
 'C36': dict(assumptions=[a for a in THREADS if 'C36' not in a], harnesses=[
     T('counters', 'c36_refs.cpp', '2 threads, which hold references to a message, an actor, an address, an error or an own object, copy, move, use and drop them; 2 (thorough 4) preemptions', defs=['THREADS=2'], quiet='', preempt={'quick': 2, 'thorough': 4}),
     T('counters3', 'c36_refs.cpp', '3 threads, 1 preemption', defs=['THREADS=3'], quiet='', preempt=1, tiers=['thorough']),
     T('notes', 'c36_loops.cpp', 'two thread loops send messages to each other; 1 (thorough 2) preemptions, also at the operations of reference counters (thorough: not)', defs=['MODE=0'], quiet=QUIET2, preempt={'quick': 1, 'thorough': 2}),
     T('requests', 'c36_loops.cpp', 'two thread loops send requests, which are answered with a value, to each other; as before', defs=['MODE=1'], quiet=QUIET2, preempt={'quick': 1, 'thorough': 2}),
     T('errors', 'c36_loops.cpp', 'two thread loops send requests, which are answered with an error chain, to each other; as before', defs=['MODE=2'], quiet=QUIET2, preempt={'quick': 1, 'thorough': 2}),
     T('foreign', 'c36_loops.cpp', 'a subscription to an address of the other loop, messages from both loops, unsubscription; as before', defs=['MODE=3'], quiet=QUIET2, preempt={'quick': 1, 'thorough': 2}),
     T('early', 'c36_loops.cpp', 'the requests, one of the loops is shut down from outside at any moment; 1 preemption, not at the operations of reference counters', defs=['MODE=1', 'EARLY=1'], preempt=1)]),
}
