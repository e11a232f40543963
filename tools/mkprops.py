#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)

SUPH='include/rotor/supervisor.h'; SUPC='src/rotor/supervisor.cpp'; REQ='include/rotor/request.hpp'
ACT='src/rotor/actor_base.cpp'; ACTH='include/rotor/actor_base.h'

p('C01','Messages of one sender reach one receiver in the order they were sent',
  'Whenever the same sender sends several messages that are handled by the same receiver, the receiver handles them in the order in which they were sent. This holds for plain messages, for requests, for responses, and for any mixture of them, on the sender\'s own locality and across localities.',
  ['histories','inputs'],'every bounded interleaving of sends, nested sends from handlers, requests and replies, for all payloads',
  'tests send one or two messages in one fixed pattern; order must hold for every mixture, nesting and destination',
  [SUPH,SUPC,'include/rotor/plugin/delivery.h','src/rotor/plugin/delivery.cpp',REQ],
  [('single locality queue drained front to back',SUPH),('response is re-queued behind what was already sent',SUPC)])
p('C02','A message is handled exactly once by each current subscriber and by nobody else',
  'A message sent to an address is handled exactly once by every handler subscribed to that address for that message type at the moment of delivery, with its payload unchanged. It is never handled by a handler subscribed for another type or another address, by one that has been unsubscribed, or by an actor that finished shutting down.',
  ['histories','inputs','configurations'],'every bounded sequence of subscribe, unsubscribe and send over several actors, addresses and message types; all payloads',
  'tests use one fixed subscription set each; no test mixes subscription changes with in-flight messages over all orders',
  ['src/rotor/subscription.cpp','src/rotor/subscription_point.cpp','src/rotor/plugin/delivery.cpp','include/rotor/plugin/delivery.h','include/rotor/handler.h','src/rotor/handler.cpp',SUPH],
  [('address + message type keyed handler lists','src/rotor/subscription.cpp'),('delivery loop','include/rotor/plugin/delivery.h')])
p('C03','Every request is answered exactly once: by its response or by a timeout error',
  'An actor that issues a request handles exactly one response for it. If the responder answers before the request timer fires, that answer (value or error) is the one; otherwise the requester gets a timeout error, and any later or repeated answer is silently discarded.',
  ['histories','inputs','fault_sequences'],'every bounded order of issuing, answering, double answering, dropping, late answering and timer expiry of several concurrent requests',
  'tests try one reply, one timeout and one late reply separately; the guarantee is over every order and number of outstanding requests',
  [REQ,SUPH,SUPC,ACTH,ACT],[('pending-request table keyed by request id',SUPC),('response delivery looks up and erases the pending request',SUPH),('request timer',SUPC)],
  [('pending requests','requests sent and not yet answered',SUPH)])
p('C04','A response always carries the answer to the very request it is delivered for',
  'The response a requester handles refers to the request it sent: the original request payload is intact, the answer is the one the responder produced for that request, and it is delivered only to the requester (and to the address the requester named). Answers to concurrent requests, of the same or different types and from different actors, are never swapped.',
  ['histories','inputs'],'all payloads, any order of answering of concurrent requests from several actors',
  'tests have at most two concurrent requests answered in order',
  [REQ,'src/rotor/address_mapping.cpp',SUPH],[('one private response address per actor and response type','src/rotor/address_mapping.cpp'),('request id copied into the response',REQ)])
p('C05','A timer fires its callback exactly once: either triggered or cancelled',
  'For every timer an actor starts, its callback is called exactly once, with the identifier the start call returned, as "triggered" if the timer expired first or as "cancelled" if the actor cancelled it or shut down first. Identifiers of simultaneously pending timers and requests are distinct within one event loop.',
  ['histories','inputs'],'every bounded order of start, cancel, expiry, restart from inside the callback, and shutdown',
  'tests start and cancel or trigger a single timer in a fixed order',
  [ACTH,ACT,SUPH,SUPC,'include/rotor/timer_handler.hpp'],[('per-actor timer table',ACT),('supervisor wide timer table',SUPC)],
  [('active timers','timers started and not yet called back',ACTH)])
p('C06','An actor that shuts down leaves no timer, request or subscription behind',
  'When an actor finishes its shutdown, all timers it had started were called back as cancelled and all requests it had pending have been answered with a cancellation or discarded, and its subscriptions are gone. Nothing of that actor runs any more afterwards, whatever messages, answers or timer expiries are still in flight.',
  ['histories','fault_sequences'],'every bounded history in which shutdown hits an actor with pending timers, requests and subscriptions',
  'existing tests cover one pending timer or one pending request at a time',
  [ACT,'src/rotor/plugin/lifetime.cpp',SUPH,SUPC],[('actor cancels requests and timers on shutdown',ACT),('subscriptions are removed before the final state','src/rotor/plugin/lifetime.cpp')])
p('C07','Actor lifecycle only moves forward and every hook runs at most once, in order',
  'The observable state of an actor only ever advances (new, initializing, initialized, operational, shutting down, shut down). The hooks for start and finish of initialization, start of operation and start and finish of shutdown each run at most once and in this order, a started shutdown phase is always finished, and no operational hook runs after shutdown began.',
  ['histories','configurations'],'every bounded history of init outcomes, shutdown requests at any moment, timeouts, repeated shutdowns',
  'tests check final states of single scripted scenarios',
  [ACT,'src/rotor/plugin/init_shutdown.cpp','src/rotor/plugin/starter.cpp','src/rotor/plugin/child_manager.cpp'],[('init and shutdown continuation polling the plugins',ACT)],
  [('actor state','lifecycle phase',ACTH)])
p('C08','Shutdown works from any moment, always finishes and keeps its first reason',
  'Whenever and however often shutdown of an actor or of the tree is requested (during initialization, operation or shutdown itself), it completes once all obligations that other actors hold are settled or timed out. The reason recorded for the actor is the first one given and stays available afterwards.',
  ['histories','fault_sequences'],'shutdown injected at every step of a bounded history, repeated, with and without reason',
  'tests inject shutdown at a handful of moments',
  [ACT,'src/rotor/plugin/child_manager.cpp','src/rotor/plugin/init_shutdown.cpp'],[('shutdown trigger request to the supervisor',ACT),('first reason wins',ACT)])
p('C09','A supervisor starts only when all children are ready; failures follow its policy',
  'A supervisor becomes operational only after every child created so far was initialized. If a child fails to initialize or does not do so in time before that, the supervisor never becomes operational under the shut-down-self policy but shuts itself down; under the shut-down-failed policy the failed child is shut down, and the supervisor either becomes operational with the remaining children or, when that child is gone while the supervisor is still initializing, shuts down. A child which fails to initialize later does not affect an operational supervisor.',
  ['histories','configurations','fault_sequences'],'every combination of policy, number of children and per-child init outcome (ok, failed, timed out, shut down itself) and their order',
  'tests cover a few fixed combinations',
  ['src/rotor/plugin/child_manager.cpp','src/rotor/detail/child_info.cpp','include/rotor/policy.h'],[('child bookkeeping and init polling','src/rotor/plugin/child_manager.cpp')])
p('C10','Shutdown runs bottom-up: a supervisor finishes only after all its children',
  'When a supervisor shuts down, all its children (including whole sub-trees) are asked to shut down and the supervisor itself reaches its final state only after each of them did, or after their shutdown timed out and this was reported as a fatal error. No child is ever forgotten, also when it was created while others initialize or shut down.',
  ['histories','configurations'],'every bounded tree shape, moment of child creation and order of shutdown requests',
  'tests use two or three fixed trees',
  ['src/rotor/plugin/child_manager.cpp',SUPC],[('child table',"src/rotor/plugin/child_manager.cpp"),('unless children are gone shutdown of the supervisor is not confirmed','src/rotor/plugin/child_manager.cpp')])
p('C11','After shutdown everything is released: no actor, message or handler leaks',
  'Once a tree has shut down and the user dropped their own references, every actor, message, request, timer handler, subscription and resource created by the framework has been released. Each is released exactly once.',
  ['histories'],'all bounded histories of the lifecycle, request, link, registry and spawner scenarios',
  'tests assert empty tables of a few scripted scenarios; leaks depend on history',
  [SUPC,ACT,'include/rotor/arc.hpp','include/rotor/message.h'],[('intrusive reference counting','include/rotor/arc.hpp')])
p('C12','No legal history causes an invalid memory access or an internal abort',
  'For every history of legal use of the public interface, the framework never touches released or foreign memory, never dereferences null, never terminates the process and never fails one of its internal consistency checks.',
  ['histories','inputs','fault_sequences'],'all bounded histories of all scenarios; the checks are evaluated by the solver on every access of every path',
  'tests only run a few hundred concrete histories',
  ['src/rotor','include/rotor'],[('assertions and ownership rules throughout','src/rotor')])
p('C13','A server shuts down only after all its linked clients unlinked',
  'After a client linked to a server, the server does not finish shutting down before every linked client has unlinked (or failed to do so in the allotted time, which is reported). A client whose server asks to unlink shuts down by default, and a client that shuts down is unlinked from all its servers.',
  ['histories','fault_sequences'],'every order of link, operation, shutdown of either side, and timeouts, with several clients and servers',
  'tests cover one client and one server in a few orders',
  ['src/rotor/plugin/link_server.cpp','src/rotor/plugin/link_client.cpp'],[('server keeps the set of linked clients','src/rotor/plugin/link_server.cpp'),('client keeps the set of servers','src/rotor/plugin/link_client.cpp')])
p('C14','Linking succeeds only with a live (and if wanted operational) server',
  'A client that must link to a server finishes initialization only if the server confirmed the link; with the operational-only option the confirmation comes only after the server became operational. If the server is absent, is shutting down or does not answer in time, the client fails to initialize and shuts down with the linking error as reason.',
  ['histories','configurations','fault_sequences'],'every state of the server at the time of linking, both option values, every timer order',
  'tests cover single orders',
  ['src/rotor/plugin/link_server.cpp','src/rotor/plugin/link_client.cpp','include/rotor/plugin/link_client.h'],[('link request handling','src/rotor/plugin/link_server.cpp')])
p('C15','The registry is a consistent map from names to addresses',
  'At any time a service name resolves to the address of the last successful and not yet revoked registration: registering a taken name fails and changes nothing, revoking by name or by address removes exactly the names concerned, and looking up an unknown name fails. An address may hold several names.',
  ['histories','inputs'],'every bounded sequence of register, lookup, revoke by name and revoke by address over several names and addresses, compared with a reference map',
  'tests run one scripted sequence',
  ['src/rotor/registry.cpp','include/rotor/registry.h'],[('two mutually inverse maps','src/rotor/registry.cpp')])
p('C16','A delayed lookup is answered once the name is registered, unless cancelled',
  'A lookup that waits for a not yet registered name is answered exactly once, with the right address, when the name gets registered (immediately if it is already there). A cancelled wait gets exactly one cancellation answer and nothing afterwards, and waits for other names are not affected. Nobody is left waiting for a registry which shuts down.',
  ['histories','inputs'],'every bounded order of waits, cancels and registrations by several clients over several names',
  'tests have one waiting client',
  ['src/rotor/registry.cpp'],[('list of outstanding promises','src/rotor/registry.cpp')])
p('C17','Actors register, discover and deregister their services around their lifecycle',
  'An actor that declares services is initialized only after all of them are registered and all its discoveries are resolved, and it fails with a registration or discovery error otherwise. When it shuts down, none of its names stays in the registry, whatever the moment at which shutdown started.',
  ['histories','fault_sequences'],'every order of registration, discovery (delayed or not), failure, timeout and shutdown during initialization',
  'tests cover the plain path and one failure',
  ['src/rotor/plugin/registry.cpp','include/rotor/plugin/registry.h','src/rotor/registry.cpp'],[('registration state per service','src/rotor/plugin/registry.cpp')])
p('C18','A terminated spawned actor is restarted exactly when its restart policy says so',
  'When a spawned actor terminates, a new instance is created if and only if its policy demands it: always, never, only after normal termination, only after failure, or as the actor itself answers. A shutting down supervisor never restarts anything.',
  ['histories','configurations'],'every policy, every outcome of each instance, every bounded number of instances, supervisor shutdown at any moment',
  'tests run each policy once or twice',
  ['src/rotor/detail/child_info.cpp','src/rotor/plugin/child_manager.cpp','src/rotor/spawner.cpp'],[('restart decision','src/rotor/detail/child_info.cpp')])
p('C19','Restarts respect attempts limit and period, and escalate on give-up',
  'A spawned actor is instantiated at most the configured number of times and never earlier than the configured period after the previous instance started. When restarting is given up because of a failure and escalation was requested, the supervisor shuts down; otherwise it keeps running.',
  ['histories','configurations','inputs'],'all limits up to the bound, all clock values, all outcomes',
  'tests run with one limit and period',
  ['src/rotor/detail/child_info.cpp','src/rotor/plugin/child_manager.cpp','src/rotor/spawner.cpp'],[('attempt counting and delayed respawn','src/rotor/detail/child_info.cpp')])
p('C20','A child shuts its supervisor down if and only if it was configured to do so',
  'A child marked to escalate failure shuts its supervisor down exactly when it terminates abnormally, and a child marked to shut the supervisor down does so whenever it terminates; the reason is carried upward as the root cause. Children with neither mark never take an operational supervisor down.',
  ['histories','configurations'],'every combination of the two marks, termination reason and moment',
  'tests cover single combinations',
  ['src/rotor/plugin/child_manager.cpp','src/rotor/detail/child_info.cpp',ACT],[('child removal','src/rotor/plugin/child_manager.cpp')])
p('C21','Acquired resources hold back the end of initialization and of shutdown',
  'While an actor holds at least one resource acquired during initialization it does not finish initialization, and while it holds one during shutdown it does not finish shutdown; both phases finish as soon as the last resource is released. The held count of each resource always equals acquisitions minus releases.',
  ['histories','inputs'],'every bounded sequence of acquire, release and shutdown over several resource kinds',
  'tests use one resource in a fixed order',
  ['src/rotor/plugin/resources.cpp',ACT],[('per-resource counters','src/rotor/plugin/resources.cpp')])
p('C22','A routed message comes back exactly once, after every recipient has handled it',
  'A message sent with a follow-up address is delivered to the follow-up address exactly once, and only after every recipient of the original address has handled it, also when there is no recipient, when recipients live in other localities, or when they terminated.',
  ['histories','schedules'],'every bounded number and placement of recipients, every subscribe or unsubscribe order',
  'a single test with fixed recipients',
  ['include/rotor/message.h',"src/rotor/handler.cpp",'include/rotor/plugin/delivery.h',SUPH],[('last holder forwards the message',"src/rotor/handler.cpp")])
p('C23','With synchronized start no child operates before its siblings are ready',
  'Under the synchronized start option no child becomes operational before all children of that supervisor are initialized and the supervisor itself starts; each child is then started exactly once. Without the option each child starts as soon as it is initialized itself.',
  ['histories','configurations'],'both option values, every init order and outcome of the children',
  'two fixed scenarios in tests',
  ['src/rotor/plugin/child_manager.cpp','src/rotor/plugin/starter.cpp'],[('start message withheld until the supervisor starts','src/rotor/plugin/child_manager.cpp')])
p('C24','Subscriptions across localities work like local ones, also through shutdown',
  'An actor subscribed to an address owned by another event loop receives each message sent there exactly once, on its own loop. Once it unsubscribed or shut down (on either side) it receives nothing more, and both sides forget the subscription.',
  ['histories','schedules'],'every order of progress of the two loops over subscribe, send, unsubscribe and shutdown',
  'tests alternate the loops in one fixed order',
  ['src/rotor/plugin/foreigners_support.cpp','src/rotor/plugin/delivery.cpp','src/rotor/plugin/lifetime.cpp',SUPC],[('external subscription confirmation','src/rotor/plugin/foreigners_support.cpp'),('forwarding of foreign messages','src/rotor/plugin/delivery.cpp')])
p('C25','A message for another loop is handed over exactly once and handled there only',
  'A message sent to an address owned by a different event loop is put into the inbound queue of the loop that owns it exactly once and is handled by actors of that loop in its context only. No message is lost, duplicated or reordered on the way, whatever the relative progress of the loops.',
  ['schedules','histories'],'every interleaving of the processing steps of two or three loops',
  'tests drive the loops in one order',
  [SUPH,'src/rotor/plugin/delivery.cpp'],[('owner locality decides whether to forward','include/rotor/plugin/delivery.h')])
p('C26','Thread loop: no cross-thread message is lost, no wake-up is missed',
  'Every message sent from another thread to a running thread-based loop is eventually handled exactly once, in order per sender, without waiting for an unrelated timer; the loop never sleeps while a message is waiting.',
  ['schedules'],'every interleaving of a bounded number of senders\' and the loop\'s synchronization operations',
  'tests run the OS scheduler a few times',
  ['src/rotor/thread/supervisor_thread.cpp','src/rotor/thread/system_context_thread.cpp'],[('lock-free inbound queue + mutex and condition variable','src/rotor/thread/system_context_thread.cpp')])
p('C27','Thread loop: timers fire once, never early, in deadline order',
  'A timer of the thread loop is triggered only when the clock has reached its deadline, exactly once, and timers due at the same check are triggered in the order of their deadlines. This also holds when timers are started or cancelled from timer callbacks and around handlers marked as blocking. The deadline counts from the moment the loop considers to be now: a handler which takes noticeable time has to be marked as blocking.',
  ['histories','inputs'],'all clock values and durations, every bounded sequence of start, cancel and tick',
  'tests use one real-time timer',
  ['src/rotor/thread/system_context_thread.cpp','src/rotor/thread/supervisor_thread.cpp'],[('deadline ordered timer list','src/rotor/thread/system_context_thread.cpp')])
p('C28','asio loop: messages, timers, start, shutdown run on the strand exactly once',
  'With the asio loop every enqueued message, start, shutdown and timer expiry is executed through the supervisor\'s strand exactly once, a cancelled timer never triggers later although its completion arrives, and the supervisor stays alive until its last completion ran.',
  ['schedules','fault_sequences'],'every order in which the loop may run pending completions, expired and aborted timers, several threads which run the loop',
  'tests run the real loop with one order',
  ['src/rotor/asio/supervisor_asio.cpp','include/rotor/asio/supervisor_asio.h','include/rotor/asio/forwarder.hpp'],[('strand dispatch, timer map','src/rotor/asio/supervisor_asio.cpp')])
p('C29','ev loop: messages and timers are processed exactly once, watchers freed',
  'With the ev loop every message enqueued from any thread is handled exactly once on the loop thread, each timer is either triggered or cancelled exactly once, and when the supervisor is shut down the watchers are stopped and the loop is left without references to it.',
  ['schedules','fault_sequences'],'every order of watcher callbacks permitted by libev, for a bounded number of messages and timers',
  'tests run the real loop with one order',
  ['src/rotor/ev/supervisor_ev.cpp','include/rotor/ev/supervisor_ev.h'],[('async watcher plus locked inbound queue','src/rotor/ev/supervisor_ev.cpp')])
p('C30','fltk loop: messages and timers are processed exactly once by the GUI loop',
  'With the fltk loop every enqueued message is delivered exactly once by the loop, and each timer is triggered or cancelled exactly once with its expiry processed by the program\'s loop (do_process() and Fl::wait() in turn) without further external events. This holds for every context of the program, also when several of them share the loop.',
  ['schedules','fault_sequences'],'every order of loop callbacks, bounded number of messages and timers',
  'one test with a real loop',
  ['src/rotor/fltk/supervisor_fltk.cpp','src/rotor/fltk/system_context_fltk.cpp'],[('awake callbacks and timeouts','src/rotor/fltk/supervisor_fltk.cpp')])
p('C31','wx loop: messages and timers are processed exactly once by the GUI loop',
  'With the wx loop every enqueued message, start and shutdown is executed exactly once by the loop, and each timer is either triggered or cancelled exactly once, also when its event is delivered after the cancellation.',
  ['schedules','fault_sequences'],'every order of pending wx events, bounded number of messages and timers',
  'one ping-pong and one timer test (which need a display)',
  ['src/rotor/wx/supervisor_wx.cpp','include/rotor/wx/supervisor_wx.h'],[('CallAfter on the event handler','src/rotor/wx/supervisor_wx.cpp')])
p('C32','A raised shutdown flag shuts the supervisor down at its next poll, never before',
  'A supervisor configured with a shutdown flag and a poll period starts polling when it starts; it notices the flag at the first poll after it was raised (also if that was before the start), and then shuts down exactly once; while the flag is not raised it keeps polling and does not shut down because of it.',
  ['histories','schedules','configurations'],'the flag raised at any point of the history',
  'one test per backend raising it once',
  [SUPC,SUPH],[('poll timer re-armed until the flag is raised',SUPC)])
p('C33','The reported error chain leads from the reported failure to its root cause',
  'An error reported for an actor, a response or a shutdown carries a chain of reasons whose last element is the original cause, unaltered; the chain is finite, acyclic and its textual description names every element in order.',
  ['histories','inputs'],'all chains up to the bound, all error codes, all failure propagation paths in the lifecycle scenarios',
  'tests print one or two chains',
  ['src/rotor/extended_error.cpp','src/rotor/error_code.cpp',ACT,'src/rotor/plugin/child_manager.cpp'],[('reason pointers',"src/rotor/extended_error.cpp")])
p('C34','Actors are created only from complete configurations, others are rejected',
  'An actor or supervisor is built exactly if all mandatory settings were supplied, independently of the order in which they were set; otherwise nothing is created, the error tells that the configuration is wrong, and the parent supervisor is unaffected. Every supplied setting takes effect in the created actor.',
  ['configurations','inputs'],'every subset and order of settings',
  'tests check two or three subsets',
  ['include/rotor/actor_config.h','include/rotor/supervisor_config.h',SUPH,'src/rotor/system_context.cpp'],[('mask of missing settings','include/rotor/actor_config.h')])
p('C35','Describing any framework message as text is safe and identifies the message',
  'Every message of the framework\'s own types, in any state of its fields, can be turned into text without failure, and the text names the kind of the message and the actors involved.',
  ['inputs'],'all message kinds and field states',
  'tests describe a subset of message kinds in one state',
  ['src/rotor/misc/default_stringifier.cpp','src/rotor/message_stringifier.cpp'],[('visitor over message types','src/rotor/misc/default_stringifier.cpp')])
p('C36','Objects shared by parallel loops are never freed early or twice, nor raced on',
  'Messages, addresses, actors and error reasons shared by several threads are released exactly once, after the last holder dropped them, in every interleaving of the holders\' operations. Loops which run in parallel access no data of each other without synchronization.',
  ['schedules'],'every interleaving of reference counting operations of two or three threads',
  'tests run a few OS schedules',
  ['include/rotor/arc.hpp','include/rotor/message.h'],[('atomic reference counter','include/rotor/arc.hpp')])

if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for d in P: f.write(json.dumps(d)+'\n')
    for d in P: assert len(d['title'])<=80,(d['id'],len(d['title']))
    print(len(P))
