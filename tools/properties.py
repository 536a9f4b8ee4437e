#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/properties.py > properties.jsonl)"""
import json
P = []


def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': observe,
                          'hook_needed': hook}})


prop('C01', 'Per-sender message order, at most once, content intact',
     'Messages which one actor (or one foreign thread) sends to one address are handled in the order they were sent, each at '
     'most once and with unmodified content; a reply takes its place among the other messages of the replying actor. This holds between actors of one supervisor, of nested supervisors and of '
     'supervisors on different event loops and threads, and also while parts of the system are shutting down.',
     ['schedules', 'configurations', 'histories', 'fault_sequences'],
     'for all topologies of supervisors and loop kinds, all interleavings of the sending and receiving threads, all send histories, stalls, latencies and shutdowns under load',
     'tests send a handful of messages on fixed topologies with the interleaving the OS happens to produce; most use one thread',
     ['include/rotor/supervisor.h', 'src/rotor/plugin/delivery.cpp', 'src/rotor/thread/supervisor_thread.cpp',
      'src/rotor/thread/system_context_thread.cpp', 'src/rotor/ev/supervisor_ev.cpp', 'src/rotor/asio/supervisor_asio.cpp',
      'src/rotor/fltk/system_context_fltk.cpp', 'src/rotor/wx/supervisor_wx.cpp'],
     [('outbound queue', 'messages of one locality waiting for delivery, FIFO', 'include/rotor/supervisor.h: queue'),
      ('inbound queue', 'lock-free queue of messages from other threads', 'include/rotor/supervisor.h: inbound_queue')],
     [('queue processing', 'include/rotor/supervisor.h: delivery_plugin_t::process'),
      ('cross-thread enqueue', 'src/rotor/*/supervisor_*.cpp: enqueue')],
     ['handlers of user messages'])

prop('C02', 'Every message to an operational subscriber is delivered; no lost wake-up',
     'Once an actor is operational, every message sent to its address while it stays operational is handled within bounded '
     'time. This holds whatever thread, event loop or nested supervisor the message was sent from, including when it arrives '
     'just as the receiving loop is about to sleep, and no further event is needed to get it delivered.',
     ['schedules', 'configurations', 'fault_sequences'],
     'for all interleavings of enqueue with the loop going to sleep or polling, all loop kinds, nested supervisors, poll durations, stalls and spurious wake-ups',
     'a lost wake-up needs one particular interleaving of enqueue and sleep; tests run each once on the OS scheduler, and other events mask it',
     ['src/rotor/thread/system_context_thread.cpp', 'src/rotor/thread/supervisor_thread.cpp', 'src/rotor/ev/supervisor_ev.cpp',
      'src/rotor/asio/supervisor_asio.cpp', 'src/rotor/fltk/supervisor_fltk.cpp', 'src/rotor/fltk/system_context_fltk.cpp',
      'src/rotor/wx/supervisor_wx.cpp', 'src/rotor/plugin/locality.cpp'],
     [('inbound queue', 'messages from other threads', 'include/rotor/supervisor.h: inbound_queue'),
      ('pending flag', 'a wake-up of the loop is on its way', 'include/rotor/ev/supervisor_ev.h: pending')],
     [('wake-up', 'src/rotor/*/supervisor_*.cpp: enqueue'), ('poll and wait', 'src/rotor/thread/system_context_thread.cpp: run')],
     ['handlers of user messages', 'counters of sent and handled messages'])

prop('C03', 'Publish/subscribe exactness with dynamic subscriptions',
     'A message published on an address is handled exactly once by every subscription to that address and message type which '
     'was confirmed before it was published and not withdrawn, and by nobody whose subscription was never made or whose '
     'withdrawal was confirmed. Subscribing and unsubscribing at run time, also from within a handler of the very message, '
     'across execution contexts, and by actors that shut down, never disturbs the other subscribers.',
     ['histories', 'schedules', 'programs'],
     'for all histories of subscribe, unsubscribe, publish and actor shutdown over local and foreign addresses, in all interleavings',
     'tests cover a few fixed subscribe/unsubscribe sequences, none with subscribers in several execution contexts under load',
     ['include/rotor/subscription.h', 'src/rotor/subscription.cpp', 'src/rotor/supervisor.cpp', 'src/rotor/plugin/lifetime.cpp',
      'src/rotor/plugin/starter.cpp', 'src/rotor/plugin/foreigners_support.cpp', 'src/rotor/plugin/delivery.cpp',
      'src/rotor/actor_base.cpp'],
     [('subscription map', 'address and message type to handlers', 'include/rotor/subscription.h: mine_handlers'),
      ('subscription points', 'subscriptions an actor holds', 'include/rotor/plugin/lifetime.h: points')],
     [('materialize/forget', 'src/rotor/subscription.cpp'), ('foreign subscription protocol', 'src/rotor/plugin/foreigners_support.cpp'),
      ('commit of unsubscription', 'src/rotor/supervisor.cpp: commit_unsubscription')],
     ['handlers of user messages', 'subscription confirmations'])

prop('C04', 'Actors of one execution context run one at a time, without data races',
     'All handlers, lifecycle callbacks and timer callbacks of the actors in one execution context never run '
     'concurrently, and on a single-threaded loop always on the thread of that loop, whatever other threads post, stop or subscribe '
     'meanwhile. Each sees everything the previous one did, and no library state is accessed by two threads without '
     'synchronisation.',
     ['schedules', 'configurations'],
     'for all interleavings of loops, io threads and foreign senders over all loop kinds and nesting of supervisors',
     'unit tests are single-threaded or have one or two threads with OS-chosen interleavings and no race detection',
     ['src/rotor/asio/supervisor_asio.cpp', 'include/rotor/asio/forwarder.hpp', 'src/rotor/thread/system_context_thread.cpp',
      'src/rotor/ev/supervisor_ev.cpp', 'src/rotor/wx/supervisor_wx.cpp', 'src/rotor/fltk/supervisor_fltk.cpp',
      'include/rotor/supervisor.h', 'include/rotor/arc.hpp', 'include/rotor/address.hpp'],
     [('locality', 'marker of a sequential execution context', 'include/rotor/address.hpp: locality')],
     [('strand', 'include/rotor/asio/supervisor_asio.h: strand'), ('inbound queue hand-over', 'src/rotor/*/supervisor_*.cpp: enqueue'),
      ('foreign handler calls', 'src/rotor/plugin/delivery.cpp: local_delivery_t')],
     ['every callback of every actor', 'every memory access of library code (race detector)'])

prop('C05', 'Every request gets exactly one outcome',
     'For every request an operational actor makes, its response handler is called exactly once: with the reply of that very '
     'request, with the error sent back, or with a timeout that is never earlier than the given one. A reply '
     'which comes after that, or a second reply, is discarded and is never taken for the answer to another request.',
     ['schedules', 'histories', 'fault_sequences'],
     'for all orders of reply, duplicate reply, error, timeout and shutdown of requester or responder, over local and cross-loop requests with message delays, stalls and clock jumps',
     'tests exercise one request at a time with the reply well before or never; races of reply, timeout and duplicates are not reached',
     ['include/rotor/request.hpp', 'include/rotor/supervisor.h', 'src/rotor/supervisor.cpp', 'src/rotor/actor_base.cpp',
      'include/rotor/actor_base.h', 'src/rotor/address_mapping.cpp'],
     [('request map', 'outstanding requests of a locality', 'include/rotor/supervisor.h: request_map'),
      ('active requests', 'outstanding requests of an actor', 'include/rotor/actor_base.h: active_requests')],
     [('request timeout', 'src/rotor/supervisor.cpp: on_request_trigger'), ('reply', 'include/rotor/request.hpp: make_response'),
      ('cancel', 'src/rotor/actor_base.cpp: cancel')],
     ['response handlers', 'request handlers', 'cancellation notifications'])

prop('C06', 'Timers fire exactly once: not early, cancellable, none after shutdown',
     'Every started timer ends in exactly one call of its handler: as expired, not before its interval has passed and within '
     'bounded time afterwards, or as cancelled when the actor cancels it or shuts down. After its cancellation or expiry a '
     'timer is never reported again, and timers of other actors and loops are unaffected.',
     ['schedules', 'histories', 'fault_sequences'],
     'for all histories of starting, cancelling and expiring timers, also from within timer handlers and shutdown, with equal deadlines, stalls and clock jumps, on all loop kinds',
     'tests start one or two timers and wait; expiry racing with cancel, stop or a blocked loop is not reached',
     ['src/rotor/actor_base.cpp', 'include/rotor/timer_handler.hpp', 'src/rotor/thread/system_context_thread.cpp',
      'src/rotor/ev/supervisor_ev.cpp', 'src/rotor/asio/supervisor_asio.cpp', 'src/rotor/wx/supervisor_wx.cpp',
      'src/rotor/fltk/supervisor_fltk.cpp', 'src/rotor/supervisor.cpp'],
     [('timers of an actor', 'not yet finished timers', 'include/rotor/actor_base.h: timers_map'),
      ('loop timers', 'armed timers of the loop', 'include/rotor/*/supervisor_*.h: timers_map')],
     [('start and cancel', 'src/rotor/*/supervisor_*.cpp: do_start_timer, do_cancel_timer'),
      ('expiry', 'src/rotor/actor_base.cpp: on_timer_trigger')],
     ['timer handlers', 'simulated clock'])

prop('C07', 'Actor lifecycle callbacks come in the documented order, each once',
     'Every actor and supervisor passes configuration, initialization, start, shutdown start and shutdown finish in this order '
     'and each at most once; an actor never starts without finished initialization nor after its shutdown has begun, and it '
     'handles no user message after its shutdown has finished. An actor which began to initialize or to '
     'shut down is destroyed only after its shutdown has finished, whenever the shutdown is triggered.',
     ['schedules', 'crash_points', 'histories'],
     'for all points of the lifecycle at which a shutdown or a failure may hit an actor or its supervisor, in all nestings and interleavings',
     'tests trigger shutdown at a few fixed moments; the points between configure, init, start and nested shutdown are not swept',
     ['src/rotor/actor_base.cpp', 'src/rotor/plugin/init_shutdown.cpp', 'src/rotor/plugin/starter.cpp',
      'src/rotor/plugin/child_manager.cpp', 'src/rotor/supervisor.cpp', 'include/rotor/state.h'],
     [('state', 'lifecycle state', 'include/rotor/actor_base.h: state')],
     [('state machine', 'src/rotor/actor_base.cpp: do_initialize, init_finish, shutdown_continue, shutdown_finish')],
     ['every lifecycle callback of every actor', 'handlers of user messages'])

prop('C08', 'A supervisor ends after all its children, and shutdown ends in bounded time',
     'When a supervisor is told to shut down, every child and descendant is shut down before the supervisor itself reports the '
     'end of its shutdown, each of them exactly once, and the whole tree ends within bounded time. '
     'A child which fails to confirm within its timeout is reported to the system context and nothing is left running.',
     ['schedules', 'configurations', 'fault_sequences', 'histories'],
     'for all trees of supervisors and actors, all moments of shutdown including during init, restarts and child creation, with slow, stalled and self-terminating children',
     'tests shut down small healthy trees; the combination with children in transition and with other threads is not reached',
     ['src/rotor/plugin/child_manager.cpp', 'src/rotor/supervisor.cpp', 'src/rotor/detail/child_info.cpp',
      'src/rotor/plugin/init_shutdown.cpp', 'src/rotor/actor_base.cpp'],
     [('children', 'actors under supervision', 'include/rotor/plugin/child_manager.h: actors_map / alive children')],
     [('ask children to stop', 'src/rotor/plugin/child_manager.cpp: handle_shutdown, request_shutdown'),
      ('confirmation', 'src/rotor/plugin/child_manager.cpp: on_shutdown_confirm')],
     ['lifecycle callbacks', 'child shutdown notifications', 'end of the loops'])

prop('C09', 'Failures of children are handled by the configured policy',
     'When a child fails to initialize, a supervisor with the shut-down policy shuts itself and its other children down, and '
     'one with the shut-down-failed policy drops only the failed child and becomes operational with the rest. A child '
     'configured to escalate its failure, or to shut its supervisor down with itself, takes exactly its supervisor with it; '
     'with a synchronized start no child starts before all have initialized.',
     ['configurations', 'fault_sequences', 'schedules'],
     'for all assignments of policies to a tree, all sets of failing children and failure kinds (error, timeout, self-shutdown) and all moments of failure',
     'tests check single failures of one child on a flat tree; combinations and nested propagation are not covered',
     ['src/rotor/plugin/child_manager.cpp', 'src/rotor/supervisor.cpp', 'src/rotor/actor_base.cpp', 'include/rotor/policy.h'],
     [('policy', 'reaction on failed initialization', 'include/rotor/supervisor.h: policy')],
     [('failure reaction', 'src/rotor/plugin/child_manager.cpp: on_init, on_shutdown_confirm'), ('remove child', 'src/rotor/plugin/child_manager.cpp: remove_child')],
     ['lifecycle callbacks', 'child init/shutdown notifications'])

prop('C10', 'A spawner restarts its actor exactly as its policy and limits say',
     'A spawned actor is restarted if and only if its restart policy calls for it given how the last instance ended, never '
     'sooner than the configured pause after the previous start, never more often than the configured limit, and never while '
     'another instance is alive or after the supervisor began to shut down. When restarts are exhausted and failure escalation is configured the '
     'supervisor shuts down; every instance is shut down properly before the next one is made.',
     ['configurations', 'fault_sequences', 'histories', 'schedules'],
     'for all restart policies, limits, pauses, escalation settings and sequences of instance outcomes (constructor failure, init failure, normal end, failure), and supervisor shutdown at any moment',
     'tests run each policy with one or two scripted failures; sequences, timing races and shutdown during the pause are not covered',
     ['src/rotor/spawner.cpp', 'src/rotor/detail/child_info.cpp', 'src/rotor/plugin/child_manager.cpp', 'src/rotor/supervisor.cpp',
      'include/rotor/policy.h'],
     [('child info', 'restart bookkeeping of one spawned actor', 'include/rotor/detail/child_info.h')],
     [('restart decision', 'src/rotor/detail/child_info.cpp: next_restart, can_restart'), ('spawn', 'src/rotor/plugin/child_manager.cpp: on_spawn, on_child_shutdown')],
     ['construction and end of instances', 'simulated clock', 'supervisor lifecycle'])

prop('C11', 'A linked server outlives its clients and a dead server takes its clients along',
     'While a client is linked to a server, the server completes its shutdown only after the client has been notified and has '
     'unlinked or ended; each link attempt ends in exactly one outcome, success only if the server accepted it. A client is '
     'told about the end of its server exactly once and then shuts down unless it chose to survive; no link state outlives either side.',
     ['schedules', 'histories', 'fault_sequences', 'crash_points'],
     'for all graphs of links, also chains and several clients, and all orders of link, unlink, failure and shutdown on both sides over several loops, with delays and stalls',
     'tests link one client and one server in lock-step; simultaneous shutdowns and late confirmations are not reached',
     ['src/rotor/plugin/link_client.cpp', 'src/rotor/plugin/link_server.cpp', 'include/rotor/plugin/link_client.h',
      'include/rotor/plugin/link_server.h', 'src/rotor/actor_base.cpp', 'src/rotor/plugin/starter.cpp'],
     [('servers of a client', 'links by server address', 'include/rotor/plugin/link_client.h: servers_map'),
      ('clients of a server', 'links by client address', 'include/rotor/plugin/link_server.h: linked_clients')],
     [('link protocol', 'src/rotor/plugin/link_client.cpp, src/rotor/plugin/link_server.cpp')],
     ['lifecycle callbacks of both sides', 'unlink notifications', 'link callbacks'])

prop('C12', 'The registry answers consistently and drops services of dead actors',
     'A service name maps to at most one address at a time: a second registration of a taken name fails, discovery answers with the address '
     'currently registered or an error, and a postponed discovery is answered exactly once as soon as the name is registered unless it is cancelled. '
     'Names registered by an actor are withdrawn when it shuts down, and an actor which discovers and links services starts only with all of them.',
     ['histories', 'schedules', 'fault_sequences'],
     'for all histories of registering, discovering, waiting, cancelling, deregistering and shutting down by actors on several loops',
     'tests use one registry, two or three actors and a fixed order; concurrent histories against a reference model are not checked',
     ['src/rotor/registry.cpp', 'src/rotor/plugin/registry.cpp', 'include/rotor/plugin/registry.h', 'include/rotor/registry.h'],
     [('registered services', 'name to address', 'include/rotor/registry.h: registered_map'),
      ('postponed discoveries', 'promises waiting for a name', 'include/rotor/registry.h: promises')],
     [('registry handlers', 'src/rotor/registry.cpp'), ('registry plugin', 'src/rotor/plugin/registry.cpp')],
     ['responses to registration and discovery requests', 'lifecycle callbacks'])

prop('C13', 'Held resources postpone initialization and shutdown until all are released',
     'While an actor holds any resource acquired during initialization it does not finish initialization, and while it holds '
     'any during shutdown it does not finish shutdown; as soon as the last one is released it proceeds, exactly once. A '
     'shutdown requested while resources are held still completes once they are released, a release never completes an initialization '
     'which has failed, and the number of holders per resource is always exact.',
     ['histories', 'schedules', 'crash_points'],
     'for all histories of acquiring and releasing several resources interleaved with init, shutdown, timeouts and failures',
     'tests acquire and release one or two resources in fixed order',
     ['src/rotor/plugin/resources.cpp', 'include/rotor/plugin/resources.h', 'src/rotor/actor_base.cpp'],
     [('resources', 'holders per resource', 'include/rotor/plugin/resources.h: resources')],
     [('acquire, release, handle_init, handle_shutdown', 'src/rotor/plugin/resources.cpp')],
     ['lifecycle callbacks', 'has/acquire/release results'])

prop('C14', 'A message with a follow-up route is forwarded once, after all recipients',
     'A message sent with a follow-up address is first handled by every subscriber of its main address and only then delivered, '
     'as the same object and exactly once, to the follow-up address. This holds whether or not the main address has '
     'subscribers and wherever sender, subscribers and follow-up live.',
     ['schedules', 'configurations', 'histories'],
     'for all placements of sender, subscribers and follow-up address over execution contexts and all interleavings of their handlers',
     'the tests cover a single thread and one fixed set of subscribers',
     ['include/rotor/supervisor.h', 'include/rotor/message.h', 'include/rotor/messages.hpp', 'src/rotor/plugin/delivery.cpp',
      'src/rotor/plugin/foreigners_support.cpp', 'include/rotor/actor_base.h'],
     [('next route', 'follow-up address of a message', 'include/rotor/message.h: next_route')],
     [('forward when no other holder is left', 'include/rotor/supervisor.h: delivery_plugin_t::process')],
     ['handlers of the message'])

prop('C15', 'No leaks and no use after free over any history',
     'When a system has shut down and the user dropped every reference, every actor, supervisor, message, address and other '
     'object the library allocated has been destroyed exactly once. An actor which has shut down and to which nobody refers '
     'is destroyed although the system keeps running, and a system which keeps creating and ending actors (with their links, '
     'names, subscriptions, requests and timers) does not accumulate memory. No object is touched after its destruction, whatever was in flight (messages, requests, timers, discoveries, links, spawns) when the shutdown came.',
     ['histories', 'schedules', 'crash_points'],
     'for all histories mixing every feature and all moments of shutdown, also with messages still queued when loops end',
     'tests check a few destructor counters; leaks with work in flight depend on the moment of shutdown',
     ['include/rotor/arc.hpp', 'src/rotor/supervisor.cpp', 'src/rotor/system_context.cpp', 'src/rotor/actor_base.cpp',
      'include/rotor/message.h', 'src/rotor/plugin/lifetime.cpp'],
     [('reference counts', 'intrusive counters', 'include/rotor/arc.hpp')],
     [('drain of queues', 'src/rotor/supervisor.cpp: destructor'), ('deactivation of plugins', 'src/rotor/plugin/*.cpp: deactivate')],
     ['the simulated heap: every allocation, release and access'])

prop('C16', 'Starting, stopping and posting from foreign threads is safe and effective',
     'Asking a supervisor from any thread to start or to shut down, posting messages to it, or raising its shutdown flag takes '
     'effect at any moment of its life, exactly once and in bounded time (the flag within its polling interval). Repeated and concurrent stop requests lead to '
     'one orderly shutdown, the loop ends afterwards, and later posts are harmless.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'for all interleavings of stop requests, flag changes and posts from several threads with all phases of the supervisor and its loop',
     'tests stop an idle system once; stops during initialization, repeated stops and stops under load from several threads are not covered',
     ['src/rotor/thread/supervisor_thread.cpp', 'src/rotor/ev/supervisor_ev.cpp', 'src/rotor/asio/supervisor_asio.cpp',
      'src/rotor/fltk/supervisor_fltk.cpp', 'src/rotor/wx/supervisor_wx.cpp', 'src/rotor/supervisor.cpp', 'src/rotor/actor_base.cpp'],
     [('shutdown flag', 'externally owned atomic polled by a timer', 'include/rotor/supervisor_config.h: shutdown_flag')],
     [('shutdown trigger', 'src/rotor/*/supervisor_*.cpp: shutdown'), ('flag polling', 'src/rotor/supervisor.cpp: on_shutdown_check_timer')],
     ['lifecycle callbacks', 'end of the loop', 'simulated clock'])

prop('C17', 'Blocking handlers on the thread loop keep timers and messages correct',
     'On the thread loop a handler marked as blocking may take arbitrarily long: afterwards (and for timers started or '
     'cancelled inside it) every timer is still handled exactly once, timers started in it count from the real current time and never fire '
     'early, and no message which arrived meanwhile is lost or reordered. Handlers not marked so are unaffected.',
     ['schedules', 'histories', 'fault_sequences'],
     'for all durations of blocking handlers and all mixtures of timers, cancellations, requests and foreign messages around them',
     'there is one example-like test; expiry of timers during the blocking handler combined with start/cancel inside is not covered',
     ['src/rotor/thread/system_context_thread.cpp', 'src/rotor/thread/supervisor_thread.cpp', 'include/rotor/thread/system_context_thread.h',
      'src/rotor/supervisor.cpp', 'include/rotor/handler.h'],
     [('timer nodes', 'deadlines in order', 'include/rotor/thread/system_context_thread.h: timer_nodes'),
      ('intercepting', 'a blocking handler is running', 'include/rotor/thread/system_context_thread.h: intercepting')],
     [('intercept', 'src/rotor/thread/supervisor_thread.cpp: intercept'), ('time update', 'src/rotor/thread/system_context_thread.cpp: update_time, check')],
     ['timer handlers', 'handlers of user messages', 'simulated clock'])

prop('C18', 'Every shutdown carries its reason, and the chain leads to the root cause',
     'Whenever an actor shuts down, the reason it holds when finished is present, is the first one given, and is not changed afterwards; for '
     'descendants its chain of causes ends at the original cause, and a client which goes down with its server says so. A failed '
     'initialization, start, link or request reports the error that made it fail.',
     ['fault_sequences', 'histories', 'schedules'],
     'for all trees, link graphs and first causes (external stop, self-shutdown with an error, init failure, timeout, link loss) and competing causes',
     'tests compare a few messages for single causes; propagation over levels and competing causes are not covered',
     ['src/rotor/actor_base.cpp', 'src/rotor/extended_error.cpp', 'src/rotor/plugin/child_manager.cpp', 'src/rotor/plugin/link_client.cpp',
      'src/rotor/supervisor.cpp', 'src/rotor/plugin/init_shutdown.cpp'],
     [('shutdown reason', 'why the actor goes down', 'include/rotor/actor_base.h: shutdown_reason')],
     [('assignment and wrapping of reasons', 'src/rotor/actor_base.cpp: assign_shutdown_reason, make_error')],
     ['shutdown reasons in shutdown finish', 'child notifications'])

prop('C19', 'Error texts, message formatting and configuration checks are exact',
     'Error codes and extended errors format to their documented texts, messages are rendered with their real type and fields, '
     'and an actor configuration lacking a mandatory field is rejected. None of it has side effects.',
     ['inputs'],
     'for all error codes, messages and configurations',
     'tests check most texts; the quantifier is over inputs only',
     ['src/rotor/error_code.cpp', 'src/rotor/extended_error.cpp', 'src/rotor/misc/default_stringifier.cpp', 'src/rotor/message_stringifier.cpp',
      'include/rotor/actor_config.h'],
     [], [('formatting', 'src/rotor/misc/default_stringifier.cpp')], ['returned strings'])

for p in P:
    print(json.dumps(p))
