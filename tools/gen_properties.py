#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the statements are reviewable in one place)."""
import json, os
S='xtra/src/'
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f if not f.startswith('/') else f[1:] for f in files],
        state=[dict(name=n,meaning=m,where=S+w) for n,m,w in state],
        mechanism=[dict(name=n,where=(S+w if not w.startswith('/') else w[1:])) for n,w in mech],
        observe_at=list(observe),hook_needed=hook))
    assert len(title)<=80,(id,len(title))
    return d
HOOK="cfg(xtra_mc): std::sync in the crate is routed to an instrumented copy so that every lock, atomic and refcount operation is a scheduling point"
props=[
P('C01','Exactly-once delivery of a message to one actor',
  "A message sent to an address (not broadcast) is handled at most once and by only one of the actors on that address. If its send was accepted and at least one actor on the address keeps receiving, it is handled exactly once; it is never silently lost or duplicated, whatever the number of senders, actors, capacities, priorities and interleavings.",
  ['schedules','histories','configurations'],
  "every interleaving of concurrent senders, receivers, cancellations and drops; every history of mailbox operations; bounded and unbounded mailboxes; one or several actors per address",
  "The tests send a handful of messages on one thread to one or two actors; they never interleave an accept with a receive, a requeue or a stop, and never check a message count with two competing receivers.",
  ['chan.rs','chan/waiting_receiver.rs','chan/waiting_sender.rs','recv_future.rs','envelope.rs'],
  [('enqueue or hand to a waiting receiver under the channel lock','chan.rs: Chan::try_send_to_one, Inner::try_fulfill_receiver'),('dequeue under the channel lock','chan.rs: Chan::try_recv, Inner::pop_unicast')],
  [('unicast_queue','accepted messages not yet received','chan.rs'),('waiting_receivers_handles','idle receivers, oldest first','chan.rs')],
  ['Handler::handle invocations','result of the send future'],HOOK),
P('C02','Cancelling a pending receive never loses anything',
  "Dropping a future obtained from a mailbox's receive operation at any moment - before its first poll, while it waits, or after it was woken but before it was polled again, and concurrently with sends - never loses a message, a broadcast or a stop notification. Whatever had been assigned to the dropped receive is delivered to another receiver of the same address (a broadcast: to the next receive on the same mailbox), and a receiver that is already idle is woken for it.",
  ['schedules','histories'],
  "every point of a receive's life and every interleaving with concurrent senders, other receivers and address drops at which the receive can be dropped",
  "No existing test drops a receive future that has been assigned a message, and none races a drop with a send.",
  ['recv_future.rs','chan/waiting_receiver.rs','chan.rs'],
  [('requeue on drop','recv_future.rs: Drop for Waiting; chan.rs: Chan::requeue_message')],
  [('Waiting','a receive that was registered as idle','recv_future.rs')],
  ['Mailbox::next futures','messages returned by later receives'],HOOK),
P('C03','The outcome of a send tells the truth',
  "A send resolves to Ok only after the handler invocation for exactly that message completed, with exactly the value that invocation returned. It resolves to Disconnected only if the message was not accepted and is never handled, and to Interrupted only if the message was accepted but its handler never ran to completion and never will.",
  ['schedules','histories','fault_sequences'],
  "every interleaving of sends, handling, stops and drops; messages discarded before being dispatched; handlers dropped half-way; several concurrent sends with distinct return values",
  "The tests check single sends with one outcome each; the cross product of outcome and the moment at which the actor stops, the message is discarded or the handler is dropped is not covered, and neither are mixed-up replies of concurrent sends.",
  ['send_future.rs','envelope.rs','chan.rs','dispatch_future.rs'],
  [('reply channel inside the envelope','envelope.rs: ReturningEnvelope'),('error mapping','send_future.rs: Sending::poll, Receiver::poll')],
  [],['output of SendFuture and Receiver','Handler::handle invocations'],HOOK),
P('C04','No lost wake-ups: a task that can proceed is woken',
  "Whenever no task is runnable, none of the tasks waiting on the library could make progress: an idle actor has nothing to receive, a waiting sender finds its mailbox still full, a sender waiting for a reply has its message still queued or being handled, a waiter on disconnection sees a connected address. Every wait that becomes satisfiable wakes the waker of the most recent poll, and a receive reports itself as terminated exactly from its completion on.",
  ['schedules','histories','configurations'],
  "every interleaving of the library's internal steps for small sets of tasks that send, broadcast, receive, cancel, join and drop handles, and every poll order and waker change",
  "A lost wake-up needs one particular interleaving between registering a waiter and the event it waits for; tests on a runtime hit one interleaving and would only hang.",
  ['chan.rs','chan/waiting_receiver.rs','chan/waiting_sender.rs','send_future.rs','recv_future.rs','address.rs'],
  [('registration of waiters under the lock that guards the condition','chan.rs: try_recv, try_send_to_one, try_send_to_all'),('wake on drop of the waiter handle','chan/waiting_sender.rs: Drop for Handle'),('listener created before the connectivity check','chan.rs: disconnect_listener')],
  [('waiting_send_to_one / waiting_send_to_all','senders waiting for room','chan.rs')],
  ['wakers registered by polls','readiness on a later poll'],HOOK),
P('C05','Higher priority first, at most one exception',
  "A receive that starts while messages are already queued takes one of the highest priority among the queued messages and the broadcasts pending for that mailbox, for every 32-bit priority value (the one set last, if a send is given several before it is first polled; trying to change it later panics). A receive that was already idle when work arrived may return what it was woken for, so at most one lower-priority message per receiver is handled before piled-up higher-priority ones.",
  ['histories','inputs','schedules'],
  "all sequences of sends and broadcasts with arbitrary priorities interleaved with receives, cancelled receives, and several mailboxes; all pairs of boundary priority values",
  "One fixed list of eight messages with small priorities is checked; boundary values, interleaved receives, several mailboxes and woken receivers are not.",
  ['chan.rs','chan/priority.rs','send_future.rs','envelope.rs'],
  [('priority queues','chan.rs: Inner::unicast_queue, BroadcastQueue'),('choice between the two queues','chan.rs: Chan::try_recv'),('priority order','chan/priority.rs: ByPriority, Priority')],
  [],['order in which messages are returned by receives'],None),
P('C06','Default-priority messages are handled in send order',
  "Messages sent with default priority to an address are received in the order in which their sends were first polled, regardless of how many are queued, of messages with other priorities in between, of broadcasts, and of how many of them had to wait for room in a bounded mailbox. Likewise for broadcasts of default priority in each mailbox. The only exception is a message that went back into the mailbox because the receive it had been assigned to was dropped.",
  ['histories','configurations'],
  "all sequences of sends and receives up to the bound, every capacity, one or more receivers, plus long fill-and-drain runs",
  "The documentation promises send order as the special property of the default mailbox, but no test ever queues three equal-priority messages and looks at their order.",
  ['chan.rs','chan/priority.rs'],
  [('unicast queue order','chan.rs: Inner::unicast_queue; chan/priority.rs'),('admission order of waiting senders','chan.rs: find_remove_highest_priority')],
  [],['order in which messages are returned by receives'],None),
P('C07','Backpressure: capacity is neither exceeded nor wasted',
  "With capacity n >= 1, a send is accepted on its first poll exactly when fewer than n messages are queued or a receiver is idle; otherwise it stays pending until a receive makes room, and apart from messages put back by a dropped receive never more than n messages are queued. An unbounded mailbox accepts every send on its first poll, and messages and broadcasts are counted against the capacity separately.",
  ['histories','configurations','schedules'],
  "every capacity in a boundary set, every sequence and interleaving of sends, broadcasts, receives, cancellations of either, and mailbox clones",
  "Tests use capacities 1 and 2 with at most three messages and never combine waiting senders with idle receivers, cancellations or mixed unicast and broadcast load.",
  ['chan.rs','send_future.rs','mailbox.rs'],
  [('fullness checks','chan.rs: Inner::is_unicast_full, is_broadcast_full'),('refill from waiting senders on receive','chan.rs: Inner::pop_unicast')],
  [('capacity','limit per kind of message','chan.rs')],['readiness of SendFuture polls','Address::len'],HOOK),
P('C08','Waiting senders are admitted by priority, then in arrival order',
  "Each time a receive frees a slot in a full bounded mailbox, exactly one waiting sender - if there is one that has not been dropped - is admitted and woken: one with the highest priority, and among waiting senders of default priority the one that has waited longest. Messages and broadcasts have separate waiting lines, and dropped waiting senders neither take a slot nor block one.",
  ['histories','configurations'],
  "every arrangement of waiting senders' priorities, of cancellations among them, of capacities, and of receives on one or more mailboxes",
  "The single test has two waiting senders with different priorities; equal priorities, cancellations and three or more waiters are never tried.",
  ['chan.rs','chan/waiting_sender.rs'],
  [('selection of the next waiting sender','chan.rs: find_remove_highest_priority'),('admission','chan.rs: try_take_waiting_unicast_message, try_take_waiting_broadcast_message')],
  [],['wake-ups and readiness of pending send futures'],None),
P('C09','A broadcast reaches every mailbox exactly once',
  "A broadcast is received exactly once by each mailbox on the address that exists when the broadcast is accepted (and that keeps receiving), and never by mailboxes created later. This holds whether mailboxes are idle, busy or lagging, and for broadcasts admitted after having waited for room.",
  ['schedules','histories','configurations'],
  "every interleaving of broadcasts with receives, with mailbox creation and drop, with cancelled receives and with unicast load; one to three mailboxes",
  "Tests never check the multiset of broadcasts each of several actors handled, and never interleave a broadcast with mailbox cloning, dropping or a cancelled receive.",
  ['chan.rs','mailbox.rs','recv_future.rs','chan/waiting_receiver.rs'],
  [('fan-out under the channel lock','chan.rs: Inner::send_broadcast'),('per-mailbox queue','mailbox.rs: Mailbox::clone, chan.rs: new_broadcast_mailbox')],
  [('broadcast_queues','weak list of per-mailbox queues','chan.rs')],['Handler::handle invocations per actor'],HOOK),
P('C10','Broadcast backpressure follows the slowest existing mailbox',
  "With capacity n >= 1 a broadcast is accepted on its first poll exactly when every existing mailbox has fewer than n unreceived broadcasts, and otherwise waits until that is so. Mailboxes that no longer exist do not count.",
  ['histories','configurations'],
  "every sequence of broadcasts, receives, mailbox clones and drops over up to three mailboxes, for several capacities",
  "Tests cover two fixed scripts with two mailboxes; a lagging mailbox that goes away, a mailbox created late, and stop requests counted as broadcasts are never tried.",
  ['chan.rs','mailbox.rs'],
  [('tail bookkeeping','chan.rs: Inner::longest_broadcast_queue, pop_broadcast, send_broadcast')],
  [('broadcast_tail','cached length of the longest broadcast queue','chan.rs')],['readiness of broadcast futures','Address::len'],None),
P('C11','Strong addresses, and only they, keep an actor running',
  "While a strong address to it exists, in any form (plain, convertible, message channel, or inside an unpolled send), an actor is not stopped for lack of addresses; weak handles never count. Once the last strong one is gone the actor still receives everything already accepted and then stops, and an idle actor is woken to do so.",
  ['histories','schedules'],
  "every sequence of clone, downgrade, upgrade, convert and drop over up to four handles of all kinds with messages in flight, and every interleaving of the last drop with a receive",
  "Tests drop one address once; conversions through the convertible kind and message channels, concurrent drops, and drops racing a receive that is going idle are not exercised.",
  ['chan/ptr.rs','chan.rs','address.rs','message_channel.rs'],
  [('reference counting policies','chan/ptr.rs: private::RefCounter'),('shutdown on last drop','chan.rs: on_sender_dropped, shutdown_waiting_receivers')],
  [('sender_count','number of strong handles','chan.rs')],['stop notification returned by receives','completion of run'],HOOK),
P('C12','Upgrading a weak address never resurrects an actor',
  "Upgrading a weak address succeeds exactly if a strong address exists at some moment during the call, and the result then keeps the actor running like any strong address. Once no strong address exists, no upgrade ever succeeds again and the address stays disconnected.",
  ['schedules','histories'],
  "every interleaving of upgrades with drops and clones of the last strong addresses, and every sequence of handle conversions",
  "try_upgrade is used by no test; the race with the last drop is invisible to any sequential test.",
  ['chan/ptr.rs','address.rs'],
  [('compare-exchange loop that refuses zero','chan/ptr.rs: TxStrong::try_new')],
  [('sender_count','number of strong handles','chan.rs')],['WeakAddress::try_upgrade','is_connected'],HOOK),
P('C13','stop_self stops only the calling actor',
  "After a handler calls stop_self, that actor finishes the current message, handles no further message, and is stopped; its sender still gets its reply. All other actors on the address keep running, and every message not yet received stays available to them. If the request is handled by a select or join that a handler runs on its context's mailbox, that loop ends, and the actor stops once that handler is done.",
  ['schedules','histories'],
  "every placement of the stop request among other messages and broadcasts, one to three actors, every poll order",
  "Tests use real time sleeps with two actors and no other traffic; messages queued behind the stop request are not counted.",
  ['context.rs','envelope.rs','lib.rs'],
  [('running flag turned into control flow','envelope.rs: handle; lib.rs: run')],
  [],['Handler::handle and Actor::stopped invocations'],HOOK),
P('C14','stop_all stops every actor as its next action',
  "After stop_all, each actor running its event loop on the address stops after the message it is handling or has already been given, ahead of everything queued whatever the priority, and without waiting for room in full mailboxes. Idle actors are woken for it; if no strong address exists it changes nothing.",
  ['schedules','histories','configurations'],
  "every interleaving of stop_all with sends, broadcasts and receives of one to three actors, all capacities and priorities up to the maximum",
  "One test with two sequentially polled actors; full mailboxes, maximum priorities, idle and lagging actors, and concurrent traffic are not covered.",
  ['context.rs','chan.rs','chan/priority.rs','envelope.rs'],
  [('shutdown broadcast with a priority above all','chan.rs: shutdown_all_receivers; chan/priority.rs: Priority::Shutdown')],
  [],['Handler::handle and Actor::stopped invocations'],HOOK),
P('C15','Disconnection is prompt, final and leaves nobody hanging',
  "Once the last mailbox of an address is gone, every send or broadcast waiting for room ends with Disconnected, every accepted but unhandled message is dropped and its sender gets Interrupted, and every later or concurrent send ends with an error instead of waiting forever. From then on the address reports disconnected for good.",
  ['schedules','histories'],
  "every interleaving of the last mailbox's drop (actor stop) with sends, broadcasts, waiting senders, joins, and handle drops; every sequence of operations after it",
  "The outcome depends on the order of the connectivity check, the channel lock and the cleanup; sequential tests only see the all-before and all-after orders.",
  ['chan.rs','send_future.rs','chan/waiting_sender.rs','mailbox.rs'],
  [('cleanup on last receiver drop','chan.rs: on_receiver_dropped, shutdown_waiting_senders'),('connectivity check on send','chan.rs: try_send_to_one, try_send_to_all')],
  [('receiver_count','number of receiving handles','chan.rs')],['outputs of pending and new sends','is_connected'],HOOK),
P('C16','Waiting for an actor to stop is exact',
  "A join future, or a task scoped to an address, completes if and only if the address is or becomes disconnected because no mailbox exists any more (or was already disconnected when it was created); it never completes while actors are running and never misses the moment. A scoped task yields the inner result if the inner future finishes first and stops being polled once the actor is gone.",
  ['schedules','histories'],
  "every interleaving of creating, polling and dropping join futures with the stop of the last actor; several joiners; every order of inner completion and stop",
  "Tests create a join before or after a stop in one thread; registration racing the stop and several listeners being dropped are not covered.",
  ['address.rs','scoped_task.rs','chan.rs'],
  [('listener registered before the check','chan.rs: disconnect_listener'),('notification on last receiver drop','chan.rs: shutdown_waiting_senders'),('scoped polling order','scoped_task.rs')],
  [('on_shutdown','event that wakes joiners','chan.rs')],['readiness of ActorJoinHandle and ScopedTask'],HOOK),
P('C17','Event loop protocol of an actor',
  "Running an actor calls its start hook exactly once and first; if that fails nothing is handled and its value is returned; otherwise messages are handled strictly one after the other, and after the last one the stop hook is called exactly once and its value returned. The mailbox counts as existing until that value is returned or the event loop is dropped, whichever point it is dropped at. The helpers that spawn an actor onto a runtime do exactly this: the actor they start is kept alive and ended by its addresses and stop requests alone.",
  ['histories','schedules','fault_sequences'],
  "every poll order and every suspension point of start hook, handlers and stop hook; failure of the start hook; the event loop dropped at any suspension point",
  "Tests never suspend hooks, never fail the start hook, and never drop a running event loop at a chosen point.",
  ['lib.rs','dispatch_future.rs','context.rs','spawn.rs'],
  [('run loop','lib.rs: run, yield_once'),('dispatch state machine','dispatch_future.rs'),('spawn helpers','spawn.rs')],
  [],['order of started, handle, stopped invocations','is_connected'],None),
P('C18','Running a future alongside an actor neither loses nor reorders work',
  "select returns the future's output if it completes and otherwise gives the future back exactly when the actor was stopped first; join always runs the future to completion and stops handling messages once the actor was stopped. While they run every accepted message is handled exactly once and in order, and none is lost when they end. All of this also holds when they are used inside a handler, as an event loop of its own.",
  ['schedules','histories'],
  "every order of future progress, message arrival, stop requests and polls",
  "Doc examples show one order each; the moment where the future and a message become ready together is not covered.",
  ['lib.rs','recv_future.rs'],
  [('final poll of the pending receive','lib.rs: select'),('pinning and continuation','lib.rs: join')],
  [],['outputs of select and join','Handler::handle invocations'],HOOK),
P('C19','A message channel behaves exactly like the address behind it',
  "For every operation a message channel offers - send with priority and detach, capacity, length, connectivity, join, clone, downgrade, conversion, comparison, debug counts - its observable behaviour and its effect on the actor's lifetime equal those of the address it was made from.",
  ['histories','programs'],
  "every sequence of operations executed in lock-step through a channel and through an address of the same strength",
  "A few operations are tested on a fresh channel each; strengths, conversions and lifetime effects of channels are not compared with addresses.",
  ['message_channel.rs','send_future.rs','address.rs'],
  [('delegation to the address','message_channel.rs: MessageChannelTrait for Address')],
  [],['all MessageChannel methods'],None),
P('C20','Comparison, ordering and hashing of handles are consistent',
  "Two handles compare equal exactly if they refer to the same actor and have the same strength; equal handles hash equally; the total order agrees with equality and with the partial order, and ranks the strong handle of an actor above its weak one. same_actor ignores the strength.",
  ['inputs','configurations'],
  "all pairs and triples of handles of all kinds to the same and to different actors, however they were derived",
  "Only strong and weak plain addresses are compared; the convertible kind, the total order and hashes are never checked against equality.",
  ['address.rs','message_channel.rs','chan/ptr.rs'],
  [('trait implementations','address.rs: PartialEq, PartialOrd, Ord, Hash; message_channel.rs: PartialEq, Hash')],
  [],['==, cmp, partial_cmp, hash, same_actor'],None),
P('C21','Length, emptiness, connectivity and counts are exact',
  "After every operation the length an address reports equals the number of queued messages plus the largest number of unreceived broadcasts of any existing mailbox, emptiness agrees with it, the capacity is the one given at creation, and the address is connected exactly if a strong address and a mailbox exist. The debug counts equal the number of strong handles and of receiving handles.",
  ['histories','configurations'],
  "every sequence of operations on addresses, mailboxes, sends, broadcasts and receives up to the bound",
  "len is asserted nowhere in the tests, is_connected in a few end states only.",
  ['address.rs','chan.rs','mailbox.rs'],
  [('len and is_connected','chan.rs: Chan::len, Chan::is_connected, Chan::capacity')],
  [],['Address::len, is_empty, capacity, is_connected, Debug'],None),
P('C22','User code run by the library cannot deadlock or poison it',
  "Messages, return values and actors may own addresses, mailboxes, pending sends or receives of the same actor and use them when they are dropped; whenever the library drops them, the operation in progress completes - no deadlock, no panic, no poisoned mailbox - and the effects of the nested operation are those it would have had on its own. With the feature instrumentation, the tracing subscriber may likewise use addresses of the actor whenever the library creates, enters, exits, clones or closes a span: the mailbox is never locked then.",
  ['histories','schedules','fault_sequences'],
  "every operation of the library that can drop user values, combined with every kind of handle such a value can own",
  "No test puts an address into a message, let alone drops such a message from inside the mailbox.",
  ['chan.rs','chan/waiting_sender.rs','chan/ptr.rs','recv_future.rs'],
  [('values are dropped outside the channel lock','chan.rs: shutdown_waiting_senders, requeue_message')],
  [('chan','the channel lock','chan.rs')],['termination of every operation'],HOOK),
P('C23','Dropping a send before it is accepted undoes it, after has no effect',
  "Dropping a send or broadcast future that is unpolled or still waiting for room guarantees the message is never handled, releases the message at once, and leaves no trace in the mailbox (no slot taken, no count changed). Dropping it after acceptance - even if it has not been polled since - or dropping the detached reply does not withdraw the message.",
  ['schedules','histories'],
  "every point of a send's life and every interleaving with receives that admit it at the same time",
  "The tests drop pending sends only to observe that they were pending.",
  ['send_future.rs','chan/waiting_sender.rs','chan.rs'],
  [('message owned by the waiting future','chan/waiting_sender.rs: WaitingSender, Handle'),('inactive handles skipped','chan.rs: find_remove_highest_priority')],
  [],['Handler::handle invocations','drops of the message value'],HOOK),
P('C24','An interrupted or panicking handler affects only its own message',
  "If a received message is discarded, or its handling is dropped half-way or panics, its own sender gets Interrupted and the message and handler state are dropped once. The mailbox, all other messages and all other actors are unaffected, and the same mailbox can go on receiving.",
  ['fault_sequences','histories'],
  "every suspension point at which a dispatch can be dropped, every position of a panicking handler in the message sequence, with other messages queued, waiting and in other actors",
  "One test interrupts one handler by a timeout; panics, discarded messages and other traffic are not covered.",
  ['dispatch_future.rs','envelope.rs','recv_future.rs','chan.rs'],
  [('reply sender dropped with the envelope','envelope.rs: ReturningEnvelope::handle'),('dispatch state machine','dispatch_future.rs')],
  [],['output of the sender','later receives on the same mailbox'],None),
P('C25','A sink feeds the actor in order, one item at a time',
  "Items fed into a sink made from an address or message channel are handled exactly once and in the order they were fed, the next item being accepted only after the previous one was handled; flush and close complete only when everything fed has been handled. When the actor is gone the sink reports an error instead of hanging, and the sink's handle counts as an address of the same strength.",
  ['histories','schedules'],
  "every interleaving of sink calls, receives, stops and capacities up to the bound",
  "The sink feature has an example but no test.",
  ['address.rs','message_channel.rs','send_future.rs'],
  [('unfold over send','address.rs: into_sink; message_channel.rs: into_sink')],
  [],['Sink::poll_ready, start_send, poll_flush, poll_close'],None),
P('C26','Handlers run inside a span descending from the sender\'s span',
  "With instrumentation enabled, every handler invocation runs, at each of its polls, inside a handler span whose parent is the message's request span, which in turn is a child of the span that was current when the send was first polled. This holds for every path a message can take (queued, handed over, waited for room, put back, broadcast), the span that a dispatch future reports, even before its first poll, is that handler span, and no span stays entered or open after its message is finished.",
  ['histories','configurations'],
  "every delivery path, message kind and filter level, with the sender, receiver and dispatcher running in different spans",
  "Two tests cover a directly handed-over message at two filter levels.",
  ['instrumentation/tracing.rs','envelope.rs','dispatch_future.rs','chan.rs'],
  [('span creation on acceptance','envelope.rs: start_span; instrumentation/tracing.rs'),('span around polls','dispatch_future.rs: poll')],
  [],['spans recorded by a subscriber'],None),
P('C27','Nothing is leaked and nothing is dropped twice',
  "Every message, broadcast copy, return value and actor is dropped exactly once, and all of them as well as every registered waker have been released once all addresses, mailboxes and futures of an actor are gone, in whatever order these were dropped (unless such a value itself owns a handle that keeps it reachable). A message that can no longer be handled because the last mailbox is gone is released at that moment.",
  ['histories','schedules'],
  "every order of dropping handles and futures in every reachable small state, and every interleaving of concurrent drops",
  "The tests never count drops.",
  ['chan.rs','chan/ptr.rs','chan/waiting_sender.rs','chan/waiting_receiver.rs','envelope.rs','mailbox.rs'],
  [('weak back references','chan.rs: broadcast_queues; chan/waiting_sender.rs: Handle'),('cleanup on disconnect','chan.rs: shutdown_waiting_senders')],
  [],['drop counts of user values, reference counts of wakers'],HOOK),
P('C28','The derive macro produces a valid actor for every supported type',
  "For every struct or enum with any combination of type and const parameters, bounds, defaults and where clauses (no lifetimes), and whatever other names are in scope (as long as xtra names this crate), the derived implementation compiles whenever the hand-written equivalent does, and the actor behaves as one with an empty stop hook.",
  ['programs'],
  "all item shapes, generic parameter lists and where clauses up to the bound",
  "Two UI files cover one plain and a few generic shapes.",
  ['/macros/src/lib.rs'],
  [('derive','/macros/src/lib.rs: actor_derive, send_and_static_bounds')],
  [],['compilation of generated programs'],None),
P('C29','Memory use follows what is outstanding, not history',
  "The memory an actor's mailbox uses is bounded by what exists and is outstanding at the moment (handles, mailboxes, queued messages, waiting sends, receives and joins). However often messages are sent, received, cancelled or discarded and mailboxes, addresses, channels, sinks, joins and event loops are created and dropped, it does not grow further as long as the same remains outstanding - also if nothing is ever received because the actor is stuck, or nothing is ever broadcast.",
  ['histories'],
  "every cycle of actions that leaves as much outstanding as before, in every environment (capacity, what stays outstanding), repeated until growth would show",
  "No test looks at memory, and in a single test run a few forgotten entries do not matter.",
  ['chan.rs','chan/waiting_sender.rs','chan/waiting_receiver.rs','mailbox.rs','recv_future.rs','send_future.rs'],
  [('references to queues of mailboxes','chan.rs: broadcast_queues, new_broadcast_mailbox, send_broadcast'),('references to waiting sends','chan.rs: push_active, find_remove_highest_priority'),('references to idle receives','chan.rs: cancel_receiver')],
  [],['live bytes of the allocator'],None),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
print(len(props))
