#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the list stays readable). Writes /verif/properties.jsonl."""
import json, os
H = 'include/asyncpp/'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[H+f for f in files], state=[dict(name=n, meaning=m, where=H+w) for n, m, w in state],
            mechanism=[dict(name=n, where=H+w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop('E01', 'Manual-reset events wake every waiter exactly once and lose none',
 'A coroutine awaiting a manual-reset event continues exactly once, and only after the event was set at some moment between the start of the await and its continuation; once a set took effect no coroutine that was waiting stays suspended, and everything done before the set is visible to the coroutines it wakes. Setting reports true exactly when a waiting coroutine was resumed, queries and reset agree with one atomic order of all operations, and waiters resume on the dispatcher they chose, else on the setter\'s fallback, else inside the set call.',
 ['schedules', 'histories', 'programs'], 'every interleaving of set, reset, is_set, is_awaited and awaits from any number of threads and coroutines, any initial state, any mix of dispatchers, including re-awaiting from within a resumption',
 'the tests call set/reset/await sequentially from a single thread with at most two waiters; no interleaving of a set with a suspending coroutine is ever run',
 ['event.h'], [('single_consumer_event::set / awaiter::await_suspend (exchange vs. compare-exchange on one word)', 'event.h'), ('multi_consumer_event::set / awaiter::await_suspend (intrusive stack)', 'event.h')],
 [('m_state', 'unset / set / head of the waiter list', 'event.h')], ['co_await event', 'set()', 'reset()', 'is_set()', 'is_awaited()', 'dispatcher::push'])
prop('E02', 'Auto-reset events hand each signal to a waiter and lose no waiter',
 'Each completed wait on an auto-reset event consumes one signal: either it finds the event set and atomically clears it, or it is released by a later set; a wait never completes without a signal issued since the previous one was consumed. A set that finds waiting coroutines releases all of them exactly once and leaves the event unset, a set that finds none leaves it set, and no coroutine stays suspended across a set that came after it started waiting.',
 ['schedules', 'histories', 'programs'], 'every interleaving of set, reset, queries and awaits over any number of threads and coroutines (one waiter for the single-consumer flavour)',
 'the tests are sequential; the retry paths of the lock-free wait are never taken there',
 ['event.h'], [('single_consumer_auto_reset_event::set', 'event.h'), ('multi_consumer_auto_reset_event::set / awaiter::await_suspend', 'event.h')],
 [('m_state', 'unset / set / head of the waiter list', 'event.h')], ['co_await event', 'set()', 'reset()', 'is_set()', 'is_awaited()'])
prop('E03', 'A latch opens exactly when its count reaches zero',
 'A latch is ready from the moment the decrements add up to its initial count and never before; every coroutine that awaited it, before or after, then continues exactly once and sees everything done before each decrement. A latch constructed with zero is ready immediately.',
 ['schedules', 'inputs', 'programs'], 'any initial count, any split of the decrements over threads and step sizes, any number of waiters, every interleaving',
 'there is no test of the latch at all; the header is only compiled',
 ['latch.h', 'event.h'], [('latch::decrement (fetch_sub decides who sets the event)', 'latch.h')], [('m_count', 'decrements still missing', 'latch.h')], ['decrement()', 'is_ready()', 'co_await latch'])
prop('M01', 'Async mutex: mutual exclusion, FIFO hand-over, no lost waiter',
 'At most one owner holds the mutex at any time; unlocking with coroutines waiting hands ownership directly to the one that has waited longest without the mutex becoming available to others in between, and unlocking with nobody waiting makes it free. Every waiting coroutine eventually gets the lock if every owner releases it, is resumed exactly once, and sees everything the previous owner did; try_lock succeeds exactly when the mutex is free.',
 ['schedules', 'histories', 'programs'], 'every interleaving of lock, try_lock, scoped lock, unlock and is_locked over any number of coroutines and threads, including unlocking inside a resumption',
 'tests lock from one thread with scripted order; contention between a locker and an unlocker never happens',
 ['mutex.h'], [('mutex::lock_awaiter::await_suspend', 'mutex.h'), ('mutex::unlock (waiter batch reversed to FIFO)', 'mutex.h')], [('m_state', 'unlocked / locked / stack of new waiters', 'mutex.h'), ('m_awaiters', 'waiters already ordered', 'mutex.h')], ['co_await lock()', 'co_await lock_scoped()', 'try_lock()', 'unlock()', 'is_locked()'])
prop('M02', 'Lock guards release their mutex exactly once, whoever owns them last',
 'Through any sequence of construction, adoption, locking, unlocking, move construction, move assignment (also onto itself) and destruction, a lock guard that reports holding its mutex is its sole holder, ownership moves with the guard, a guard overwritten or destroyed while holding releases exactly once, and one not holding releases nothing.',
 ['programs', 'histories'], 'every sequence of guard operations over several guards and mutexes',
 'tests cover a handful of straight-line guard usages', ['mutex.h'], [('mutex_lock move/assign/destructor', 'mutex.h')], [('m_locked', 'guard believes to own the mutex', 'mutex.h')], ['mutex_lock', 'mutex::is_locked()'])
prop('C01', 'Channel delivers every written value once, in order, or reports closure',
 'A channel is a rendezvous: each value whose write succeeded is read by exactly one reader, in the order the writes took effect, a write completes only when its value was taken, and waiting readers and writers are served first come first served. After closing no operation stays suspended or waits: pending and later writes report failure, pending and later reads report end; try operations succeed exactly when a counterpart is waiting.',
 ['schedules', 'histories', 'programs'], 'every interleaving of read, write, try_read, try_write, close and is_closed over several readers and writers and dispatchers',
 'tests run fixed sequential scripts on one thread; close racing with a read or write is never exercised',
 ['channel.h'], [('read_awaiter/write_awaiter await_suspend', 'channel.h'), ('channel::close', 'channel.h')], [('m_closed', 'channel was closed', 'channel.h'), ('m_reader_list / m_writer_list', 'suspended readers and writers', 'channel.h')], ['co_await read()', 'co_await write()', 'try_read()', 'try_write()', 'close()'])
prop('Q01', 'Async queue is a bounded FIFO that conserves elements and wakes waiters',
 'Every element accepted is delivered to exactly one pop in the order pushes took effect, the number stored never exceeds the configured bound, suspended pops and pushes are completed first come first served as soon as an element or a slot is available, and none stays suspended while it could complete. Clearing, moving from, or replacing the queue drops or carries the stored elements and waiters exactly as documented: dropped waiters are told they failed, nobody is lost or resumed twice. An element that can not be constructed changes nothing, and elements are destroyed at a point where they can use the queue themselves.',
 ['schedules', 'histories', 'programs', 'configurations'], 'every interleaving of push, pop, try_push, try_pop, emplace, size, empty, clear and move operations, any bound, any mix of dispatchers',
 'tests use scripted single-threaded sequences with one or two waiters',
 ['queue.h'], [('queue::push/pop awaiters', 'queue.h'), ('queue::clear, move assignment', 'queue.h')], [('m_queue', 'stored elements', 'queue.h'), ('waiting pop/push lists', 'suspended coroutines', 'queue.h')], ['co_await pop()', 'co_await push()', 'try_pop()', 'try_push()', 'clear()', 'size()'])
prop('Q02', 'The thread-safe queue is a linearizable FIFO',
 'Every pushed or emplaced element is popped at most once and in insertion order, a pop reports empty only at a moment when the queue was empty, and copying or moving a queue transfers one atomic snapshot; concurrent use never tears, loses or duplicates an element, also when the destructors of elements use the queue themselves.',
 ['schedules', 'histories'], 'every interleaving of push, emplace, pop, copy and move over any number of threads', 'no test exists for this class',
 ['threadsafe_queue.h'], [('one mutex around every operation', 'threadsafe_queue.h')], [('m_queue', 'stored elements', 'threadsafe_queue.h')], ['push()', 'emplace()', 'pop()', 'copy/move'])
prop('P01', 'A promise settles once and every observer sees that outcome exactly once',
 'Of all fulfil and reject attempts on a promise exactly one takes effect and only that one reports success where success is reported; afterwards the outcome never changes. Every registered callback of the matching kind and every awaiting coroutine runs exactly once, each kind in registration order, after settlement and with that outcome, whether registered before, during or after; callbacks of the other kind never run, and once a callback cannot run any more it is released, outside of any lock. Blocking and timed gets return that outcome and give up only if it is still pending at the deadline; an attempt that fails by an exception changes nothing.',
 ['schedules', 'histories', 'programs'], 'every interleaving of fulfil, reject, try variants, callback registration, awaiting, get and timed get, from any number of threads and copies of the promise, including from within callbacks',
 'tests settle and observe from a single thread in fixed order', ['promise.h'], [('promise_state / m_mutex protected settle', 'promise.h'), ('on_settle / then callbacks', 'promise.h')], [('m_value', 'pending / value / exception', 'promise.h')], ['fulfill()', 'reject()', 'try_fulfill()', 'try_reject()', 'then()', 'on_settle()', 'get()', 'try_get()', 'co_await promise'])
prop('P02', 'Promise combinators settle by the documented rule, exactly once',
 'Combining promises yields a promise that settles exactly once: the first-settled combination with the outcome of whichever input settled first, the first-successful combination with the first fulfilled value or a rejection once every input rejected, the all-combination fulfilled once every input has settled, whatever their outcomes. It never settles earlier, and settles for every order and concurrency in which the inputs settle, including inputs that were already settled; whoever observes the result sees what was done before the inputs that decided it settled.',
 ['schedules', 'inputs', 'histories'], 'any number of inputs, every subset of them pre-settled, every settlement order, concurrent settlement, values and exceptions',
 'tests try one or two orders per combinator, single-threaded', ['promise.h'], [('promise_first / promise_first_successful / promise_all', 'promise.h')], [('counters shared by the input callbacks', 'inputs still missing', 'promise.h')], ['promise_first()', 'promise_first_successful()', 'promise_all()'])
prop('T01', 'Thread pool runs each accepted task exactly once on its own workers',
 'Every task a pool accepts runs exactly once, on a worker thread of that pool with that pool as current dispatcher, even if the pool is resized, shrunk to fewer workers or destroyed meanwhile; destruction and shrinking wait for the affected workers and for tasks already accepted, never hang, and a task pushed to a pool without workers is rejected instead of lost. After a resize to n the pool reports and uses n workers.',
 ['schedules', 'histories', 'configurations'], 'every interleaving of push (from outside, from own tasks, from tasks of another pool), resize and destruction, any pool size',
 'tests push counters and check totals after resize on free-running threads; the narrow windows between a push and an exiting worker are not controlled',
 ['thread_pool.h', 'dispatcher.h'], [('thread_pool::push / resize / worker loop and final drain', 'thread_pool.h')], [('per-thread queues', 'tasks accepted and not yet run', 'thread_pool.h'), ('m_target_size / m_valid_size', 'workers that may receive tasks', 'thread_pool.h')], ['push()', 'resize()', 'size()', '~thread_pool()', 'dispatcher::current()'])
prop('T02', 'Timer fires every entry exactly once: on time, cancelled, or at shutdown',
 'Each accepted entry\'s callback runs exactly once, on the timer\'s thread: with success, never before its due time and in due order, or with failure because it was cancelled or the timer shut down. Cancelling an entry that has not yet fired makes it report failure promptly and never success; shutting the timer down completes all remaining entries, work pushed to the timer as a dispatcher runs exactly once, and no combination of these deadlocks or touches freed memory.',
 ['schedules', 'histories', 'fault_sequences'], 'every interleaving of schedule, wait, push, stop requests (before, during and after scheduling and firing, and from callbacks) and destruction, any due times',
 'tests use real sleeps and one timer entry at a time; a stop racing with firing, scheduling or destruction is never run',
 ['timer.h', 'stop_token.h'], [('timer::schedule / cancel callback / timer thread loop / destructor', 'timer.h')], [('scheduled set', 'entries waiting for their due time', 'timer.h'), ('m_pushed', 'work for the timer thread', 'timer.h')], ['schedule()', 'wait()', 'push()', 'request_stop()', '~timer()'])
prop('D01', 'Simple dispatcher and defer: pushed work runs once, in order, until stopped',
 'Work pushed to a simple dispatcher runs in push order, each piece at most once, on the thread running the dispatcher with it as current dispatcher; whatever is pushed before a stop is seen runs unless the loop ends first, a stop always ends the loop, and leaving the loop in any way restores the previous current dispatcher. Deferring moves a coroutine to the target dispatcher exactly once, and not at all without a target.',
 ['schedules', 'histories', 'programs'], 'every interleaving of pushes, stop and the running loop, nested dispatchers, tasks that push, stop or throw, coroutines deferring between dispatchers',
 'no test runs simple_dispatcher; defer is tested on a stub', ['simple_dispatcher.h', 'defer.h', 'dispatcher.h', 'async_main.h'], [('simple_dispatcher::run/stop/push', 'simple_dispatcher.h'), ('defer::await_suspend', 'defer.h'), ('dispatcher::current', 'dispatcher.h')], [('m_queue', 'work not yet run', 'simple_dispatcher.h'), ('m_done', 'stop requested', 'simple_dispatcher.h')], ['push()', 'stop()', 'run()', 'co_await defer{...}', 'dispatcher::current()'])
prop('S01', 'Signals call exactly the connected slots, once each, in order',
 'An emission calls, once each and in connection order, the slots that were connected when it started and are still connected when their turn comes; slots connected during an emission wait for the next one and slots disconnected before their turn are not called. This holds for nested emissions and for slots that connect, disconnect (themselves, others, all) or emit; handles report validity truthfully, removing reports whether it removed something, and moving a signal carries its slots.',
 ['programs', 'histories', 'inputs'], 'every sequence and nesting of connect, disconnect, disconnect-all, emit, move and query operations, from outside and inside slots',
 'tests cover single nesting patterns; removing the same slot twice, removing neighbours while emitting and reconnecting inside emissions are not combined',
 ['signal.h', 'ref.h'], [('signal_base node list, generation counter, remove/free_node', 'signal.h')], [('node list', 'connected slots in order', 'signal.h'), ('counter', 'emission generation', 'signal.h')], ['append()/prepend()', 'remove()', 'operator()', 'signal_handle'])
prop('S02', 'Thread-safe signals stay consistent under concurrent use',
 'With the thread-safe policy any mix of connecting, disconnecting and emitting from several threads behaves as if connects and disconnects took effect one at a time: each emission calls every slot connected throughout it exactly once, never one whose removal finished before the emission began, never the same slot twice, and nothing is called or freed wrongly.',
 ['schedules', 'histories'], 'every interleaving of connect, disconnect and emit over several threads', 'the tests use signals from one thread only',
 ['signal.h', 'ref.h'], [('signal_traits_mt, shared node references', 'signal.h')], [('node list', 'connected slots', 'signal.h')], ['append()/prepend()', 'remove()', 'operator()'])
prop('S03', 'The signal manager routes each event to exactly its own slots',
 'Invoking an event on a signal manager calls exactly the slots registered for that event, under the same rules as a plain signal, and nothing for other or unknown events; registering, removing, shrinking and invoking may be mixed freely, from several threads and from within slots, without losing a registered slot, deadlocking or touching freed memory.',
 ['schedules', 'programs', 'histories'], 'every sequence and interleaving of append, prepend, remove, shrink_to_fit and invoke over several events and threads',
 'no test interleaves shrinking with registration or registers from within a slot', ['signal.h'], [('signal_manager::append/invoke/shrink_to_fit', 'signal.h')], [('event map', 'signal per event', 'signal.h')], ['append()', 'invoke()', 'remove()', 'shrink_to_fit()'])
prop('R01', 'Reference-counted objects live exactly as long as someone holds them',
 'An object managed by counted references stays alive while at least one reference to it exists and is destroyed exactly once as soon as the last one goes, never while a reference is being copied, moved, reset, reassigned (also from itself or from inside the object it releases) or released concurrently elsewhere; everything any holder did is visible to the destruction.',
 ['schedules', 'programs', 'histories'], 'every sequence of reference operations including aliasing ones, and every interleaving of copies and releases over threads',
 'tests never self-assign, never chain through a released object and never release concurrently', ['ref.h'], [('ref copy/move/reset/release', 'ref.h'), ('intrusive_refcount / thread_safe_refcount', 'ref.h')], [('reference count', 'number of owners', 'ref.h')], ['ref', 'use_count', 'object destructor'])
prop('R02', 'Atomic references are linearizable owners',
 'An atomic reference behaves like one atomic variable holding a counted reference: every load, store, exchange, reset and conversion takes effect at one instant, a loaded reference is always alive, and when all references are gone every object ever stored was destroyed exactly once.',
 ['schedules', 'histories'], 'every interleaving of the operations over any number of threads and objects', 'the tests use it from one thread', ['ref.h', 'ptr_tag.h'], [('atomic_ref tagged pointer lock', 'ref.h')], [('m_ptr', 'pointer plus lock tag', 'ref.h')], ['load()', 'store()', 'exchange()', 'reset()', 'release()'])
prop('L01', 'Joining a launch scope waits for every task launched in it',
 'A coroutine joining a launch scope continues exactly once, as soon as and not before every task launched in the scope has finished, and sees everything those tasks did; the scope may be destroyed right after the join. The in-flight count equals launched minus finished tasks, the scope can be reused after a join, and joining an idle scope continues at once.',
 ['schedules', 'histories', 'programs'], 'any number of tasks finishing on any threads in any order relative to launching and joining, several rounds of reuse',
 'tests finish all tasks on one thread with events in a fixed order', ['launch.h'], [('async_launch_scope task counter and continuation hand-over', 'launch.h')], [('m_count', 'tasks in flight', 'launch.h'), ('m_continuation', 'coroutine waiting in join', 'launch.h')], ['launch()', 'invoke()', 'co_await join()', 'inflight_coroutines()', '~async_launch_scope()'])
prop('K01', 'A task runs only when awaited, once, and hands over its result',
 'A task\'s body starts only when the task is awaited, runs once, and its awaiter continues exactly once, after the body ended, with exactly the value or exception the body produced, on the thread the body ended on. A task dropped without being awaited never runs and releases what it captured, one dropped while suspended destroys its local variables and everything it was waiting for exactly once, and moving a task moves this responsibility.',
 ['programs', 'histories', 'inputs'], 'every program of creating, moving, awaiting, nesting and dropping tasks of value, void and throwing kinds, finishing synchronously or on another thread',
 'tests cover single awaits of a few kinds', ['task.h'], [('task promise final awaiter, symmetric transfer', 'task.h')], [('result storage', 'value or exception of the body', 'task.h')], ['co_await task', 'task move/destructor'])
prop('K02', 'Generators yield exactly their sequence, lazily, and clean up',
 'Iterating a generator (of values or references, or one mapped by a function) produces exactly the values its body yields, in order, running the body only as far as demanded, ends when the body ends and raises the body\'s exception at the step where it happened. Destroying or overwriting a generator at any point destroys the body\'s locals exactly once, and moving it carries the position along.',
 ['programs', 'histories', 'inputs'], 'every body shape (values, end, throw at any step) combined with every consumer program of begin, advance, compare, move and early destruction',
 'tests iterate two fixed generators', ['generator.h'], [('generator iterator/promise', 'generator.h')], [('current value', 'last yielded value', 'generator.h')], ['begin()', 'operator++', 'operator*', 'end()'])
prop('K03', 'Async generators yield their sequence across suspensions and threads',
 'Awaiting the steps of an asynchronous generator produces exactly the values its body yields, in order, each step continuing the consumer exactly once after the body reached its next yield, end or exception, even when the body suspends in between and resumes on another thread; an exception appears at the step where it happened and dropping the generator destroys its body once.',
 ['schedules', 'programs', 'histories'], 'every body shape and consumer program, body suspensions completed synchronously or from other threads', 'tests use one or two bodies on one thread', ['async_generator.h'], [('async_generator promise/iterator hand-over', 'async_generator.h')], [('current value', 'last yielded value', 'async_generator.h')], ['co_await begin()', 'co_await ++it', 'operator*'])
prop('K04', 'Detached tasks run once, free themselves, and honour the exception policy',
 'An eager detached task starts at once, a lazy one only when started; its body runs exactly once, its frame is destroyed exactly once after both body and handle are done, on whatever thread comes last, and nothing touches it afterwards. An exception leaving the body goes exactly once to the configured policy: ignored, rethrown, terminating or passed to the handler as documented, and the task still completes.',
 ['schedules', 'programs', 'configurations'], 'eager and lazy tasks, all policies, finishing on another thread while the handle is dropped or copied, launch helpers',
 'tests check a few single-thread cases; the race between finishing and dropping the handle is never run', ['fire_and_forget.h', 'policy.h', 'launch.h'], [('fire_and_forget promise refcount and final suspend', 'fire_and_forget.h'), ('exception_policy', 'policy.h')], [('reference count', 'body plus handles still alive', 'fire_and_forget.h')], ['task start/drop', 'exception handler', 'frame destruction'])
prop('K05', 'A future made from an awaitable yields its outcome exactly once',
 'Turning an awaitable into a future starts it at once and makes the future ready exactly once, with the awaitable\'s value or exception, after the awaitable completed, on whichever thread that happens; a thread blocked in get always wakes and nothing is touched after it.',
 ['schedules', 'programs'], 'awaitables completing immediately or later on any thread, with value, void or exception, racing with the blocked getter', 'only used in tests as a helper with timing left to chance', ['sync_wait.h', 'fire_and_forget.h'], [('as_promise coroutine', 'sync_wait.h')], [], ['as_promise()', 'future::get()'])
prop('F01', 'Fibers suspend and resume at awaits with correct results and hand-over',
 'A fiber runs its function on its own stack from the moment it is awaited, never before; awaiting inside it suspends only the fiber, its awaiter continues exactly once, where and when the function ended, with its result, and values, exceptions of awaited operations, locals, registers and floating point settings survive every suspension, on whatever thread, function or translation unit the fiber continues. A fiber dropped while suspended unwinds its stack once, does not suspend again and does not resume its awaiter; a finished one gives its result again, awaiting one that is awaited already or empty is refused.',
 ['schedules', 'programs', 'histories'], 'every program of nested fibers and awaits (ready, suspending, throwing, resumed inline, while unwinding or from other threads), completion and early destruction',
 'tests run a few single-thread scripts', ['fiber.h'], [('make_fiber_handle resume/destroy callbacks', 'fiber.h'), ('fiber_await', 'fiber.h'), ('fiber_swap_stack', 'fiber.h')], [('suspend_handler / continuation / g_current_fiber', 'what a fiber that stopped waits for and who waits for it', 'fiber.h')], ['co_await fiber', 'fiber_await()', 'fiber destruction'])
prop('X01', 'Stop requests reach every callback exactly once',
 'Of all stop requests on one state exactly one reports success; every callback registered and not deregistered before it runs exactly once, on the requesting thread or, if registered afterwards, at once on the registering thread. Deregistering a callback that runs on another thread waits for it, on its own thread does not, a deregistered callback never runs afterwards, and whether a stop is requested or still possible is reported as by the standard facility.',
 ['schedules', 'programs', 'histories'], 'every interleaving of request_stop, registration, deregistration (also from inside callbacks), copying, moving and dropping sources and tokens', 'no test exercises the polyfill: the default build uses the standard library one', ['stop_token.h'], [('stop_state_t request_stop/register_callback/remove_callback', 'stop_token.h')], [('m_value', 'requested bit, lock bit, source count', 'stop_token.h')], ['request_stop()', 'stop_callback', 'stop_requested()', 'stop_possible()'])
prop('A01', 'Coroutine frames are allocated and freed through the chosen allocator',
 'Every coroutine type that accepts an allocator obtains its frame from exactly the allocator passed (a copy of it), and returns it exactly once to an equal allocator with the same size, however the coroutine ends: finished, failed, dropped before start, dropped while suspended or never created because memory or an argument failed. The frame is aligned like memory from operator new whatever the allocator returns, and no copy of the allocator outlives it.',
 ['programs', 'configurations', 'histories'], 'every coroutine kind, stateful and stateless allocators, every way of ending', 'tests check a counter for one ending per kind', ['detail/promise_allocator_base.h', 'detail/parameter_pack.h'], [('promise_allocator_base operator new/delete', 'detail/promise_allocator_base.h')], [('allocator copy stored with the frame', 'used for freeing', 'detail/promise_allocator_base.h')], ['allocator allocate/deallocate'])
prop('G01', 'Scope guards run their action once, exactly when engaged',
 'A scope guard runs its action exactly once at the moment its scope is left, by whatever path (normally, by return, by exception, by destruction of a suspended coroutine), if and only if it is engaged then; engaging and disengaging take effect immediately, are reported truthfully, never run the action themselves, and guards of one scope run in reverse order of construction.',
 ['programs', 'histories'], 'every nesting of guards, initial engagement, engage/disengage sequence and way of leaving the scope', 'tests check three straight-line situations', ['scope_guard.h'], [('scope_guard destructor', 'scope_guard.h')], [('m_engaged', 'guard engaged', 'scope_guard.h')], ['action invocation', 'is_engaged()'])
prop('N01', 'Tagged pointers round-trip pointer and tag',
 'Packing a pointer and a tag that fits into its alignment bits and unpacking it returns both unchanged, for every pointer and every tag value, and tags that do not fit are rejected.',
 ['inputs'], 'every pointer value of suitable alignment and every tag value', 'tests use a few values', ['ptr_tag.h'], [('ptr_tag/ptr_untag', 'ptr_tag.h')], [], ['ptr_tag()', 'ptr_untag()'])

prop('Y01', 'The async_main entry point runs one coroutine and its dispatcher to the end',
 'The main function of async_main.h starts async_main exactly once, on its own thread with the given arguments and a dispatcher of its own as the current one, runs what is pushed to that dispatcher in order on that thread while async_main is not over, and returns as soon as async_main ended, on whatever thread that was, with exactly its result, or raises exactly its exception, after the local variables of async_main are destroyed.',
 ['schedules', 'programs'], 'every program of async_main moving between threads, pushing work and ending with a value or an exception, in every interleaving with the loop of main', 'no test includes async_main.h', ['async_main.h', 'simple_dispatcher.h'], [('main in async_main.h', 'async_main.h')], [('result', 'value or exception of async_main', 'async_main.h')], ['main()', 'async_main()'])

prop('B01', 'Awaiting does not use up the stack', 
 'A coroutine that waits occupies no stack: a coroutine or fiber that awaits tasks, fibers, async generators, queues, channels, locks or events any number of times, whether what it awaits is ready, runs to its end right away or suspends, needs an amount of stack that depends only on how many coroutines are in the middle of something at that moment, not on how often it has awaited or how long a chain of tasks awaiting each other has become.',
 ['histories', 'programs'], 'loops and chains of any length over any combination of awaited objects', 'tests await a handful of times, which fits into any stack', ['task.h', 'async_generator.h', 'fiber.h', 'queue.h', 'channel.h', 'mutex.h', 'event.h'],
 [('task final_suspend and await_suspend (symmetric transfer)', 'task.h'), ('async_generator yield and advance (symmetric transfer)', 'async_generator.h'), ('resuming a fiber and the coroutine it awaits', 'fiber.h')], [('native stack', 'activations of coroutines', 'task.h')], ['co_await task', 'co_await generator', 'fiber_await()', 'co_await pop()/push()/read()/write()/lock()/event'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
