#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SYNC = "src/sync.rs: with --cfg futures_signals_hooks every lock/atomic operation is reported, so that a scheduler decides the interleaving"
MUT = "src/signal/mutable.rs"; CH = "src/signal/channel.rs"; BR = "src/signal/broadcaster.rs"; SG = "src/signal/signal.rs"; SV = "src/signal_vec.rs"; SM = "src/signal_map.rs"; FU = "src/future.rs"; AT = "src/atomic.rs"; MC = "src/signal/macros.rs"; IN = "src/internal.rs"

prop("C01", "Every signal of a Mutable ends up with its latest value (no lost wakeup)",
 "However the writers of a Mutable and the tasks consuming its signals interleave across threads, once the writers stop every live signal's task is woken and observes the value the Mutable ended with; it never stays asleep holding an older value, whichever waker it passed to its most recent poll.",
 ["schedules", "histories"], "all interleavings of any number of writers (set, replace, replace_with, set_if, set_neq, swap, lock_mut) on any clones with any number of signals created at any time, polled spuriously and with changing wakers",
 "The tests poll from one thread with hand-placed polls; no test has a writer running between the steps of a poll.",
 [MUT], [("dirty flag plus stored waker, rechecked around parking", f"{MUT}: MutableSignalState::poll_change, ChangedWaker"), ("notify all listeners on each write", f"{MUT}: MutableLockState::notify")],
 [("changed flag and stored waker of each signal", "whether there is an unread change and whom to wake", f"{MUT}: ChangedWaker")], ["values returned by polling the signals", "calls of the waker given to the latest poll"], SYNC)

prop("C02", "Mutable signals end exactly when the last handle is gone, after the last value",
 "When the last clone of a Mutable has been dropped, in whatever thread and however this interleaves with writes and polls, each of its signals first delivers the last value ever written if it has not done so and then ends, and its task is woken for that. While any clone is alive no signal ends; read-only handles and signals neither keep the signals open nor end them.",
 ["schedules", "histories"], "all interleavings of clone, drop, write, signal creation (also from read-only handles, also after the last drop) and poll",
 "The tests drop one handle on one thread; they cannot place the drop between a writer's notification and the steps of another thread's poll.",
 [MUT], [("count of live handles, checked together with the dirty flag", f"{MUT}: MutableSignalState::poll_change"), ("last drop notifies the listeners", f"{MUT}: Drop for Mutable")],
 [("number of live Mutable handles", "zero means that no further change is possible", f"{MUT}: MutableState.senders")], ["end of stream of each signal, with the value before it"], SYNC)

prop("C03", "Mutable is linearizable: operations and signal reads agree on one order",
 "The results of all concurrent operations on the clones of a Mutable (get, set, replace, replace_with, swap, set_if, set_neq, lock_ref, lock_mut), together with every value delivered by its signals, are explained by one total order of atomic operations that respects real time. In particular no update is lost, each replaced value is returned exactly once, swap exchanges both values atomically, and a signal never delivers an invented value or goes back to an older one.",
 ["schedules", "histories"], "all concurrent histories over one or two Mutables, including swaps in both directions and of a Mutable with itself",
 "Linearizability quantifies over concurrent histories; the tests contain only sequential calls.",
 [MUT], [("one reader-writer lock around value and listener list", f"{MUT}: MutableState.lock"), ("read-modify-write operations hold the write lock throughout", f"{MUT}: replace_with, set_if, swap, MutableLockMut")],
 None, ["call and return of every operation, values delivered by signals"], SYNC)

prop("C04", "Mutable notifies all its signals on each change, and never when nothing changed",
 "For every sequence of operations on a Mutable, each change is delivered to all of its existing signals, of every kind and however many there are, even when others were dropped in between. An operation that changes nothing (a lock that is never mutably dereferenced, a rejected conditional set, setting an equal value with the not-equal variant, reading) neither wakes a task nor makes a signal deliver, and the sequential results of all operations match a plain variable.",
 ["histories", "inputs"], "all sequences of operations by all handles with any set of signals (copied, cloned, by reference; from writable or read-only handles), created and dropped anywhere in the sequence",
 "A few fixed sequences with one or two signals are tested (the source has a TODO asking for more).",
 [MUT], [("mutated flag of the write guard", f"{MUT}: MutableLockMut"), ("conditional notification", f"{MUT}: set_if, set_neq"), ("listener list pruned while notifying", f"{MUT}: MutableLockState::notify")],
 None, ["return values, wake counts, delivered values"], None)

prop("C05", "The channel's receiver ends up with the most recently sent value",
 "Whatever the interleaving of senders and the receiver, when sending stops the receiver's task has been woken and has received the initial value or a later one, ending with a most recent successfully sent value; each received value was sent, is received at most once, and is never older than one received before it. Values which are replaced before they are received, or never received, are dropped exactly once.",
 ["schedules", "histories"], "all interleavings of sends from any number of cloned senders with polls using any wakers",
 "The tests send and poll on one thread; the window between looking at the value and storing the waker is unreachable there.",
 [CH, AT], [("atomic value slot exchanged by sender and receiver", f"{CH}: Sender::send, Receiver::poll_change"), ("atomic waker slot taken by the notifier", f"{CH}: Inner::notify"), ("boxed value behind an atomic pointer", f"{AT}: AtomicOption")],
 None, ["results of send, values received, wakes"], SYNC)

prop("C06", "The channel ends when all senders are gone or one closes, and stays closed",
 "The receiver ends, after delivering the last value sent before, exactly when all senders have been dropped or any of them was closed, and its task is woken for it; until then it does not end. Once a close has returned or the receiver is gone every send from every clone, including clones made later, fails and hands the value back, and no combination of clone, drop and close reopens the channel.",
 ["schedules", "histories"], "all interleavings and sequences of send, clone, drop, close and receiver drop on any number of senders",
 "No test runs clone, drop and close concurrently or in long sequences.",
 [CH], [("sender count with zero meaning closed", f"{CH}: Inner.senders, add_sender, remove_sender, remove_all_senders"), ("weak reference from sender to receiver", f"{CH}: Sender.inner")],
 [("sender count", "number of live senders, zero once closed", f"{CH}: Inner.senders")], ["results of send, end of the receiver"], SYNC)

prop("C07", "All children of a Broadcaster reach the input's latest value and end with it",
 "Every signal obtained from a Broadcaster, whenever it was created, in whichever task and thread it is polled and whichever siblings have been dropped, delivers the input's current value first and ends up with the input's latest value once the input stops changing, being woken when needed. It never delivers a value the input did not have, nor goes back to an older value, and it ends exactly when the input has ended.",
 ["schedules", "histories"], "all interleavings of input changes, child creation, child drop, and polls of several children from different tasks and threads, with changing wakers",
 "The tests use one thread with at most a few children and fixed poll orders.",
 [BR], [("shared poll state with an epoch per change", f"{BR}: BroadcasterInnerState, BroadcasterState::poll_change"), ("notifier fanning out wakes to the children", f"{BR}: BroadcasterNotifier")],
 [("epoch", "number of observed changes of the input", f"{BR}: BroadcasterInnerState.epoch")], ["values and ends delivered by each child, wakes"], SYNC)

prop("C08", "A cancelable future always observes cancellation and resolves exactly one way",
 "If the handle of a cancelable future is dropped or discarded before the inner future has completed, the task is woken and the future resolves to the result of the cancellation callback, whatever the interleaving with polls; the inner future has been dropped before the callback runs and is never polled after the cancellation was observed. Otherwise it resolves to the inner output and the callback is not called; the callback runs at most once, and the future doesn't keep waking its own task while nothing happens.",
 ["schedules"], "all interleavings of discarding, dropping or leaking the handle with polls and with the completion of the inner future",
 "The single test checks trait bounds only.",
 [FU], [("cancelled flag rechecked around storing the waker", f"{FU}: CancelableFuture::poll"), ("discard takes the waker under the lock", f"{FU}: Discard for CancelableFutureHandle")],
 None, ["output, callback calls, polls and drop of the inner future"], SYNC)

prop("C09", "No undefined behaviour, data race, double drop or leak from safe code",
 "No safe program using this crate causes undefined behaviour or a data race, in any interleaving and under weak memory. Every value, waker, closure and future handed to it is dropped exactly once, and none is leaked once the handles, signals and futures involved are gone.",
 ["schedules", "programs", "inputs"], "all safe client programs, threads and interleavings, in particular those racing on the channel's slots, the listener lists, cancellation and the concurrent collections, with values, wakers, closures and futures that own heap memory and do not panic",
 "The tests run without sanitizers, on one thread, with Copy integers: neither a race nor a double free nor a leak would be noticed.",
 [AT, CH, MUT, BR, FU, SV, SM], [("ownership of boxed values transferred by atomic exchange", f"{AT}: AtomicOption"), ("pin projection", "pin_project uses in " + SG + ", " + SV + ", " + SM), ("hand written pinning macro", f"{IN}: unsafe_project")],
 None, ["sanitizer and interpreter reports", "ledger of created and dropped values"], None)

prop("C10", "Public operations never deadlock each other",
 "Any set of threads each performing public operations on any Mutables, channels, Broadcasters, cancelable futures and reactive collections, without holding guards across the calls, finishes: none of them ends up waiting for each other or for itself, and no task is woken endlessly while nothing changes. This includes swapping two Mutables in opposite directions, swapping a Mutable with its own clone, and notifying, polling, creating and dropping broadcast signals concurrently.",
 ["schedules", "programs"], "all interleavings of public operations that hold no guard of their own while calling the next one",
 "A deadlock needs two threads inside the crate at once, which no test does; the source asks 'can this dead lock?' at swap.",
 [MUT, BR, CH, FU, SV, SM], [("consistent lock order", f"{MUT}: swap; {BR}: notifier lock, inner lock, child waker lock"), ("wakers called outside of the waker's own lock", f"{MUT}: ChangedWaker::wake")],
 None, ["the scheduler's wait-for state: no runnable thread while one is waiting for a lock"], SYNC)

prop("C11", "Signals combined with map_ref, map_mut, and, or, not follow all of their inputs",
 "At every quiescent point a signal built by map_ref!, map_mut!, and, or, not over any number of inputs carries the given function of the inputs' current values, whatever order and number of input changes happened in between, and whichever inputs have ended. It delivers its first value at once, recomputes at most once per poll, ends exactly when all its inputs have ended, and never polls an input again after that one's end.",
 ["histories", "inputs"], "all sequences of changes, ends, polls and spurious polls over any number of inputs, inputs being arbitrary signals",
 "The tests cover fixed sequences of two or three inputs.",
 [MC, IN, SG], [("each input polled on every poll until it ends, last value kept", f"{MC}, {IN}"), ("paired map for and/or", f"{SG}: and, or, not")],
 None, ["values delivered at quiescence, closure calls, ends"], None)

prop("C12", "Value combinators transform exactly the values their input delivers",
 "For every input history, map, inspect, eq, neq, dedupe, dedupe_cloned, dedupe_map, filter_map, stop_if, first, debug, boxed, the option and result wrappers and always carry at each quiescent point the value their description prescribes for the values delivered by the input: dedupe variants never deliver consecutive equal values and lose no change, filter_map delivers exactly the accepted values, after a none if the first was not accepted, stop_if ends right after its first match, first after one value. They call their closure at most once per delivered input value, end exactly when they should, and never poll their input again after its end.",
 ["histories", "inputs"], "all input histories including repeated values, immediate ends and changes between polls",
 "Each combinator has at most a few fixed examples, several have none.",
 [SG], [("per-combinator state machine", f"{SG}: Map, Inspect, Eq, Neq, DedupeMap, Dedupe, DedupeCloned, FilterMap, StopIf, First, ResultSignal, OptionSignal, Always")],
 None, ["delivered values, closure arguments, ends"], None)

prop("C13", "flatten and switch follow the newest inner signal and drop the old one",
 "At every quiescent point a flattened or switched signal carries the current value of the inner signal most recently produced by the outer one, also when outer and inner change in the same step or either has ended. A replaced inner signal is dropped at once and has no further influence, the output ends exactly when the outer and the current inner signal have both ended, and neither is polled again after its own end.",
 ["histories", "inputs"], "all histories of outer changes, inner changes and ends in every order",
 "The existing tests do not contain direct tests of flatten or switch.",
 [SG], [("outer polled before inner, inner replaced on change", f"{SG}: Flatten, Switch")],
 None, ["delivered values, drops of inner signals, ends"], None)

prop("C14", "map_future, throttle, from_future and from_stream deliver the newest result",
 "map_future starts with none unless its first future is already finished, delivers the output of the future made for the newest input value as soon as that future finishes, and never an output of a superseded future, which is dropped. throttle delivers at most one value per delay and, once the delay has passed, the newest input value; from_future and from_stream carry none until the output, or an item, is there when polled, and then the output, or the newest item. All are woken by whichever of input, future or stream becomes ready, end once nothing further can arrive, and poll nothing again after its end.",
 ["histories", "inputs"], "all orders of input changes, future completions, stream items and ends, including several between two polls",
 "The tests fix a handful of orders.",
 [SG], [("input polled before the pending future; old future replaced", f"{SG}: MapFuture"), ("delay future polled before the input", f"{SG}: Throttle"), ("loop until pending", f"{SG}: FromStream, FromFuture")],
 None, ["delivered values, drops of futures, closure calls, ends"], None)

prop("C15", "Signal consumers (streams, for_each, futures, sampling) lose nothing final",
 "The stream of a signal yields its current value first and always the most recent one at quiescence, for_each passes exactly these values to its closure in order, awaiting each returned future before the next, and both finish after the final value when the signal ends. to_future resolves to the last value at the end, wait_for resolves as soon as the awaited value is current when polled or to none at the end, and a sampling stream pairs each stream item, in order and without loss, with the signal's current value; none of them polls a signal again after its end.",
 ["histories", "inputs"], "all histories of signal changes, stream items, closure futures and ends, with arbitrary polls",
 "Few fixed examples; for_each, to_future and wait_for are only exercised indirectly.",
 [SG, SV, SM], [("stream adapter over poll_change", f"{SG}: SignalStream, ForEach"), ("value kept until the end", f"{SG}: SignalFuture, WaitFor, SampleStreamCloned"), ("stream adapters of the collections", f"{SV}: SignalVecStream, ForEach; {SM}: SignalMapStream, ForEach")],
 None, ["items, closure calls, outputs"], None)

prop("C16", "Any composition of adapters stays in sync with its sources, wakes up, and ends",
 "For every pipeline composed from the crate's signal, signal-vec and signal-map sources and adapters, after any batch of source changes a task that polls only when its most recent waker has been woken ends up with the value, list or map that the pipeline denotes for the sources' current contents, within a bounded number of polls. It ends exactly when all the sources it depends on have ended, no adapter ever polls an input again after that reported its end, and nothing panics.",
 ["programs", "histories", "inputs"], "all well-typed pipelines (including nested and shared ones) and all histories of source changes, ends, wakes, spurious polls and waker changes",
 "Composition multiplies the states; tests exercise single adapters with a noop waker and explicit polls, so a missed waker registration is invisible to them.",
 [SG, SV, SM, MC, BR, MUT], [("pending only after every live input was polled to pending with the caller's context", "poll functions of all adapters"), ("inputs dropped when they end", "Option<signal> fields")],
 None, ["root outputs, wakes, polls of the sources"], None)

prop("C17", "MutableVec behaves like Vec and every listener reconstructs it",
 "Each operation of a locked MutableVec has the results and effect of the corresponding Vec operation (for every index, range and length, panicking on out-of-range ones without corrupting it), in the copying and the cloning variants alike. Every listener, whenever it was created, receives diffs that are valid in sequence and that rebuild exactly the vector's contents, and applying any diff to another MutableVec or a Vec has the meaning of that diff; listeners end when the last handle is gone.",
 ["histories", "inputs"], "all sequences of operations with all arguments, for any number of listeners created and dropped at any time",
 "Tests pin the diffs of individual operations from a few starting lists, with one listener.",
 [SV], [("each operation mutates the list and notifies the equivalent diff", f"{SV}: MutableVecState"), ("initial replace for a new listener", f"{SV}: signal_vec_copy, signal_vec_clone"), ("drain notifies on creation", f"{SV}: Drain"), ("diff application", f"{SV}: VecDiff::apply_to_vec, MutableVecLockMut::apply_vec_diff")],
 None, ["return values, contents, diffs received"], None)

prop("C18", "map, filter and filter_map of a SignalVec track the input, one call per value",
 "For every valid history of input diffs, the output diffs of map, filter and filter_map are valid in sequence and rebuild exactly the mapped or filtered list at each point where all input has been processed, including moves and updates across filtered-out items. The closure is called exactly once for each value that arrives, in arrival order, never for removals or moves, and the output ends exactly when the input does.",
 ["histories", "inputs"], "all histories of all kinds of diff on lists of any length with any predicate",
 "Tests use hand-written diffs for a few predicates; index translation has an unbounded state space.",
 [SV], [("per-item inclusion flags and index translation", f"{SV}: Filter, FilterMap, poll_filter_map, find_index"), ("diff mapping", f"{SV}: VecDiff::map, Map")],
 None, ["replica of the output, closure arguments"], None)

prop("C19", "map_signal and filter_signal_cloned track the list and every item's signal",
 "At every quiescent point the output of map_signal is the list of the current values of the item signals, and that of filter_signal_cloned the items whose signal is currently true, in input order, whatever mixture of list diffs and item changes arrived in between; all diffs are valid in sequence. The closure is called once per arriving value, signals of removed items are dropped and have no further influence, and the output ends exactly when the input and all item signals have ended.",
 ["histories", "inputs"], "all interleavings of list diffs of every kind with changes and ends of item signals, including both in the same poll",
 "Tests contain a handful of scripted sequences.",
 [SV], [("per-item signal list kept aligned with the input", f"{SV}: MapSignal, FilterSignalCloned"), ("extra diffs queued", f"{SV}: PendingBuilder")],
 None, ["replica of the output, drops of item signals"], None)

prop("C20", "sort_by_cloned outputs the stably sorted input at all times",
 "For every history of input diffs the output diffs are valid in sequence and rebuild the input sorted by the comparison, equal items in input order, including after updates, moves and removals among equal items. It neither panics nor loses or duplicates an item, and it ends exactly when the input does.",
 ["histories", "inputs"], "all histories of diffs of every kind, with few distinct keys so that ties are common",
 "Tests sort one or two lists with distinct values.",
 [SV], [("index permutation with binary search, ties broken by position", f"{SV}: SortByCloned")],
 None, ["replica of the output"], None)

prop("C21", "chain and flatten of SignalVecs equal the concatenation of their inputs",
 "At every quiescent point the output of chain is the left list followed by the right one, and that of flatten the concatenation of the inner lists in outer order, whatever diffs of any kind arrived on any of them in any order, including inserting, replacing, moving and removing non-empty inner lists. All diffs are valid in sequence, the output ends exactly when all the lists involved have ended, and none is polled again after its own end.",
 ["histories", "inputs"], "all interleavings of diffs on left/right, or outer and inner lists, including empty ones and several between two polls",
 "Tests contain fixed sequences and do not check that outer updates, moves and removals remove the inner items.",
 [SV], [("length bookkeeping of both sides", f"{SV}: Chain"), ("length bookkeeping per inner list", f"{SV}: Flatten, FlattenState")],
 None, ["replica of the output"], None)

prop("C22", "enumerate gives every item its current index, updated as the list changes",
 "At every quiescent point the output of enumerate has the input's items in input order, and each item's index signal carries that item's current position, for every history of diffs. The index signal of a removed item becomes none and ends, a moved item keeps its index signal, and the output ends exactly when the input does.",
 ["histories", "inputs"], "all histories of diffs of every kind, with index signals observed at any time",
 "Tests use one fixed sequence.",
 [SV], [("one Mutable index per item, renumbered on structural changes", f"{SV}: Enumerate")],
 None, ["index signals at quiescence"], None)

prop("C23", "SignalVec aggregates (to_signal_map/_cloned, len, is_empty, sum) are exact",
 "At every quiescent point to_signal_cloned, to_signal_map, len, is_empty and sum carry exactly the copy, function, length, emptiness and sum of the current list for every history of diffs, delivering an initial value even for an empty or not yet filled list. is_empty changes only when emptiness changes, and each ends exactly when the input does.",
 ["histories", "inputs"], "all histories of diffs of every kind, any number between two polls, including ends with and without a last change",
 "Tests contain fixed sequences; is_empty's end is not tested.",
 [SV], [("replica of the list folded per poll", f"{SV}: ToSignalMap, ToSignalCloned, SumSignal"), ("length arithmetic", f"{SV}: Len, IsEmpty")],
 None, ["delivered values, ends"], None)

prop("C24", "delay_remove keeps an item until its future finishes and the rest exact",
 "An item leaves the output of delay_remove only after it has been removed from the input and the future made for it has finished, and then it does leave; until then it stays at its place relative to the other items. At every quiescent point the items still in the input appear in input order with their current values, the others present are exactly the ones removed with an unfinished future, diffs are valid in sequence, and the output ends once input and removals are done, polling neither again after its end.",
 ["histories", "inputs"], "all histories of diffs of every kind with futures finishing in any order at any time",
 "Tests contain no or few fixed histories of this adapter.",
 [SV], [("per-item future and removing flag, index translation between input and output", f"{SV}: DelayRemove")],
 None, ["replica of the output, completion of futures"], None)

prop("C25", "Conversions into SignalVecs (switch, to_signal_vec, streams, always) are exact",
 "At every quiescent point switch_signal_vec equals the list of the inner signal vec most recently selected, with no item of an earlier one left over, to_signal_vec equals the signal's current list, from_stream has the items of the stream in order, and always (list or map) delivers its contents once and ends. All diffs are valid in sequence, each output ends exactly when all of its sources have ended, and none of these is polled again after its end.",
 ["histories", "inputs"], "all histories of outer changes, inner diffs and ends, including empty inner lists and inner lists that end at once",
 "Two fixed tests of switch_signal_vec.",
 [SG, SV, SM], [("old contents cleared when switching", f"{SG}: SwitchSignalVec"), ("replace per value", f"{SG}: SignalSignalVec"), ("push per item", f"{SV}: StreamSignalVec")],
 None, ["replica of the output"], None)

prop("C26", "MutableBTreeMap behaves like BTreeMap and every listener reconstructs it",
 "Each operation of a locked MutableBTreeMap has the results and effect of the BTreeMap operation, in the copying and the cloning variants alike. Every listener, whenever created, receives diffs that rebuild exactly the map, an insert only for an absent key, an update or removal only for a present one; listeners end when the last handle is gone.",
 ["histories", "inputs"], "all sequences of operations on any keys with any number of listeners created and dropped at any time",
 "Tests pin individual diffs with one listener.",
 [SM], [("each operation mutates the map and notifies the equivalent diff", f"{SM}: MutableBTreeState")],
 None, ["return values, contents, diffs received"], None)

prop("C27", "SignalMap adapters and key/entry lists stay exact",
 "At every quiescent point map_value and map_value_signal carry the input map with each value transformed, or replaced by its signal's current value, and key_cloned carries the value under the watched key or none. The key list and the entry list of a map are sorted by key and equal the map's current keys and entries. All diffs are valid in sequence, closures are called once per arriving value, and each output ends exactly when its input (and item signals) have ended, without polling anything afterwards.",
 ["histories", "inputs"], "all histories of map diffs, item signal changes and ends, in any order",
 "Tests use fixed scripts.",
 [SM], [("per-key signal table and queued diffs", f"{SM}: MapValueSignal, PendingBuilder"), ("last known match", f"{SM}: MapWatchKeySignal"), ("sorted key vector", f"{SM}: MutableBTreeMapKeys, MutableBTreeMapEntries")],
 None, ["replica of the outputs"], None)

prop("C28", "Concurrent writers and listeners of the reactive collections stay consistent",
 "When several threads change a MutableVec or MutableBTreeMap through its locks while others create, poll and drop its listeners, every live listener rebuilds, at quiescence and at every moment up to a prefix of the lock order, exactly the collection's contents, and is woken for it. Listeners end exactly when the last handle is gone, after the last change.",
 ["schedules", "histories"], "all interleavings of locked sections, listener creation, listener drop, handle drop and polls",
 "No test uses the collections from more than one thread.",
 [SV, SM], [("listener created and first replace sent under the lock", f"{SV}: MutableVec::signal_vec; {SM}: signal_map"), ("notification while holding the write lock, in order", f"{SV}: MutableVecState::notify; {SM}: MutableBTreeState::notify")],
 None, ["diffs received per listener, order of locked sections"], SYNC)

prop("C29", "serde: every reactive container and diff round-trips like its plain counterpart",
 "A serialized Mutable, MutableVec or MutableBTreeMap equals the serialization of its current plain contents, and deserializing yields an independent container with exactly those contents which is fully functional (writes are notified, it ends on drop). Every list or map diff survives a round trip unchanged, and malformed input is rejected with an error.",
 ["inputs", "histories"], "all contents, reached by any history of operations, in a self-describing format",
 "There is no test of the serde feature.",
 [MUT, SV, SM], [("delegation to the plain contents", f"{MUT}: Serialize, Deserialize; {SV}; {SM}"), ("derived diff encodings", f"{SV}: VecDiff; {SM}: MapDiff")],
 None, ["serialized text, contents after deserializing"], None)

prop("C30", "Dropped listeners are forgotten and cost nothing further",
 "When a signal, signal vec, signal map or broadcast child is dropped, then at the latest from the notification after the next change on its task is not woken any more, no value is cloned for it, and everything it held has been released, so that with changes in between memory stays bounded however many listeners come and go; the remaining listeners are unaffected. A source being dropped leaves nothing allocated once its listeners are gone.",
 ["histories"], "all histories of creating, polling and dropping listeners between changes",
 "The tests never drop listeners and observe neither memory nor clones.",
 [MUT, SV, SM, BR], [("dead listeners pruned while notifying", f"{MUT}: notify; {BR}: BroadcasterNotifier::notify"), ("closed channels pruned while notifying", f"{SV}: MutableVecState::notify; {SM}: notify")],
 None, ["live heap bytes, clones made, wakes"], None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
