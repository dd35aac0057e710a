#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded search, minimised replay)"
P = []

def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False, note=""):
    P.append(dict(note=note, p=dict(
        id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=hook))))

L = "src/M2MLink/M2MLink.cpp"
M = "src/M2MLink/M2MMsg.cpp"
prop("L01", "Messages cross a lossless link intact, in order, exactly once",
  "On a connected link whose transport loses and alters nothing, every message that a sender's send call accepted, and every reply, reaches the other application exactly once, with the payload that was sent, the same identifier and the same reply expectation, and in the order of acceptance. "
  "This holds for any way the transport splits, joins, or delays the bytes, and whenever it temporarily declines them or takes only part of what it is offered. Nothing that was not sent is ever delivered.",
  ["schedules", "inputs", "histories"],
  "Every sequence of sends, replies and acks at both ends, every payload that fits the MTU, every fragmentation and coalescing of the byte stream, every interleaving of polls and deliveries, and every pattern of temporary refusal, or partial acceptance, by the transport.",
  "The tests join two links by a loopback that delivers whole messages at once, with a handful of payloads and one poll order.",
  [L, M, "src/M2MLink/M2MLink.h", "src/C3PValue/KeyValuePair.cpp", "src/cbor-cpp/cbor.cpp", "src/StringBuilder.cpp", "src/PriorityQueue.h"],
  [("outbound queue churn", L + ": _churn_outbound"), ("input parse and accumulation", L + ": _process_input_buffer; " + M + ": accumulate, attempt_header_parse"), ("payload encoding", "src/C3PValue/KeyValuePair.cpp, src/cbor-cpp/cbor.cpp")],
  [("in-order model", "Per direction, the messages accepted and not yet delivered", "harness")], ["message callback", "send() return", "transport pushBuffer"])
prop("L02", "Every request ends in a reply or a bounded number of retries",
  "A message that expects a reply is transmitted again only after the session timeout passes without one, at most the configured number of times and always byte for byte the same, and is then abandoned; a reply ends it at once. "
  "A reply is matched only to the request that bears its identifier. The queue of outbound messages never exceeds its limit, and a send beyond it is refused.",
  ["schedules", "fault_sequences", "histories"],
  "Every schedule of sends, replies, losses, duplicates and delays of whole frames, refusals by the transport, and clock advances, including across the wrap of the millisecond counter.",
  "The tests never lose a frame, never reach a timeout, and never fill the queue while replies are outstanding.",
  [L, M], [("retry and timeout accounting", L + ": _churn_outbound; " + M + ": attemptRetry"), ("reply matching", L + ": _churn_inbound, _clear_waiting_send_by_id"), ("queue bound", L + ": send, _send_msg")],
  [("request table", "Accepted requests: transmissions, time of the last, whether answered", "harness")], ["frames handed to the transport", "send() return", "message callback"])
prop("L03", "A link survives any input, and recovers once the transport behaves",
  "Whatever bytes arrive, a link does not access memory it does not own, does not hang, and does not run undefined code. Once the transport behaves again and traffic resumes, both ends return to a live and idle session within a bounded time, after applications reset any link that hung up, and the session then carries messages in both directions intact.",
  ["fault_sequences", "inputs", "schedules"],
  "Every sequence of lost, altered, inserted, repeated, truncated and reordered bytes and frames, and every frame whose header is valid but whose content is hostile, at any time in the session.",
  "The tests inject no corruption on a live link, so no test path enters resync after connection, or decodes a damaged payload.",
  [L, M, "src/cbor-cpp/cbor.cpp", "src/C3PValue/KeyValuePair.cpp", "src/FiniteStateMachine.h"],
  [("sync search", L + ": _process_for_sync, _fsm_insert_sync_states"), ("header validation", M + ": attempt_header_parse"), ("payload decoding", "src/cbor-cpp/cbor.cpp; src/C3PValue/KeyValuePair.cpp")],
  [("session state", "Link FSM position at each end", L)], ["currentState()", "linkIdle()", "message callback", "sanitizer"])
prop("L04", "Hangups conclude, and what hangs up stays silent until it is reset",
  "A hangup is accepted once per session. A forced hangup concludes at once and a graceful one within a bounded time even if the peer is gone; a hung-up link neither emits, delivers, nor accepts anything until the application resets it, and then it can connect again as if for the first time. A graceful hangup on a healthy transport loses nothing that either end had accepted. Each announced state change is announced exactly once, and state changes follow the documented order.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "Every interleaving of sends, hangups (also from within callbacks), resets, crashes and restarts of either end, frame losses, duplicates, delays, refusals and partial acceptance.",
  "The tests hang up once, from one end, between idle links.",
  [L, "src/FiniteStateMachine.h"], [("hangup", L + ": hangup, _fsm_poll, _fsm_set_position"), ("state routing", "src/FiniteStateMachine.h: _fsm_advance, _fsm_set_route, _fsm_prepend_state")],
  [("session state", "Link FSM position", L)], ["currentState()", "hangup(), reset(), send() returns", "state and message callbacks", "frames handed to the transport"])
prop("L05", "A link returns all the memory it takes",
  "However a session went, when both ends are again live and idle they hold exactly the memory they held when first idle. A link that is destroyed, in any state and with any work in hand, leaves nothing allocated.",
  ["histories", "fault_sequences", "crash_points"],
  "Every history of sends, replies given or withheld, remote logs, losses, damage, timeouts, refusals, hangups and resets, and destruction at every point of it.",
  "No test observes the heap, and none destroys a link that has work in hand.",
  [L, M, "src/C3PValue/KeyValuePair.cpp", "src/C3PValue/C3PValue.cpp"], [("message lifecycle", L + ": _reclaim_m2mmsg, _purge_inbound, _purge_outbound, ~M2MLink"), ("payload ownership", M + ": getPayload, ~M2MMsg")],
  (), ["allocator accounting"])

prop("S01", "Schedules run on time, once per period, and as often as was asked",
  "Each enabled schedule runs once, in the first service call after a tick that finds its time arrived, never ahead of that time, never while disabled, and in the order that ticks found schedules due. Its next time is its last run plus its period; it runs as many times as its recurrences allow, and is then disabled. "
  "Ticks may come at any point, also during executions, and executions may alter any schedule.",
  ["schedules", "histories"],
  "Every set of schedules, every interleaving of ticks, service calls and changes to schedules (from outside, and from within executions), every question about a schedule (enabled, ready, jitter, next and last execution), stalls of any length shorter than half the range of the microsecond counter, and its wrap.",
  "The tests run a handful of schedules with real sleeps, on a clock that never wraps, and never interleave a tick with an execution or with a change to a schedule.",
  ["src/TimerTools/C3PScheduler.cpp", "src/TimerTools/C3PScheduler.h", "src/RingBuffer.h"],
  [("execution queue", "src/TimerTools/C3PScheduler.cpp: advanceScheduler, serviceSchedules"), ("rescheduling", "src/TimerTools/C3PScheduler.cpp: C3PSchedule::execute, delay")],
  [("due queue", "Schedules that ticks found due and have not yet run, in order", "harness")], ["the schedule's function being called", "enabled(), recurrence(), nextExec(), lastExec(), willRunAgain()"])

prop("S02", "Timeouts and stopwatches tell the truth about elapsed time",
  "A timeout has expired when, and only when, its period has passed since it was reset, or it was triggered; until then it reports exactly the time that remains, and afterwards that none does. A stopwatch measures every lap between a start and a stop, and only those, and its count, last, best, worst, total and mean follow from the laps. "
  "This holds wherever the clock stands, across its wrap, and however much time passes while a call executes.",
  ["schedules", "histories"],
  "Every history of resets, triggers, period changes, questions and laps, every starting point of the clock, and every amount of time lost at every clock read within a call, for intervals shorter than the range of the counter.",
  "The tests sleep for real for a few milliseconds; the clock neither wraps nor moves during a call.",
  ["src/TimerTools/TimerTools.h", "src/TimerTools/StopWatch.cpp", "src/AbstractPlatform.cpp"],
  [("expiry", "src/TimerTools/TimerTools.h: PeriodicTimeout"), ("laps", "src/TimerTools/StopWatch.cpp: addRuntime, markStop"), ("elapsed time", "src/AbstractPlatform.cpp: millis_since, micros_since; src/CppPotpourri.h: delta_assume_wrap")],
  (), ["expired(), remaining()", "markStop() and the accessors of StopWatch"])

prop("S03", "Sequenced steps run when asked, and after what they depend upon has passed",
  "A step is dispatched only if it was requested, directly or as a dependency, has not completed, and every step that it depends upon has passed since it was last reset; it is polled only while it runs, and at most once per poll. Retries, failures, resets and requests, including those made from within steps, leave exactly the state they describe. "
  "Once steps stop failing and stalling, every requested step whose dependencies pass completes within a bounded number of polls.",
  ["schedules", "programs", "histories"],
  "Every set of up to 32 steps in every list order, every dependency graph, every history of requests, resets, polls and restarts from saved state, and every outcome of each dispatch and poll.",
  "The tests run one graph of a dozen steps, in list order, with one pattern of outcomes.",
  ["src/AsyncSequencer.cpp", "src/AsyncSequencer.h"],
  [("dependency closure", "src/AsyncSequencer.cpp: _get_dependency_mask"), ("dispatch", "src/AsyncSequencer.cpp: _check_dependencies, _dispatch_steps, _poll_steps, poll")],
  [("step sets", "Requested, runnable, running, complete and passed steps", "src/AsyncSequencer.h")], ["calls to the steps' functions", "getState()", "predicates of AsyncSequencer"])

prop("S04", "A state machine enters the planned states, each once, in order",
  "An advance attempts entry to the next planned state and to no other; if the entry succeeds that state becomes current and leaves the plan, and if it is refused nothing changes. Setting, appending and prepending routes alters the plan as documented, within its capacity, and a route with an invalid state alters nothing, also when planned from within a state entry. "
  "A lockout or a slowdown holds for exactly the longer of the times asked for.",
  ["programs", "histories", "schedules"],
  "Every plan capacity, every history of routes, entries that succeed or refuse or plan anew, resets, lockouts and clock advances, including the wrap of the millisecond counter.",
  "The tests walk one machine through one route, with no refusals and no planning from within an entry.",
  ["src/FiniteStateMachine.h", "src/RingBuffer.h", "src/EnumWrapper.h"],
  [("advance", "src/FiniteStateMachine.h: _fsm_advance"), ("planning", "src/FiniteStateMachine.h: _fsm_set_route, _fsm_append_route, _fsm_append_state, _fsm_prepend_state")],
  [("waypoints", "Planned states in order", "src/FiniteStateMachine.h: _waypoints")], ["calls to _fsm_set_position", "currentState(), priorState(), _fsm_lockout() and kin"])

prop("D01", "A ring buffer is a bounded FIFO under every history",
  "Elements leave a ring buffer in the order in which they entered, each once and unaltered; it never holds more than its capacity, takes a prefix of what does not all fit and says how much, and its counts, peeks and searches agree with what it holds. If its memory cannot be had, calls fail without effect, and later calls succeed once it can.",
  ["histories", "fault_sequences", "inputs"],
  "Every capacity of at least one, every element size, every history of single and bulk inserts, gets, peeks, culls, searches and clears, and allocation failure at any call.",
  "The tests fill and drain a few rings once; they do not mix bulk and single operations across the wrap, and never fail an allocation.",
  ["src/RingBuffer.h"],
  [("indices", "src/RingBuffer.h: insert, _get, cull, peek")], [("ring", "Read and write positions, and count", "src/RingBuffer.h")], ["returns of RingBuffer's members"])
prop("D02", "Queues and lists keep their elements, in order, until removed",
  "A priority queue yields elements by descending priority, and in order of arrival among equals; a linked list keeps the order of insertion. Insertion, removal by position or by value (of every instance), recycling and changes of priority do what they say and report it truly. An insert for which there is no memory fails without effect, and destruction returns all memory.",
  ["histories", "fault_sequences"],
  "Every history of operations on either container, including repeated values and ties in priority, with allocation failure at any insert.",
  "The tests use short scripts with distinct values, and never fail an allocation.",
  ["src/PriorityQueue.h", "src/LightLinkedList.h"],
  [("ordered insertion", "src/PriorityQueue.h: insert, insertIfAbsent, getLastWithPriority, enforce_priorities"), ("removal", "src/PriorityQueue.h: remove, recycle; src/LightLinkedList.h: remove")], [("list", "Elements and priorities in order", "harness model")], ["returns of the containers' members", "allocator accounting"])
prop("D03", "An element pool lends each element once, and the heap only when empty",
  "No element is lent while it is already lent. Elements come from the preallocated pool while it has any, and from the heap only afterwards; returned elements go back where they came from, and overdrawn ones are destroyed. The counts of available, overdrawn and freed elements, and the low-water mark, are exact, also if the pool's memory could not at first be had.",
  ["histories", "fault_sequences", "configurations"],
  "Every pool size and limit, memory owned or supplied, every history of takes and gives, and allocation failure at any call before the pool is allocated.",
  "No test exercises the pool directly.",
  ["src/ElementPool.h", "src/RingBuffer.h"],
  [("lending", "src/ElementPool.h: take, give, inPool, allocated")], [("lent set", "Elements presently lent", "harness")], ["take(), give(), available(), overdraws(), lowWaterMark()"])

prop("B01", "Every I2C operation runs in turn, and concludes exactly once",
  "Operations that the I2C adapter accepts are begun one at a time, in the order of acceptance, with the parameters they were given. The owner of each is called back exactly once with the outcome: success, the fault that befell it, or a flush if it was purged or the adapter went away, and never after the owner itself is gone. Thereafter the operation is back in its pool, freed, or idle in its owner's hands, and a bus scan visits and maps every address from its start.",
  ["schedules", "histories", "fault_sequences"],
  "Every interleaving of device requests, polls, interrupts, purges, recycling callbacks and departures of devices, on platforms that are polled, interrupt-driven, or dispatch on queueing; bus faults, busy and stalled transfers, refused initialization, and allocation failure at any insertion; the counts of transfers and failures, and the release of buffers that an operation owns.",
  "No test touches the bus adapters: they need a platform's driver underneath.",
  ["src/BusQueue/BusQueue.h", "src/BusQueue/I2CAdapter.cpp", "src/BusQueue/I2CAdapter.h", "src/BusQueue/I2CBusOp.cpp", "src/BusQueue/I2CDevice.cpp"],
  [("queueing", "src/BusQueue/I2CAdapter.cpp: I2CAdapter::queue_io_job"), ("service", "src/BusQueue/I2CAdapter.cpp: I2CAdapter::_bus_poll"), ("purges and reclamation", "src/BusQueue/BusQueue.h: BusAdapter")],
  [("outstanding operations", "The accepted operations that have not concluded, in order", "harness"), ("wire", "The transfer in progress on the simulated bus", "harness")],
  ["BusOpCallback::io_op_callback()", "I2CBusOp::begin()", "I2CAdapter::printPingMap()"])

prop("B02", "Every SPI operation runs in turn, selected alone, and concludes once",
  "SPI operations are begun one at a time, by priority and then in order of acceptance, with the parameters they were given and none left from an earlier use. A chip-select is asserted, in its proper polarity, exactly while its operation has the bus, and at most one is. The owner of each accepted or flooded operation is called back exactly once with the outcome, in the order in which they concluded, and the operation is thereafter back in its pool, freed, or idle in its owner's hands.",
  ["schedules", "histories", "fault_sequences"],
  "Every interleaving of submissions, polls, interrupts, callback service, purges and recycling, on polled or interrupt-driven platforms, with or without the guard on queue depth; bus faults, busy and stalled transfers, allocation failure at any insertion, and teardown with work outstanding; operations of every constructor, the counts of transfers and failures, and the release of buffers that an operation owns.",
  "No test touches the bus adapters: they need a platform's driver underneath.",
  ["src/BusQueue/BusQueue.h", "src/BusQueue/SPIAdapter.cpp", "src/BusQueue/SPIAdapter.h", "src/BusQueue/SPIBusOp.cpp"],
  [("queueing", "src/BusQueue/SPIAdapter.cpp: SPIAdapter::queue_io_job"), ("service", "src/BusQueue/SPIAdapter.cpp: SPIAdapter::_bus_poll, service_callback_queue"), ("chip-select", "src/BusQueue/SPIBusOp.cpp: SPIBusOp::_assert_cs, markComplete")],
  [("outstanding operations", "The accepted operations that have not begun, by priority", "harness"), ("concluded operations", "Those that await their callback", "harness"), ("pins", "The level of each chip-select", "harness")],
  ["BusOpCallback::io_op_callback()", "SPIBusOp::begin()", "setPin()", "SPIAdapter::allQueuesClear()"])

prop("T01", "A StringBuilder keeps, moves and cuts its bytes exactly",
  "A StringBuilder's content is always the bytes that were put in it, in order, whatever its fragmentation: appending, prepending, formatting, copying, whole and bounded hand-offs between instances, fragment removal, culling and chunking change content and fragments exactly as asked, lose and double nothing, and leave each fragment null-terminated. An operation that is refused memory happens wholly or leaves all content where it was, culling needs no memory, and everything is released at the end. Reads outside of the content give nothing.",
  ["histories", "inputs", "fault_sequences"],
  "Every history of edits, hand-offs and cuts over several instances, with any fragmentation and bounds that fall inside, beside, and beyond fragments; long formatted output; any allocation refused at any point in an operation.",
  "The tests exercise each function on a few strings, and no test denies memory.",
  ["src/StringBuilder.cpp", "src/StringBuilder.h"],
  [("hand-off", "src/StringBuilder.cpp: concatHandoff, concatHandoffLimit, concatHandoffPositions, prependHandoff"), ("cut", "src/StringBuilder.cpp: cull, chunk, drop_position"), ("format", "src/StringBuilder.cpp: concatf")],
  [("fragments", "The linked list of pieces of each buffer", "StringBuilder::count(), position()")],
  ["StringBuilder::position()", "StringBuilder::length()", "return codes", "heap in use"])

prop("T02", "Search, replacement and tokenising ignore how text is fragmented",
  "Locating, containing, comparing and replacing give exactly the answers of the same operations on the flat text, whatever its fragmentation and however many near-misses precede a match. Splitting yields exactly the non-empty tokens between delimiters, imploding joins the tokens again, and a token reads as the number it spells. An operation that is refused memory says so, and leaves the text as it was.",
  ["histories", "inputs", "fault_sequences"],
  "Every text, needle, offset and delimiter, over fragments made by appending, chunking, splitting and earlier replacement; allocation failure at any point of a replacement, split or join.",
  "The tests search a few fixed strings; near-misses that overlap a match and span fragments are not among them.",
  ["src/StringBuilder.cpp", "src/StringBuilder.h"],
  [("search", "src/StringBuilder.cpp: locate, contains, cmpBinString"), ("replacement", "src/StringBuilder.cpp: replace"), ("tokens", "src/StringBuilder.cpp: split, implode, position_as_int, position_as_uint64")],
  [("fragments", "The linked list of pieces of the text", "StringBuilder::count(), position()")],
  ["return codes", "StringBuilder::position()"])

prop("B03", "A UART moves every byte once and in order, whatever the back-pressure",
  "Bytes accepted for transmission, by any of the means of writing, reach the wire once each and in order; what is accepted is the longest prefix for which there is space, exactly as reported, and the remainder is left unchanged with the caller. Bytes that arrive in the receive ring are given once each and in order to readers or the attached sink, however much of them it takes, and none is lost, doubled, or removed undelivered if memory is refused. A teardown or reset discards what waited and nothing else, and once pressure ends all that waits drains.",
  ["schedules", "histories", "fault_sequences"],
  "Every interleaving of writes, reads, arrivals, interrupts, polls, sink changes and resets, with rings of any size; sinks that refuse, take a part, or do not know their space; stalled hardware, overrun, failed initialisation, and allocation failure.",
  "No test touches the UART adapter.",
  ["src/BusQueue/UARTAdapter.cpp", "src/BusQueue/UARTAdapter.h"],
  [("transmit", "src/BusQueue/UARTAdapter.cpp: UARTAdapter::pushBuffer, write"), ("receive", "src/BusQueue/UARTAdapter.cpp: UARTAdapter::_handle_rx_push, read")],
  [("rings", "Bytes that wait in each direction", "UARTAdapter::pendingTxBytes(), pendingRxBytes()")],
  ["the wire", "BufferAccepter::pushBuffer() of the sink", "return codes"])

prop("P01", "A fork gives each side the whole stream, once, under any pressure",
  "Each side of a fork receives the stream pushed into it from the point at which it was attached, in order, without gaps or repeats, however differently the sides accept, and with forks nested. The fork takes from its caller exactly what every side has, reports that by the codes of the BufferAccepter contract, and leaves the remainder unchanged; when pressure ends all of it gets through. It reports room for what the least of its sides has room for, and for none if a side does not know. A collecting sink takes the longest prefix for which it has space, never exceeds it, and claims nothing that memory did not allow.",
  ["schedules", "histories", "fault_sequences"],
  "Every history of pushes of any fragmentation, with sides that refuse, take parts, do not know their space, fill up, empty, or are replaced; allocation failure at any point.",
  "The tests push through a fork whose sides accept alike.",
  ["src/Pipes/BufferAccepter/BufferAccepter.cpp", "src/Pipes/BufferAccepter/BufferAccepter.h"],
  [("fork", "src/Pipes/BufferAccepter/BufferAccepter.cpp: BufferAccepterFork::pushBuffer, bufferAvailable"), ("collector", "src/Pipes/BufferAccepter/BufferAccepter.cpp: StringBuilderSink::pushBuffer")],
  [("drift", "How far each side is ahead of what the caller has given up", "harness")],
  ["BufferAccepter::pushBuffer() of each side", "return codes"])

prop("P02", "A Base64 coder loses nothing that it takes, and takes only what it can pass",
  "Each push that a Base64 coder takes results in exactly its encoding, or its decoding, given to the next stage, so that an encoder into a decoder is the identity. A push that is invalid, shorter than the configured chunk, whose result does not fit downstream, that the next stage rejects, or for which there is no memory, is rejected with the input unchanged and nothing passed along. What is valid and fits is taken.",
  ["histories", "inputs", "fault_sequences"],
  "Every content, length, padding, fragmentation and chunk size; corrupted encodings; any space downstream, changing as it goes; rejection, absence of a next stage, and allocation failure at any point.",
  "The tests encode fixed vectors with unlimited space downstream.",
  ["src/Pipes/BufferAccepter/Base64/C3P_B64.cpp", "src/Pipes/BufferAccepter/Base64/C3P_B64.h"],
  [("encode", "src/Pipes/BufferAccepter/Base64/C3P_B64.cpp: Base64Encoder::pushBuffer, _encode"), ("decode", "src/Pipes/BufferAccepter/Base64/C3P_B64.cpp: Base64Decoder::pushBuffer, _decode")],
  [("space", "What the next stage can accept", "BufferAccepter::bufferAvailable()")],
  ["BufferAccepter::pushBuffer() of the sink", "return codes"])

prop("P03", "Typed values come out of a pipe as they went in, however the bytes were cut",
  "Whatever values a typed source reports as pushed come out of the typed sink equal (in kind and value, maps and nesting included), in order, and exactly once, no matter how the bytes are cut between them; a push that is not reported as successful puts nothing downstream. The sink takes whole values only: as soon as all of a value's bytes are there it comes out, incomplete values stay in the caller's buffer unaltered, and the return code says whether all, some, or nothing was taken. If the decoder runs out of memory nothing is lost, and damaged bytes neither lead it outside of what it was given nor give results that depend on the cuts.",
  ["inputs", "histories", "fault_sequences"],
  "Integers of every width at every boundary, reals, booleans, strings, blobs, vectors, maps and nested maps; every cut of the stream; any space downstream; allocation failure at any point of encoding or decoding; damaged, lost and random bytes.",
  "The tests cut one stream of fixed scalars at one odd chunk length, and send a few maps straight through.",
  ["src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp", "src/C3PValue/C3PValue.cpp", "src/C3PValue/KeyValuePair.cpp", "src/C3PValue/C3PType.cpp", "src/cbor-cpp/cbor.cpp"],
  [("source", "src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp: C3PTypePipeSource::pushValue, _private_push"), ("sink", "src/Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.cpp: C3PTypePipeSink::pushBuffer"), ("decoder", "src/C3PValue/C3PValue.cpp: C3PValueDecoder")],
  [("residue", "Bytes that were not yet a value", "The caller's StringBuilder, after pushBuffer()")],
  ["C3PValueDelivery callback", "pushValue() and pushBuffer() return codes", "byteCount()"])

prop("V01", "A typed container holds the last value it accepted, and accepts only what fits",
  "A C3PValue or KeyValuePair always reads as the last value it accepted: a write or a read between integer types of different width or sign is accepted exactly when the value is representable, is then exact, and one that is refused changes neither the container nor the destination; vectors, strings, builders, and blobs come back as they were given, and what is not of the container's kind is refused. A container whose storage could not be allocated says so, and refuses everything. In a chain of them, order, keys, count, and lookup by index or by key (the first of that name) always match the history of links, drops, and unlinks, and each member is released exactly once.",
  ["inputs", "histories", "fault_sequences"],
  "Every pair of numeric types with values at and around every boundary; any order of typed writes, reads, and copies between containers; chains of any length and order of change; allocation failure at any point.",
  "The tests convert a few fixed values, and never refuse an allocation nor destroy part of a chain.",
  ["src/C3PValue/C3PValue.h", "src/C3PValue/C3PValue.cpp", "src/C3PValue/KeyValuePair.cpp", "src/C3PValue/C3PType.cpp"],
  [("conversion", "src/C3PValue/C3PType.cpp: C3PTypeConstraint<T>::set_from, get_as"), ("storage", "src/C3PValue/C3PValue.cpp: C3PValue(), _type_pun_get, _type_pun_set"), ("chain", "src/C3PValue/C3PValue.cpp: link, unlink, drop; src/C3PValue/KeyValuePair.cpp: valueWithKey, setKey")],
  [("value", "The value, or a pointer to it", "C3PValue::_target_mem"), ("siblings", "The rest of the chain", "C3PValue::_next")],
  ["get_as() and the get_as_*() family", "set() return codes", "memError()", "count(), valueWithIdx(), valueWithKey()"])

prop("P04", "A console executes each terminated line once, and all it says comes out",
  "However typed bytes arrive, a console executes each line when its terminator arrives and not before, exactly once, in order, with backspaces applied and with exactly the arguments that were entered; an unknown command, or one with too few arguments, is executed by nobody and reported. Everything the console, its commands, and the application say comes out once and in order, whatever appetite the downstream has; what was not yet taken is held. Its settings and its (bounded) history are always those which the executed lines imply, over-long input is discarded without executing anything, and a shortage of memory never executes a line which was not entered nor leaves the console unusable.",
  ["inputs", "histories", "fault_sequences"],
  "Any lines, corrections and settings, cut anywhere and in any fragments, under every terminator; any changes of the downstream's appetite; allocation failure at any point.",
  "The tests push whole lines at a console with no downstream pressure, and no corrections.",
  ["src/Console/C3PConsole.cpp", "src/Console/C3PConsole.h", "src/StringBuilder.cpp"],
  [("input", "src/Console/C3PConsole.cpp: pushBuffer, _line_ending_rxd, _process_buffer"), ("execution", "src/Console/C3PConsole.cpp: _exec_line, _cmd_def_lookup"), ("output", "src/Console/C3PConsole.cpp: printToLog, _relay_to_output_target")],
  [("residue", "What is not yet a line", "ParsingConsole::_buffer"), ("response", "What was not yet taken", "ParsingConsole::_response"), ("history", "Past lines", "ParsingConsole::_history")],
  ["command callbacks and their arguments", "efferant's bytes", "printHistory()", "logLength()", "settings"])

prop("R01", "A stored record loads back exactly, or is refused and changes nothing",
  "A record that was saved, and whose bytes reach load() intact (whole, fragmented, or followed by anything), is restored to exactly the values it held; a configuration record adopts those of its own keys and keeps its other values, also when the program that loads it has a different list of keys. Bytes that are short, torn, rotted, or of another tag or record type are refused, as is a load for which there is not enough memory; a refused load changes neither the values nor the descriptor. A save for which there is not enough memory says so, and isDirty() says exactly whether the record differs from what was last saved or loaded.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "Any histories of changes, saves, loads, tears, rot, short reads, restarts as another version, refused serializers and failed allocations, over several slots of a medium.",
  "The tests never load a record that they saved, and no record is ever damaged.",
  ["src/Storage/SimpleDataRecord.cpp", "src/Storage/RecordTypes/ConfRecord.cpp", "src/Storage/RecordTypes/ConfRecord.h", "src/C3PValue/KeyValuePair.cpp", "src/EnumWrapper.h"],
  [("save", "src/Storage/SimpleDataRecord.cpp: save, _descriptor_serialize"), ("load", "src/Storage/SimpleDataRecord.cpp: load, _descriptor_deserialize"), ("content", "src/Storage/RecordTypes/ConfRecord.cpp: serialize, deserialize, _adopt_values")],
  [("descriptor", "Tag, type, length, time and hash", "SimpleDataRecord::_storage_tag.._hash"), ("values", "One typed container for each key", "ConfRecord::_kvp")],
  ["load()/save() results", "getConf()", "isDirty()", "wasLoaded()", "printDebug()"])

prop("D04", "A window of samples has exactly the statistics of what it holds",
  "A TimeSeries or SensorFilter holds the newest samples given to it, in order, up to the size of its window: minimum, maximum, mean, RMS, standard deviation, median, SNR, newest value and ranges copied from it are those of its present content, however feeding, bulk updates, reads, purges, resizes and changes of strategy are interleaved, and zero until the window is full. A resize that fails (no memory, or an external buffer) is reported and leaves nothing usable but what a later resize or init() restores. A full series that is sent through its CBOR form is received as an equal one that continues equally.",
  ["fault_sequences", "histories", "inputs"],
  "Any histories of operations on every element type, windows from none to some tens of samples, extreme and repeated values, external and own memory; the place of each sample in the window; for real elements a moving average, which goes 1/W of the way towards each sample.",
  "The tests compare the statistics of one filled window with those of one more; the filters have no tests at all.",
  ["src/TimeSeries/TimeSeries.h", "src/TimeSeries/TimeSeries.cpp", "src/TimeSeries/SensorFilter.h", "src/TimeSeries/SensorFilter.cpp"],
  [("ring", "src/TimeSeries/TimeSeries.h: feedSeries, copyValueRange, _reallocate_sample_window, _zero_samples"), ("statistics", "src/TimeSeries/TimeSeries.h: _calculate_*"), ("filters", "src/TimeSeries/SensorFilter.h: feedFilter, _calculate_*, _reallocate_sample_window"), ("exchange", "src/TimeSeries/TimeSeries.cpp: C3PTypeConstraint<TimeSeriesBase*>::serialize, construct")],
  [("window", "The samples, in the order of memory", "TimeSeries::samples, _sample_idx, _window_size"), ("staleness", "Which cached statistics are current", "TimeSeriesBase::_flags, SensorFilterBase::_stale_*")],
  ["accessors of statistics", "copyValueRange()", "windowFull()", "dirty()", "serialize()"])

prop("P05", "Each NMEA line is judged once, on its own, however its bytes arrive",
  "However an NMEA stream is cut into buffers, GPSWrapper judges each of its lines exactly once, in order, no later than when more than MINMEA_MAX_LENGTH bytes are waiting: it is parsed if it is a supported sentence of valid form whose checksum (if it has one) agrees, and is otherwise rejected without effect on anything before or after it. Each accepted course sentence makes one report, carrying the latitude, longitude, UTC time, altitude, speed, bearing, satellites and dilutions that the latest good sentences gave. Noise, lines without end, and lack of memory cost no more than the lines that they hit, and never leave the wrapper without room for more.",
  ["inputs", "histories", "fault_sequences"],
  "Any streams of sentences, damaged sentences and noise, cut anywhere, with any host time zone, with sources that do and do not respect bufferAvailable().",
  "There are no tests of it at all; they could only try a few of the places in which a stream may be cut or damaged.",
  ["src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h", "src/StringBuilder.cpp"],
  [("framing", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp: pushBuffer, bufferAvailable, _attempt_parse"), ("validity", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp: _check, _sentence_id, _scan"), ("values", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp: _parse_rmc, _parse_gga, _parse_gsa, _parse_vtg, minmea_tocoord, _gettime")],
  [("accumulator", "What is not yet a line", "GPSWrapper::_accumulator"), ("frame", "The latest values", "GPSWrapper::_loc_frame"), ("counts", "Lines parsed and rejected", "GPSWrapper::_sentences_parsed, _sentences_rejected")],
  ["reports through the callback", "sentencesParsed()", "sentencesRejected()", "bufferAvailable()", "pushBuffer() results"])

prop("P06", "Vectors reach every end of a pipeline once, with their own error figures",
  "Every vector pushed into a tree of forks, axis converters and filters reaches each end of it exactly once, in order, with its own sense and with its own error figure or with none, altered only by the axis conversions and filters on its way (which treat value and error alike); the caller's vector is never altered, and the code returned tells what those ends said: a fork counts the sides that accepted, a converter relays the answer, a filter relays senses that are not its own. "
  "A terminus takes only vectors of its own sense: it always holds the last one, counts and dates it, has an error figure only if that vector had one, and calls it fresh until it is taken, or claimed by the callback. A filter emits nothing until its window is full, keeps a result that was refused downstream as fresh, and takes nothing while its memory is refused.",
  ["histories", "fault_sequences", "programs"],
  "Every tree of these stages, every axis convention, every sequence of vectors, senses, refusals by sinks, takings, resets and rewirings, the clock at every point, and memory refused to a filter at its first use. Filters are raw or averaging; the meaning of the other strategies, the efferent convention, and the orientation stage (unfinished upstream) are out of scope.",
  "The unit tests of this component are empty.",
  ["src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp", "src/Pipes/TripleAxisPipe/TripleAxisPipe.h", "src/TimeSeries/SensorFilter.h"],
  [("fan-out", "src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp: TripleAxisFork::pushVector"), ("conversion", "src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp: TripleAxisConvention::pushVector"), ("storage", "src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp: TripleAxisTerminus::pushVector, getDataWithErr"), ("filter", "src/Pipes/TripleAxisPipe/TripleAxisPipe.cpp: TripleAxisSingleFilter::pushVector")],
  [("freshness", "The vector has not been taken", "TripleAxisTerminus::_fresh_data"), ("window", "What the filter averages", "SensorFilter3::samples")],
  ["pushVector() return codes", "what sinks and callbacks are given", "getDataWithErr(), updateCount(), lastUpdate(), haveError(), dataFresh()"])

prop("I01", "An identity read back from storage is the one that was written",
  "An identity of any name and UUID serializes to exactly length() bytes, from which fromBuffer() restores its handle, UUID, type and flags (but for those that are not to be persisted: dirty, valid, reserved), whatever follows the record in the buffer, and keeping nothing of the buffer; with less room than length(), serialize() returns 0 and writes nothing beyond that room. "
  "A record that is torn or damaged is either refused or becomes exactly the identity that its bytes describe (its name ending, and its UUID lying, within the buffer); nothing outside the buffer is read, and nothing leaks. "
  "A UUID survives printing and parsing (in either case, with or without dashes or other characters, taking at most sixteen octets and only whole ones), a generated one is of version 4 and variant 1 and otherwise made of four words from the platform's random source, an identity is found by its type and its name and no other, and one whose name found no memory is called \"unnamed\" and otherwise complete.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "Every history of creating, parsing, marking, saving, loading and restarting, with names of any bytes and lengths to 3000, media that are short, torn or rotten at any byte, records followed by anything, memory refused for the name, and any (or a stuck) random source. Only UUID identities: no other type can be restored upstream. Chains of identities (which nothing upstream can build) are out of scope.",
  "The one test restores a fixed record of 24 whole bytes.",
  ["src/Identity/Identity.cpp", "src/Identity/IdentityUUID.cpp", "src/uuid.cpp"],
  [("serialization", "src/Identity/Identity.cpp: _serialize; src/Identity/IdentityUUID.cpp: serialize"), ("restoration", "src/Identity/Identity.cpp: fromBuffer; src/Identity/IdentityUUID.cpp: IdentityUUID(uint8_t*, uint16_t)"), ("UUID text and generation", "src/uuid.cpp")],
  [("identity", "Handle, UUID and flags", "Identity::_handle, _flags, _ident_len; IdentityUUID::uuid")],
  ["serialize(), toBuffer()", "fromBuffer()", "getHandle(), copyRaw(), toString(), length(), isSelf(), isDirty(), isValid()"])

prop("P07", "Every accepted log line comes out once, whole, and in order",
  "A line that the logger accepts (its severity is within the limit; any other is refused and left to the caller) comes out exactly once, by a sink or by fetchLog(), formatted by the options in force when it was logged, and never ahead of any part of an earlier line, whatever part of each offer a sink claims or refuses, and however sinks are attached, detached and exchanged. "
  "A sink that takes all it is offered has the whole log after each line, fetchLog() takes all that no sink has claimed (ahead of it, it leaves the caller's container as it was), and a line that is logged while memory is refused may lose its trimmings but not its message. "
  "Each option shows just its own part: the time in milliseconds, in ten columns; the severity, in ten; and the tag, right-aligned in a column as wide as the longest tag so far, at most 24, longer tags being truncated.",
  ["histories", "fault_sequences", "schedules"],
  "Every sequence of lines of any severity, tag (to 300 characters) and content (whole, in fragments, or formatted), of changes of options, limits and sinks, and of fetches; every pattern of refusal and partial claim by sinks; memory refused at any allocation of a line that is then fetched; any time, including the wrap of the millisecond counter. Sinks keep the BufferAccepter contract. Growth of the log without bound, which upstream documents, is out of scope.",
  "No test uses the logger.",
  ["src/AbstractPlatform.cpp", "src/C3PLogger.h", "src/StringBuilder.cpp"],
  [("formatting", "src/AbstractPlatform.cpp: C3PLogger::print, c3p_log(uint8_t, const char*, const char*, ...)"), ("forwarding", "src/AbstractPlatform.cpp: C3PLogger::_store_or_forward"), ("options", "src/C3PLogger.h")],
  [("backlog", "What no sink has claimed", "C3PLogger::_log"), ("column", "The width of the tag column", "C3PLogger::_tag_ident")],
  ["print() return code", "what the sink is offered", "fetchLog()"])


prop("S05", "Text of calendar time converts to the second that it names",
  "The ISO-8601 text of every second from 1970-01-01T00:00:00Z to 2099-12-31T23:59:59Z converts to that second of the Unix epoch, leap days included, whatever the separators are and whatever follows. Text whose year precedes 1970, or whose month, day, hour, minute or second is out of its range (1 to 12, 1 to 31, 0 to 23, 0 to 59, 0 to 59), converts to 0. The text is not altered, and nothing past its twentieth byte is read.",
  ["inputs", "fault_sequences"],
  "Every second of those years, any wall-clock history (running, set forward and back, across days, months, leap years and the year 2000), and text damaged in any field. Days that a month does not have (such as 30 February), and years past 2099 (which upstream excludes), are out of scope.",
  "No test converts a time.",
  ["src/CppPotpourri.cpp"],
  [("conversion", "src/CppPotpourri.cpp: stringToTimestamp")],
  [], ["stringToTimestamp() return value"])


prop("N01", "The pseudo-random source repeats its seed's stream, and fills what it is given",
  "After init(seed), a generator yields the words of the published PCG32 stream of that seed (sequence 7) in order, lowest byte first, through fills of any length and alignment and through numbers of every width; the rest of a word that was used in part is not used again, so the same seed and requests always give the same bytes. A fill writes all of the bytes it was asked for and no other. "
  "Generators seeded by the clock differ if seeded at different times, and agree if the clock was the same.",
  ["histories", "inputs", "fault_sequences"],
  "Every seed, every sequence of requests of lengths to 1003 at any alignment, interleaved over several generators, any clock (running at any rate, wrapping, stuck), and restarts. Whether a word is drawn and discarded after a fill of whole words is left open.",
  "The test fills a few fixed lengths, and compares two generators for equality only.",
  ["src/CppPotpourri.cpp", "src/CppPotpourri.h"],
  [("generation", "src/CppPotpourri.cpp: C3P_pRNG::_pcg32_random_r, fill"), ("seeding", "src/CppPotpourri.cpp: C3P_pRNG::init, _pcg32_srandom")],
  [("stream", "Position in the stream", "C3P_pRNG::_state, _inc")],
  ["fill()", "randomUInt8() to randomUInt64()", "randomBool()"])

prop("P08", "Distances between GPS fixes are those on the globe, in meters",
  "Between any two places on Earth (poles, antipodes, and both sides of the date line included), haversineDistance() is the great-circle distance on a sphere of the mean radius, to within two meters and a millionth of it; it is the same both ways, zero between a fix and itself, and never longer than a detour. "
  "This holds of the fixes that a receiver reports over a line of any quality, of places the application made up, and of fixes it has kept by copyFrame(), which carry all that the original did. "
  "What a fix prints of its time and satellites is what it holds.",
  ["inputs", "histories", "fault_sequences"],
  "Every journey of any stride from a stroll to a jump across the globe, with fixes lost, damaged, cut or withheld, and up to four waypoints and four kept fixes. Coordinates that are unknown (no fix yet) are out of scope; so are times past 2106.",
  "No test measures a distance.",
  ["src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp"],
  [("distance", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp: GPSWrapper::haversineDistance"), ("copies", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp: LocationFrame::copyFrame"), ("printing", "src/Pipes/BufferAccepter/GPSWrapper/GPSWrapper.cpp: LocationFrame::printDebug")],
  [("fix", "What the receiver last reported", "GPSWrapper::_loc_frame")],
  ["haversineDistance()", "the fixes which the callback is given", "printDebug()"])

prop("G01", "A picture holds the pixels it was given, in its own bounds, and across a wire",
  "For every size, format, orientation and flip, setPixel() changes exactly the pixel that getPixel() reads back at those coordinates and says so, and refuses coordinates that are not within the picture; fill() sets them all, and colors given by channel keep the high bits that the format has room for. "
  "A picture never writes or reads beyond its buffer, never frees, resizes or exchanges one that the application lent it, gives back all that it allocated, and after a refused allocation is empty or unchanged, and usable again. "
  "What is serialized is restored identically (size, format, flips and pixels), and bytes whose header does not describe exactly what follows it are refused without effect.",
  ["histories", "inputs", "fault_sequences"],
  "Every sequence of creation, lending, copying, resizing, turning, flipping, setting, filling, serializing and restoring, with refused allocations, and wires that cut, extend, damage or forge what they carry. The grey that a color becomes is not judged, nor are conversions between formats beyond the high bits of each channel; 4-bit grey has no pixel access upstream. A picture without pixels is not sent.",
  "The tests draw on a handful of pictures of convenient sizes, and neither lend buffers, nor refuse memory, nor damage what was serialized.",
  ["src/Image/Image.cpp", "src/Image/Image.h"],
  [("pixel access", "src/Image/Image.cpp: Image::setPixel, Image::getPixel, Image::_remap_for_orientation"), ("ownership", "src/Image/Image.cpp: Image::_buffer_allocator, Image::setBuffer, Image::setBufferByCopy, Image::wipe"), ("wire format", "src/Image/Image.cpp: Image::serialize, Image::deserialize")],
  [("buffer", "The pixels, in the order that the format dictates", "Image::_buffer"), ("flags", "Whose buffer it is, and which way it is flipped", "Image::_imgflags")],
  ["getPixel()", "the bytes of the buffer", "what serialize() writes", "what the functions return"])
prop("G02", "Shapes and text are drawn whole, where they belong, and nowhere else",
  "For every position (within the picture, across its edges, or beyond them) and extent, straight lines, rectangles, bitmaps and characters change exactly the pixels that they cover within the picture; slanted lines have one pixel per step, ends included, and no gap; circles, discs, rounded rectangles and triangles stay within a pixel of their geometry, are symmetric, and have neither gaps nor strays; shapes of no extent draw nothing, and all drawing ends. "
  "Text of any magnification, in the classic font or the application's own, is drawn glyph by glyph with the cursor advancing, wrapping and breaking lines as set, with an opaque background filling each cell of the classic font. "
  "getTextBounds() is exactly the box of the cells that writeString() would draw, in all three of its forms.",
  ["inputs", "histories"],
  "Pictures of up to 72 by 72, in all orientations (text only where the picture is square or upright), with coordinates over all sixteen bits. Ellipses with unequal axes are a known finding, and are judged only for ending and staying in bounds. Triangles with coordinates beyond 3000, and circles with radii beyond 500, are judged likewise. Text begins within the picture, and its measure is judged where nothing lies ahead of the origin.",
  "The tests draw each shape at one or two places and judge none of the pixels.",
  ["src/Image/Image.cpp"],
  [("lines and rectangles", "src/Image/Image.cpp: Image::drawFastHLine, Image::drawFastVLine, Image::drawLine, Image::fillRect"), ("round shapes", "src/Image/Image.cpp: Image::drawCircle, Image::fillCircle, Image::drawCircleHelper, Image::fillCircleHelper"), ("triangles", "src/Image/Image.cpp: Image::fillTriangle"), ("text", "src/Image/Image.cpp: Image::drawChar, Image::writeChar, Image::getTextBounds")],
  [("cursor", "Where the next character goes", "Image::_cursor_x, Image::_cursor_y")],
  ["getPixel() of every pixel before and after", "getCursorX() and getCursorY()", "getTextBounds()"])

prop("G03", "Scaled copies, gauges, graphs and byte maps show their data within their boxes",
  "For every source, scale, place and pair of formats, a scaled copy lands whole at its place with each pixel taken from its share of the source, or is refused without effect where it does not fit. "
  "Progress and zoom bars light exactly the fraction they are given, and clear the rest; a graph of integers or floats has one point per sample within its bounds at the height of that sample, and an unbroken axis; byte maps and fences have every byte in a color of its own within the area. "
  "None of them changes a pixel outside its box, whatever its size, place or data, or when redrawn with other values.",
  ["inputs", "histories"],
  "Pictures of up to 114 by 114. Text labels, accents, shown values and ranges, and heat maps beyond their box are not judged. Copies to and from 16-bit formats are left to G01-1. A Hilbert curve in an area that is not one square is a known finding (G03-1).",
  "The tests draw each widget once, to be looked at by a person, and compare nothing.",
  ["src/Image/ImageUtils/ImageScalers.cpp", "src/Image/ImageUtils/ImageUtils.cpp", "src/Image/ImageUtils/ImageGraph.cpp", "src/Image/ImageUtils/BlobPlotter.cpp", "src/Image/ImageUtils.h", "src/Image/ImageUtils/ImageGraph.h", "src/Image/ImageUtils/BlobPlotter.h"],
  [("scaling", "src/Image/ImageUtils/ImageScalers.cpp: ImageScaler::apply"), ("gauges", "src/Image/ImageUtils/ImageUtils.cpp: UIGfxWrapper::drawProgressBarH, drawProgressBarV, drawZoomBarH, drawZoomBarV, drawCompass, drawVector"), ("graphs", "src/Image/ImageUtils/ImageGraph.cpp: ImageGraph::drawGraph"), ("byte maps", "src/Image/ImageUtils/BlobPlotter.cpp: BlobPlotter::apply, BlobPlotterLinear, BlobPlotterHilbertCurve, BlobStylerExplicitFencing")],
  [("trace", "The samples, and the bounds within which they are drawn", "ImageGraphTrace"), ("picture", "The pixels before and after", "Image::_buffer")],
  ["getPixel() of every pixel before and after", "ImageGraphTrace::minValue() and maxValue()", "what the functions return"])
prop("U01", "An interface tells whom the pointer is on, moves as one, redraws what changed",
  "In every tree of elements, an event for the innermost reaches exactly the first such element under the pointer (muted ones excepted), and any other goes outward-in, in order, until one claims it, passing muted and inactive ones by; the result and the report say so. "
  "Drawing draws exactly what was changed (everything if forced), with frames, margins and borders where they belong; moving an element moves all within it; and taking apart or giving back a tree frees each element that was left to it once, and no other. "
  "Of tabs exactly one is lit, and it is the one touched or scrolled to, and only its pane is seen and hears; sliders, zoom sliders and buttons take the value that touches, scrolls and releases give them, keep it in range, and report each change.",
  ["histories", "inputs"],
  "Trees of up to 25 elements on a picture of 100 by 80. Coordinates stay at or beyond the origin. A drag is begun but (upstream) never ended. Panes are claimed with GFXUI_FLAG_ALWAYS_REDRAW; text areas and magnifiers are not claimed.",
  "The tests build one interface and none of them sends events through it or compares what is drawn.",
  ["src/Image/GfxUI/GfxUI.cpp", "src/Image/GfxUI/GfxUIButton.cpp", "src/Image/GfxUI/GfxUISlider.cpp", "src/Image/GfxUI/GfxUITabBar.cpp", "src/Image/GfxUI.h", "src/Image/GfxUI/GfxUIKit.h"],
  [("events", "src/Image/GfxUI/GfxUI.cpp: GfxUIElement::notify"), ("drawing", "src/Image/GfxUI/GfxUI.cpp: GfxUIElement::render"), ("ownership", "src/Image/GfxUI/GfxUI.cpp: GfxUIElement::_add_child, GfxUIElement::_remove_child, GfxUIElement::~GfxUIElement"), ("controls", "src/Image/GfxUI/GfxUITabBar.cpp, GfxUISlider.cpp, GfxUIButton.cpp: _notify")],
  [("children", "The elements within this one, in order", "GfxUIElement::_children"), ("flags", "Whether it is active, muted, to be redrawn, selected, focused or dragged", "GfxUIElement::_flags")],
  ["which elements were told, in which order", "which elements drew themselves, and every pixel", "the report of what was claimed", "positions, values and the heap"])

prop("V02", "A set of named values reads as what it holds, and comes back from CBOR as it was",
  "A set of key/value pairs, nested or not, is written as text that names every key with its value, and as exactly the CBOR that the standard prescribes for what it holds (vectors and images in the project's own tagged form); read back, every key and value that could be written is there, in order, equal and of the same kind, and writing it again gives the same bytes. "
  "From bytes cut short come the first pairs and nothing else; from damaged or hostile ones, whatever their depth, nothing worse than a wrong value, and a pair that cannot be understood takes no other with it; if memory runs out, either way, there is no answer rather than a wrong one, and nothing leaks. "
  "The decoder hears the same from a StringBuilder (kept or consumed, cut anywhere, still growing) as from a buffer; the encoder fills memory of a given size with the same bytes and never beyond; and a conversion that is declared to be without risk always succeeds.",
  ["inputs", "fault_sequences", "histories"],
  "Sets of up to 30 pairs, four deep (and up to 62000 deep on the wire), with integers and strings at every boundary of length; arrays within sets are not claimed, nor is the exact layout of text.",
  "The tests serialize one fixed set, never parse it back from a growing or damaged source, and do not nest.",
  ["src/C3PValue/KeyValuePair.cpp", "src/C3PValue/C3PType.cpp", "src/C3PValue/C3PValue.cpp", "src/cbor-cpp/cbor.cpp", "src/cbor-cpp/cbor.h"],
  [("writing", "src/C3PValue/KeyValuePair.cpp: KeyValuePair::serialize, _encode_to_printable; src/C3PValue/C3PType.cpp: C3PTypeConstraint<T>::serialize, to_string"), ("reading", "src/C3PValue/KeyValuePair.cpp: CBORArgListener; src/C3PValue/C3PValue.cpp: C3PValueDecoder"), ("sources", "src/cbor-cpp/cbor.cpp: decoder::run, input_stringbuilder, output_static")],
  [("waiting", "The key, and the enclosing maps, whose values are yet to come", "CBORArgListener::_wait, _nest"), ("position", "How much of the source was read", "input_stringbuilder::_offset")],
  ["the bytes and text of serialize()", "what unserialize() gives", "what a listener hears", "the heap"])

prop("L06", "Remote logs and service messages reach the log or service they are meant for",
  "Every log written to an established link is sent to the counterparty, in order of writing, and each time that one arrives there, the log of that link gains it, complete and once, in order of arrival, if its owner allows that; if not, nothing. It is acknowledged exactly as often as it arrived, if that was asked for, and then not sent again; a log that is refused is never sent. "
  "A message for a service slot is given to the service in that slot, once for each arrival and in order, with what was sent in it, and to nobody if there is none; its reply goes out once.",
  ["histories", "fault_sequences", "schedules"],
  "Every history of logs of any text, size and fragmentation, of messages for present and absent services, and of application messages, over a transport that loses, duplicates, swaps, splits, delays and refuses whole frames; log buffers that are polled or not.",
  "No test writes a remote log or registers a service.",
  [L, M], [("remote log", L + ": writeRemoteLog, _handle_msg_log, poll"), ("services", L + ": setCallback(M2MService*), _offer_msg_to_service, _churn_inbound")],
  (), ["frames handed to the transport", "the text poll() relays", "service callbacks"])

prop("R02", "A series of samples or a stopwatch read back from CBOR is the one that was sent",
  "Written as CBOR, alone or among other values of a set, and read elsewhere, in pieces or at once, a series has the type, window, count, name, units, samples and statistics that it was sent with, and a stopwatch all its figures; the order of the pairs means nothing, an object that is already there is brought to the same state whatever it held before, every other value in the set is intact, and what was read goes on exactly as the original does. "
  "An incomplete value is left where it is, and one for which there is no memory is refused, with its bytes, rather than read as a lesser one. "
  "Values of any other type, size or number in place of the expected ones do no harm, and nothing leaks.",
  ["histories", "inputs", "fault_sequences"],
  "Series of the ten numeric types, with windows of up to 300 and sample counts to 2^32, and stopwatches; without TimeSeries3 (which can not be read back) and partial updates (which are not yet written). A series that is not full is sent without samples.",
  "The tests send one full series of one type, in order of memory, to a new object.",
  ["src/TimeSeries/TimeSeries.cpp", "src/TimeSeries/TimeSeries.h", "src/TimerTools/StopWatch.cpp", "src/C3PValue/C3PValue.cpp", "src/C3PValue/KeyValuePair.cpp", "src/Image/ImageUtils/ImageCatcher.cpp"],
  [("writing", "src/TimeSeries/TimeSeries.cpp: C3PTypeConstraint<TimeSeriesBase*>::serialize; src/TimerTools/StopWatch.cpp: C3PTypeConstraint<StopWatch*>::serialize"), ("reading", "src/C3PValue/C3PValue.cpp: C3PValueDecoder::_handle_tag, _handle_map, _handle_array; src/TimeSeries/TimeSeries.cpp: C3PTypeConstraint<TimeSeriesBase*>::construct; src/TimerTools/StopWatch.cpp: C3PTypeConstraint<StopWatch*>::construct")],
  [("place", "Where the next sample goes, and how many there were", "TimeSeriesBase::_sample_idx, _samples_total")],
  ["the accessors of what was read", "its samples, oldest first", "the bytes written by the copy", "what is left of the input", "the heap"])

prop("O01", "Looking at a thing changes nothing about it",
  "Printing the state of any part of the library, listing what it holds, or putting a question to its console handler that gives it no new value, alters nothing that can be observed from that part afterwards: every result, callback, transmission, figure and failure is the one that would have been had nobody looked. "
  "This holds at any point of its work, however often one looks, and also if memory is refused during the look, which then does no harm and leaves nothing behind.",
  ["histories", "schedules", "fault_sequences"],
  "The I2C, SPI and UART adapters and their operations, state machines, sequencers, the scheduler and its schedules, both ends of a link, series and filters, configuration records, the console, buffers, values, pools and stopwatches. Not: ElementPool::allocated() (asking it allocates, as documented), the time that a look takes, and what the look says, beyond what other properties claim of it.",
  "The tests print many objects and never look at what that did to them; whether a look disturbs depends on what is underway when it happens.",
  ["src/BusQueue/BusQueue.h", "src/BusQueue/SPIAdapter.cpp", "src/BusQueue/I2CAdapter.cpp", "src/BusQueue/UARTAdapter.cpp", "src/FiniteStateMachine.h", "src/AsyncSequencer.cpp", "src/TimerTools/C3PScheduler.cpp", "src/M2MLink/M2MLink.cpp", "src/TimeSeries/TimeSeries.cpp", "src/TimeSeries/SensorFilter.h", "src/Storage/SimpleDataRecord.cpp", "src/Storage/RecordTypes/ConfRecord.cpp", "src/Console/C3PConsole.cpp", "src/StringBuilder.cpp", "src/C3PValue/KeyValuePair.cpp", "src/ElementPool.h"],
  [("prints", "the print functions of each of these files"), ("questions", "src/M2MLink/M2MLink.cpp: console_handler; src/BusQueue/SPIAdapter.cpp: console_handler; src/FiniteStateMachine.h: fsm_console_handler; src/Console/C3PConsole.cpp: console_handler_help, console_handler_conf"), ("lazily computed figures", "src/TimeSeries/TimeSeries.h, src/TimeSeries/SensorFilter.h: minValue, maxValue, rms, stdev, snr")],
  [("nothing of its own", "a look has no state", "-")],
  ["the transcript of all results, callbacks, transmissions and accessors, with and without looks", "the heap"])

prop("L07", "A link that is refused memory sends and delivers nothing wrong, and recovers",
  "Whenever and wherever in sending, receiving, replying, logging or polling a link is refused memory, what it hands to its transport is whole messages that it was asked to send, in order, and what it gives to its application is what the counterparty sent: unaltered, complete, in order, once. A send or an answer is refused only if memory was; a refused answer can be given again, and if only the sender was refused, all that an established link accepted arrives. "
  "Once memory is back, both ends return to an idle session within a bound and carry messages both ways, and nothing leaks.",
  ["fault_sequences", "histories", "schedules"],
  "Two links with refusals (of one allocation, or of all from some point on) at any allocation of a send, a remote log, an answer, a reading of the payload, a poll, or an arrival of bytes, over a transport that fragments, delays and refuses. Repetition of a message that expects an answer after its timeout is as in L02. Not: messages accepted ahead of the session, delivery by a receiver that was itself refused memory, and operator new, which is not refused.",
  "The tests never run out of memory; each allocation in the path of a message is a point of failure.",
  [L, M, "src/M2MLink/M2MMsgHdr.cpp", "src/M2MLink/M2MLink.h", "src/cbor-cpp/cbor.cpp", "src/C3PValue/KeyValuePair.cpp", "src/StringBuilder.cpp", "src/PriorityQueue.h"],
  [("emission", M + ": serialize, reply; src/M2MLink/M2MMsgHdr.cpp: serialize; src/cbor-cpp/cbor.cpp: output_stringbuilder"), ("reception", M + ": accumulate, attempt_header_parse; " + L + ": _process_input_buffer, _process_for_sync"), ("queues", L + ": _churn_outbound, _churn_inbound")],
  (), ["frames handed to the transport", "M2MMsgCallback", "return codes of send() and ack()", "link state", "the heap"])

prop("S06", "A trace keeps the latest points, and what its pathways cost",
  "While a trace records, it holds the latest points that were left in it, as many as it has room for, oldest first, each at the place and the time it was left, and nothing while it doesn't. Each pathway's profile, per place where it stops, follows from the times between its starts and its stops, and from nothing else: not from points of interest, other pathways, stops without a start, or repeated starts. "
  "A reset empties it, and want of memory costs it no more than the profile that it had no memory for.",
  ["histories", "fault_sequences"],
  "Every history of points, starts and stops on any pathway at any place, of recording being turned on and off, of resets and of prints, wherever the clock stands, with memory refused at any of them. A point left when the microsecond counter is exactly zero isn't judged.",
  "No test leaves a trace.",
  ["src/TimerTools/C3PTrace.h", "src/TimerTools/C3PTrace.cpp", "src/TimerTools/StopWatch.cpp", "src/RingBuffer.h"],
  [("intake", "src/TimerTools/C3PTrace.cpp: leave_trace"), ("profiling", "src/TimerTools/C3PTrace.cpp: recordStart, recordStop"), ("report", "src/TimerTools/C3PTrace.cpp: serialize")],
  [("points", "The ring of points, oldest first", "_trace_points"), ("pathways", "The pathways known, the start each awaits a stop for, and a stopwatch per end", "_trace_paths, _pathways")], ["C3PTrace::serialize(), recording()", "TracePath::recordStart(), recordStop(), serialize()"])

prop("O02", "Showing a thing on a screen changes nothing about it",
  "Drawing the library's own displays of a part, as often and at whatever point of its work, alters nothing that can be observed from that part afterwards, and it does no harm if memory is refused during the drawing, or if what is shown holds nothing yet. "
  "What is drawn depends on nothing but what is shown: the same state, drawn again, gives the same picture. A checklist shows each step in the color of its state: passed, failed, running, requested or at rest.",
  ["histories", "schedules", "fault_sequences"],
  "Checklists, series of floats and of 32-bit integers (with and without controls), schedules, stopwatches, maps and values, drawn into an image large enough for them while a sequence, a scheduler, a series or a map is worked with; a pointer may pass by. Not: the dirtiness of a series, which its display consumes; the first few drawings of a new element, in which its parts settle; displays of text (and so of links, identities and the scheduler as a whole), of records, and elements narrower than 420 pixels.",
  "The tests draw nothing but primitives and a few text areas; whether a display disturbs or fails depends on the state of what it shows.",
  ["src/Image/GfxUI/GfxUIChecklist.cpp", "src/Image/GfxUI/GfxUISensorFilter.cpp", "src/Image/GfxUI/GfxUIGraphing.cpp", "src/Image/GfxUI/GfxUIGraphing.h", "src/Image/GfxUI/GfxUIC3PScheduler.cpp", "src/Image/GfxUI/GfxUIStopWatch.cpp", "src/Image/GfxUI/GfxUIKeyValuePair.cpp", "src/Image/GfxUI/GfxUIC3PValue.cpp", "src/Image/GfxUI/GfxUI.cpp"],
  [("drawing", "the _render functions of each of these files"), ("children of a display", "src/Image/GfxUI/GfxUI.cpp: _add_child, _remove_all_children, render")],
  [("what a display keeps", "the element shown, its children, the position in a series", "src/Image/GfxUI/GfxUIKit.h, src/Image/GfxUI/GfxUIGraphing.h")],
  ["the transcript of all results and accessors of what is shown, with and without drawing", "the pixels of the image", "the heap"])

#--MORE--

NA = []
CHECKED = [e["p"]["id"] for e in P if os.path.exists(os.path.join(HERE, "sim", "h_%s.cpp" % e["p"]["id"]))]
for e in P:
    if e["p"]["id"] not in CHECKED:
        NA.append(dict(property=e["p"]["id"], reason="no harness yet"))

exec(open(os.path.join(HERE, "tools", "na.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "na.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for e in P:
        f.write(json.dumps(e["p"]) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1, setup_cmd="python3 check.py build",
        checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                     technique=TECH, level="exploration",
                     level_note=next(e["note"] for e in P if e["p"]["id"] == i) or "Seeded search over schedules and faults against an exact model; bounded by runs, not exhaustive.",
                     evidence_file="evidence/%s.json" % i) for i in CHECKED],
        not_applicable=NA,
        notes="No hooks in /repo: the platform layer, transports, bus adapters' drivers and the allocator are the seams."), f, indent=1)
    f.write("\n")
import importlib.util
for e in P:
    assert len(e["p"]["title"]) <= 80, e["p"]["id"]
