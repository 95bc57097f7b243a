#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Encoded messages are exactly the documented wire format",
  "For every message id and every sequence of typed values, the encoded message is byte for byte the documented one: magic, little-endian id and total size, then for each value its type byte and its documented encoding (fixed size little-endian, zigzag varint, length-prefixed string with final NUL, length-prefixed buffer, IEEE float). "
  "Writing the same values through the typed writers, the printf-style format or the text-argument format gives the same bytes. "
  "A format or value that has no encoding is refused with an error, and memory outside the given values is never read.",
  ["inputs", "programs"], "all argument type sequences up to a length, over boundary values of each type, all three writing interfaces, and malformed formats and texts",
  "The tests encode one fixed message per type; varint width boundaries, sign extremes, sequences of types and the agreement of the three interfaces are sampled at a handful of values.",
  ["src/pomp_encoder.c", "src/pomp_msg.c", "protocol.txt"],
  [("typed writers and varint encoding", "src/pomp_encoder.c"), ("header layout and finish", "src/pomp_msg.c pomp_msg_init/pomp_msg_finish")],
  ["pomp_msg_get_buffer", "pomp_encoder_write*", "pomp_msg_write*"])

p("C02", "Decoding gives back exactly the values that were written",
  "Reading a finished message with the types it was written with returns every value exactly, through the typed readers, the scanf-style format and the dump, whatever the values; a shorter format reads the leading values (a format can read up to 16 strings). "
  "Reading with another type or beyond the last value fails with an error, and a failed formatted read has released every string it had allocated and set the caller's pointers to null. "
  "Reading never changes the message, and nothing is leaked.",
  ["inputs", "programs"], "all (written types, read types) pairs of sequences up to a length, with boundary values, with both reading interfaces",
  "The tests read back the one message they wrote with the matching format; mismatched reads are tried for a few pairs.",
  ["src/pomp_decoder.c", "src/pomp_msg.c"],
  [("typed readers, format parsing and cleanup of partial reads", "src/pomp_decoder.c")],
  ["pomp_decoder_read*", "pomp_msg_read*", "pomp_msg_dump"])

p("C03", "No received payload can make the decoder misbehave",
  "For every byte string used as message payload, and whatever is read from it, the reading and dumping functions terminate, access only bytes inside the message, and return either a value really contained in it or an error; truncated, oversized and unknown arguments give an error. "
  "A returned string is NUL-terminated inside the payload and a returned buffer lies inside it. "
  "A dump never writes beyond the given size and is always NUL-terminated (ending in an ellipsis when cut), and the self-allocating dump gives the complete text.",
  ["inputs"], "all payloads up to a length over an alphabet of type codes, varint and length bytes; all truncations and single-byte changes of valid messages; all dump sizes",
  "The tests feed a few hand-made corrupted messages; the space of hostile payloads is what a peer controls.",
  ["src/pomp_decoder.c", "src/pomp_buffer.c"],
  [("bounded reads from the message buffer", "src/pomp_buffer.c pomp_buffer_read/cread"), ("argument walk and dump", "src/pomp_decoder.c")],
  ["pomp_decoder_*", "pomp_msg_dump", "pomp_msg_adump"])

p("C04", "Stream framing does not depend on how the bytes are cut",
  "A byte stream made of well-formed messages gives the same messages, in the same order and with the same content, however it is cut into chunks. "
  "Bytes that are no valid message header are skipped (a complete header with an impossible size is skipped as a whole), and the next well-formed message that follows is decoded as if it came first (only a header announcing a possible size is accepted). "
  "Messages are decoded incrementally without reading outside the given chunk, and a message abandoned for lack of memory does not prevent the following ones from being decoded.",
  ["inputs", "histories"], "all ways of cutting a stream into up to 3-4 chunks and byte by byte; all short garbage strings over the magic alphabet before and between messages; all single allocation failures",
  "The tests give whole messages or a couple of fixed cuts; each of the decoder's states has transitions only unusual cuts reach.",
  ["src/pomp_prot.c", "src/pomp_prot.h"],
  [("header state machine, resynchronization", "src/pomp_prot.c pomp_prot_decode_msg")],
  ["pomp_prot_decode_msg"])

p("C05", "A connection delivers every sent message once, intact and in order",
  "On a stream connection, messages (or raw buffers) whose send call succeeded are received by the peer exactly once, unmodified and in the order of the calls, as long as the connection lasts and however the kernel cuts, delays or interrupts reads and writes. "
  "Bytes on the wire are exactly the concatenation of the accepted messages; a message whose send call failed leaves no bytes behind. "
  "Sends made while earlier data is still queued, including from inside callbacks, keep their place.",
  ["schedules", "inputs", "fault_sequences"], "all kernel answers (partial read or write of any size class, would-block, interrupted, readiness order) up to a number of deviations, over several traffic patterns on inet and unix sockets, epoll and poll",
  "The tests use loopback sockets where nearly every write is complete; partial writes, queueing and short reads occur only by accident.",
  ["src/pomp_conn.c", "src/pomp_ctx.c", "src/pomp_prot.c"],
  [("write queue and partial write handling", "src/pomp_conn.c"), ("read loop", "src/pomp_conn.c")],
  ["event callback MSG", "raw callback", "bytes written to the socket"])

p("C06", "Each accepted send is reported complete exactly once, in order",
  "With a send callback set, every buffer accepted for sending on a connection is reported exactly once and in order of the sends: with OK after its last byte was handed to the kernel, or with ABORTED if the connection ends before. "
  "The queue-empty flag is given exactly when, at the moment that buffer was completely handed over, nothing more was queued on this connection. "
  "No report comes for a refused send, nor after the connection was closed, and the buffer given is the one that was sent (a report may be lost only when the memory to keep it can not be allocated).",
  ["schedules", "histories", "fault_sequences"], "all kernel write answers up to a number of deviations, with disconnection by either side or stop at every point of the history, including from inside the callback",
  "The tests look at a few sends that the kernel takes at once, and one abort.",
  ["src/pomp_conn.c", "src/pomp_ctx.c"],
  [("send completion queueing and notification", "src/pomp_conn.c, pomp_ctx_notify_send in src/pomp_ctx.c")],
  ["send callback"])

p("C07", "Connection events are paired and messages come only in between",
  "For each connection exactly one CONNECTED and then exactly one DISCONNECTED event is delivered, and messages of that connection are delivered only between the two; this holds whichever side closes, on stop and on errors. "
  "After stop (made inside one of its callbacks: once the loop has processed the deferred stop) no further event or message is delivered and no connection, socket, timer or memory of the context remains; the context can then be started again and later destroyed. "
  "A running context refuses to be destroyed, or to be started a second time, without being disturbed.",
  ["schedules", "histories"], "all sequences of application and peer operations (connect, send, close, reset, stop, restart, destroy) up to a depth, with readiness orders",
  "The tests run a few scripted sessions; the order of peer close, queued data, stop and restart is one of many.",
  ["src/pomp_ctx.c", "src/pomp_conn.c"],
  [("connection list and notification", "src/pomp_ctx.c"), ("close and disconnect", "src/pomp_conn.c")],
  ["event callback", "return values", "open descriptors"])

p("C08", "A client keeps reconnecting and a server keeps accepting",
  "A started client that is not connected always makes a new attempt, about two seconds after a failed attempt or a lost connection, until it is connected or stopped, whatever transient errors (refused, unreachable, resource shortage) earlier attempts met. "
  "A server or datagram context whose address is not available yet retries the bind in the same way, and a running server goes on accepting after any accept error and serves up to its 32 connections, closing further ones at once. "
  "No attempt is made after stop.",
  ["fault_sequences", "histories"], "all sequences of connection outcomes and of single and double failures of each system call in the attempt, followed by a healthy period",
  "The tests check one reconnection against an absent server; failures inside the retry itself cannot be provoked with real sockets.",
  ["src/pomp_ctx.c"],
  [("retry timer", "src/pomp_ctx.c timer_cb, client_start, server_start, dgram_start"), ("accept path", "src/pomp_ctx.c server_accept_conn")],
  ["event callback", "socket callback", "connection attempts seen by the peer"])

p("C09", "The API may be called from inside any callback",
  "Calling the library from inside any of its callbacks (event, raw data, socket, send completion, fd, idle, timer, event object) is safe: disconnecting, sending, suspending, resizing the read buffer, stopping, or adding and removing fds, idle functions and timers there has its documented effect and never makes the library touch freed objects. "
  "Messages already decoded or still undecoded in the received data are neither duplicated nor corrupted by it. "
  "Contexts, event objects and loops that are still in use refuse destruction rather than break.",
  ["programs", "histories"], "all (callback, operation) pairs and pairs of operations, over traffic with several messages per read, in stream, raw and datagram mode",
  "The tests do a few calls from callbacks (send, disconnect, remove); the product of callbacks and operations is untested, and memory errors stay silent without instrumentation.",
  ["src/pomp_conn.c", "src/pomp_ctx.c", "src/pomp_loop.c"],
  [("deferred destruction of connections and fds", "src/pomp_conn.c, src/pomp_loop.c")],
  ["memory accesses (address sanitizer)", "callbacks"])

p("C10", "Passed file descriptors reach the right argument and never leak",
  "A file descriptor written in a message sent over a unix socket is received in the same argument of the same message as a descriptor for the same open file, however the stream is cut. "
  "Every descriptor the library duplicates or receives is closed exactly once: when the message is released, the send completes or is aborted, or the connection ends; the caller's own descriptor is never closed. "
  "On a transport that cannot carry descriptors, and in messages that claim descriptors that did not come with them, no usable descriptor number is ever presented.",
  ["schedules", "inputs", "histories"], "all kernel cuttings of the stream with descriptors up to a number of deviations, several messages with 0-4 descriptors, copies, hostile messages, connection loss at any point",
  "The ipc test passes descriptors once each way with complete writes; leaks and double closes do not fail it.",
  ["src/pomp_buffer.c", "src/pomp_conn.c", "src/pomp_encoder.c", "src/pomp_decoder.c", "src/pomp_prot.c"],
  [("descriptor table of buffers", "src/pomp_buffer.c"), ("ancillary data read and write", "src/pomp_conn.c")],
  ["descriptor table of the process"])

p("C11", "A failing system call or allocation is contained",
  "Whatever single system call or memory allocation fails at whatever moment, the library reports an error or carries on later; it does not crash, hang, leak memory or descriptors, close a descriptor twice, or use freed memory. "
  "The objects involved stay usable or can still be stopped and destroyed normally. "
  "A failed call has no partial effect a peer could see as a corrupted message.",
  ["fault_sequences"], "every system call and allocation made in a set of complete sessions, failed one at a time and in pairs, with each plausible error code",
  "No test injects any failure.",
  ["src/pomp_ctx.c", "src/pomp_conn.c", "src/pomp_loop.c", "src/pomp_buffer.c", "src/pomp_evt_linux.c", "src/pomp_timer_linux.c"],
  [("error paths", "all of src/*.c")],
  ["return values, descriptors, allocations"])

p("C12", "The loop dispatches exactly the events that were asked for",
  "A registered fd's callback is called with the events that were both requested and pending when the loop looked, and with error and hangup; it is never called for an fd that was removed before, even by another callback of the same round, and no pending fd is starved. "
  "Adding an fd twice, or updating or removing one that is not there, gives the documented error and changes nothing; updates change exactly the requested event mask. "
  "Waiting returns a timeout if and only if nothing happened for the whole given time, and both loop implementations behave the same.",
  ["histories", "schedules"], "all sequences of add, update, remove, readiness changes and waits up to a depth, with every action inside callbacks, on both loop implementations",
  "The tests register a few fds and timers in a fixed order; removal of pending fds inside callbacks in every combination is not covered, nor the equivalence of implementations.",
  ["src/pomp_loop.c", "src/pomp_loop_linux.c", "src/pomp_loop_posix.c"],
  [("fd table and deferred removal", "src/pomp_loop.c"), ("epoll and poll dispatch", "src/pomp_loop_linux.c, src/pomp_loop_posix.c")],
  ["fd callbacks", "return values"])

p("C13", "Idle functions run exactly once, in order, unless removed",
  "Each registered idle function is called exactly once, from the loop's own processing and never from inside the registering call, in order of registration. "
  "One that was removed, by function and user data or by cookie, before its turn is not called, even if removed by another idle function; one added by an idle function runs later. "
  "Flushing calls the selected pending ones at once and each still only once, and a loop with pending idle functions does not sleep.",
  ["histories", "programs"], "all sequences of add, remove, flush, process operations up to a depth, outside and inside idle callbacks",
  "The tests use one or two idle functions in a fixed order.",
  ["src/pomp_loop.c"],
  [("idle list", "src/pomp_loop.c")],
  ["idle callbacks"])

p("C14", "Loop wakeup, idle and event calls are safe from any thread",
  "Waking the loop, adding or removing idle functions and signalling event objects from other threads while the loop runs is free of data races, never deadlocks, never blocks the caller, and leaves nothing lost: the waiting loop returns, each idle function added and not removed runs exactly once in the loop's thread, in the order it was added by its thread, and a signalled event is delivered. "
  "Waking the loop and signalling an event object may also be done from signal handlers. This holds for every interleaving.",
  ["schedules"], "all interleavings up to a preemption bound of a loop thread with one or two other threads making one to three calls each, on both loop implementations",
  "The tests start a thread and sleep; the windows are microseconds wide.",
  ["src/pomp_loop.c", "src/pomp_evt.c", "src/pomp_evt_linux.c", "src/pomp_evt_posix.c", "src/pomp_loop_linux.c", "src/pomp_loop_posix.c"],
  [("loop mutex around the idle list", "src/pomp_loop.c"), ("wakeup descriptor", "src/pomp_loop_linux.c, src/pomp_loop_posix.c")],
  ["memory accesses of all threads", "callbacks"])

p("C15", "Timers fire when set, never early and never after being cleared",
  "A timer set once with a non-zero delay fires exactly once, not before its delay has elapsed and as soon as the loop runs after it; a periodic timer fires again each period. "
  "After a timer is cleared, set again or destroyed, no expiration of the earlier setting is ever delivered, even if it had already expired, and a new setting counts from the moment it is made; an expired timer can be set again from its own callback. "
  "All timer implementations of the platform behave the same.",
  ["histories", "schedules"], "all sequences of set, set periodic, clear, destroy, time passing and loop processing up to a depth, also inside the callback, for each implementation",
  "The tests run a few timers with real time and loose margins; the race between expiration and clear is not reachable.",
  ["src/pomp_timer.c", "src/pomp_timer_linux.c", "src/pomp_timer_posix.c"],
  [("timer fd implementation", "src/pomp_timer_linux.c"), ("posix timer implementation with signal and pipe", "src/pomp_timer_posix.c")],
  ["timer callback", "virtual time"])

p("C16", "The watchdog fires for a stuck loop and only then",
  "With the watchdog enabled, its callback is called once, in another thread, for each processing step of the loop that lasts longer than the delay, while it lasts, and never for steps that finish earlier or while the loop waits. "
  "The thread of the loop can enable, change and disable it at any time, also from loop callbacks (a step is watched if the watchdog was enabled when it began), without deadlock, data race or stale alarm, and no callback starts after disabling has returned. "
  "Destroying a loop with the watchdog enabled stops it cleanly.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of the watchdog thread with the loop thread, over virtual time, with short, long and boundary durations",
  "The tests sleep for real and check one long and one short step.",
  ["src/pomp_watchdog.c", "src/pomp_loop.c"],
  [("watchdog thread and condition variable", "src/pomp_watchdog.c")],
  ["watchdog callback"])

p("C17", "Address texts and socket addresses convert exactly or fail",
  "Every valid address text parses to the socket address it denotes (family, host, port, path or abstract name, length) and formatting a parsed address gives an equivalent text that parses to the same address. "
  "Every other text is refused with an error; neither parsing nor formatting ever reads or writes outside the given text, buffer or lengths, and formatted text is NUL-terminated. "
  "The unix test and the real-address lookup answer consistently with this.",
  ["inputs"], "all texts over a small alphabet up to a length plus all single-edit variants of valid texts; all buffer and address lengths around the limits",
  "The tests parse a table of some dozen addresses.",
  ["src/pomp_addr.c"],
  [("text parsing and formatting", "src/pomp_addr.c")],
  ["pomp_addr_parse", "pomp_addr_format", "pomp_addr_is_unix", "pomp_addr_get_real_addr"])

p("C18", "Buffers behave as growable byte arrays, immutable once shared",
  "Any sequence of buffer operations has the effect of the same operations on a plain byte array with a position: reads return exactly what was written, out-of-range requests fail without effect, and capacity and length are reported consistently. "
  "A buffer with more than one reference refuses every modification, so holders never see it change, and it lives until exactly the last reference is dropped. "
  "Sizes and offsets near the integer limits are refused, never wrapped around.",
  ["histories", "inputs"], "all operation sequences up to a depth over small sizes and limit values, against a reference model",
  "The tests make each call once or twice on a fresh buffer.",
  ["src/pomp_buffer.c", "src/pomp_buffer.h"],
  [("capacity, length and reference checks", "src/pomp_buffer.c")],
  ["pomp_buffer_*"])

p("C19", "A message goes through its life cycle without surprises",
  "Initialising, encoding, finishing, copying, clearing and destroying a message in any order either works as documented or fails without effect: a finished message is immutable, a cleared one is as new, and a copy is equal to and independent of its original. "
  "Wrapping a buffer as a message accepts exactly buffers that hold one complete well-formed message. "
  "A failed write leaves nothing that could be mistaken for a complete message, and nothing is leaked.",
  ["histories", "inputs"], "all sequences of message, encoder and decoder operations up to a depth on one or two messages; all header corruptions of wrapped buffers",
  "The tests exercise the regular order and a few invalid calls.",
  ["src/pomp_msg.c", "src/pomp_encoder.c", "src/pomp_decoder.c"],
  [("message state checks", "src/pomp_msg.c")],
  ["pomp_msg_*"])

p("C20", "Datagrams are independent messages with the right peer",
  "On a datagram context each received datagram that fits the read buffer gives exactly the complete messages it holds (on a raw context its bytes), with its sender as the peer address during the callback; malformed, incomplete or oversized ones are dropped and never affect later datagrams. "
  "Each message sent to an address, or sent in reply to the sender of the one being delivered, is one datagram to exactly that address, in the order of the calls. "
  "Send or receive errors on one datagram do not stop the context.",
  ["inputs", "histories", "fault_sequences"], "all short sequences of valid, truncated, oversized, garbage and concatenated datagrams from several senders, with errors in between",
  "The tests exchange a few good datagrams on loopback.",
  ["src/pomp_conn.c", "src/pomp_ctx.c"],
  [("datagram read and decode", "src/pomp_conn.c")],
  ["event callback", "datagrams on the wire"])

p("C21", "A server's broadcast reaches every connected client",
  "A message sent on a server context is sent to every client connected at that moment, exactly once each, whatever happens with the other clients: a slow, broken or closing client neither blocks, loses nor changes what the others receive. "
  "Clients see the same order of messages as the order of the calls, mixed correctly with messages sent to them alone. "
  "The list of connections contains exactly the connected ones.",
  ["schedules", "fault_sequences"], "two and three clients, all kernel write answers and client failures up to a number of deviations",
  "The tests have one client at a time.",
  ["src/pomp_ctx.c", "src/pomp_conn.c"],
  [("send to all connections", "src/pomp_ctx.c pomp_ctx_send_msg")],
  ["bytes received by each client"])

p("C22", "Suspending reading loses nothing and reads nothing",
  "After reading is suspended on a connection nothing more is taken from its socket until it is resumed; what has arrived meanwhile is then delivered completely and in order. "
  "Suspending does not affect sending or the other connections; a connection that breaks is reported while suspended, and its orderly end at the latest after it is resumed and its data delivered. Suspending and resuming may be repeated and done from callbacks. "
  "Messages that were already received with earlier data are delivered exactly once.",
  ["schedules", "histories"], "all placements of suspend and resume in a history of arrivals, sends, closes and processing, inside and outside callbacks",
  "One test suspends once.",
  ["src/pomp_conn.c"],
  [("suspend and resume", "src/pomp_conn.c")],
  ["event callback", "read calls"])

p("C23", "The Python implementation is compatible with the C library",
  "For every message whose values are within the range of their types the Python implementation encodes the same bytes as the C library from the same format and values, text strings as UTF-8, and decodes the C library's messages to the same values (file descriptors and '%ld', which Python treats as 32 bits, excepted). "
  "Its stream decoder finds the same messages as the C one in any byte stream and for any cutting; datagrams are decoded each on its own, and what a connection or datagram context sends is the encoded message. A numeric inet or inet6, or a unix address text denotes the same socket address in both. "
  "Malformed payloads give its decode error, never another exception, and never an endless loop.",
  ["inputs", "histories"], "all type sequences up to a length over boundary values, all cuttings of short streams with garbage, all short payloads, C and Python compared",
  "The three Python tests encode and decode one fixed message.",
  ["python/pomp/encoder.py", "python/pomp/decoder.py", "python/pomp/protocol.py", "python/pomp/message.py", "python/pomp/buffer.py", "python/pomp/__init__.py"],
  [("encoder, decoder and protocol classes", "python/pomp/*.py")],
  ["pomp.Message, pomp.protocol"])

p("C24", "The C++ interface behaves like the C library it wraps",
  "Messages written, read, sent and received through the C++ classes and typed message formats have the same bytes and values as through the C functions, for all argument types and values including empty strings and buffers. "
  "The connection objects given to handlers are exactly the live connections, each object stays valid from its connected to its disconnected event, and operations inside handlers do not break this. "
  "Handlers of datagrams are given the connection to answer on, a typed write that fails leaves nothing that could be sent, and return codes and callbacks are passed through unchanged.",
  ["inputs", "histories", "programs"], "all argument types with boundary values; sessions with up to three connections and disconnections or stops inside handlers",
  "Nothing in the tests compiles the C++ headers.",
  ["include/libpomp.hpp", "include/libpomp-cxx11.hpp"],
  [("wrapper classes", "include/libpomp.hpp"), ("typed message formats", "include/libpomp-cxx11.hpp")],
  ["EventHandler methods", "encoded bytes"])

p("C25", "Sockets are set up as configured, and connections know their peer",
  "Every socket and descriptor the library opens for itself is close-on-exec, and connection sockets are non-blocking, before they are used; the socket callback is called once for each with its kind before it is bound, connected or used. "
  "Keep-alive settings, unix socket access mode and removal of the unix socket file apply exactly as configured, and only to the sockets they concern. "
  "Connections and contexts report the local address, peer address and peer credentials of their own socket, and nothing for what they do not have.",
  ["configurations", "histories"], "all combinations of socket family, role, keep-alive and access mode settings, loop and timer implementation",
  "The tests use one configuration and do not look at the options of the sockets.",
  ["src/pomp_ctx.c", "src/pomp_conn.c", "src/pomp_priv.h"],
  [("socket setup", "src/pomp_ctx.c"), ("connection information", "src/pomp_conn.c")],
  ["socket options and flags", "pomp_conn_get_*"])

p("C26", "Event objects stay signalled until cleared or delivered",
  "An event object remembers that it was signalled, however often, until it is cleared or its callback has been delivered by the loop it is attached to, then it is delivered exactly once for all signals so far. "
  "Clearing before delivery suppresses it, signals made while it is detached are delivered after attaching, and signalling never blocks or fails however many signals are pending. "
  "Attaching, detaching and destroying in any order obeys the documented rules, on both implementations.",
  ["histories"], "all sequences of signal, clear, attach, detach, process, destroy up to a depth on two loops, for each implementation",
  "The tests try a few sequences with the default implementation.",
  ["src/pomp_evt.c", "src/pomp_evt_linux.c", "src/pomp_evt_posix.c"],
  [("event fd and pipe implementations", "src/pomp_evt_linux.c, src/pomp_evt_posix.c")],
  ["event callback"])

p("C27", "Loops, contexts and messages used apart do not affect each other",
  "Loops, contexts, timers, events, messages and protocol decoders that are not connected with each other behave exactly as if each were alone in the process: their results, callbacks, their times and the data given back do not depend on what is done with the others, whether in another thread at the same time, between two calls in the same thread, or inside a callback. "
  "Threads that each use their own objects need no locking, there is no data race between them, and two that talk over a socket (a server in one thread, clients in others) exchange every message.",
  ["schedules", "histories"], "all pairs of ten programs (messages, descriptors, idle functions, events, timers, stream and datagram contexts, contexts with their own loop, watchdogs), all thread schedules up to a number of preemptions, all interleavings of their steps up to a number of changes, and all points for a nested run",
  "The tests use one loop in one thread at a time; a scratch buffer shared by accident is only noticed when two users meet.",
  ["src/pomp_loop.c", "src/pomp_conn.c", "src/pomp_decoder.c", "src/pomp_encoder.c", "src/pomp_prot.c", "src/pomp_timer_posix.c"],
  [("no mutable state outside of the objects", "src/*.c"), ("event array of one processing step", "src/pomp_loop_linux.c pomp_loop_epoll_do_wait_and_process"), ("scratch buffers of transfers", "src/pomp_conn.c pomp_io_buffer_write_with_cmsg, pomp_conn_process_read_with_cmsg")],
  ["callbacks", "return values", "received messages"])

p("C28", "Python contexts keep the session guarantees under every thread interleaving",
  "However the threads of Python contexts and connections, the user's thread and the network interleave: each accepted or established connection is reported connected once and later disconnected once, a context stopped included; handlers are called in the thread of the context's loop only, messages only between these two reports, none after stop; a connected connection is listed, a server serves up to 16 clients and later ones when a place is free. "
  "Messages are received complete, once and in order, those sent on a live connection arrive in order, and a client that does not read delays no other; in a datagram context send() made while handling a message goes to the sender of that message. "
  "A client whose connection attempt fails or whose connection ends tries again after two seconds for ever, a server or datagram context that can not bind too, and a peer that is already gone, resets or closes harms no other connection. TCP connections have keep alive set (5 s, 1 s, 2). "
  "Stopping (outside of onDisconnected) returns at once whatever the context is doing (it waits neither for the retry delay nor for a peer), leaves no thread and no open socket, and the context can be started again. Requests posted to a loop from any thread are handled once, those of one thread in order.",
  ["schedules", "faults", "histories"], "all schedules with up to a number of deviations from the default one, over configurations of connection results, peer behaviour, reactions in handlers and moments of stopping",
  "The Python tests never open a connection; races between the reader, writer, socket and loop threads depend on the schedule.",
  ["python/pomp/context.py", "python/pomp/connection.py", "python/pomp/looper.py"],
  [("socket thread, requests to the loop's thread, stop", "python/pomp/context.py"), ("reader and writer threads, close", "python/pomp/connection.py")],
  ["EventHandler", "Context.getConnections", "Connection.send"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
