#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

BC = "ipmb/src/bus_controller.rs"; LX = "ipmb/src/platform/linux.rs"; EM = "ipmb/src/platform/linux/encoded_message.rs"
LIB = "ipmb/src/lib.rs"; IOM = "ipmb/src/platform/linux/io_mul.rs"; FD = "ipmb/src/platform/linux/fd.rs"
PM = "ipmb/src/platform/mod.rs"; REG = "ipmb/src/memory_registry.rs"; LAB = "ipmb/src/label.rs"; MSG = "ipmb/src/message.rs"
FFI = "ipmb-ffi/src/lib.rs"; JS = "ipmb-js/src/lib.rs"

p("C01", "Label expressions have boolean semantics, locally and on the bus",
  "A label expression evaluates against a label exactly as the boolean formula it denotes: a leaf holds iff that exact element was inserted and not removed, True/False are constants, NOT/AND/OR are ordinary connectives, inserting twice is the same as once and removing deletes exactly that element. A message sent with the expression is received by an endpoint only if the formula holds for the label that endpoint joined with, so expressions and labels survive crossing process boundaries unchanged.",
  ["inputs"], "all label sets (any strings, any number of elements) and all label expressions built with the public constructors",
  "The 8 label unit tests evaluate one or two hand-picked expressions each and never send one over the bus.",
  [LAB, BC, LIB], [("LabelOp::validate / Label::{insert,remove,all}", LAB), ("routing predicate in handle_message and the re-check in recv", BC + ", " + LIB)],
  ["return value of LabelOp::validate", "set of endpoints that receive a probe message"])
p("C02", "A multicast reaches every matching endpoint exactly once and nobody else",
  "A multicast message whose send succeeded is received exactly once by every endpoint that was joined with an open receiver before the send and whose label matches, including the sender's own endpoint and the endpoint that hosts the bus controller, and is never received by an endpoint whose label does not match.",
  ["histories", "schedules"], "all histories of joins, departures, receiver/sender drops and sends, whichever endpoint sends and whichever process hosts the controller",
  "No test joins a bus at all; exactly-once over a changing membership depends on the whole history of joins and departures.",
  [BC, LX, LIB], [("fan-out loop over the endpoint table plus delivery to the controller's own endpoint", BC + " handle_message"), ("dead endpoint removal on failed send", BC)],
  ["recv log of every endpoint vs a reference membership model"], [("endpoint table", "joined endpoints and their send sockets", BC)])
p("C03", "A unicast is consumed by exactly one matching endpoint",
  "A unicast message whose send succeeded is received by exactly one endpoint, and that endpoint matches, provided at least one matching endpoint with an open receiver is on the bus at the time; matching endpoints that have left, crashed or closed their receiver earlier never swallow it, it goes to a remaining live one.",
  ["histories", "fault_sequences"], "all histories of joins, clean departures, process kills, receiver drops and unicasts with zero or more matching endpoints",
  "No test sends a unicast; failover past stale endpoint-table entries needs particular departure histories.",
  [BC, LIB], [("first successful matching endpoint wins, stale ones are removed, controller endpoint last", BC + " handle_message")],
  ["recv logs of all endpoints: total deliveries per unicast id"])
p("C04", "Per-sender FIFO without loss, duplication or corruption under load",
  "While the bus controller and both endpoints stay alive, the messages one thread sends to a given receiver arrive in sending order, each exactly once, however many other threads and processes send concurrently through the same or other handles, and however slowly the receiver drains (full buffers only delay senders).",
  ["schedules", "histories"], "all interleavings of concurrent senders (cloned handles, several processes, the controller's own process), receivers of any speed, and bursts larger than the kernel buffers",
  "Tests never run two endpoints, let alone concurrent senders against full buffers.",
  [LX, BC, LIB, EM, IOM], [("SEQPACKET sockets, single controller thread, mpsc queue + eventfd wakeup for in-process senders", LX + ", " + BC)],
  ["per-receiver log of (sender thread, sequence number, content hash)"])
p("C05", "Payloads arrive byte-identical",
  "The payload a receiver obtains equals the payload that was sent, for every value of a serialisable message type and every encoded size from empty up to 64 KiB, whatever the label expression, time-to-live and attachments sent along with it.",
  ["inputs"], "all payload values and encoded sizes 0..64 KiB, all selector encodings (which shift the payload's position in the frame), with and without attachments",
  "No test sends a message; padding/length bugs show only for particular size residues and combinations.",
  [LX, EM, "ipmb/src/util/mod.rs", MSG], [("frame layout with 4-byte padding", LX + " encode_inner / " + EM + " from_local")],
  ["decoded payload at the receiver vs the value sent"])
p("C06", "Receivers see only their declared types; bad payloads stay isolated",
  "A receiver returns exactly the messages whose type is one of those it declared, as the variant that was sent; messages of other types are skipped silently without disturbing their neighbours. A payload of a declared type that does not decode surfaces as a decode error for that message only, and the following messages are still received.",
  ["inputs", "histories"], "all sequences mixing declared, undeclared and undecodable message types, for plain types and derived multi-type containers, on controller-hosting and ordinary endpoints",
  "No test covers recv or the derive macro.",
  [MSG, "ipmb-derive/src/lib.rs", LIB], [("type UUID dispatch in MessageBox::decode and skip loop in recv", MSG + ", ipmb-derive, " + LIB)],
  ["sequence of recv results vs the sent sequence"])
p("C07", "Attached kernel objects arrive intact and are not leaked",
  "The kernel objects attached to a message arrive at every endpoint that receives it in the same number and order, each referring to the same open kernel object as the one sent and independently owned by the receiver. Once the receivers drop them, or once the message proves undeliverable (a waiting one that has expired is let go with the next traffic on the bus), no participant still holds a copy of the object.",
  ["inputs", "histories"], "all attachment counts from 0 to 128 (objects and memory regions together), kinds of descriptor, routing outcomes (none, one, many receivers, unwanted type)",
  "No test attaches an object; leaks and order depend on counts and routing outcomes.",
  [LX, EM, FD, BC], [("SCM_RIGHTS control message built from objects then regions; OwnedFd drop", LX + ", " + EM)],
  ["fstat identity and content of received descriptors", "end-of-file on pipes whose write end was sent"])
p("C08", "A memory region is the same memory everywhere, and maps what was asked",
  "A memory region received with a message, cloned or rebuilt from its kernel object is the same memory and reports the same size as the one sent: bytes written through any mapping are read through all. Mapping a range inside the region yields exactly that window, and a range that reaches outside the region is refused with an error instead of giving memory that faults.",
  ["inputs", "histories"], "all region sizes and all ranges (in and out of bounds, any start/end bound kind), across clones, remaps, and processes",
  "No test touches memory regions.",
  [PM, LX, "ipmb/src/util/mod.rs"], [("header + page-aligned mmap window arithmetic", PM)],
  ["byte contents and lengths of mapped slices in several processes"])
p("C09", "Region reference counts equal the live handles",
  "The reference count a memory region reports equals the number of live handles to it in all processes plus the copies held by messages not yet consumed, so it never underflows and returns to one when a single handle is left. This holds through cloning, multicasts, undeliverable or expired messages, receivers that drop the message undecoded and sends that fail to a departed endpoint; only messages lost inside a killed or closed receiver may leave it too high.",
  ["histories", "fault_sequences"], "all histories of create/clone/drop/send/receive over several endpoints and processes",
  "No test sends a region; the count is maintained by several sites on both sides of the transport.",
  [PM, EM], [("SeqCst counter in the shared header; +1 before sendmsg, -1 after adoption or failure", PM + ", " + EM)],
  ["MemoryRegion::ref_count at quiescence vs a handle model"])
p("C10", "The memory registry never hands out memory that is still in use",
  "A region allocated from the registry has at least the requested size and shares no memory with any region that is still referenced by anyone, in this process or another; a region is reused only for the same tag. The free callback given with an allocation runs exactly once, never while that allocation is still referenced outside the registry unless the registry itself is dropped, and at the latest by the next maintenance or reuse after it became free. Memory that nobody has used for a while is given back on maintenance.",
  ["histories"], "all sequences of alloc/alloc_with_free/maintain/clone/send/drop with any sizes, tags and elapsed time, including the 5 s idle eviction",
  "No test uses the registry; reuse and callback timing depend on multi-step histories and elapsed time.",
  [REG, PM], [("reuse only when the shared count is 1 and tags match; Guard drop runs the callback", REG)],
  ["aliasing of live regions (unique fill patterns)", "callback log vs handle model"])
p("C11", "Undeliverable messages wait exactly their time-to-live",
  "A message that matches no endpoint is kept by the bus for its time-to-live and, if a matching endpoint joins within it, delivered to that endpoint, in sending order and once; after the time-to-live has passed it is never delivered, and with zero time-to-live it is dropped at once. Any duration, however large, is a valid time-to-live.",
  ["histories", "inputs"], "all interleavings of sends with arbitrary time-to-live values, joins, matching or not, and elapsed time (driven by a virtual clock)",
  "No test uses ttl; expiry depends on elapsed time between sends and joins.",
  [BC], [("message_buffer with expiry instants, flushed when an endpoint connects", BC + " run")],
  ["messages received by late joiners vs the model"], [("message_buffer", "undelivered messages and expiry", BC)])
p("C12", "A wrong token is refused and sees nothing",
  "Joining a bus with a token different from the one its controller was created with fails with the token-mismatch error and with no other outcome, while the same token always succeeds. A refused endpoint never receives any message, is never chosen as a unicast target, and does not disturb the endpoints on the bus.",
  ["inputs", "histories"], "all token pairs (empty, prefixes, long, unicode), any interleaving of refused and accepted joins with traffic",
  "No test joins a bus.",
  [BC, LX, LIB], [("token comparison in endpoint_connect, ErrToken ack", BC)],
  ["join results", "recv logs of accepted endpoints"])
p("C13", "Incompatible library versions are refused with the version error",
  "An endpoint whose library version is incompatible with the controller's (different major version, or different minor version while major is 0) is refused with the version-mismatch error, promptly and in both directions, and never joins the bus; a version differing only in the patch number joins and exchanges messages normally. Refusals do not disturb other endpoints.",
  ["configurations"], "all pairs of endpoint/controller versions",
  "Needs peers built as other versions; tests build only one.",
  [LX, EM, BC, LIB], [("version in the frame header and in the connect message, ErrVersion ack", EM + ", " + BC)],
  ["join results of peers built from the same tree with other version numbers"])
p("C14", "One identifier, one bus",
  "Endpoints that join the same identifier, in any order and however concurrently, end up on one and the same bus: exactly one controller exists and every endpoint can exchange messages with every other. Endpoints of different identifiers never receive each other's messages, and an endpoint joined without controller affinity never becomes the controller.",
  ["schedules", "configurations"], "all interleavings of concurrent first joins (with injected delays between the connection steps), numbers of endpoints, identifier pairs and affinity settings",
  "No test joins; the rendezvous race needs several processes.",
  [LIB, LX], [("connect / bind / retry loop on an abstract socket name", LIB + " Rule::join, " + LX)],
  ["all-pairs message exchange", "listening sockets per identifier in /proc/net/unix"])
p("C15", "The bus survives the loss of its controller",
  "When the process hosting the controller dies at any moment, the surviving endpoints re-form one bus by themselves, as long as one of them may become controller: their pending and later send and recv calls keep working without surfacing an error, under the same labels, and a closed receiver stays closed. No message is delivered twice and per-sender order is preserved across the switch; only messages in flight at the time may be lost.",
  ["crash_points", "schedules"], "every point at which the controller can be killed (any system call of its protocol, idle or under traffic), any mix of surviving endpoints",
  "Needs process kills at chosen points; tests start no process.",
  [LIB, LX, BC], [("Disconnect detection, epoch-guarded rejoin in send and recv", LIB)],
  ["results of send/recv calls in survivors", "probe exchange after the crash"])
p("C16", "Departing or crashing endpoints never disturb the others",
  "Endpoints may join, leave, drop either half, or be killed at any moment and in any number without any effect on the traffic among the remaining ones: nothing of theirs is lost, duplicated, reordered or misdelivered, and the bus keeps serving new joins.",
  ["crash_points", "schedules", "histories"], "all interleavings of churn (clean exits, drops, kills at any system call of the endpoint's protocol) with traffic among stable endpoints",
  "Needs multi-process churn; the only such program (examples/reliability) is not a test.",
  [BC, LX, FD], [("per-connection sockets, removal on EOF / failed send", BC + ", " + LX)],
  ["recv logs of the stable endpoints; joins of new endpoints"])
p("C17", "No bytes on the bus socket can crash or corrupt the bus",
  "Whatever bytes and descriptors any process writes to the bus socket (malformed, truncated or inconsistent frames, wrong attachment counts, unmappable attachments, partial handshakes), the process hosting the controller and the properly joined endpoints neither crash nor access memory out of bounds nor hang, and traffic among them continues unaffected.",
  ["inputs", "fault_sequences"], "all byte strings and descriptor sets sent as frames on raw connections, in any number and order, with abrupt closes",
  "Tests never feed the frame parser.",
  [EM, LX, BC], [("frame parsing and connect handling", EM + " from_local, " + BC + " endpoint_connect")],
  ["controller process under AddressSanitizer and debug assertions; traffic among proper endpoints"])
p("C18", "Timeouts are honoured",
  "recv and join given a timeout never report a timeout before it has fully elapsed and do report it soon afterwards even if messages of types the receiver did not declare keep arriving; given none they never report a timeout, and any duration is accepted. A message already available is returned even with a zero timeout.",
  ["inputs", "schedules"], "all durations (zero, sub-millisecond, huge) and any unrelated traffic during the wait, on controller-hosting and ordinary endpoints",
  "No test waits on anything.",
  [LIB, LX, IOM], [("epoll_wait / channel timeout and retry loops", LIB + " recv, " + LX + " IoHub::recv, " + IOM)],
  ["elapsed monotonic time and result of recv/join"])
p("C19", "Application signals are invisible",
  "Signals handled by the application at any moment, in any thread of any participant, never cause a lost, duplicated or reordered message, a premature timeout, a dropped connection or an error from join, send or recv.",
  ["schedules", "fault_sequences"], "all arrival points of handled signals (no SA_RESTART) in blocked or running bus calls, in endpoints and controller",
  "Tests send no signals.",
  [LX, EM, IOM], [("EINTR handling around epoll_wait, sendmsg, recvmsg", EM + ", " + IOM)],
  ["recv logs and call results under a signal storm"])
p("C20", "Nothing is leaked over the life of a bus",
  "After any amount of traffic, joins and departures, once endpoints have left, attachments have been dropped and the bus has had its periodic chance to notice departed endpoints, every participant is back to the descriptors, mappings and threads it had before, except for a bus controller it hosts, which lives as long as its process; a long-lived controller does not accumulate resources for endpoints or messages that are gone.",
  ["histories"], "all histories of joins, departures, messages (delivered, undeliverable, expired, with attachments) and failed joins, repeated any number of times",
  "No test joins; leaks need repetition to show.",
  [LX, BC, FD, PM], [("ownership types (OwnedFd, MappedRegion), endpoint table pruning", FD + ", " + BC)],
  ["/proc/self/fd, /proc/self/maps, /proc/self/task before and after"])
p("C21", "Programs started by a participant do not inherit the bus",
  "A program executed by a process that uses the bus inherits none of the bus's descriptors and none of the received attachments, whether started before or after endpoints joined. Consequently such a program outliving its parent or an endpoint neither delays the detection of departures or of a dead controller nor keeps the bus from working.",
  ["histories", "schedules"], "all points at which a participant (controller or endpoint) starts a program, and all later departures and joins",
  "Tests start no program.",
  [LX, EM, IOM], [("close-on-exec on sockets, epoll, eventfd, accepted and received descriptors", LX + ", " + EM + ", " + IOM)],
  ["descriptor table of the executed program; traffic after departures"])
p("C22", "A message that cannot be transported harms nobody",
  "Sending a message that the transport cannot carry (too large, too many attachments, too deeply nested expression) returns instead of retrying forever, and neither disconnects nor loses messages for the sender or for any other endpoint, whichever endpoint sends it.",
  ["inputs"], "all message sizes and attachment counts above the transport limits, from ordinary and controller-hosting endpoints, any receivers",
  "No test sends a message.",
  [EM, LIB, BC], [("classification of sendmsg failures", EM + " send, " + LIB + " send, " + BC + " handle_message")],
  ["return of send; traffic before and after among all endpoints"])
p("C23", "No undefined behaviour or data race on supported use",
  "No use of the safe public interface, from any number of threads and with any messages, attachments, regions and registries, causes an out-of-bounds access, use after free, double close, other undefined behaviour or a data race inside the library.",
  ["schedules", "inputs"], "all interleavings of safe API calls in one or more threads",
  "Tests run single-threaded label logic without sanitizers.",
  [LX, EM, PM, IOM, LIB], [("unsafe frame building/parsing, mmap windows, epoll buffers, descriptor ownership", LX + ", " + EM + ", " + PM)],
  ["AddressSanitizer, ThreadSanitizer and descriptor-ownership reports"])
p("C24", "The C and C++ interface is faithful",
  "Through the C and C++ interfaces every operation has the effect, result code and ownership rule of its Rust counterpart: joins, sends, receives, labels, selectors, attachments, regions and registries interoperate with Rust endpoints, failures map to the documented codes, out-of-range indices give null/zero, and no sequence of documented calls leaks, double-frees or faults.",
  ["programs", "inputs"], "all sequences of documented calls with any sizes (including empty payloads), counts, timeouts and tags",
  "ipmb-ffi has no tests; its demos are not even compiled.",
  [FFI, "ipmb-ffi/ipmb.cc", "ipmb-ffi/include/ipmb.h", "ipmb-ffi/include/ipmb_ffi.h"], [("opaque boxes and result-code mapping", FFI + ", ipmb-ffi/ipmb.cc")],
  ["a C++ driver under AddressSanitizer/LeakSanitizer exchanging messages with Rust endpoints"])
p("C25", "The Node interface settles every receive exactly once, in order",
  "In the Node interface every recv promise settles exactly once: with the next message in arrival order, with a timeout error once its timeout passes, or with an error after close; no message is dropped or given to two promises, and payload and buffers are intact and interoperate with Rust endpoints (the memory a buffer arrives in may be longer than the buffer). close returns even while messages keep arriving, releases the messages nobody asked for, and later recv calls are rejected.",
  ["schedules", "histories"], "all interleavings of recv (with or without timeouts), arriving messages and close",
  "ipmb-js has no tests.",
  [JS], [("pending-promise list / message buffer fed by a receiver thread through a threadsafe function", JS)],
  ["promise outcomes in a Node driver exchanging messages with Rust endpoints"])
p("C26", "Handles can be used, cloned and dropped from any thread without deadlock",
  "Any concurrent use of one endpoint's handles (sending from several threads, receiving, cloning and dropping senders, dropping the receiver at any moment) terminates without deadlock or panic; in particular dropping the receiver always returns, and unblocks senders stalled only by that receiver's undrained messages.",
  ["schedules"], "all interleavings of send/recv/clone/drop over one or more endpoints, idle or saturated",
  "Tests never share an endpoint.",
  [LIB, LX], [("RwLock around the endpoint role, receiver close on drop", LIB)],
  ["completion of every call; state of all threads when one does not complete"])
p("C27", "No endpoint's sending starves the others",
  "While any endpoints send without pause and the receivers of what they send keep draining, everybody else on the bus is served too: joins complete and the messages of every other sender are delivered after a bounded number of the others' messages, whichever endpoint floods, including the one that hosts the controller.",
  ["schedules", "histories"], "all combinations of endlessly sending endpoints (next to the controller or not, any number of threads and sizes) and of joins and messages that have to get through meanwhile",
  "Tests send no messages.",
  [LX, BC, IOM], [("the controller taking turns between its own endpoint's queue, the listener and the connections", LX + " IoHub::recv")],
  ["completion of joins and messages, counted in deliveries of the flood"])
p("C28", "Everybody sees one order of events",
  "While its controller lives, a bus has one order: any two messages that two endpoints both receive arrive at both in the same order, whoever sent them, and a message sent after another one had been received anywhere is nowhere received before that other one.",
  ["schedules", "histories"], "all interleavings of senders in several processes (the controller's own endpoint among them), multicasts and answers to messages just received",
  "Tests send no messages.",
  [LX, BC, EM], [("all messages pass through the controller, which hands each to all its receivers before the next", LX + " IoHub::recv, " + BC + " handle_message")],
  ["receive orders of all endpoints and the send times, merged into one relation that must have no cycle"])
p("C29", "Waiting costs no processor time",
  "Participants with nothing to do leave the processor alone: after any history of joins, departures, crashes, refusals, stray connections and undeliverable messages, the controller's threads and endpoints that wait (in recv, in a send to a full receiver, in a join that finds no controller, after losing their controller) block, or look again at a slow pace, instead of spinning.",
  ["histories"], "all histories of joins, leaves, kills, refused and stray connections, messages that wait, senders that are stalled, and orphaned endpoints, followed by a rest (descriptor exhaustion excluded)",
  "Tests do not measure.",
  [LX, IOM, LIB], [("hung-up connections leave the poll set; wakers are cleared", LX + " IoHub::recv"), ("waiting between two tries of a join", LIB + " join")],
  ["processor time and voluntary context switches of every process, as the kernel counts them"])
p("C30", "A received message can be passed on",
  "Sending a message that was received, on the same or another bus, has the effect its first sending had: the same payload, objects and regions arrive, routed by the label expression, mode and time-to-live it was first sent with, at every further hop; and nobody on the way keeps anything of it.",
  ["inputs", "histories"], "all messages (selector, mode, time-to-live, payload, objects, regions), chains of buses joined by endpoints that pass on what they receive, receivers present or yet to come",
  "Tests send no messages.",
  [LIB, MSG, EM, LX], [("re-encoding of a decoded message", EM + " encode, " + MSG)],
  ["deliveries behind the last gateway, compared with a model; descriptors and region counts left behind"])
p("C31", "Separately built programs understand each other",
  "Programs whose builds of the library have one version number share a bus fully, however and whenever each was built: with the sources as they are now or as they were when that version was first built, optimised or not, by different compilers with different data layouts. They find each other under the same identifier, and joins, label expressions, messages of every size and mode, objects, memory regions with their common handle counts, refusals and the succession of controllers work between them as between programs of one build, so the addresses, the frames and the layout of shared memory of a version do not change.",
  ["configurations", "inputs"], "all mixtures of builds of one version among the participants of a bus, each in every role (controller, sender, receiver, owner of a region)",
  "Tests build one library, at one time, and exchange nothing.",
  [LX, EM, PM, MSG], [("address of an identifier, frame layout, trailer of a memory region", LX + " identifier_to_socket_addr, encode_inner; " + PM + " MemoryRegion")],
  ["what participants of other builds receive, map and count"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
