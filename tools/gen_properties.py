#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s} for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

SM = "src/stub/state_machine.rs"
CI = "src/stub/core_impl.rs"
OBS = ["GdbStub::run_state_machine / GdbStubStateMachine transitions", "Target trait calls", "Connection::write/flush"]

p("P01", "Incoming byte stream is decoded to exactly its valid packets",
  "Fed one byte at a time, any byte stream is acted on as exactly the packets it contains: a `$` packet is processed once, when the second checksum digit arrives, with precisely the bytes between `$` and the first `#`, and only if the two-digit checksum equals their sum modulo 256; outside a packet '+' has no effect and 0x03 is a Ctrl-C. A nack, any other byte outside a packet, a wrong or malformed checksum, or a packet exceeding a caller-provided buffer ends the session with an error that is neither a target nor a connection error, without calling the target and without writing anything. A heap-allocated buffer grows instead of failing, and leftovers of earlier (longer) packets never influence later ones.",
  ["inputs"], "for every byte stream, every segmentation into packets, every packet buffer size and both buffer ownership kinds",
  "unit tests feed a handful of well-formed packets in one shot; framing has to hold for every stream, every history of earlier packets left in the reused buffer and every buffer size",
  ["src/protocol/recv_packet.rs", "src/protocol/packet.rs", "src/util/managed_vec.rs", SM],
  [("RecvPacketStateMachine::pump", "src/protocol/recv_packet.rs"), ("PacketBuf::new checksum check", "src/protocol/packet.rs"), ("ManagedVec::push", "src/util/managed_vec.rs"), ("Packet::from_buf", "src/protocol/packet.rs")],
  ["receive state and index", "reused packet buffer"], OBS)

p("P02", "Acknowledgement discipline and no-ack mode",
  "Every correctly received command packet is acknowledged with exactly one '+' written before any other byte of its response, and nothing else is ever acknowledged, until no-ack mode is on. No-ack mode is switched on only by a no-ack request to a target that permits it; that request itself is still acknowledged and answered OK, and afterwards no '+' is ever sent again in that session, including after the session object has been returned to idle for re-use. Without the target's permission the request gets an empty reply and acknowledgements go on.",
  ["inputs", "histories"], "for every sequence of packets, acks, interrupts and session re-uses",
  "tests look at single replies; the guarantee is about every packet after an arbitrary earlier history of mode changes, errors and state transitions",
  [CI, "src/stub/core_impl/no_ack_mode.rs", "src/protocol/commands/_QStartNoAckMode.rs"],
  [("ack before handling", CI+" handle_packet"), ("mode switch", "src/stub/core_impl/no_ack_mode.rs")], ["NO_ACK_MODE feature bit"], OBS)

p("P03", "Every reply is a well-formed packet that decodes to the intended payload",
  "Everything written to the client other than acknowledgements is a sequence of complete packets `$body#cc` whose two-hex-digit checksum is the modulo-256 sum of the body bytes as sent. Expanding run-length encoding by the GDB rules (a repeat count character is printable, at most 126, and never '$' or '#') and un-escaping binary data gives back exactly the intended payload; when the target turns run-length encoding off none is used. Binary payload bytes '$', '#', '}' and '*' are always escaped.",
  ["inputs"], "for every payload (all run lengths, all byte values) and both run-length-encoding settings",
  "the encoder's behaviour depends on run lengths and byte values; the existing tests exercise a single reply string",
  ["src/protocol/response_writer.rs"],
  [("ResponseWriter::write / flush / RLE", "src/protocol/response_writer.rs"), ("write_binary escaping", "src/protocol/response_writer.rs")], ["rle_char, rle_repeat, checksum"], ["Connection::write bytes"])

p("P04", "Exactly one reply per command, flushed, and none where the protocol forbids it",
  "Every accepted command is answered by exactly one reply packet, preceded only by console-output packets, and the connection is flushed after the last byte of it. The exceptions are resume-type commands that actually resume the target, which get no reply until a stop is reported (exactly one stop reply, flushed, per reported stop), and a kill of a target without extended mode, which gets none. No packet is ever sent unsolicited, in particular not on acks, Ctrl-C bytes, or return to idle.",
  ["inputs", "histories"], "for every command sequence, target configuration and target outcome",
  "a client that gets zero or two replies de-synchronises for ever; this concerns every command in every configuration with every target outcome, not a sample",
  [CI, SM], [("handle_packet reply and flush", CI), ("report_stop", SM)], None, OBS)

p("P05", "Session states change only as the documented life cycle allows",
  "A session is idle, running, handling a Ctrl-C, or disconnected, and changes state only so: a successful resume command takes idle to running; reporting a non-terminal stop takes running to idle; a Ctrl-C byte takes idle or running to Ctrl-C handling and handling it leads back to where it came from (or straight to idle when a stop is reported for a running target); detach, effective kill, and process exit/termination stop reasons take it to disconnected with the matching reason and value; a disconnected session returns to idle only on request. All other commands leave the state unchanged, whatever the target answers non-fatally.",
  ["histories"], "for every interleaving of packets, stops, interrupts and re-use",
  "the state graph is reached only through long interleavings of client bytes and event-loop calls that no test drives",
  [SM, CI, "src/stub/mod.rs"], [("GdbStubStateMachineInner::incoming_data/report_stop/interrupt_handled/return_to_idle", SM), ("HandlerStatus -> State", CI)], ["GdbStubStateMachine variant and payload"], OBS)

p("P06", "Ctrl-C is never lost and its stop is reported at the right time",
  "A Ctrl-C byte received outside a packet always surfaces as a Ctrl-C event, while the same byte value inside a packet is only data. If it is handled with a stop reason while the target was running, that stop is reported at once; if it came while idle, nothing is sent then, and the stop reason is reported immediately after the next resume command, exactly once, with no later resume being affected by it. Handling without a stop reason sends nothing and leaves a running target running.",
  ["schedules", "histories"], "for every placement of Ctrl-C bytes relative to packets, resumes and stops, and every handler answer",
  "the deferred report depends on the order of interrupt, handler result and the next resume, a schedule space tests do not enumerate",
  [SM, "src/protocol/recv_packet.rs"], [("CtrlCInterrupt{from_idle}", SM), ("deferred_ctrlc_stop_reason", SM)], ["deferred_ctrlc_stop_reason", "from_idle"], OBS)

p("P07", "Stop replies say exactly what stopped, and only supported reasons are reported",
  "Each stop reason reported by the event loop becomes the corresponding GDB stop reply carrying exactly its signal, exit code, thread, watch kind and address, replay-log end, or syscall number and direction. A stop reason that needs an optional feature the target does not implement (software/hardware breakpoints, watchpoints, reverse execution, syscall catching) is rejected with an error and no stop reply is sent for it. Reasons that name a thread name it in the thread-id format negotiated with the client, and the library's named signals carry the numbers GDB gives them.",
  ["inputs", "configurations"], "for every stop reason value and every combination of implemented features, single- and multi-threaded",
  "there are many reason x feature x negotiation combinations; none is covered by the tests",
  ["src/stub/core_impl/resume.rs", "src/stub/stop_reason.rs"], [("finish_exec", "src/stub/core_impl/resume.rs"), ("write_stop_common", "src/stub/core_impl/resume.rs"), ("SingleThread -> MultiThread conversion", "src/stub/stop_reason.rs")], None, OBS)

p("P08", "Thread-directed operations act on the thread the client selected",
  "Register and memory operations act on the thread last established for such operations, and legacy continue/step commands on the thread last established for resuming: by the client's thread-selection commands (each kind independently), or by the latest stop reported with a thread, which re-targets both. Selecting 'any' thread picks an active thread of the target and is refused with an error reply when there is none. Querying state never changes either selection.",
  ["histories"], "for every history of selections, stops, queries and operations",
  "which thread an operation hits depends on the whole prior history, and a wrong thread looks like a plausible answer",
  ["src/stub/core_impl/base.rs", "src/stub/core_impl/resume.rs"], [("H packet", "src/stub/core_impl/base.rs"), ("write_stop_common", "src/stub/core_impl/resume.rs"), ("get_sane_any_tid", "src/stub/core_impl/base.rs")], ["current_mem_tid", "current_resume_tid"], OBS)

p("P09", "Resume commands become exactly the requested resume actions",
  "A resume request resumes the target exactly once, with exactly the requested action, signal and address range for each thread it names, in the order given, after clearing all previously set actions (multi-threaded), and reverse requests go to the matching reverse operation. A request the target cannot perform (step, range step or reverse without support, malformed or unsupported action lists) never resumes the target. The actions query lists exactly the actions the target implements.",
  ["inputs", "configurations"], "for every action list, signal, range, thread id and feature set",
  "action lists are combinatorial and the tests contain only two parser samples",
  ["src/stub/core_impl/resume.rs", "src/stub/core_impl/reverse_exec.rs", "src/protocol/commands/_vCont.rs", "src/protocol/commands/_c.rs", "src/protocol/commands/_s.rs"],
  [("do_vcont_single_thread / do_vcont_multi_thread", "src/stub/core_impl/resume.rs"), ("Actions parsing", "src/protocol/commands/_vCont.rs"), ("bc/bs", "src/stub/core_impl/reverse_exec.rs")], None, OBS)

p("P10", "Memory reads and writes transfer exactly the requested bytes",
  "A memory read returns, in order and starting at the requested address, exactly the bytes the target supplied for a prefix of the requested range: contiguous addresses, no gaps or mixed-in data, never more than requested, whatever the request length relative to the internal buffer, and an error reply instead if the target fails before any data was obtained. A memory write, hex or binary, hands the target exactly the decoded bytes at the requested address, once. Addresses too wide for the target are rejected before the target is called.",
  ["inputs"], "for every address, length, data, target address width, buffer size, and short-read or error pattern of the target",
  "requests longer than the buffer, short reads and failing chunks only occur with particular sizes; tests parse one packet each",
  ["src/stub/core_impl/base.rs", "src/stub/core_impl/x_upcase_packet.rs", "src/protocol/commands/_m.rs", "src/protocol/commands/_m_upcase.rs", "src/protocol/commands/_x_upcase.rs"],
  [("m chunk loop", "src/stub/core_impl/base.rs"), ("M/X parsing", "src/protocol/commands/_m_upcase.rs"), ("hex decode", "src/protocol/common/hex.rs")], None, OBS)

p("P11", "Register reads and writes are faithful",
  "Reading all registers returns the serialized register file byte for byte, with unavailable bytes shown as `xx`; writing them passes the decoded values unchanged. Single-register access addresses the register the client named, returns exactly the target's value (or `xx` for every byte of an unavailable register), and passes written values unchanged; unknown registers get an empty reply without the target being called. A target value whose size disagrees with the register's declared size is an error, not a wrong reply.",
  ["inputs"], "for every register value, id, size and target outcome",
  "no test drives register packets",
  ["src/stub/core_impl/base.rs", "src/stub/core_impl/single_register_access.rs", "src/protocol/commands/_p.rs", "src/protocol/commands/_p_upcase.rs", "src/protocol/commands/_g_upcase.rs"],
  [("g/G", "src/stub/core_impl/base.rs"), ("p/P", "src/stub/core_impl/single_register_access.rs")], None, OBS)

p("P12", "Breakpoint and watchpoint commands map to the right operation",
  "Each insert/remove request invokes exactly one target operation: add or remove as asked, of the breakpoint kind or watch kind its type digit names, with exactly the requested address and kind or length. Success is answered OK, a target refusal with an error reply, and a type the target does not implement (or an unknown type) with an empty reply and no target call.",
  ["inputs", "configurations"], "for every type, address, kind/length, target outcome and feature set",
  "the tests only parse one trailing-bytes sample",
  ["src/stub/core_impl/breakpoints.rs", "src/protocol/commands/breakpoint.rs"], [("handle_breakpoints", "src/stub/core_impl/breakpoints.rs"), ("BasicBreakpoint parsing", "src/protocol/commands/breakpoint.rs")], None, OBS)

p("P13", "Feature negotiation advertises exactly what is implemented",
  "The reply to feature negotiation lists an optional feature if and only if the target implements or permits it, and always an honest packet size: a command frame of the advertised size is accepted. Multiprocess thread-id syntax is used towards the client if and only if the client asked for it, and later negotiations override earlier ones.",
  ["configurations", "histories"], "for every combination of implemented features, packet buffer sizes and negotiation histories",
  "the feature lattice has thousands of combinations; no test looks at a negotiation reply",
  ["src/stub/core_impl/base.rs", "src/protocol/commands/_qSupported.rs", "src/protocol/common/thread_id.rs"], [("qSupported handling", "src/stub/core_impl/base.rs"), ("feature parsing", "src/protocol/commands/_qSupported.rs"), ("write_specific_thread_id", "src/protocol/response_writer.rs")], ["MULTIPROCESS feature bit"], OBS)

p("P14", "Unimplemented features get an empty reply and never reach the target",
  "A command that is unknown, or that belongs to an optional feature the target does not implement, is answered with an empty packet, calls nothing on the target and changes no session state. The one exception is a legacy resume command to a target without resume support, which (unless opted out) is answered with an explanatory console message and a dummy stop reply, still without resuming anything.",
  ["inputs", "configurations"], "for every command and every subset of implemented features",
  "the tests run against full-featured targets only",
  [CI, "src/protocol/commands.rs"], [("commands! feature gates", "src/protocol/commands.rs"), ("Unknown command and resume stub", CI)], None, OBS)

p("P15", "Target and connection errors are reported faithfully",
  "When an operation with recoverable errors fails recoverably, the client gets an error reply carrying the target's error number (121 when there is none) and the session continues normally. A fatal target error ends the session with an error from which exactly the target's error can be recovered; a failing write or flush on the connection likewise ends it with exactly that connection error, marked as a write error. No other outcome reports a target or connection error, and after a recoverable error later commands behave as if the failed one had merely had no effect.",
  ["fault_sequences", "histories"], "for every operation, error kind and error number, and every write or flush at which the connection can fail",
  "faults can strike at every byte written and every target call; tests have no failing target or connection",
  [CI, "src/stub/error.rs"], [("TargetResultExt::handle_error", CI), ("InternalError conversions", "src/stub/error.rs")], None, OBS)

p("P16", "No client input can crash or hang the stub",
  "Whatever bytes a client sends, in whatever state the session is, with any target configuration, address width and packet buffer size, handling each byte terminates and never panics, overflows or reads out of bounds: it ends in a reply, no reply, or a reported error. This includes malformed, truncated, oversized and numerically extreme arguments.",
  ["inputs"], "for every byte sequence, state, configuration and buffer size, with a target that honours its contracts",
  "robustness quantifies over all inputs; the no-panic test only inspects one minimal binary",
  ["src/protocol/commands.rs", "src/protocol/common/hex.rs", "src/protocol/packet.rs", "src/stub/core_impl/base.rs", "src/stub/core_impl/tracepoints.rs"], [("ParseCommand impls", "src/protocol/commands/"), ("in-place hex/binary decoding", "src/protocol/common/hex.rs"), ("arithmetic on client-supplied numbers", "src/stub/core_impl")], None, OBS)

p("P17", "Object transfers return exactly the requested window",
  "Reading a transferable object (target description, memory map, auxiliary vector, exec-file name, library list) asks the right target operation for exactly the requested object, annex, offset and length, and replies with exactly the bytes it produced, marked as 'more' if there are any and 'last' if none. Reading the built-in target description in windows of any size until the end reconstructs it exactly; offsets at or past the end give an empty last part and unknown annexes an error.",
  ["inputs"], "for every object, annex, offset, length and content",
  "window arithmetic and binary escaping depend on offset, length, buffer size and content",
  ["src/stub/core_impl/target_xml.rs", "src/stub/core_impl/memory_map.rs", "src/stub/core_impl/auxv.rs", "src/stub/core_impl/exec_file.rs", "src/stub/core_impl/libraries.rs", "src/protocol/common/qxfer.rs"], [("qXfer parsing", "src/protocol/common/qxfer.rs"), ("handle_target_xml", "src/stub/core_impl/target_xml.rs")], None, OBS)

p("P18", "Host I/O requests and results are transferred faithfully",
  "Every host file operation reaches the target once with exactly the decoded path, descriptor, flags, mode, offset, count and data the client sent, and its result comes back exactly: the return value, the data read, or the file status in the protocol's fixed big-endian layout. A recoverable failure is returned as -1 with the error number, and the library's named errors, open flags and file modes have the protocol's own numbers; an operation the target does not implement gets an empty reply.",
  ["inputs"], "for every operation, argument, result and feature subset",
  "no test drives host I/O",
  ["src/stub/core_impl/host_io.rs", "src/protocol/commands/_vFile_open.rs", "src/protocol/commands/_vFile_pread.rs", "src/protocol/commands/_vFile_pwrite.rs"], [("handle_host_io", "src/stub/core_impl/host_io.rs"), ("vFile parsing", "src/protocol/commands/_vFile_*.rs")], None, OBS)

p("P19", "Extended-mode process control does what the client asked",
  "Run, attach, kill, restart and query-attached requests reach the target with exactly the decoded program name, arguments (in order) or process id, and the replies and session state follow the target's answer: a run or attach reports the stopped process, and a kill disconnects only if the target says so. Environment, working-directory, ASLR and startup-shell requests apply exactly the decoded setting.",
  ["inputs", "configurations"], "for every request, argument list, target answer and feature subset",
  "no test drives extended mode beyond two parser samples",
  ["src/stub/core_impl/extended_mode.rs", "src/stub/core_impl/base.rs", "src/protocol/commands/_vRun.rs", "src/protocol/commands/_QEnvironmentHexEncoded.rs"], [("handle_extended_mode", "src/stub/core_impl/extended_mode.rs"), ("kill / detach", "src/stub/core_impl/base.rs")], None, OBS)

p("P20", "Tracepoint definitions and control requests reach the target intact",
  "A tracepoint definition is handed over as: begin with exactly its number, address, enablement, step and pass counts; then each action in order with exactly its decoded content; then complete exactly when the client signals that no more follows. Source attachments, buffer configuration, frame selection, and init/start/stop requests are likewise passed on exactly once with the decoded values. Definitions with unsupported features are rejected before the target is told of completion.",
  ["inputs", "histories"], "for every definition sequence, action list, buffer setting and frame request",
  "definitions span several packets and nested encodings; the tests have none",
  ["src/stub/core_impl/tracepoints.rs", "src/protocol/commands/_QTDP.rs", "src/protocol/commands/_QTDPsrc.rs", "src/protocol/commands/_QTBuffer_upcase.rs"], [("handle_tracepoints", "src/stub/core_impl/tracepoints.rs"), ("parse_raw_actions", "src/stub/core_impl/tracepoints.rs")], None, OBS)

p("P21", "Tracepoint upload, status and trace data are reported faithfully",
  "Uploading tracepoints enumerates, through first/next requests, exactly the items the target yields, each once, following the target's next-step answers, and then ends. Experiment status and statistics, per-tracepoint status, selected-frame descriptions and raw trace-buffer contents are reported exactly as the target supplied them.",
  ["histories", "inputs"], "for every target-driven enumeration order and every status value",
  "the upload cursor is a multi-request state machine driven by target answers; the tests have none",
  ["src/stub/core_impl/tracepoints.rs", "src/target/ext/tracepoints.rs"], [("tracepoint enumeration cursor", "src/stub/core_impl/tracepoints.rs"), ("qTStatus/qTP/qTBuffer/QTFrame", "src/stub/core_impl/tracepoints.rs")], ["TracepointEnumerateState cursor"], OBS)

p("P22", "Thread queries answer with the target's actual threads",
  "The thread list is exactly the target's active threads in order, followed by the end marker on the next request; an is-alive query is answered OK if and only if the target has that thread; extra thread info is the hex encoding of the target's text for that thread; the initial stop query names an active thread, or reports an exited process when there is none. Thread ids are parsed and printed consistently in plain and multiprocess syntax, with the target's current process id.",
  ["inputs", "configurations"], "for every set of threads, thread id syntax and negotiation state",
  "ids are formatted and parsed in two syntaxes over the whole number range; tests have no thread lists",
  ["src/stub/core_impl/base.rs", "src/stub/core_impl/thread_extra_info.rs", "src/protocol/common/thread_id.rs", "src/protocol/response_writer.rs"], [("qfThreadInfo/T/?", "src/stub/core_impl/base.rs"), ("ThreadId parsing", "src/protocol/common/thread_id.rs"), ("write_specific_thread_id", "src/protocol/response_writer.rs")], None, OBS)

p("P23", "Trait-object targets and connections behave exactly like the originals",
  "Using a target or connection through the provided reference-to-trait-object, boxed, or socket adapters gives exactly the same session as using it directly: same capabilities advertised, same target calls, same bytes on the wire, same errors and same states, for every command of every optional feature.",
  ["configurations", "inputs"], "for every feature combination, command and session history",
  "each forwarded method can be forgotten or miswired independently and the defaulted trait methods make it compile",
  ["src/target/mod.rs", "src/conn/impls/mod.rs", "src/conn/impls/boxed.rs", "src/conn/impls/unixstream.rs", "src/conn/impls/tcpstream.rs"], [("impl_dyn_target!", "src/target/mod.rs"), ("Connection impls", "src/conn/impls/")], None, OBS)

p("P24", "The blocking driver follows the same session rules and stops correctly",
  "The blocking event-loop driver produces, for the same client bytes and target events, the same target calls, replies and state changes as stepping the state machine by hand: it reads from the client only while idle, waits for target events only while running, and asks for interrupt handling exactly once per Ctrl-C. It returns the disconnect reason when the session ends, exactly the target's error for target failures, and a connection error marked as a read error for read failures. A session refuses to start on a target with no software breakpoints that did not opt out of the guard rail, before the connection is touched.",
  ["schedules", "fault_sequences"], "for every interleaving of client data, target events, interrupts and failures",
  "the tests never run the blocking loop",
  ["src/stub/mod.rs"], [("GdbStub::run_blocking", "src/stub/mod.rs"), ("GdbStub::run_state_machine", "src/stub/mod.rs")], None, ["BlockingEventLoop callbacks", "ConnectionExt::read", "return value"])

p("P25", "Architecture register files are laid out as GDB expects and round-trip",
  "For every supported architecture, serializing a register file yields each register at its documented offset and width in the target's byte order, with padding where GDB expects it; deserializing those bytes gives back an equal register file, and input shorter than the file is rejected. Each raw register number maps to at most one register whose declared size matches its slot in the serialized file, and unknown numbers map to none; likewise each breakpoint kind number maps to the kind documented for the architecture or to none, and a target description that lists registers lists them with the same numbers and sizes.",
  ["inputs"], "for every register value and every raw register number of every architecture",
  "tests round-trip only a couple of architectures with fixed values; a transposed or mis-sized field needs distinct values in every field to show",
  ["gdbstub_arch/src"], [("Registers::gdb_serialize/gdb_deserialize", "gdbstub_arch/src/*/reg/*.rs"), ("RegId::from_raw_id", "gdbstub_arch/src/*/reg/id.rs")], None, ["Registers and RegId trait methods"])

p("P26", "Monitor commands and their console output are delivered in order",
  "A monitor command reaches the target once as the exact decoded text, and everything the target prints is delivered to the client as console-output packets whose decoded contents concatenate to exactly the printed bytes in order, all before the final reply; an empty monitor command is delivered as an empty text. Console output never alters the final reply.",
  ["inputs"], "for every command text and every pattern of partial writes and flushes by the target",
  "buffering and flush order of console output depend on the target's write pattern",
  ["src/stub/core_impl/monitor_cmd.rs", "src/protocol/console_output.rs", "src/protocol/commands/_qRcmd.rs"], [("handle_monitor_cmd", "src/stub/core_impl/monitor_cmd.rs"), ("ConsoleOutput buffering", "src/protocol/console_output.rs")], None, OBS)

p("P27", "Syscall-catch, section-offset and register-info queries are answered exactly",
  "Syscall-catch requests enable catching for exactly the listed syscall numbers in order (or all when none is listed), or disable it, as asked. Section-offset replies give exactly the offsets the target supplied in the section or segment form it chose, and register-info replies give exactly the fields of the register description supplied for the requested register, or the end-of-list error when the target says it is done.",
  ["inputs"], "for every number list, offset value, optional field combination and target outcome",
  "optional fields and value ranges are combinatorial; the tests have none",
  ["src/stub/core_impl/catch_syscalls.rs", "src/stub/core_impl/section_offsets.rs", "src/stub/core_impl/lldb_register_info.rs", "src/protocol/commands/_QCatchSyscalls.rs", "src/protocol/commands/_qRegisterInfo.rs"], [("handle_catch_syscalls", "src/stub/core_impl/catch_syscalls.rs"), ("handle_section_offsets", "src/stub/core_impl/section_offsets.rs"), ("handle_lldb_register_info", "src/stub/core_impl/lldb_register_info.rs")], None, OBS)

p("P28", "Provided connections are faithful byte streams",
  "For the provided connections (TCP and Unix sockets, boxed and borrowed trait objects, and types relying on the trait's default methods), every byte written, singly or as a buffer, reaches the peer exactly once and in order, blocking while the peer is slow and stopping at the first failing write with exactly its error, whatever was read or peeked before. Reading returns the peer's bytes in order, waits while there are none and fails once the peer has closed; while the peer is connected, peeking never waits, never consumes anything, and reports exactly the byte the next read returns, or none if there is none. Starting a session on TCP switches off Nagle's delay, directly or through a trait object, and does nothing on connections that do not ask for it.",
  ["histories", "inputs", "fault_sequences"], "for every sequence of operations of both ends on every provided connection",
  "no test uses a socket; the effects (a descriptor left non-blocking, a byte consumed by peeking, writes continuing after a failure) show only in particular sequences of reads, peeks and writes and with a slow or closing peer",
  ["src/conn/mod.rs", "src/conn/impls/tcpstream.rs", "src/conn/impls/unixstream.rs", "src/conn/impls/boxed.rs", "src/conn/impls/mod.rs"],
  [("Connection::write_all default", "src/conn/mod.rs"), ("TcpStream impls", "src/conn/impls/tcpstream.rs"), ("UnixStream impls", "src/conn/impls/unixstream.rs")], None, ["Connection and ConnectionExt methods", "the other end of the socket"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
