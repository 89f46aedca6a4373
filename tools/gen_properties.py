#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["bytes written to the connection", "calls made on the target"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CI = "src/stub/core_impl/"
CM = "src/protocol/commands/"

p("P01", "Incoming packets are reassembled exactly and checksums are enforced",
  "Bytes fed one at a time are turned into exactly the packets the client sent: every well-formed `$body#cs` is executed once, with exactly its body, whatever came before it, whatever byte its body starts with, and however large it is up to the packet buffer's capacity, and `+` between packets has no effect. A packet whose checksum is wrong or is not two hex digits, a `-`, or any other stray byte between packets (Ctrl-C aside) ends the session with an error and is never executed. A fixed packet buffer accepts a packet exactly when the whole packet including `$` and `#cs` fits and otherwise reports an overflow; a growable one always accepts it.",
  ["inputs", "histories", "configurations"],
  "All byte streams made of packets with arbitrary bodies (any byte except '#'), acks, corruptions and stray bytes, in any order, for all buffer sizes and both buffer kinds.",
  "The existing tests never feed a byte to the state machine: only individual command parsers are unit tested. Stale bytes left by earlier packets, boundary capacities and single-bit corruptions need a sweep over histories.",
  ["src/protocol/recv_packet.rs", "src/protocol/packet.rs", "src/util/managed_vec.rs", "src/stub/state_machine.rs"],
  [("byte pump", "src/protocol/recv_packet.rs:pump"), ("checksum check", "src/protocol/packet.rs:PacketBuf::new"), ("capacity check", "src/util/managed_vec.rs:push")],
  [("idx/state", "position in the packet being received", "src/protocol/recv_packet.rs")])

p("P02", "No byte stream from the client can panic the stub or read out of bounds",
  "Whatever bytes the client sends, in whatever state, against any target with any set of supported features - even one that claims to have stored more bytes than it was given room for - feeding a byte returns normally: it never panics, never overflows arithmetic, never indexes out of bounds and never loops forever. A build with all unchecked memory accesses replaced by checked ones behaves identically, byte for byte and call for call.",
  ["inputs", "histories", "configurations"],
  "All byte streams (random, grammar-based, mutated valid sessions), all feature combinations, single- and multi-threaded targets, several address widths; builds with and without the checked-access feature.",
  "Unit tests run a few dozen well-formed inputs; totality is a universally quantified statement over hostile inputs, and the unchecked accesses are only exercised by inputs nobody wrote down.",
  ["src/protocol/packet.rs", "src/protocol/commands.rs", "src/protocol/commands/", "src/protocol/common/hex.rs", "src/stub/core_impl/"],
  [("unchecked slicing", "src/protocol/packet.rs:strip_prefix,into_body"), ("in-place hex decode", "src/protocol/common/hex.rs:decode_hex_buf,decode_bin_buf"), ("read buffer carving", CM + "_m.rs,_p.rs,_qXfer_*.rs,_vFile_*.rs")])

p("P03", "Every reply is a well-formed, correctly checksummed, flushed packet",
  "Everything the stub writes is a sequence of `+` acknowledgements and `$body#cs` packets where cs is the two-digit hex sum of the bytes actually sent and the body contains no unescaped `$` or `#`. Each accepted command is acknowledged exactly once (before its reply, while acks are on) and gets exactly one reply packet - resume requests when the target later stops, requests that print console text after their text packets, and a kill outside extended mode none. Whenever the stub waits for client input, everything it has written, including acknowledgements, has been flushed.",
  ["inputs", "histories", "configurations"],
  "All sessions of valid commands over all feature sets, including reply payloads containing '#', '$', '}', '*' and long runs.",
  "There is no test of the reply path at all; balance and flush ordering are properties of whole histories.",
  ["src/protocol/response_writer.rs", "src/stub/core_impl.rs", "src/stub/state_machine.rs"],
  [("framing and checksum", "src/protocol/response_writer.rs:flush"), ("ack and reply", "src/stub/core_impl.rs:handle_packet"), ("stop reply", "src/stub/state_machine.rs:report_stop")])

p("P04", "Run-length encoding of replies is transparent and legal",
  "Expanding the run-length encoding of any reply yields exactly the reply that would have been sent with run-length encoding turned off. The encoded form only uses repeat counts that are printable, at least 3 repeats, never `#` or `$`, and no run-length marker appears when the target turned run-length encoding off.",
  ["inputs", "configurations"],
  "All reply payloads, in particular every run length of every character from 1 to well past the maximum encodable run, alone and in combination.",
  "No unit test covers the encoder; the boundary run lengths (7, 8, 15, 98, 99, ...) are only hit by specific data.",
  ["src/protocol/response_writer.rs"],
  [("run-length encoder", "src/protocol/response_writer.rs:write")],
  [("rle_char/rle_repeat", "pending run", "src/protocol/response_writer.rs")])

p("P05", "Acknowledgement mode is negotiated once and then respected",
  "Until no-ack mode is negotiated every accepted command packet is answered by exactly one `+` before its reply; after the client enables it (only possible when the target offers it), the enabling request itself is still acknowledged and no `+` is ever sent again in that session. Acks received from the client are ignored in both modes and the replies are otherwise the same in both modes.",
  ["histories", "configurations"],
  "All command histories with the enabling request at every position (or several times), for targets that do and do not offer no-ack mode.",
  "No test drives a session; the guarantee concerns every position in a history at which the switch can happen.",
  ["src/stub/core_impl.rs", CI + "no_ack_mode.rs"],
  [("ack emission", "src/stub/core_impl.rs:handle_packet"), ("mode switch", CI + "no_ack_mode.rs")])

p("P06", "Memory reads return exactly the target's bytes",
  "A memory read of any address and length returns, in order, exactly the bytes the target reports for that address range on the selected thread, however large the request is relative to the packet buffer; when the target can only provide a prefix, the reply is exactly that prefix. If nothing can be read the target's error is reported; data and an error are never mixed in one reply. The target is never asked for addresses outside the requested range, and a request that does not fit the address type is rejected.",
  ["inputs", "configurations"],
  "All (address, length, buffer size, address width, accessible region layout, thread) combinations, including chunk boundaries and the top of the address space.",
  "The only test of this command checks parsing of two packets; chunking and partially-readable ranges are never run.",
  [CI + "base.rs", CM + "_m.rs"],
  [("chunked read loop", CI + "base.rs:Base::m"), ("buffer carving", CM + "_m.rs")])

p("P07", "Memory writes deliver exactly the client's bytes once",
  "A hex or binary memory write results in exactly one write on the target, with the given address, the selected thread and byte-for-byte the data the client encoded (all 256 values, escapes decoded), and success is reported only if the target accepted it. A malformed write never reaches the target.",
  ["inputs", "configurations"],
  "All addresses, data of any length and content up to the packet capacity, hex and binary form, any escaping of any byte, all address widths.",
  "No unit test covers either command; in-place decoding is sensitive to specific byte patterns and lengths.",
  [CI + "base.rs", CI + "x_upcase_packet.rs", CM + "_m_upcase.rs", CM + "_x_upcase.rs", "src/protocol/common/hex.rs"],
  [("in-place hex decode", "src/protocol/common/hex.rs:decode_hex_buf"), ("binary unescape", "src/protocol/common/hex.rs:decode_bin_buf")])

p("P08", "Bulk register access transports every byte faithfully",
  "A read of all registers returns exactly the architecture's serialisation of the registers the target supplied for the selected thread, with unavailable bytes shown as `xx`, and a write of all registers hands the target exactly the registers decoded from the client's bytes (a byte the client sends as `xx` arrives as zero, as documented for hex strings). Data that does not decode into the architecture's registers never reaches the target, and target errors are reported as errors.",
  ["inputs", "histories", "configurations"],
  "All register contents including arbitrary patterns of unavailable bytes, all lengths, all thread selections.",
  "No test covers these commands.",
  [CI + "base.rs", CM + "_g_upcase.rs"],
  [("serialize", CI + "base.rs:Base::g"), ("deserialize", CI + "base.rs:Base::G")])

p("P09", "Single register access addresses the right register, size and thread",
  "Reading one register asks the target for exactly that register on the selected thread with a buffer of the register's size, and the reply is exactly the bytes returned - or `xx` for each byte when a sized register is unavailable; writing passes exactly the given bytes. An unknown register number gets an empty reply without touching the target, and a target that returns the wrong number of bytes for a sized register never results in a wrong-sized reply.",
  ["inputs", "configurations"],
  "All register numbers, fixed and variable sizes, values, returned lengths, threads, buffer sizes.",
  "Only the parser of one of the two packets has a unit test.",
  [CI + "single_register_access.rs", CM + "_p.rs", CM + "_p_upcase.rs"],
  [("read/write dispatch", CI + "single_register_access.rs:inner")])

p("P10", "Breakpoint and watchpoint requests reach the target exactly once and unaltered",
  "Each insert or remove request results in exactly one call of the matching kind (software, hardware, write/read/access watchpoint; insert or remove) with the requested address and kind or length; OK is reported exactly when the target accepted it, and a refusal or error is reported as an error. Requests of an unsupported type get an empty reply, and requests whose address, length or kind does not fit the target are never passed on.",
  ["inputs", "histories", "configurations"],
  "All types 0-255, addresses, kinds/lengths, trailing condition/command lists, all subsets of supported breakpoint types and address widths.",
  "The unit tests only parse two well-formed packets; they never reach a target.",
  [CI + "breakpoints.rs", CM + "breakpoint.rs", "src/target/ext/breakpoints.rs"],
  [("dispatch", CI + "breakpoints.rs:handle_breakpoint_common"), ("parser", CM + "breakpoint.rs")])

p("P11", "Single-threaded resume requests do exactly what was asked",
  "On a single-threaded target every continue, step or range-step request - in legacy or multi-action form, with or without a signal - results in exactly one matching resume call carrying exactly the requested signal and range. Requests the target does not support never resume it, and a request that is rejected never resumes it.",
  ["inputs", "histories", "configurations"],
  "All legacy and multi-action resume packets, all signal numbers, ranges, thread ids, subsets of stepping support.",
  "The unit tests only parse packets; the mapping to target calls is never run.",
  [CI + "resume.rs", CM + "_vCont.rs", CM + "_c.rs", CM + "_s.rs"],
  [("single-thread resume", CI + "resume.rs:do_vcont_single_thread")])

p("P12", "Multi-threaded resume requests set exactly the requested per-thread actions",
  "On a multi-threaded target every resume request clears earlier actions, then records exactly the requested action (continue or step with its signal, or range step) for exactly the threads named, in order, then resumes exactly once; threads covered by a plain continue-all keep the default action. Legacy continue and step act on the thread last selected for resumption, or on all when all were selected. A request that is rejected never resumes the target.",
  ["inputs", "histories", "configurations"],
  "All multi-action requests over any list of actions and thread ids (specific, all, absent, with process ids), all signals, legacy requests after any selection history, all subsets of stepping support.",
  "The unit tests only parse packets; the mapping to target calls is never run.",
  [CI + "resume.rs", CM + "_vCont.rs", CM + "_h_upcase.rs"],
  [("multi-thread resume", CI + "resume.rs:do_vcont_multi_thread"), ("resume selection", CI + "base.rs:Base::H")],
  [("current_resume_tid", "thread the legacy resume packets act on", "src/stub/core_impl.rs")])

p("P13", "Stop replies tell the client exactly why and where the target stopped",
  "Reporting a stop sends exactly one stop reply that carries the signal, thread, and breakpoint, watchpoint (kind and address), replay-log, or system-call details the target reported - numbers and thread ids exact - and exit or termination reports carry the exact code. The thread named in the report becomes the thread that later memory, register and resume requests act on. Reports of a kind the target did not enable are rejected with an error instead of being sent.",
  ["inputs", "histories", "configurations"],
  "All stop reasons with all signals, threads, addresses, codes; all feature subsets; both target kinds; with and without multiprocess ids.",
  "No test constructs a stop reason.",
  [CI + "resume.rs", "src/stub/stop_reason.rs", "src/stub/state_machine.rs"],
  [("report", CI + "resume.rs:finish_exec,write_stop_common"), ("conversion", "src/stub/stop_reason.rs")],
  [("current_mem_tid", "thread of memory and register access", "src/stub/core_impl.rs")])

p("P14", "Interrupts and state transitions follow the documented protocol",
  "The session is idle until a resume request is accepted, running until the target stops, interrupted exactly when a Ctrl-C byte arrives between packets, and disconnected once and for all after a kill, detach or exit. An interrupt while running lets the target stop now or keep running; an interrupt while idle that yields a stop reason sends nothing immediately and the most recent such reason is reported exactly once, right after the next resume request. Interrupt handling never loses or duplicates packets that surround it.",
  ["histories", "schedules"],
  "All interleavings of commands, Ctrl-C bytes, target stops, and interrupt answers (none or a reason), to any length.",
  "No test drives the state machine; the guarantee is about interleavings.",
  ["src/stub/state_machine.rs", CI + "resume.rs"],
  [("transitions", "src/stub/state_machine.rs:incoming_data,interrupt_handled,report_stop,return_to_idle")],
  [("deferred_ctrlc_stop_reason", "stop reason waiting for the next resume", "src/stub/state_machine.rs")])

p("P15", "Sessions end with the right reason and the right farewell",
  "A detach is answered OK and ends the session as a disconnect; a kill ends it as killed, after asking a target with process control whether to end and continuing if it says no; an exit or termination reported by the target ends it with that exact code or signal. The reported disconnect reason always matches what happened, and no request is executed after the session ended.",
  ["inputs", "histories", "configurations"],
  "All kill/detach forms with all process ids, all exit codes and signals, with and without process-control support, at any point of a session.",
  "No test ends a session.",
  [CI + "base.rs", CI + "extended_mode.rs", CI + "resume.rs", "src/stub/core_impl.rs"],
  [("kill/detach", CI + "base.rs:Base::k,D"), ("exit", CI + "resume.rs:finish_exec")])

p("P16", "Threads and processes are identified, listed and selected correctly",
  "The thread list names every active thread exactly once in the target's order, liveness queries return exactly the target's answer, and the current-thread query and `?` name an active thread - the current-thread query the selected one, as long as it is active. Selecting a thread makes every later memory and register request act on exactly that thread, while resume selection is kept separately; `any` picks an active thread. Process ids appear in thread ids exactly when the client negotiated multiprocess support, and then carry the target's process id.",
  ["inputs", "histories", "configurations"],
  "All sets of threads (including large ids and none), all thread-id syntaxes (any, all, with and without process), all selection histories, both target kinds.",
  "Only the thread-id parser has a unit test.",
  [CI + "base.rs", CI + "extended_mode.rs", "src/protocol/common/thread_id.rs", CM + "_h_upcase.rs", CM + "_t_upcase.rs"],
  [("H/T/qfThreadInfo/qC", CI + "base.rs"), ("thread id codec", "src/protocol/common/thread_id.rs")],
  [("current_mem_tid", "selected thread", "src/stub/core_impl.rs"), ("features", "negotiated features", "src/stub/core_impl.rs")])

p("P17", "Advertised features are exactly the ones that work",
  "The feature negotiation reply lists a feature exactly when the target supports it, names a packet size equal to the current packet buffer, and lists resume actions exactly as supported by the target; conversely a feature that is listed is accepted when used and one whose support is absent is answered as unsupported. Unknown client features are ignored and only the client's own multiprocess announcement turns process ids on or off. A target that neither supports software breakpoints nor states that it can do without is refused when the session starts.",
  ["inputs", "configurations"],
  "All subsets of target features, all client feature lists (known, unknown, +, -, =value, empty).",
  "No test exercises negotiation; there are more than 2^30 feature subsets.",
  [CI + "base.rs", CI + "resume.rs", CM + "_qSupported.rs", "src/protocol/commands.rs"],
  [("feature list", CI + "base.rs:Base::qSupported"), ("vCont? list", CI + "resume.rs:vCont::Query"), ("dispatch gating", "src/protocol/commands.rs:from_packet")])

p("P18", "Unsupported and unknown requests get an empty reply and touch nothing",
  "A request that the stub does not know, or whose feature the target does not support, is answered with an empty packet, causes no change in the target, and leaves the session working exactly as before; this includes requests whose names merely start like a known one but are different requests of the protocol. Without resume support the stub answers resume requests with a message and an immediate stop when configured to, or empty otherwise.",
  ["inputs", "configurations", "histories"],
  "All packets of the GDB and LLDB protocols outside the supported set plus random names, at every point in a session, for all feature subsets.",
  "No test sends an unknown packet.",
  ["src/protocol/commands.rs", "src/stub/core_impl.rs"],
  [("fallthrough", "src/protocol/commands.rs:Command::Unknown"), ("resume stub", "src/stub/core_impl.rs:handle_command")])

p("P19", "Object transfers reassemble the target's object exactly",
  "Reading any supported object (memory map, auxiliary vector, executable file name, library list) with the client's usual loop - any chunk sizes, any offsets - reassembles byte for byte the object the target holds, with `l` marking the end and every byte value escaped so that it survives. The target sees exactly the requested offset, length and, where the object has one, process id.",
  ["inputs", "configurations"],
  "All object contents and sizes, all chunk sizes including larger than the packet buffer, all offsets, all buffer sizes.",
  "No test covers an object transfer.",
  ["src/protocol/common/qxfer.rs", CI + "memory_map.rs", CI + "auxv.rs", CI + "exec_file.rs", CI + "libraries.rs", "src/protocol/response_writer.rs"],
  [("request parser", "src/protocol/common/qxfer.rs"), ("binary escape", "src/protocol/response_writer.rs:write_binary")])

p("P20", "Host I/O requests carry exact arguments and results",
  "Each file request (open, close, read, write, stat, delete, read link, select file system) calls the target exactly once with exactly the file name, descriptor, offset, count, data, flags and mode the client sent, and the reply carries exactly the target's result: descriptor or count in hex, attached data escaped so that it survives, and file status in the protocol's big-endian layout. Errors reported by the target become `F-1` with that error's number, and operations the target does not support get an empty reply.",
  ["inputs", "configurations"],
  "All names, data, flags, modes, offsets, counts, results and errors; all subsets of supported operations.",
  "No test covers host I/O.",
  [CI + "host_io.rs", CM + "_vFile_*.rs", "src/target/ext/host_io.rs"],
  [("dispatch and encode", CI + "host_io.rs")])

p("P21", "Process control (extended mode) requests carry exact arguments",
  "Run, attach, restart, kill, is-attached, environment, working-directory, startup-shell and address-randomisation requests each cause exactly one matching call with exactly the decoded program name, arguments (count, order and bytes, including empty ones), process id, variable name and value; run and attach answer with the stop status and later requests refer to the new process. Asked without a process id, or of a target without extended mode, whether it was attached, the stub says it was. Each optional setting is accepted exactly when the target supports it.",
  ["inputs", "histories", "configurations"],
  "All argument lists, strings of any bytes, pids; all subsets of the optional settings.",
  "Only parsing of three run packets is tested.",
  [CI + "extended_mode.rs", CM + "_vRun.rs", CM + "_vAttach.rs", CM + "_QEnvironmentHexEncoded.rs", "src/protocol/common/lists.rs"],
  [("dispatch", CI + "extended_mode.rs"), ("argument decoding", "src/protocol/common/lists.rs")])

p("P22", "Monitor commands receive the exact command and deliver exact output",
  "A monitor command reaches the target with exactly the bytes the user typed; everything the target prints arrives at the client, in order and complete, as console output packets, followed by one OK. Text that the target flushes explicitly (or, without an allocator, prints) has been sent when the flush (the print) returns.",
  ["inputs"],
  "All command strings and all sequences of output writes and flushes, of any bytes and lengths.",
  "No test covers monitor commands.",
  [CI + "monitor_cmd.rs", "src/protocol/console_output.rs", CM + "_qRcmd.rs"],
  [("console output buffer", "src/protocol/console_output.rs"), ("O packets", CI + "monitor_cmd.rs")])

p("P23", "System-call catching is configured exactly as requested",
  "Enabling system-call catching passes the target exactly the requested list of numbers in order, or no filter when none was given, and disabling disables it; a number that does not fit the target is never silently changed into another one.",
  ["inputs", "configurations"],
  "All lists of numbers, all address widths.",
  "No test covers it.",
  [CI + "catch_syscalls.rs", CM + "_QCatchSyscalls.rs", "src/protocol/common/lists.rs"],
  [("filter decoding", CI + "catch_syscalls.rs")])

p("P24", "Tracepoint definitions reach the target exactly",
  "Defining tracepoints passes the target exactly the number, address, enabled flag, step and pass counts, each collection action in order with its exact contents, and each source string; creation begins once and completes exactly when the client says nothing more follows. Buffer settings and start/stop/clear requests cause exactly the matching single call.",
  ["inputs", "histories"],
  "All definitions with all field values and action lists split over packets in every way; all source strings and buffer settings.",
  "No test covers tracepoints.",
  [CI + "tracepoints.rs", CM + "_QTDP.rs", CM + "_QTDPsrc.rs", CM + "_QTBuffer_upcase.rs"],
  [("definition", CI + "tracepoints.rs:QTDP"), ("action parser", CI + "tracepoints.rs:parse_raw_actions")])

p("P25", "Tracepoint state, frames and trace data are reported exactly",
  "Enumerating tracepoints returns every definition, action and source of every tracepoint exactly once, in order, in a form that re-parses to the same definition, and then ends. Trace status, per-tracepoint status, frame selection results and trace buffer contents reported to the client are exactly what the target reported, and frame requests reach the target unaltered.",
  ["inputs", "histories"],
  "All sets of tracepoints with actions and sources, all statuses, explanations, frames and buffer contents.",
  "No test covers tracepoints.",
  [CI + "tracepoints.rs", "src/target/ext/tracepoints.rs", CM + "_QTFrame.rs"],
  [("enumeration state machine", CI + "tracepoints.rs:handle_tracepoint_state_machine_step"), ("writers", CI + "tracepoints.rs")],
  [("cursor", "enumeration position, stored by the target", "src/target/ext/tracepoints.rs")])

p("P26", "LLDB register information is transported exactly",
  "Each register-information request asks about exactly the requested register and the reply carries exactly the name, alternate name, size, offset, encoding, format, set, numbers, role and register lists provided, and nothing for absent ones; a register past the end ends the enumeration. A target-supplied description takes precedence over the architecture's.",
  ["inputs", "configurations"],
  "All register descriptions (every encoding, format and role, any strings and numbers, any lists including empty), all register numbers.",
  "No test covers it.",
  [CI + "lldb_register_info.rs", CM + "_qRegisterInfo.rs"],
  [("writer", CI + "lldb_register_info.rs")])

p("P27", "Recoverable target errors go to the client, fatal ones to the caller, unchanged",
  "A recoverable error from the target becomes an error reply with exactly that error's number (a generic one becomes 121), never mixed into other reply data, and the session continues unharmed; a fatal error ends the session at once and is returned to the caller unchanged and classified as a target error, without a reply that claims success. Errors caused by the client or connection are never classified as target errors.",
  ["fault_sequences", "histories"],
  "All target operations, failing with every error kind and code at any call, in any session.",
  "No test injects an error.",
  ["src/stub/core_impl.rs", "src/stub/error.rs", "src/target/mod.rs"],
  [("error mapping", "src/stub/core_impl.rs:handle_error,handle_packet"), ("classification", "src/stub/error.rs")])

p("P28", "Connection failures surface immediately and unchanged",
  "If the connection starts to fail while starting the session, writing any byte, or flushing, and keeps failing, the call in which that happens returns the connection's own error, classified as a connection error of the right kind; the bytes written before the failure are exactly a prefix of what would have been written without it and nothing is delivered after it. Failures never turn into panics or into silently lost replies.",
  ["fault_sequences", "histories"],
  "Every write and flush position of every session, including inside deferred and console output.",
  "No test injects a connection fault; the fault positions are unbounded.",
  ["src/protocol/response_writer.rs", "src/stub/core_impl.rs", "src/stub/state_machine.rs", "src/stub/error.rs"],
  [("error propagation", "src/protocol/response_writer.rs:inner_write,flush"), ("classification", "src/stub/error.rs")])

p("P29", "Architecture register blocks survive a round trip and reject bad input",
  "For every supported architecture, decoding the encoded form of any register values yields the same values again, and encoding decoded bytes yields the same bytes wherever the block defines them. Decoding a block that is too short fails instead of panicking or inventing values, and the program counter accessor returns the program counter field.",
  ["inputs"],
  "All register values of every architecture; all byte strings of all lengths.",
  "Only a handful of sizes are tested for x86; round trips over all fields and values are not.",
  ["gdbstub_arch/src/"],
  [("serialize/deserialize", "gdbstub_arch/src/*/reg/*.rs")])

p("P30", "Register order, numbers and sizes agree with the description GDB is given",
  "For every architecture, the bulk register block lists the registers in the order and with the sizes of the architecture's target description (or the standard GDB layout where there is none), and every register number maps to the register and size at that position. Register numbers outside the architecture's numbering are rejected, no two numbers of that layout map to the same register, and each system register named in a description carries the architectural number of that name.",
  ["inputs", "configurations"],
  "All architectures, all register numbers, all fields.",
  "The tests compare a few total sizes; the per-register agreement of three hand-written tables is not checked.",
  ["gdbstub_arch/src/"],
  [("layout", "gdbstub_arch/src/*/reg/*.rs:gdb_serialize"), ("numbers", "gdbstub_arch/src/*/reg/id.rs"), ("description", "gdbstub_arch/src/*/mod.rs")])

p("P31", "Numeric and byte-order conversions are exact or refused",
  "Converting numbers to big- or little-endian bytes and back is the identity for every integer width, buffers that are too small and values that do not fit are refused rather than truncated, and missing leading bytes count as zero. Hex numbers in requests of any digit count and case decode to their exact value or are refused, and numbers in replies read back as the exact value.",
  ["inputs"],
  "All widths, values, buffer lengths and digit strings.",
  "The unit tests check a few values of one width.",
  ["src/internal/be_bytes.rs", "src/internal/le_bytes.rs", "src/protocol/common/hex.rs", "src/protocol/response_writer.rs"],
  [("byte conversions", "src/internal/*.rs"), ("hex decode", "src/protocol/common/hex.rs:decode_hex"), ("number output", "src/protocol/response_writer.rs:write_num,write_dec")])

p("P32", "The blocking event loop behaves exactly like the state machine it wraps",
  "Running a session through the built-in blocking loop produces the same bytes, the same calls on the target, and the same final result as driving the state machine by hand with the same client bytes, stop events and interrupt answers; errors from reading, from waiting, or from the interrupt callback end it with that error, correctly classified.",
  ["histories", "schedules", "fault_sequences"],
  "All scripts of client bytes, stop events and interrupt answers and all failure points.",
  "The blocking loop is never run by the tests.",
  ["src/stub/mod.rs", "src/stub/state_machine.rs"],
  [("event loop", "src/stub/mod.rs:run_blocking")])

p("P33", "Buffer choice and logging do not change behaviour",
  "A session behaves the same - same bytes, same calls - whether the packet buffer is supplied by the caller or owned by the stub, whatever bytes the supplied buffer initially holds, and whether trace logging is on or off, as long as every packet fits; only the advertised packet size reflects the buffer. Building with a requested size larger than the supplied buffer is refused, and a smaller one limits it exactly.",
  ["configurations", "histories"],
  "All sessions, buffer kinds, sizes, initial contents and log levels.",
  "Differential statements over whole sessions are not testable by example; logging is off in tests.",
  ["src/stub/builder.rs", "src/util/managed_vec.rs", "src/protocol/response_writer.rs", "src/protocol/recv_packet.rs"],
  [("buffer selection", "src/stub/builder.rs:build"), ("growth", "src/util/managed_vec.rs"), ("trace message reconstruction", "src/protocol/response_writer.rs:inner_write")])

p("P34", "Section offsets, thread names and reverse execution are exact",
  "Section or segment offsets reported by the target arrive exactly (missing bss equals data, missing data segment omitted); extra thread information is requested for exactly the named thread and arrives byte for byte; reverse continue and reverse step cause exactly one matching call, the latter on the thread selected for resumption, and only when supported.",
  ["inputs", "histories", "configurations"],
  "All offsets, thread ids, texts, selections, support subsets.",
  "No test covers these.",
  [CI + "section_offsets.rs", CI + "thread_extra_info.rs", CI + "reverse_exec.rs"],
  [("offsets", CI + "section_offsets.rs"), ("thread extra info", CI + "thread_extra_info.rs"), ("reverse", CI + "reverse_exec.rs")])

p("P35", "Dynamically dispatched and boxed targets and connections behave like direct ones",
  "A target used through a mutable reference to a trait object or a boxed trait object, and a connection used through a mutable reference or box, behaves exactly like the same object used directly: every supported feature and configuration choice is preserved and sessions produce the same bytes and calls.",
  ["configurations", "histories"],
  "All feature subsets and sessions, each run directly and through every provided wrapper.",
  "No test uses a wrapper; each forwarded method is a separate hand-written line that can be forgotten.",
  ["src/target/mod.rs", "src/conn/impls/boxed.rs", "src/conn/impls/mod.rs"],
  [("forwarding", "src/target/mod.rs:impl_dyn_target"), ("connection forwarding", "src/conn/impls/*.rs")])

p("P36", "Socket connections transport bytes exactly",
  "Over TCP and Unix sockets reads return the peer's bytes in order, writes deliver all bytes in order, peeking returns the next byte without consuming it or reports that none is available without blocking, and mixing peeks with reads and writes never loses, duplicates or reorders bytes nor turns a later blocking read or write into a failure. After the peer has disconnected and its data is consumed, reading yields an error rather than data or an endless loop. Starting a session on a TCP socket turns off the delaying of small writes.",
  ["histories", "schedules"],
  "All interleavings of peer writes, reads, peeks and writes of all sizes including ones larger than the socket buffers.",
  "No test opens a socket.",
  ["src/conn/impls/tcpstream.rs", "src/conn/impls/unixstream.rs"],
  [("socket connection", "src/conn/impls/tcpstream.rs"), ("socket connection", "src/conn/impls/unixstream.rs")],
  observe=["bytes at both ends of a loopback socket pair"])

p("P37", "The target description served is the right one, complete",
  "The client's usual read loop over the target description returns the target's own description when it supplies one (for any annex it asks for), otherwise the architecture's description byte for byte without surrounding blanks, for every chunking; when disabled or absent the request is unsupported.",
  ["inputs", "configurations"],
  "All descriptions, annex names, chunk sizes, offsets and buffer sizes.",
  "No test covers it.",
  [CI + "target_xml.rs", CM + "_qXfer_features_read.rs", "src/target/ext/target_description_xml_override.rs"],
  [("description selection and slicing", CI + "target_xml.rs")])

p("P38", "What a target does not implement behaves as documented",
  "Everything a target, connection or architecture leaves at its default behaves as its documentation says: an extension that is not implemented is refused and not advertised, acknowledgements can be switched off, `X` writes are offered, run-length encoding is on, resume requests without resume support are answered by the resume stub, software breakpoints must exist unless the guard rail is lifted, a thread is alive exactly when the target lists it, starting extended mode succeeds without effect, a connection without its own bulk write or session-start hook is driven byte by byte and starts at once, an architecture without description, register ids or breakpoint kinds has none (kind 0 only). A target that spells every such default out is indistinguishable from one that does not.",
  ["inputs", "histories", "configurations"],
  "All request histories on single- and multi-threaded targets which implement only the mandatory methods of a chosen set of extensions, two address widths, all buffers.",
  "The tests implement no target at all; a default that silently changes shows only in a session of a target that relies on it.",
  ["src/target/mod.rs", "src/conn/mod.rs", "src/arch.rs", "src/target/ext/base/multithread.rs", "src/target/ext/base/singlethread.rs", "src/target/ext/extended_mode.rs", "src/target/ext/host_io.rs", "src/target/ext/tracepoints.rs", "src/target/ext/breakpoints.rs"],
  [("default methods", "src/target/mod.rs:Target"), ("bulk write default", "src/conn/mod.rs:write_all"), ("default breakpoint kinds and register ids", "src/arch.rs:BreakpointKind,RegId")])

p("P39", "Named values, conversions and builder options mean what is documented",
  "The names a user writes stand for the values of GDB's protocol: every signal constant has the number of GDB's signal table and prints with its name, file open flags, file modes and errno values have the protocol's numbers and combine bit by bit. Conversions keep their meaning: a standard library I/O error becomes the errno of its kind, or a non-fatal I/O error of the target with its OS number, and `()` a plain non-fatal error. An error that ends a session says whether the target or the connection caused it, hands out exactly that error (and never the other side's) and shows it in its text. An owned copy of a tracepoint action or source equals the original for good. The builder uses exactly the buffer and the size it was given (4096 bytes if neither is), refuses a size larger than the supplied buffer, and the order of the options does not matter.",
  ["inputs", "configurations"],
  "All 256 signal numbers, all subsets of the named flags and modes, all error kinds and OS error numbers, arbitrary tracepoint items, all combinations of buffer length, size and packet length around the limit.",
  "No test looks at these tables; a wrong entry shows only when a client and a target disagree about one particular value.",
  ["src/common/signal.rs", "src/target/ext/host_io.rs", "src/target/mod.rs", "src/target/ext/tracepoints.rs", "src/stub/builder.rs", "src/stub/error.rs"],
  [("signal table", "src/common/signal.rs"), ("flags, modes and errno values", "src/target/ext/host_io.rs:HostIoOpenFlags,HostIoOpenMode,HostIoErrno"), ("error conversions", "src/target/mod.rs:TargetError; src/target/ext/host_io.rs:HostIoError"), ("owned copies", "src/target/ext/tracepoints.rs:get_owned"), ("buffer options", "src/stub/builder.rs:build")],
  observe=["return values of the public functions", "state of a session after a packet of the limiting size"])

p("P40", "The crate keeps its guarantees without std and without an allocator",
  "Built without the standard library and without an allocator (default features off), the crate gives every guarantee of a debugging session listed here just the same: requests, replies, target calls, stop reports, interrupts, error handling and the blocking loop. The only differences are the documented ones: a packet buffer must be supplied (building a stub without one is refused), console output of monitor commands is sent with every write instead of being collected, and there are no trace messages of packets.",
  ["inputs", "histories", "configurations"],
  "All inputs and histories of the other properties, on a build with default features off.",
  "The tests run with the default features; the code that replaces the allocating parts is compiled in no test.",
  ["src/util/managed_vec.rs", "src/protocol/console_output.rs", "src/protocol/response_writer.rs", "src/stub/builder.rs", "src/protocol/recv_packet.rs"],
  [("fixed packet buffer", "src/util/managed_vec.rs:push"), ("unbuffered console output", "src/protocol/console_output.rs:write_raw"), ("builder", "src/stub/builder.rs:build")])

p("P41", "The packet trace shows every packet exactly as it crossed the wire",
  "With the default features and a logger that accepts trace level, every complete packet the client sends is traced once (`<-- $body#cs`), with exactly the bytes received - also one whose checksum turns out to be wrong - and every packet the stub sends is traced once (`--> $body#cs`), complete, with run-length encoding undone and its checksum as sent, in the order the packets crossed the wire. This holds for replies, stop reports and console output alike, whatever the packet's size and the kind of packet buffer. At any other log level no packet is traced.",
  ["inputs", "histories", "configurations"],
  "All histories, log levels, payloads (binary, long runs, run-length encoding on or off) and packet buffers, including a growing one.",
  "No test installs a logger; the trace undoes the run-length encoding byte by byte, which only particular payloads exercise.",
  ["src/protocol/response_writer.rs", "src/protocol/recv_packet.rs", "src/util/managed_vec.rs"],
  [("outgoing trace", "src/protocol/response_writer.rs:flush,inner_write"), ("incoming trace", "src/protocol/recv_packet.rs:pump"), ("received bytes", "src/util/managed_vec.rs:as_slice")],
  observe=["log records", "bytes written to the connection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
