"""Source of properties.jsonl and MANIFEST.json (python3 meta/gen.py rewrites both)."""

P = {}
NA = {}

TECH = "static analysis: "


def prop(pid, title, statement, over, quant, why, files, mech, technique, note, state=None, observe=None, na=None):
    e = {
        "id": pid,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
    }
    if state:
        e["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        e["anchors"]["observe_at"] = observe
    assert pid not in P
    P[pid] = {"entry": e, "technique": TECH + technique, "note": note}
    if na:
        NA[pid] = na


G = "givenergy_modbus/"
AI = "path-sensitive abstract interpretation of the source"
TRUST = " Trusts the checker's model of Python and of the few library functions involved; exceptions raised by the interpreter itself (memory, recursion) are outside."

prop(
    "C01",
    "Only allowlisted registers with 16-bit values are ever encoded as writes",
    "A write request turns into bytes only if its register is in the documented set of its tier (standard or installer, which "
    "are disjoint) and its value is an integer between 0 and 65535, whatever object state it is encoded from. The frame carries "
    "exactly the request's register and value as big-endian 16-bit words.",
    ["inputs"],
    "Every register, value and tier, including objects mutated after construction or decoded from the wire.",
    "Tests encode a handful of registers; the claim is about all 65536 registers x values x both tiers and about objects altered after construction.",
    [G + "pdu/write_registers.py", G + "pdu/base.py", G + "pdu/transparent.py", G + "codec.py"],
    [("ensure_valid_state before any byte is built", G + "pdu/write_registers.py"), ("encode order", G + "pdu/base.py")],
    AI + " of encode() of every outgoing write class; facts on each path to the frame",
    "Every path through encode() is covered from an arbitrary object state; the sets are compared with the documented tables copied into sa/spec_registers.py." + TRUST,
    observe=["bytes returned by encode()"],
)
prop(
    "C04",
    "Grid-protection and destructive writes need an explicit confirmation",
    "Commands that write grid-protection limits (holding registers 63-83) or trigger irreversible actions (162, 1016, 5003, 5004) "
    "build no request unless the caller passes an explicit opt-in argument that is off by default. No other command ever writes those registers.",
    ["inputs"],
    "Every public command function and device command method, all argument values and slot layouts.",
    "Tests check the refusal of a few helpers; the claim covers every command, every path and registers computed from arguments.",
    [G + "client/commands.py"],
    [("confirm flag", G + "client/commands.py")],
    AI + " of every command; confirmation must be a known-true fact on each path that builds a guarded write",
    "All abstract paths of all public commands are enumerated; a register that cannot be resolved to a finite set is reported as no answer." + TRUST,
    observe=["requests returned by the command functions"],
)
prop(
    "C05",
    "Every command helper writes only its documented registers and values",
    "Each command helper returns exactly its documented writes - register, tier, and value as the documented function of its arguments - "
    "for every accepted argument, and rejects arguments outside its documented range, including booleans and fractional numbers where an integer is meant. "
    "It never returns a partial list or one that differs by path.",
    ["inputs"],
    "All arguments of all public command functions and of the inverter, three-phase and EMS command methods, for every slot layout.",
    "Tests try sample values; off-by-one bounds, scaling, register swaps for one index and type confusions are only excluded by covering every path and value.",
    [G + "client/commands.py", G + "model/inverter.py", G + "model/inverter_threephase.py", G + "model/ems.py"],
    [("command helpers", G + "client/commands.py"), ("device command mixins", G + "client/commands.py")],
    AI + " of every command; value-numbered linear forms compared with a specification table",
    "Covers all abstract paths; accepted ranges are derived as intervals and compared with the specification table in sa/spec_commands.py, which was transcribed from the documentation by hand." + TRUST,
    observe=["requests returned by the command functions"],
)
prop(
    "C06",
    "Slot commands write the registers the same slot is read from",
    "For every device kind, model and firmware, the start and end registers written for charge, discharge, export, pause or smart-load slot n are exactly the "
    "registers from which the device's decoded slot n is read, in that order. The layout chosen matches the model and firmware.",
    ["inputs", "configurations"],
    "All slot indices, all models, all firmware versions, all slot commands and device command methods.",
    "Tests sample a few slots on a few models; a wrong pair for one index on one model passes them.",
    [G + "model/slot_map.py", G + "client/commands.py", G + "model/inverter.py", G + "model/inverter_threephase.py", G + "model/ems.py"],
    [("slot maps", G + "model/slot_map.py"), ("slot_map selection", G + "model/inverter.py"), ("decoding tables", G + "model/ems.py")],
    AI + " of slot commands and layout choice, cross-checked with the decoding tables resolved from source",
    "Every index/register pair on every path is compared with the decoding table of the device it applies to." + TRUST,
)
prop(
    "C07",
    "Each model accepts exactly its documented standard-tier registers",
    "The set of registers the standard write path accepts for a detected model (and for an undetected plant) is exactly the documented set of that family. "
    "It never contains an installer-tier register nor one the protocol-level allowlist would refuse.",
    ["configurations"],
    "All sixteen known models and the undetected plant.",
    "Tests sample registers for a few models; the property is set equality for every model.",
    [G + "model/manifest.py", G + "pdu/write_registers.py", G + "model/__init__.py"],
    [("write_safe_registers", G + "model/manifest.py")],
    AI + " of the selection function with the model symbolic; constant sets compared with the documented ones",
    "All paths for all models; exact set equality with the table in sa/spec_registers.py (documentation and evidence notes)." + TRUST,
)
prop(
    "C02",
    "Command batches are fully validated for the model before any frame is sent",
    "one_shot_command and installer_command hand nothing to the transmit path until every request of the batch has passed its own validity check and, "
    "if it is a write, is permitted: in the detected model's write set, or for installer_command alone an installer-flagged request in the installer set. "
    "A dry run sends nothing and refuses exactly the batches a live run would refuse; an accepted batch is sent whole.",
    ["inputs"],
    "Every batch length, order and mix of reads, standard and installer writes, every detected model.",
    "Tests try batches of one or two requests; the claim covers an arbitrary element of an arbitrary batch on every path to the transmit call.",
    [G + "client/client.py", G + "model/manifest.py"],
    [("one_shot_command / installer_command", G + "client/client.py")],
    AI + " of both entry points with an arbitrary batch; facts about an arbitrary element must dominate the transmit call",
    "The transmit call is reached only on paths where the facts hold for an arbitrary element; the model's set itself is C07's subject." + TRUST,
    observe=["arguments of execute()/send_request_and_await_response()"],
)
CL = G + "client/client.py"
prop(
    "C03",
    "Frames leave through a single writer, one at a time and paced",
    "While connected exactly one background task writes to the socket. Each turn it takes one item from the transmit queue, writes exactly that item's encoded frame "
    "(unless its response future is already done), and waits at least the configured message spacing before the next. Nothing else in the library writes to a stream, and only encoded PDUs are queued.",
    ["schedules", "inputs"],
    "Any interleaving of concurrent callers, heartbeats, reconnects and cancellations.",
    "Tests use a mocked writer and a few sequential calls; a second writer or an unpaced path shows only under particular interleavings.",
    [CL],
    [("producer task", CL), ("connect starts the tasks", CL)],
    AI + " of the background tasks with calls as effects; census of stream writes and queue puts",
    "Decides the order of effects on every abstract path of one loop turn, from an arbitrary earlier state; it does not measure time: the spacing is that the sleep precedes the next write with the configured delay." + TRUST,
)
prop(
    "C10",
    "Malformed frames are refused with InvalidFrame or InvalidPduState",
    "No byte sequence makes decoding fail with anything but InvalidFrame or InvalidPduState. A frame that is too short for its header or for its fields, whose marker, protocol id, unit or length field is wrong, whose main or transparent "
    "function code is not one of the documented ones, or whose register count exceeds the words it carries, is refused: no message is returned. A register count above 60 is refused in a read request or response.",
    ["inputs"],
    "Every frame length, every truncation point of every layout, every value of every header field and function code.",
    "Tests try a few malformed frames; the decoder reads bytes sent by unreliable hardware, and one escaping exception type breaks callers that catch the documented ones.",
    [G + "pdu/base.py", G + "pdu/transparent.py", G + "codec.py", G + "pdu/read_registers.py", G + "pdu/write_registers.py", G + "pdu/lan_config.py"],
    [("decode_bytes", G + "pdu/base.py"), ("decode_transparent_function", G + "pdu/transparent.py"), ("PayloadDecoder", G + "codec.py")],
    AI + " of decode_bytes() on symbolic malformed frames; every path must end in one of the two exceptions",
    "Every length, truncation and function code is enumerated, data bytes are symbols. Trailing bytes after a well-formed payload are tolerated by the code and not claimed." + TRUST,
    observe=["exceptions leaving decode_bytes()"],
)
prop(
    "C11",
    "Every complete frame received is decoded and delivered exactly once",
    "Whatever bytes arrive and however they are cut into chunks, the framer delivers every complete frame exactly once and in order: as the decoded message, or as a protocol exception when it does not decode - no exception ever ends the "
    "receive loop. It decodes exactly the bytes the header declares, starting at a frame marker, and has removed them from its buffer before it delivers the result. Garbage is skipped without skipping a frame: only bytes before the "
    "first marker, a marker followed by another within 18 bytes, or the marker of an impossible header (length over 300, unit not 0 or 1, function not 1 or 2). Decoding always terminates, returns only when no complete frame is left, and keeps a bounded number of bytes.",
    ["inputs"],
    "Every buffer content, every chunk, every cut between chunks, every outcome of the decoder.",
    "Tests feed recorded streams with a few cuts; a byte too many or too few shows only for particular lengths, cuts and neighbours.",
    [G + "framer.py"],
    [("Framer.decode", G + "framer.py"), ("ClientFramer, ServerFramer", G + "framer.py")],
    AI + " of the decode loop over an arbitrary buffer, with a byte-slice algebra and linear bounds on lengths, offsets and header fields",
    "All abstract paths of one loop turn from an arbitrary buffer (loop invariant). What the decoder makes of a frame is C08's and C10's subject." + TRUST,
    observe=["messages yielded by decode()", "the framer's buffer"],
)
prop(
    "C12",
    "A register response that fails its CRC never changes the plant's state",
    "Every register response decoded, error responses included, has the Modbus CRC of its bytes from the device address up to the CRC compared with the CRC it carries; crc_failed is set exactly when they differ, and with strict_crc decoding "
    "raises InvalidPduState instead. Plant.update() applies nothing from a response whose crc_failed is set - no cache, serial, freshness mark or baseline - unless lenient_crc_commit is on; it only counts the failure for that device.",
    ["inputs"],
    "Every register response of either type, every payload, every plant state.",
    "Tests corrupt a few frames; the gate must dominate every mutation on every path and the CRC must cover every byte of every response.",
    [G + "pdu/read_registers.py", G + "pdu/transparent.py", G + "model/plant.py"],
    [("CRC check", G + "pdu/read_registers.py"), ("update", G + "model/plant.py")],
    AI + " of decode_bytes() on every response layout and of Plant.update() on an arbitrary message; the gate must be a known fact on each mutating path",
    "All abstract paths of both. Which registers a valid response changes is C25's subject." + TRUST,
    observe=["crc_failed", "Plant state"],
)
prop(
    "C13",
    "A lost connection fails every waiting request; the client can reconnect",
    "When either background task ends for any reason other than an intended close - end of stream, socket error, stall, decoder failure - the client runs one teardown: it marks itself lost and "
    "disconnected, fails every in-flight and queued request with ConnectionLost, forgets the in-flight table and stops the other task. Requests made while lost are refused at once. close() completes whatever "
    "socket error ended the connection. connect() first closes whatever is left of a previous connection, clears the marks and starts reading with an empty receive buffer, so no frame cut short by "
    "the old connection swallows frames of the new one.",
    ["faults", "schedules"],
    "Every read, write, drain and wait in either task failing at any turn, with any set of queued and in-flight requests.",
    "Tests inject a few failures at a few points; the property quantifies over each suspension point and each kind of failure.",
    [CL],
    [("_abort_connection", CL), ("consumer", CL), ("producer", CL), ("close", CL)],
    AI + " of both tasks, the teardown, close(), connect() and the sender with an exception injected at every suspension point",
    "Covers every abstract path of one loop turn and of the teardown; per-future claims are about an arbitrary element of the tables." + TRUST,
)
prop(
    "C14",
    "A lost connection is never taken for an absent device",
    "If the connection is lost during discovery, the loss leaves detect() as ConnectionLost. It is never handled as a probe timeout: no device is recorded absent, no register cache is dropped and no capability is concluded from it.",
    ["faults"],
    "The connection dying at any request of any discovery sequence, with or without prior capabilities.",
    "ConnectionLost is a TimeoutError, so any except TimeoutError can swallow it; tests drop the connection at one or two probes only.",
    [CL],
    [("_probe", CL), ("_probe_ranges", CL), ("_detect_lv_batteries", CL), ("_detect_bcu_stacks", CL)],
    AI + " of every method that sends and records absences, ConnectionLost and TimeoutError raised at each send",
    "All abstract paths of every such method. The EMS rollup sanity read at the end of detect(), which records nothing, is exempt." + TRUST,
)
prop(
    "C23",
    "A timed-out probe records the block it asked for absent and evicts the cache",
    "During discovery a probe that times out is recorded with mark_absent() for exactly the device address, register type, base and count it asked for, and that device's stale register cache is dropped. "
    "A device that answered is recorded absent only if nothing usable was cached for it.",
    ["inputs", "faults"],
    "Every probe of every discovery path, any device address, any subset of devices silent.",
    "Tests check a couple of silent devices; a mismatched count, a missing eviction or a wrong address on one path passes.",
    [CL, G + "model/plant.py"],
    [("mark_absent call sites", CL)],
    AI + " of every probing method with a timeout possible at each send; arguments compared by value number",
    "All abstract paths, with an arbitrary element of each probed range." + TRUST,
)
prop(
    "C08",
    "Encoding a message and decoding the frame give the message back",
    "Every message class has one fixed wire layout (marker 5959, protocol 1, length of what follows, unit, function, adapter serial, padding, device address, transparent function with its error bit, payload, CRC). Decoding a frame gives "
    "the class its function codes select and each attribute the value of its field; encoding that message, or one built from keyword arguments, gives the same fields at the same offsets: the length is right, serials are one byte per "
    "character, register values are 16-bit big-endian, and where the device checks it the last two bytes are the Modbus CRC from the device address on.",
    ["inputs"],
    "Every message class in both directions, error and normal, register counts 0 to 60, arbitrary field contents.",
    "Tests round-trip recorded frames; a swapped or truncated field shows only for values that differ in the right byte, or for message classes never recorded.",
    [G + "codec.py", G + "pdu/base.py", G + "pdu/transparent.py", G + "pdu/read_registers.py", G + "pdu/write_registers.py", G + "pdu/heartbeat.py", G + "pdu/null.py", G + "pdu/lan_config.py"],
    [("BasePDU.encode, decode_bytes", G + "pdu/base.py"), ("TransparentMessage", G + "pdu/transparent.py"), ("PayloadEncoder, PayloadDecoder", G + "codec.py")],
    AI + " of decode_bytes() and encode() on symbolic frames, with a byte-field algebra compared with an independent layout table (sa/spec_frames.py)",
    "Every class, error flag and count 0..60 is decoded; encoding is explored for a selection of counts, all register values symbolic. The CRC polynomial is the library's." + TRUST,
    observe=["bytes returned by encode()", "messages returned by decode_bytes()"],
)
prop(
    "C09",
    "A waiting request is resolved only by the response it asked for",
    "A response completes a waiting call only if it has the response class, function code, device address and register (or base and count) that call's request asks for. The call registers its own future under exactly "
    "that shape before its frame is queued, returns that future's result, and never removes a registration that may belong to a newer call.",
    ["schedules", "inputs"],
    "Any set of concurrent calls, responses in any order, late and duplicate responses, all request types.",
    "Tests run a few request/response pairs; a shape that leaves out one field, or dropping a newer caller's registration, shows only for particular pairs or interleavings.",
    [CL, G + "pdu/base.py", G + "pdu/transparent.py", G + "pdu/read_registers.py", G + "pdu/write_registers.py"],
    [("expected_responses", CL), ("shape_hash", G + "pdu/base.py"), ("expected_response", G + "pdu/read_registers.py")],
    AI + " of the sender and the consumer (registration and lookup keys as value numbers) and of every class's shape",
    "Keys are compared as terms; hash collisions between different shapes are outside." + TRUST,
)
prop(
    "C15",
    "Every heartbeat request received is answered in kind",
    "For every heartbeat request decoded from the stream the client queues exactly one heartbeat response carrying the same adapter type, with nothing that could make the writer skip it. No other message makes the client transmit.",
    ["inputs", "schedules"],
    "Any stream of messages, heartbeats anywhere in a burst, any adapter type.",
    "Tests send one heartbeat in an idle connection; the dongle disconnects a client that misses one.",
    [CL, G + "pdu/heartbeat.py"],
    [("task_network_consumer", CL), ("HeartbeatRequest.expected_response", G + "pdu/heartbeat.py")],
    AI + " of the receiving loop with an arbitrary message",
    "All abstract paths of one message; that the queued frame is then written is C03." + TRUST,
)
prop(
    "C16",
    "A waiter wakes only for a good response already in the cache",
    "Every transparent response is applied to the plant exactly once, before any waiting call is completed with it. A response that failed its CRC never completes a call unless lenient commits are on, a future already done is "
    "never resolved again, and a good response whose waiter is pending always wakes it.",
    ["schedules", "inputs"],
    "Any message, any state of the in-flight table, any CRC outcome.",
    "Tests rely on the event loop happening to run the waiter after the update; the order of the two effects on every path is not observable there.",
    [CL],
    [("task_network_consumer", CL)],
    AI + " of the receiving loop with an arbitrary message; order and arguments of effects",
    "All abstract paths of one message." + TRUST,
)
prop(
    "C17",
    "A request is sent at most retries+1 times and ends in success or TimeoutError",
    "send_request_and_await_response() transmits its request at most retries+1 times. It returns only a response that is not an error response, and raises TimeoutError when the attempts run out. Each further attempt is preceded "
    "by the retry delay if one is set and counted once against the request's device, unless warn_timeout is off.",
    ["faults", "inputs"],
    "Any number of retries, any mix of timeouts and error responses over the attempts.",
    "Tests use retries of 0 to 3 and a few failure mixes; off-by-one bounds or uncounted paths show for other mixes.",
    [CL],
    [("send_request_and_await_response", CL)],
    AI + " of the attempt loop; counter found from the loop condition and bounded by a linear argument",
    "The number of turns is derived from start, step and condition of the counter, for arbitrary retries." + TRUST,
)
prop(
    "C20",
    "Failed reads of a poll are reported exactly; polling needs discovery",
    "A poll that could not complete every read reports each failed read, with the address, register type, base and count of that request, and no other. It raises RefreshFailed only when all reads failed, "
    "RefreshPartiallySucceeded (with the failures and the updated plant) when some did, and returns the plant only when none did. Cancellation is never turned into a report. refresh() and load_config() raise PlantNotDetected "
    "before sending anything exactly when discovery has not stored capabilities.",
    ["faults", "inputs"],
    "Any batch of reads, any subset of them failing with any exception.",
    "Tests fail one or two chosen reads; a failure attributed to the wrong request or a swallowed kind of error shows only in other mixes.",
    [CL, G + "exceptions.py"],
    [("_execute_reads", CL), ("refresh", CL), ("load_config", CL)],
    AI + " of the batch outcome over an arbitrary list of results",
    "All abstract paths, an arbitrary element standing for every request of the batch; that results arrive in request order is asyncio.gather's contract." + TRUST,
)
prop(
    "C22",
    "Discovery is all or nothing; a failed probe leaves no half-open link",
    "detect() either completes and stores the topology it returns, or raises with nothing newly stored: a timeout or lost connection closes the connection and re-raises the original error, and a "
    "topology that differs from a given prior raises PlantTopologyMismatch with both, never replacing the prior silently (a newer ARM firmware version alone is not a mismatch). probe_alive() returns whether the device "
    "really answered, closes the connection when it did not, and never raises.",
    ["faults", "crash points"],
    "A failure at any read of discovery, with or without a prior, close() itself failing.",
    "Tests fail a few chosen reads; a failure after a partial store, or an error while closing, is not sampled.",
    [CL],
    [("detect", CL), ("probe_alive", CL)],
    AI + " of discovery and the liveness probe with each read failing in each declared way",
    "All abstract paths; field comparison with the prior by value number." + TRUST,
)
prop(
    "C18",
    "A frame capture is complete, always redacted and never disturbs the client",
    "While a capture runs, every byte received and every frame sent reaches the caller's sink exactly once and in order, after passing through the redactor of its direction, however the bytes are cut into chunks: what the redactor "
    "has emitted plus what it still holds is always what it was fed (frames replaced by their redacted form), it holds at most one incomplete frame, and flush() emits the rest. A sink that raises never stops reading or sending. A second "
    "capture is refused, and however the capture ends both redactors are flushed to the sink before the capture is torn down.",
    ["inputs", "schedules", "faults"],
    "Every byte stream, every chunking, every sink behaviour, every way the capture's wait can end.",
    "Tests feed a few streams with a few cuts; lost or unredacted bytes show only for particular cuts, false markers or failing sinks.",
    [CL],
    [("FrameRedactor.feed/flush", CL), ("capture_frames", CL), ("_emit_capture and the taps in the reader and sender tasks", CL)],
    AI + " of the redactor as a transformer of byte-slice sequences (concatenation algebra, loop invariant), and of every call of the sink",
    "All abstract paths of one loop turn from an arbitrary buffer; decoding inside the redacting step is C19's subject." + TRUST,
    observe=["bytes given to the sink"],
)
prop(
    "C19",
    "Share-safe exports and captures carry no recoverable serial number",
    "Every register group that holds a serial number or other identifier (all fields declared so, everything named *serial_number, the BMU serials and HR 8-12) is redacted wherever data leaves in shareable form: "
    "RegisterCache.redact_serials(), Plant.redact() and captured frames. A group holding a GivEnergy serial (AAYYWWANNN or AAAYYWWNNN) keeps prefix and date and loses its unit digits; a group that does not is left as it is. The meter's "
    "identifier, frame envelope serials, plant serials and the addresses in a LAN configuration broadcast are blanked or zeroed even when unrecognised.",
    ["inputs"],
    "Any register contents, any set of present registers, any message type in either direction, every identifier group.",
    "Tests redact a few serials in a few groups; a group missing from the list, a window edge or an unusual identifier leaks unnoticed.",
    [G + "model/register_cache.py", G + "model/register.py", G + "model/plant.py", CL, G + "pdu/lan_config.py"],
    [("_get_serial_groups / redact_serials", G + "model/register_cache.py"), ("redact_serial, redact_serial_strict", G + "model/register.py"), ("FrameRedactor._redact_frame", CL), ("LanConfigBroadcast.redact", G + "pdu/lan_config.py"), ("Plant.redact", G + "model/plant.py")],
    AI + ": constant evaluation of the group list from the tables, information flow from identifiers to outputs through the sanitisers, pattern analysis",
    "Frames are explored for every identifier group in windows that just contain it, extend past it, or cut it, with arbitrary register values. A serial split over two responses, identifiers in undecodable frames and private attributes of a plant copy are outside." + TRUST,
    observe=["bytes of a capture", "redacted caches and plants"],
)
prop(
    "C25",
    "Only a register bank that passes every validity gate replaces cached data",
    "Plant.update() merges a read response into the cache of the responding device whole or not at all, and touches no other cache. It merges exactly the banks that pass every gate: the serial gate of the register class of the device at "
    "that address; for LV batteries (0x32-0x37) the splice guard; no block of 60 that reads all zero over non-zero cached data; no battery block IR(60,60) with every cell at zero but firmware (IR 98) or remaining capacity (IR 88/89) set; no "
    "input block with more than five of the 17 known bad values. Short all-zero reads and first all-zero reads are accepted. Error, null and non-register messages change nothing.",
    ["inputs"],
    "Every device address, capability set, block shape and values, with any prior cache.",
    "Tests feed recorded corrupt banks; a gate that is off by one address, register or count lets one corrupt bank in, which is then served as real data.",
    [G + "model/plant.py", G + "model/battery_splice.py", G + "pdu/read_registers.py"],
    [("update, _commit_bank", G + "model/plant.py"), ("_getter_for_device_address", G + "model/plant.py"), ("is_internally_impossible", G + "model/battery_splice.py"), ("is_suspicious", G + "pdu/read_registers.py")],
    AI + " of Plant.update() on plants of known shape with symbolic contents; the state each path leaves is compared with the gates it passed",
    "All 256 addresses with four capability sets; the listed block shapes with symbolic values. The splice guard's own verdict is C26's subject and the serial check is opaque." + TRUST,
    observe=["Plant.register_caches"],
)

prop(
    "C26",
    "A battery frame that breaks physics or identity is never adopted at once",
    "For LV batteries, Plant.update() compares each full IR(60,60) frame with the last good one. It is adopted at once only without implausible change: cells (IR 60-75) 300, temperatures 76-79, 103, 104: 50, MOSFET 81: 200, cell sum 80: 1600, "
    "SOC 100: 10, energy 105/106: 50, pairs 82/83: 4000, 84/85, 86/87, 88/89, 101/102: 1500; the limit itself is plausible. One implausible change is held and adopted if the next frame repeats it within the threshold, else dropped. Two or "
    "more are refused, except voltages/capacities in range when splice_reject_heal_seconds is set, after 10 smooth polls and that long. A changed serial (IR 110-114) is never adopted. IR 97/98 changes are adopted after 10 agreeing polls without "
    "interruption and splice_heal_seconds. Without a last good frame two agreeing frames at most 300 s apart are needed. After a gap over 300 s the frame is adopted. Two or more zero cell temperatures (IR 76-79) are never adopted across a gap, "
    "at cold start or in a short read; other short reads are.",
    ["inputs", "histories"],
    "Every sequence of frames and every polling interval, for each register of the battery block.",
    "Tests replay a few recorded corruptions; each threshold, reset and interruption rule matters only for one particular sequence of frames.",
    [G + "model/plant.py", G + "model/battery_splice.py"],
    [("_splice_guard, _confirm_cold_start_baseline, _handle_scalar_immutable, _handle_reject_streak", G + "model/plant.py"), ("classify_transition, heal_eligible, is_corruption_cohort", G + "model/battery_splice.py")],
    AI + " of frame histories with symbolic register values: only differences between frames and time gaps are specified, and each step's outcome is compared with an independent table of thresholds and rules",
    "About 360 histories of up to 22 frames; values are symbolic within plausible bounds, gaps symbolic in short histories and fixed in long ones (10-299 s). Cell serial decoding, suspicious-frame and bounds checks are taken as passed (C25)." + TRUST,
    observe=["Plant.register_caches"],
)

prop(
    "C27",
    "Only the inverter names the inverter; write echoes land where reads look",
    "An accepted response sets Plant.inverter_serial_number to the frame's inverter serial exactly when it comes from device 0x11 or 0x31, and always sets data_adapter_serial_number. A WriteHoldingRegisterResponse for register r != 0 stores "
    "HR(r) = value in the cache of capabilities.inverter_address when capabilities are known, else of the responding device; the cache is created if missing, its other registers stay, no other cache and no freshness or presence record changes. An echo "
    "for register 0 is ignored.",
    ["inputs"],
    "Every device address 0-255, response kind and capability set; every register and value echoed.",
    "Tests use two or three addresses; adopting a battery's serial, or writing an echo to the wrong cache, shows only with the address nobody tried.",
    [G + "model/plant.py"],
    [("update", G + "model/plant.py")],
    AI + " of Plant.update() for each of the 256 addresses and each response kind; the state of every path is compared with the rule",
    "All addresses; registers 0, 1, 20, 60, 96, 300, 65535 and a symbolic register; values symbolic." + TRUST,
    observe=["Plant.inverter_serial_number", "Plant.data_adapter_serial_number", "Plant.register_caches"],
)

prop(
    "C28",
    "Block age, presence and content age report exactly the committed banks",
    "A committed bank sets block_age to the time since its reception and block_present to True for exactly its (device, type, base, count); a naive received_at is taken as UTC, a missing one as now. A refused bank changes none of the reports. "
    "content_unchanged_seconds counts from the first of the latest run of commits of that block with equal content. register_age is that of the freshest committed window containing the register; last_updated_at the newest commit, None before any. "
    "mark_absent sets presence False and leaves the rest. invalidate_presence makes every report of that block None, removes its cached registers only, and for IR(60,60) forgets a first battery frame waiting for confirmation.",
    ["inputs", "histories"],
    "Every order of commits, refusals, marks and invalidations over every block of every device.",
    "Tests check one block at a time; a stamp under a neighbouring key or left over after an invalidation makes stale data look fresh only later.",
    [G + "model/plant.py"],
    [("_stamp_block, block_age, block_present, mark_absent, invalidate_presence, register_age, _track_content_change, content_unchanged_seconds, last_updated_at", G + "model/plant.py")],
    AI + " of histories of updates, marks and invalidations with symbolic times, read back through the public observers and compared with the rule",
    "Eight blocks and the keys next to them, content changes in the first, middle and last register; gate verdicts are given (C25, C26). Hash collisions are ignored." + TRUST,
    observe=["block_age", "block_present", "content_unchanged_seconds", "register_age", "last_updated_at"],
)

prop(
    "C21",
    "Saved capabilities load back exactly, and older saved forms still load",
    "PlantCapabilities.from_dict(to_dict()) restores every field exactly, for every model, empty or filled address lists, and present or absent lv_bcu_address and arm_firmware_version; to_dict() holds only JSON values, shares no list with the "
    "object and changes nothing, and from_dict() neither changes nor shares its argument. from_dict() also accepts integer addresses, the device type as enum name, value or number, the keys inverter_slave, meter_slaves, lv_battery_slaves, bcu_slaves, "
    "null or missing lists (empty) and optional fields (None), and a missing or null schema_version; any other version than 1 is refused with ValueError. Validation keeps an explicit inverter address, uses 0x11 when it is missing, and refuses a legacy "
    "key beside its new name with TypeError.",
    ["inputs"],
    "Every model and field combination, every address and count value, every stored form.",
    "Tests save two or three example systems; a field swapped, dropped or coerced shows only for the system that has it, after a restart.",
    [G + "model/plant.py"],
    [("PlantCapabilities.to_dict, PlantCapabilities.from_dict, _accept_legacy_aliases, _map_legacy_aliases, _derive_inverter_address", G + "model/plant.py")],
    AI + " of saving and then loading with every number symbolic: each field of each path's result must be the very term it was saved from",
    "Lists of 0 to 3 entries. pydantic is taken to keep values already of the declared type; json.dumps/loads to keep JSON values." + TRUST,
)

prop(
    "C29",
    "Exported register caches load back exactly",
    "RegisterCache.from_json(cache.json()) equals the cache, None values included. from_json() reads keys HR(n), IR(n), MR(n) and the form HR:n; it skips entries whose key is no such register or whose value is not null or an integer from 0 to 65535 "
    "(booleans, fractions, strings, infinities, NaN, lists and objects are skipped) and keeps every other entry. parse_compact(to_compact(caches)) gives back every integer register of every device; None registers and empty caches are left out. Rows are "
    "0x<dd>:<BANK>(<base>,<count>) and four lower-case hex digits per register, ordered by device, bank (HR, IR, MR) and base, none spanning a gap or a multiple of 60. parse_compact() joins values continued on lines of hex digits alone, reads the older "
    "form with a probe header, skips rows without exactly count values, and ignores other lines.",
    ["inputs"],
    "Every cache content and every register value; every way a dump is wrapped or damaged.",
    "Tests round-trip a few dumps; a register dropped at a block edge or a value misread when a line is wrapped shows only in someone's bug report.",
    [G + "model/register_cache.py"],
    [("RegisterCache.json, RegisterCache.from_json, to_compact, parse_compact, _compact_blocks", G + "model/register_cache.py")],
    AI + " of export followed by import with symbolic register values; texts are kept character by character, and a pattern match must not depend on unknown digits",
    "19 cache shapes, 47 single JSON entries, 35 texts; register values symbolic. json.dumps/loads are taken to keep JSON values." + TRUST,
)

prop(
    "C24",
    "A poll asks for exactly the blocks the detected plant has",
    "Each block is a read request (device, IR/HR, base, count), asked for once, nothing else. refresh() asks the inverter for IR 0+60 and 180+60 (not EMS models), IR 1000-1413 in steps of 60 (HYBRID_3PH, AC_3PH, AIO_COMMERCIAL, ALL_IN_ONE_HYBRID), IR 2040+55 (EMS, EMS_COMMERCIAL), IR 1600-1859 (GATEWAY); "
    "IR 60+60 at each LV battery, AIO battery module, HV BMU, LV BCU and at 0x70 + offset of each BCU stack; IR 60+30 at each meter. It leaves out a block only if it is marked absent or, given max_age (else ir0_max_age), its age is at most that. "
    "load_config() asks the inverter for HR 0+60; HR 60+60, HR 120+60, IR 120+60 (not EMS models); HR 1000+60, 1060+60, 1120+5 (those three-phase models); HR 240+60 (HYBRID_GEN4, ALL_IN_ONE, ALL_IN_ONE_HYBRID, HYBRID_HV_GEN3, HYBRID_GEN3 from firmware 303); "
    "HR 300+60 (AC, AC_3PH, ALL_IN_ONE); HR 2040+36 (EMS models); whatever is marked absent or cached.",
    ["inputs", "histories"],
    "Every model, firmware version, set of detected devices, presence marks, block ages and limits.",
    "Tests poll a few plants; a block lost for one model, or skipped by a neighbour's mark, leaves a device's values frozen with no error.",
    [CL, G + "model/plant.py"],
    [("refresh, load_config, _refresh_banks, _refresh_ranges, _execute_reads", CL), ("block_present, block_age", G + "model/plant.py")],
    AI + " of refresh() and load_config() down to the requests handed over, with symbolic times and limits; the requests of every path are compared with an independent table",
    "Address lists of 0 to 2 entries; firmware versions on both sides of the boundary; each block in turn absent, cached or neighbouring an absent one. Replies are taken to arrive (C16 to C18 cover failing reads)." + TRUST,
)

prop(
    "C30",
    "Device attributes decode their registers exactly and never raise",
    "RegisterGetter.get(name) gives each documented attribute (1260 names in 12 register tables, each with the registers, kind and bounds listed there) its documented value for every register content, and never raises. Kinds: uint16/int16 (two's complement), "
    "uint32/int32 (first register high), deci/centi/milli (/10, /100, /1000), negate, pf (raw/10000 - 1) and pf_signed, duint8 (high or low byte), bitfield (bits counted from the top), bool, hex, text and serial (two Latin-1 characters per register, NULs dropped, upper case), "
    "versions, time slots (HHMM pairs; None if either is no time of day), dates (None if there is no such date), labels (an unknown code gives the class's fallback, else None; the model is taken from the first digit of the device code), fault lists (the names of the bits set). "
    "A value outside its bounds (bounds included) is None unless every register is 0. With any register missing the attribute is None; an unknown name gives the default. build() is get() of every name; registers_of() and precision_of() tell the registers, and the decimals of the final scale (None if not numeric).",
    ["inputs"],
    "Every content of the registers behind every attribute of every device.",
    "Tests sample a few captured values; a sign, bound or calendar edge decoded wrongly, or a converter that raises on a value nobody recorded, blanks a whole device or shows a wrong number.",
    [G + "model/register.py", G + "model/inverter.py", G + "model/inverter_threephase.py", G + "model/battery.py", G + "model/ems.py", G + "model/gateway.py", G + "model/meter.py", G + "model/hv_bcu.py", G + "model/lv_bcu.py", G + "model/aio_battery.py"],
    [("RegisterGetter.get, RegisterGetter.build, Converter, RegisterDefinition.precision", G + "model/register.py"), ("the register tables", G + "model/inverter.py")],
    AI + " of get() over symbolic registers, one exploration per distinct converter; path conditions and results are evaluated at all values (one register) or boundary values (several) and compared with independent formulas",
    "All 65536 values of one-register attributes; boundary grids of the others; text and fault lists on given contents. The table of attributes was taken from the tree and frozen." + TRUST,
)
prop(
    "C31",
    "Each device view reads its own device's registers with its own layout",
    "Plant.inverter, ems and gateway decode the block at capabilities.inverter_address: the inverter in the three-phase layout for HYBRID_3PH, AC_3PH, AIO_COMMERCIAL and ALL_IN_ONE_HYBRID and the single-phase one for every other model, the EMS for EMS and EMS_COMMERCIAL, the gateway "
    "(V1 layout) for GATEWAY; for other models ems and gateway are None. Undetected, the inverter is the single-phase layout at 0x11. batteries and meters hold one view per recorded address, in order, decoded from that address, also when nothing has been read there yet (an empty view, so that siblings "
    "keep their index). hv_stacks holds, for each (offset, modules), the BCU at 0x70+offset and its modules at consecutive addresses that run from 0x50 across all stacks, numbered from 0 within the stack. aio_battery_modules and lv_bcu leave out an address nothing was read from. A device that is not recorded has "
    "no view. Each class's from_register_cache decodes the block it is given with the class's own register table.",
    ["inputs"],
    "Every detected model, every list of addresses and stacks, every set of blocks read so far.",
    "Tests use a handful of plants, nearly all with one stack and two batteries; a view that shows a sibling's block, or drops a pack and shifts the others, needs an unusual topology to be seen.",
    [G + "model/plant.py", G + "model/manifest.py", G + "model/inverter_threephase.py", G + "model/gateway.py", G + "model/battery.py", G + "model/meter.py", G + "model/hv_bcu.py", G + "model/lv_bcu.py", G + "model/aio_battery.py"],
    [("Plant.inverter .. Plant.ems, hv_stacks", G + "model/plant.py"), ("select_inverter", G + "model/inverter_threephase.py"), ("CAPABILITIES", G + "model/manifest.py")],
    AI + " of every accessor with arbitrary capabilities; the class, the bank's address expression and the result are compared with the role's table for an arbitrary element of each list and for every member of Model; the running module address is decided by its loop invariant",
    "Pydantic's own conversion of the decoded values is not analysed (C30 covers the values)." + TRUST,
)
prop(
    "C32",
    "The device list has one root and every device once, under a stable identity",
    "Plant.devices starts with exactly one root row - the gateway of a gateway plant, else the EMS, else the inverter - with no parent, the plant's serial (inverter_serial) as identity and control authority; no other row has either. Then exactly one row for every battery, All-in-One module, HV stack, meter "
    "and, on an EMS plant, managed inverter, parented to the root, and one for each module of a stack, parented to its stack, unless All-in-One module addresses are recorded (those rows already list them). Each row holds the device itself and its type. A device's serial counts only if its own is_valid() (where it "
    "has one) agrees; it is then the row's serial_number and identity. Without one the identity joins the plant's serial (the stack's identity for its modules) with the device's position or address; a stack is always named by its address. A blinded managed inverter gets the suffix _managed. No device is left out for being invalid.",
    ["inputs"],
    "Every plant: any number of devices of each kind, any of them without a valid serial, any detected model.",
    "Tests walk some hand-made plants; consumers key entities on identities, so one device listed twice, dropped, or renamed when its serial is unreadable breaks installations the tests do not resemble.",
    [G + "model/plant.py", G + "model/devices.py"],
    [("Plant.devices, _validated_serial", G + "model/plant.py")],
    AI + " of the walk, once per kind with an arbitrary list of that kind; the rows made are compared with the rows returned and with the kind's table for an arbitrary device",
    "Two devices reporting the same serial are not told apart; the order of the rows after the root and their firmware field are not decided." + TRUST,
)
