C = "client/client.py"
PROC = """        out = b""
        while self._buf:
            marker_pos = self._buf.find(_FRAME_MARKER)
            if marker_pos < 0:
                # No frame marker in buffer — keep the last 3 bytes (a split marker
                # could arrive next chunk) and emit the rest intact.
                keep = len(_FRAME_MARKER) - 1
                if len(self._buf) > keep:
                    garbage, self._buf = self._buf[:-keep], self._buf[-keep:]
                    _logger.debug("FrameRedactor: %db pre-marker garbage emitted intact", len(garbage))
                    out += garbage
                break
            if marker_pos > 0:
                # Garbage before the marker — emit intact.
                garbage, self._buf = self._buf[:marker_pos], self._buf[marker_pos:]
                _logger.debug("FrameRedactor: %db inter-frame garbage emitted intact", len(garbage))
                out += garbage
                continue
            # Marker is at position 0. Read the length field to know frame size.
            if len(self._buf) < 6:
                break  # not enough bytes for the MBAP length field yet
            hdr_len = int.from_bytes(self._buf[4:6], "big")
            if hdr_len > 300:
                # A real frame's MBAP length never exceeds ~300 (60-register cap). A larger
                # value means this marker is a false positive (random bytes that happen to
                # match) — emit it intact as garbage and resume scanning, rather than buffering
                # up to ~64 KB for a frame that will never complete. Mirrors framer.py's guard.
                skip = len(_FRAME_MARKER)
                garbage, self._buf = self._buf[:skip], self._buf[skip:]
                _logger.debug("FrameRedactor: false marker (len=0x%04x), %db emitted intact", hdr_len, len(garbage))
                out += garbage
                continue
            frame_len = 6 + hdr_len
            if len(self._buf) < frame_len:
                break  # partial frame — wait for more data
            frame, self._buf = self._buf[:frame_len], self._buf[frame_len:]
            out += self._redact_frame(frame)
        return out
"""
LISTED = PROC.replace('out = b""', "out = []").replace("out += garbage", "out.append(garbage)").replace("out += self._redact_frame(frame)", "out.append(self._redact_frame(frame))").replace("return out", 'return b"".join(out)')
LOCAL = PROC.replace("self._buf", "buf").replace('out = b""', 'out, buf = b"", self._buf').replace("        return out", "        self._buf = buf\n        return out")
WHILE_TRUE = PROC.replace("while self._buf:", "while True:\n            if not self._buf:\n                break")
TAKER = PROC.replace("garbage, self._buf = self._buf[:marker_pos], self._buf[marker_pos:]", "garbage = self._take(marker_pos)").replace("garbage, self._buf = self._buf[:skip], self._buf[skip:]", "garbage = self._take(skip)").replace("frame, self._buf = self._buf[:frame_len], self._buf[frame_len:]\n            out += self._redact_frame(frame)", "out += self._redact_frame(self._take(6 + hdr_len))")
BYTEARR = PROC.replace('out = b""', "out = bytearray()").replace("return out", "return bytes(out)")
MERGED = PROC.replace("                out += garbage\n                continue\n            # Marker is at", "                out += garbage\n            # Marker is at")
TDEF = "    def _redact_frame(self, frame: bytes) -> bytes:\n"
TNEW = "    def _take(self, n: int) -> bytes:\n        head = self._buf[:n]\n        self._buf = self._buf[n:]\n        return head\n\n" + TDEF
EMIT = """        sink = self._capture_sink
        if sink is None or not data:
            return
        try:
            sink(direction, data)
        except Exception:  # noqa: BLE001 — a capture sink must never break the client
            _logger.exception("capture sink raised on %s frame; dropping it and continuing", direction)
"""
CAP = """        self._capture_sink = sink
        self._capture_redactor_rx = FrameRedactor("rx")
        self._capture_redactor_tx = FrameRedactor("tx")
        try:
            await asyncio.sleep(duration)
        finally:
            # Flush each direction's held tail so the final bytes aren't lost.
            for direction, redactor in (("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx)):
                if redactor is not None:
                    self._emit_to_sink(direction, redactor.flush())  # type: ignore[arg-type]
            self._capture_sink = None
            self._capture_redactor_rx = None
            self._capture_redactor_tx = None
"""
CAPH = """        self._capture_sink = sink
        rx = self._capture_redactor_rx = FrameRedactor("rx")
        tx = self._capture_redactor_tx = FrameRedactor("tx")
        try:
            await asyncio.sleep(duration)
        finally:
            self._end_capture(rx, tx)

    def _end_capture(self, rx, tx):
        self._emit_to_sink("rx", rx.flush())
        self._emit_to_sink("tx", tx.flush())
        self._capture_sink = self._capture_redactor_rx = self._capture_redactor_tx = None
"""
RXTAP = """            if self._capture_sink is not None and frame and self._capture_redactor_rx is not None:
                self._emit_to_sink("rx", self._capture_redactor_rx.feed(frame))
"""
TXTAP = """                if self._capture_sink is not None and self._capture_redactor_tx is not None:
                    self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))
"""
DRAIN = "                await asyncio.wait_for(self.writer.drain(), timeout=_DRAIN_TIMEOUT)\n"
HELP = "    def _emit_to_sink(self, direction: \"Direction\", data: bytes) -> None:\n"
TAPH = """    def _tap(self, direction, redactor, data) -> None:
        if self._capture_sink is None or redactor is None or not data:
            return
        self._emit_to_sink(direction, redactor.feed(data))

""" + HELP
CASES = [
    ("c18_keep2", [(C, "keep = len(_FRAME_MARKER) - 1\n                if len(self._buf) > keep", "keep = len(_FRAME_MARKER) - 2\n                if len(self._buf) > keep")], {"C18": 1}),
    ("c18_dropgarbage", [(C, '%db inter-frame garbage emitted intact", len(garbage))\n                out += garbage', '%db inter-frame garbage emitted intact", len(garbage))')], {"C18": 1}),
    ("c18_framelen", [(C, "frame_len = 6 + hdr_len\n            if len(self._buf) < frame_len:\n                break  # partial", "frame_len = 4 + hdr_len\n            if len(self._buf) < frame_len:\n                break  # partial")], {"C18": 1}),
    ("c18_cap100", [(C, "if hdr_len > 300:", "if hdr_len > 150:")], {"C18": 1}),
    ("c18_little", [(C, 'hdr_len = int.from_bytes(self._buf[4:6], "big")', 'hdr_len = int.from_bytes(self._buf[4:6], "little")')], {"C18": 1}),
    ("c18_reorder", [(C, '%db inter-frame garbage emitted intact", len(garbage))\n                out += garbage', '%db inter-frame garbage emitted intact", len(garbage))\n                out = garbage + out')], {"C18": 1}),
    ("c18_feedreset", [(C, "        self._buf += chunk\n        return self._process()", "        self._buf = chunk\n        return self._process()")], {"C18": 1}),
    ("c18_feedorder", [(C, "        self._buf += chunk\n        return self._process()", "        self._buf = chunk + self._buf\n        return self._process()")], {"C18": 1}),
    ("c18_flushkeep", [(C, '        tail = self._buf\n        self._buf = b""\n', "        tail = self._buf\n")], {"C18": 1}),
    ("c18_nobound", [(C, "            if hdr_len > 300:\n", "            if hdr_len > 0xFFFF:\n")], {"C18": 1}),
    ("c18_skip6", [(C, "skip = len(_FRAME_MARKER)\n", "skip = 6\n")], {"C18": 1}),
    ("c18_overlap", [(C, "frame, self._buf = self._buf[:frame_len], self._buf[frame_len:]", "frame, self._buf = self._buf[:frame_len], self._buf[frame_len + 1 :]")], {"C18": 1}),
    ("c18_stuck", [(C, "garbage, self._buf = self._buf[:skip], self._buf[skip:]\n", "garbage, self._buf = self._buf[:0], self._buf\n")], {"C18": 1}),
    ("c18_rawrx", [(C, RXTAP, '            if self._capture_sink is not None and frame:\n                self._emit_to_sink("rx", frame)\n')], {"C18": 1}),
    ("c18_txrx", [(C, "self._capture_redactor_tx.feed(message)", "self._capture_redactor_rx.feed(message)")], {"C18": 1}),
    ("c18_label", [(C, 'self._emit_to_sink("tx", self._capture_redactor_tx.feed(message))', 'self._emit_to_sink("rx", self._capture_redactor_tx.feed(message))')], {"C18": 1}),
    ("c18_notry", [(C, EMIT, EMIT.replace("        try:\n            sink(direction, data)\n        except Exception:  # noqa: BLE001 — a capture sink must never break the client\n            _logger.exception(\"capture sink raised on %s frame; dropping it and continuing\", direction)\n", "        sink(direction, data)\n"))], {"C18": 1}),
    ("c18_narrow", [(C, "        except Exception:  # noqa: BLE001 — a capture sink must never break the client", "        except (OSError, ValueError):")], {"C18": 1}),
    ("c18_nofinally", [(C, CAP, CAP.replace("        try:\n            await asyncio.sleep(duration)\n        finally:\n", "        await asyncio.sleep(duration)\n        if True:\n"))], {"C18": 1}),
    ("c18_timeoutonly", [(C, CAP, CAP.replace("        finally:\n", "        except asyncio.CancelledError:\n            raise\n        else:\n"))], {"C18": 1}),
    ("c18_early", [(C, CAP, CAP.replace("            # Flush each", "            self._capture_sink = None\n            # Flush each"))], {"C18": 1}),
    ("c18_rxonly", [(C, '(("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx))', '(("rx", self._capture_redactor_rx),)')], {"C18": 1}),
    ("c18_swapdir", [(C, '(("rx", self._capture_redactor_rx), ("tx", self._capture_redactor_tx))', '(("tx", self._capture_redactor_rx), ("rx", self._capture_redactor_tx))')], {"C18": 1}),
    ("c18_second", [(C, '        if self._capture_sink is not None:\n            raise RuntimeError("a frame capture is already running on this client")\n', "")], {"C18": 1}),
    ("c18_second_late", [(C, '        if self._capture_sink is not None:\n            raise RuntimeError("a frame capture is already running on this client")\n        self._capture_sink = sink\n', '        busy = self._capture_sink is not None\n        self._capture_sink = sink\n        if busy:\n            raise RuntimeError("a frame capture is already running on this client")\n')], {"C18": 1}),
    ("c18_leftover", [(C, "            self._capture_sink = None\n            self._capture_redactor_rx = None\n            self._capture_redactor_tx = None\n", "            self._capture_redactor_rx = None\n            self._capture_redactor_tx = None\n")], {"C18": 1}),
    ("c18_late_tap", [(C, TXTAP + DRAIN, DRAIN + TXTAP)], {"C18": 1}),
    ("c18_bothrx", [(C, 'self._capture_redactor_tx = FrameRedactor("tx")', 'self._capture_redactor_tx = FrameRedactor("rx")')], {"C18": 1}),
    ("c18_midcapture", [(C, "    async def close(self)", "    def _reset_capture(self):\n        self._capture_sink = None\n\n    async def close(self)")], {"C18": 1}),
    ("c18_rxsize", [(C, RXTAP, RXTAP.replace("and frame and", "and len(frame) > 18 and"))], {"C18": 1}),
    ("c18_q_list", [(C, PROC, LISTED)], {"C18": 0}),
    ("c18_q_local", [(C, PROC, LOCAL)], {"C18": 0}),
    ("c18_q_whiletrue", [(C, PROC, WHILE_TRUE)], {"C18": 0}),
    ("c18_q_take", [(C, PROC, TAKER), (C, TDEF, TNEW)], {"C18": 0}),
    ("c18_q_bytearray", [(C, PROC, BYTEARR)], {"C18": 0}),
    ("c18_q_helper", [(C, CAP, CAPH)], {"C18": 0}),
    ("c18_q_tap", [(C, RXTAP, '            self._tap("rx", self._capture_redactor_rx, frame)\n'), (C, TXTAP, '                self._tap("tx", self._capture_redactor_tx, message)\n'), (C, HELP, TAPH)], {"C18": 0}),
    ("c18_q_tapfirst", [(C, "                self.writer.write(message)\n" + TXTAP, TXTAP + "                self.writer.write(message)\n")], {"C18": 0}),
    ("c18_q_order", [(C, "            self._capture_sink = None\n            self._capture_redactor_rx = None\n            self._capture_redactor_tx = None\n", "            self._capture_redactor_tx = None\n            self._capture_redactor_rx = None\n            self._capture_sink = None\n")], {"C18": 0}),
]
