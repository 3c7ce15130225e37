F = "framer.py"


def b(name, *edits):
    return (name, list(edits), {"C11": 1})


def q(name, *edits):
    return (name, list(edits), {"C11": 0})


HDR = '            hdr_len, u_id, f_id = int.from_bytes(self._buffer[4:6], byteorder="big"), self._buffer[6], self._buffer[7]\n'
BAD = "            if hdr_len > 300 or u_id not in (0, 1) or f_id not in (1, 2):\n"
SKIP4 = "                self._buffer = self._buffer[4:]\n                continue\n"
CUT = "            frame = self._buffer[:frame_len]\n            self._buffer = self._buffer[frame_len:]\n"
TRYY = """            try:
                yield self.pdu_class.decode_bytes(frame)
            except (InvalidPduState, InvalidFrame) as e:
                yield e
"""
NEAR = "            if 0 < next_frame_start_offset < 18:\n"
LOOP = "        while len(self._buffer) >= 18:  # shortest known message is 18b (heartbeat request)\n"
KEEP = "                self._buffer = self._buffer[-keep:]\n                break\n"

CASES = [
    b("c11_skip8", (F, "self._buffer = self._buffer[4:]", "self._buffer = self._buffer[8:]")),
    b("c11_keep2", (F, "keep = len(HEADER_START_MARKER) - 1", "keep = len(HEADER_START_MARKER) - 2")),
    b("c11_keep0", (F, KEEP, '                self._buffer = b""\n                break\n')),
    b("c11_le", (F, "if len(self._buffer) < frame_len:", "if len(self._buffer) <= frame_len:")),
    b("c11_hdr150", (F, "hdr_len > 300", "hdr_len > 150")),
    b("c11_uid1", (F, "u_id not in (0, 1)", "u_id != 1")),
    b("c11_fid", (F, "f_id not in (1, 2)", "f_id != 2")),
    b("c11_narrow", (F, "            except Exception as e:\n                # Defence", "            except ValueError as e:\n                # Defence")),
    b("c11_raw", (F, '                yield InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", frame)', "                yield e")),
    b("c11_silent", (F, '                yield InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", frame)', '                _logger.error("failed %s", e)')),
    b("c11_after", (F, CUT + TRYY, "            frame = self._buffer[:frame_len]\n" + TRYY.replace("decode_bytes(frame)\n", "decode_bytes(frame)\n                self._buffer = self._buffer[frame_len:]\n"))),
    b("c11_hlen", (F, "frame_len = 6 + hdr_len", "frame_len = 7 + hdr_len")),
    b("c11_stop", (F, SKIP4, SKIP4.replace("continue", "break"))),
    b("c11_stop2", (F, "                self._buffer = self._buffer[frame_start_offset:]\n                continue\n", "                self._buffer = self._buffer[frame_start_offset:]\n                break\n")),
    b("c11_near30", (F, NEAR, NEAR.replace("18", "30"))),
    b("c11_near20", (F, NEAR, "            if 0 < next_frame_start_offset < 20:\n")),
    b("c11_min26", (F, LOOP, LOOP.replace(">= 18", ">= 26"))),
    b("c11_min18x", (F, LOOP, LOOP.replace(">= 18", "> 18"))),
    b("c11_replace", (F, "        self._buffer += data\n", "        self._buffer = data\n")),
    b("c11_prepend", (F, "        self._buffer += data\n", "        self._buffer = data + self._buffer\n")),
    b("c11_if", (F, LOOP, LOOP.replace("while", "if").replace(">= 18:", ">= 18:"),), (F, "                continue\n\n            _logger.debug(f\"Found", "                return\n\n            _logger.debug(f\"Found"), (F, "                self._buffer = self._buffer[next_frame_start_offset:]\n                continue", "                self._buffer = self._buffer[next_frame_start_offset:]\n                return"), (F, SKIP4, SKIP4.replace("continue", "return")), (F, KEEP, KEEP.replace("break", "return")), (F, "await more data\"\n                )\n                break", "await more data\"\n                )\n                return")) if False else
    b("c11_one", (F, '                yield InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", frame)', '                yield InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", frame)\n            break')),
    b("c11_reset", (F, "            except (InvalidPduState, InvalidFrame) as e:\n                yield e\n", '            except (InvalidPduState, InvalidFrame) as e:\n                yield e\n                self._buffer = b""\n')),
    b("c11_reset2", (F, "            except (InvalidPduState, InvalidFrame) as e:\n                yield e\n", '            except (InvalidPduState, InvalidFrame) as e:\n                self._buffer = b""\n                yield e\n')),
    b("c11_nolim", (F, "hdr_len > 300 or ", "")),
    b("c11_bytes", (F, "            frame = self._buffer[:frame_len]\n", "            frame = self._buffer[: frame_len - 1]\n")),
    b("c11_little", (F, 'int.from_bytes(self._buffer[4:6], byteorder="big")', 'int.from_bytes(self._buffer[4:6], byteorder="little")')),
    b("c11_hang", (F, SKIP4, "                continue\n")),
    b("c11_server", (F, "self.pdu_class = ClientIncomingMessage", "self.pdu_class = ServerIncomingMessage")),
    b("c11_nomark", (F, "            elif frame_start_offset > 0:\n", "            elif frame_start_offset > 3:\n")),
    b("c11_rfind", (F, "frame_start_offset = self._buffer.find(HEADER_START_MARKER)\n", "frame_start_offset = self._buffer.rfind(HEADER_START_MARKER)\n")),
    # edits that keep the behaviour
    q("c11_q_helper", (F, HDR + BAD, "            hdr_len, ok = self._header()\n            u_id, f_id = self._buffer[6], self._buffer[7]\n            if not ok:\n"),
      (F, "    async def decode(self", "    def _header(self):\n        hdr_len = int.from_bytes(self._buffer[4:6], 'big')\n        return hdr_len, hdr_len <= 300 and self._buffer[6] in (0, 1) and self._buffer[7] in (1, 2)\n\n    async def decode(self")),
    q("c11_q_struct", (F, HDR, '            hdr_len, u_id, f_id = struct.unpack(">HBB", self._buffer[4:8])\n'), (F, "import logging\n", "import logging\nimport struct\n")),
    q("c11_q_unpackfrom", (F, HDR, '            hdr_len, u_id, f_id = struct.unpack_from(">HBB", self._buffer, 4)\n'), (F, "import logging\n", "import logging\nimport struct\n")),
    q("c11_q_true", (F, LOOP, "        while True:\n            if len(self._buffer) < 18:\n                break\n")),
    q("c11_q_not", (F, LOOP, "        while not len(self._buffer) < 18:\n")),
    q("c11_q_const", (F, LOOP, "        while len(self._buffer) >= MIN_FRAME:\n"), (F, NEAR, NEAR.replace("18", "MIN_FRAME")), (F, "class Framer(ABC)", "MIN_FRAME = 18\n\n\nclass Framer(ABC)")),
    q("c11_q_plus", (F, "        self._buffer += data\n", "        self._buffer = self._buffer + data\n")),
    q("c11_q_advance", (F, "    async def decode(self", "    def _advance(self, count):\n        taken, self._buffer = self._buffer[:count], self._buffer[count:]\n        return taken\n\n    async def decode(self"),
      (F, CUT, "            frame = self._advance(frame_len)\n"), (F, "                self._buffer = self._buffer[4:]\n", "                self._advance(4)\n")),
    q("c11_q_result", (F, TRYY, "            try:\n                result = self.pdu_class.decode_bytes(frame)\n            except (InvalidPduState, InvalidFrame) as e:\n                result = e\n"),
      (F, '                yield InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", frame)', '                result = InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", frame)\n            yield result')),
    q("c11_q_helper2", (F, "    async def decode(self", "    def _parse(self, frame):\n        try:\n            return self.pdu_class.decode_bytes(frame)\n        except (InvalidPduState, InvalidFrame) as e:\n            return e\n        except Exception as e:\n            return InvalidFrame(f'bad {e}', frame)\n\n    async def decode(self"),
      (F, TRYY, "            try:\n                yield self._parse(frame)\n            except (InvalidPduState, InvalidFrame) as e:\n                yield e\n")),
    q("c11_q_marklen", (F, "self._buffer = self._buffer[4:]", "self._buffer = self._buffer[len(HEADER_START_MARKER) :]")),
    q("c11_q_one", (F, "self._buffer = self._buffer[4:]", "self._buffer = self._buffer[1:]")),
    q("c11_q_startswith", (F, "            elif frame_start_offset > 0:\n", "            elif not self._buffer.startswith(HEADER_START_MARKER):\n")),
    q("c11_q_local", (F, "        self._buffer += data\n" + LOOP, "        buffer = self._buffer = self._buffer + data\n        while len(buffer) >= 18:\n"),
      (F, "                self._buffer = self._buffer[frame_start_offset:]\n", "                buffer = self._buffer = buffer[frame_start_offset:]\n"),
      (F, "                self._buffer = self._buffer[next_frame_start_offset:]\n", "                buffer = self._buffer = buffer[next_frame_start_offset:]\n"),
      (F, "                self._buffer = self._buffer[4:]\n", "                buffer = self._buffer = buffer[4:]\n"),
      (F, "            self._buffer = self._buffer[frame_len:]\n", "            buffer = self._buffer = self._buffer[frame_len:]\n")),
    q("c11_q_set", (F, BAD, "            if hdr_len > 300 or u_id not in {0, 1} or f_id not in {1, 2}:\n")),
    q("c11_q_split", (F, BAD, "            plausible = hdr_len <= 300 and u_id <= 1 and 1 <= f_id <= 2\n            if not plausible:\n")),
    q("c11_q_remaining", (F, "            if len(self._buffer) < frame_len:\n", "            missing = frame_len - len(self._buffer)\n            if missing > 0:\n")),
    q("c11_q_hexmark", (F, 'bytes.fromhex("59590001")', 'b"\\x59\\x59\\x00\\x01"')),
    q("c11_q_min", (F, KEEP, "                self._buffer = self._buffer[len(self._buffer) - keep :]\n                break\n")),
    q("c11_q_classattr", (F, "class ServerFramer(Framer):\n    \"\"\"Framer implementation for server-side use.\"\"\"\n\n    def __init__(self):\n        super().__init__()\n        self.pdu_class = ServerIncomingMessage", "class ServerFramer(Framer):\n    pdu_class = ServerIncomingMessage")),
]
