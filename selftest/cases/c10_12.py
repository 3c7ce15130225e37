C = "codec.py"
B = "pdu/base.py"
T = "pdu/transparent.py"
R = "pdu/read_registers.py"
N = "pdu/null.py"
L = "pdu/lan_config.py"
P = "model/plant.py"

HLEN = '''            if header_len != remaining_frame_len:
'''
EXC = '''        except Exception as e:
            raise InvalidFrame'''
COMPUTE = '''        computed = CrcModbus().process(raw_frame[26:-2]).final()
        expected = ((computed & 0xFF) << 8) | ((computed >> 8) & 0xFF)
        if expected != self.check:
            self.crc_failed = True
'''
GATE = '''        if getattr(pdu, "crc_failed", False) and not getattr(pdu, "lenient_crc_commit", False):
            self._bump(self.crc_failure_count, pdu.device_address)
'''
ADOPT = '''        # The TCP dongle's serial is identical on every response regardless of the addressed
'''
NULLSHORT = "        if decoder.remaining_bytes < 126:\n"
CASES = [
    # ---- C10 breaking
    ("c10_b_hlen_ge", [(B, HLEN, "            if header_len < remaining_frame_len:\n")], {"C10": 1}),
    ("c10_b_tid_low", [(B, "            if t_id != 0x5959:\n", "            if t_id & 0xFF != 0x59:\n")], {"C10": 1}),
    ("c10_b_pid", [(B, "            if p_id != 0x0001:\n", "            if p_id > 0x0001:\n")], {"C10": 1}),
    ("c10_b_uid", [(B, "if u_id not in (0x00, 0x01):", "if u_id not in (0x00, 0x01, 0x11):")], {"C10": 1}),
    ("c10_b_exc", [(B, EXC, EXC.replace("except Exception", "except ValueError"))], {"C10": 1}),
    ("c10_b_exc2", [(B, EXC, EXC.replace("except Exception", "except (struct.error, NotImplementedError)")), (C, '            raise struct.error(\n                f"unpack requires', '            raise EOFError(\n                f"unpack requires')], {"C10": 1}),
    ("c10_b_outside", [(B, '''        try:
            t_id = decoder.decode_16bit_uint()
''', '''        t_id = decoder.decode_16bit_uint()
        try:
''')], {"C10": 1}),
    ("c10_b_short_string", [(C, '''        if self.remaining_bytes < size:
            raise struct.error(
                f"unpack requires a buffer of {size - self.remaining_bytes} bytes, {self.remaining_bytes} bytes remain"
            )
''', ""), (B, "            if header_len != remaining_frame_len:", "            if header_len > remaining_frame_len:")], {"C10": 1}),
    ("c10_b_default", [(T, '        else:\n            raise NotImplementedError(f"TransparentResponse function #{transparent_function_code} decoder")', "        else:\n            return NullResponse")], {"C10": 1}),
    ("c10_b_default2", [(B, '        else:\n            raise NotImplementedError(f"ClientIncomingMessage main function #{function_code} decoder")', "        else:\n            return TransparentResponse")], {"C10": 1}),
    ("c10_b_range_tfc", [(T, "        elif transparent_function_code == 4:\n            return ReadInputRegistersResponse", "        elif transparent_function_code in (4, 5):\n            return ReadInputRegistersResponse")], {"C10": 1}),
    ("c10_b_count", [(R, "            if self.register_count != len(self.register_values):", "            if self.register_count < len(self.register_values):")], {"C10": 1}),
    ("c10_b_count_cap", [(R, "            if self.register_count != len(self.register_values):", "            if min(self.register_count, 60) != len(self.register_values):")], {"C10": 1}),
    ("c10_b_req", [(R, "if self.register_count <= 0 or 60 < self.register_count", "if self.register_count < 0 or 60 < self.register_count")], {"C10": 1}),
    ("c10_b_req_hi", [(R, "if self.register_count <= 0 or 60 < self.register_count", "if self.register_count <= 0 or 125 < self.register_count")], {"C10": 1}),
    ("c10_b_null_pad", [(N, '''            raise InvalidFrame(f"Null frame too short: {decoder.remaining_bytes}b < 126b", decoder.remaining_payload)
''', '''            return cls(nulls=[], **attrs)
''')], {"C10": 1}),
    ("c10_b_valid_after", [(B, '''            pdu.ensure_valid_state()
        except''', '''        except'''), (B, '''        if not decoder.decoding_complete:
            _logger.error(''', '''        if decoder.decoding_complete:
            pdu.ensure_valid_state()
        else:
            _logger.error(''')], {"C10": 0}),
    ("c10_b_no_valid", [(B, '''            pdu.ensure_valid_state()
        except''', '''            if decoder.decoding_complete and not isinstance(pdu, ClientOutgoingMessage):
                pdu.ensure_valid_state()
        except''')], {"C10": 1}),
    # ---- C10 behaviour kept
    ("c10_q_uid", [(B, "if u_id not in (0x00, 0x01):", "if u_id > 1:")], {"C10": 0, "C08": 0}),
    ("c10_q_exc", [(B, '''        except (InvalidFrame, InvalidPduState):
            raise
        except Exception as e:
            raise InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", data)
''', '''        except Exception as e:
            if isinstance(e, (InvalidFrame, InvalidPduState)):
                raise
            raise InvalidFrame(f"frame failed low-level decode: {type(e).__name__}: {e}", data) from e
''')], {"C10": 0}),
    ("c10_q_header", [(B, '''            t_id = decoder.decode_16bit_uint()
            if t_id != 0x5959:
                raise InvalidFrame(f"Transaction ID 0x{t_id:04x} != 0x5959", data)

            p_id = decoder.decode_16bit_uint()
            if p_id != 0x0001:
                raise InvalidFrame(f"Protocol ID 0x{p_id:04x} != 0x0001", data)
''', '''            cls._expect(decoder, 0x5959, "Transaction ID", data)
            cls._expect(decoder, 0x0001, "Protocol ID", data)
'''), (B, '''    @classmethod
    def decode_bytes''', '''    @staticmethod
    def _expect(decoder, wanted, what, data):
        found = decoder.decode_16bit_uint()
        if found != wanted:
            raise InvalidFrame(f"{what} 0x{found:04x} != 0x{wanted:04x}", data)

    @classmethod
    def decode_bytes''')], {"C10": 0, "C08": 0}),
    ("c10_q_range", [(R, "if self.register_count <= 0 or 60 < self.register_count", "if not 1 <= self.register_count <= 60")], {"C10": 0, "C08": 0}),
    ("c10_q_range2", [(R, "if self.register_count <= 0 or 60 < self.register_count", "if self.register_count not in range(1, 61)")], {"C10": 0, "C08": 0}),
    ("c10_q_null", [(N, NULLSHORT, "        if decoder.payload_size - decoder.decoded_bytes < 126:\n")], {"C10": 0, "C08": 0}),
    # ---- C12 breaking
    ("c12_b_zero", [(R, "        if expected != self.check:\n", "        if self.check and expected != self.check:\n")], {"C12": 1}),
    ("c12_b_error", [(R, "        if not raw_frame or len(raw_frame) < 28:\n", "        if not raw_frame or self.error or len(raw_frame) < 28:\n")], {"C12": 1}),
    ("c12_b_short", [(R, "        if not raw_frame or len(raw_frame) < 28:\n", "        if not raw_frame or len(raw_frame) < 48:\n")], {"C12": 1}),
    ("c12_b_span", [(R, "process(raw_frame[26:-2])", "process(raw_frame[27:-2])")], {"C12": 1}),
    ("c12_b_span2", [(R, "process(raw_frame[26:-2])", "process(raw_frame[26 : 42 + 2 * len(self.register_values)])"), (R, "len(raw_frame) < 28", "len(raw_frame) < 46")], {"C12": 1}),
    ("c12_b_byte", [(R, "        if expected != self.check:\n", "        if expected & 0xFF != self.check & 0xFF:\n")], {"C12": 1}),
    ("c12_b_strict", [(R, "            if self.strict_crc:\n", "            if self.strict_crc and not self.lenient_crc_commit and self.register_count > 1:\n")], {"C12": 1}),
    ("c12_b_flag", [(R, COMPUTE, COMPUTE.replace("self.crc_failed = True", "self.crc_failed = not self.lenient_crc_commit and self.check != 0"))], {"C12": 1}),
    ("c12_b_override", [(R, '''    def expected_response(self):
        return


class ReadInputRegisters(''', '''    def expected_response(self):
        return

    def ensure_valid_state(self) -> None:
        """Sanity check our internal state."""
        self._ensure_registers_spec_correct()


class ReadInputRegisters(''')], {"C12": 1}),
    ("c12_b_late", [(P, GATE, '''        self.data_adapter_serial_number = pdu.data_adapter_serial_number
''' + GATE)], {"C12": 1}),
    ("c12_b_or", [(P, GATE, GATE.replace("and not", "and pdu.device_address != 0x11 and not"))], {"C12": 1}),
    ("c12_b_cache", [(P, '''        if isinstance(pdu, NullResponse):
            _logger.debug''', '''        self.register_caches.setdefault(pdu.device_address, RegisterCache())
        if isinstance(pdu, NullResponse):
            _logger.debug''')], {"C12": 1}),
    ("c12_b_holding", [(P, GATE, GATE.replace('if getattr(pdu, "crc_failed", False)', 'if isinstance(pdu, ReadInputRegistersResponse) and getattr(pdu, "crc_failed", False)'))], {"C12": 1}),
    ("c12_b_bump", [(P, "            self._bump(self.crc_failure_count, pdu.device_address)\n", "            self._bump(self.crc_failure_count, 0x11)\n")], {"C12": 1}),
    # ---- C12 behaviour kept
    ("c12_q_helper", [(R, COMPUTE, '''        expected = self._expected_crc(raw_frame)
        if self.check != expected:
            self.crc_failed = True
'''), (R, "    def _validate_check_code(self) -> None:", '''    @staticmethod
    def _expected_crc(frame: bytes) -> int:
        low_first = CrcModbus().process(frame[26:-2]).final().to_bytes(2, "little")
        return int.from_bytes(low_first, "big")

    def _validate_check_code(self) -> None:''')], {"C12": 0, "C08": 0}),
    ("c12_q_len", [(R, "process(raw_frame[26:-2])", "process(raw_frame[26 : len(raw_frame) - 2])")], {"C12": 0}),
    ("c12_q_assign", [(R, "        if expected != self.check:\n            self.crc_failed = True\n", "        self.crc_failed = expected != self.check\n        if self.crc_failed:\n")], {"C12": 0}),
    ("c12_q_gate", [(P, GATE, '''        failed = isinstance(pdu, ReadRegistersResponse) and pdu.crc_failed
        if failed and not pdu.lenient_crc_commit:
            self._bump(self.crc_failure_count, pdu.device_address)
'''), (P, "    ReadInputRegistersResponse,\n", "    ReadInputRegistersResponse,\n    ReadRegistersResponse,\n")], {"C12": 0}),
    ("c12_q_gate2", [(P, GATE, '''        if self._untrusted(pdu):
            self._bump(self.crc_failure_count, pdu.device_address)
'''), (P, "    def update(self, pdu", '''    @staticmethod
    def _untrusted(pdu) -> bool:
        if not getattr(pdu, "crc_failed", False):
            return False
        return not getattr(pdu, "lenient_crc_commit", False)

    def update(self, pdu''')], {"C12": 0}),
]
