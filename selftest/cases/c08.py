C = "codec.py"
B = "pdu/base.py"
T = "pdu/transparent.py"
R = "pdu/read_registers.py"
W = "pdu/write_registers.py"
N = "pdu/null.py"
HB = "pdu/heartbeat.py"
L = "pdu/lan_config.py"

SWAP = "        self.check = ((raw & 0xFF) << 8) | ((raw >> 8) & 0xFF)\n"
D16 = '''        self._pointer += 2
        handle = self._payload[self._pointer - 2 : self._pointer]
        return struct.unpack(self._byteorder + "H", handle)[0]
'''
A16 = '''        fstring = self._byteorder + "H"
        self._payload += struct.pack(fstring, value)
'''
VALUES = '            attrs["register_values"] = [decoder.decode_16bit_uint() for _ in range(decode_count)]\n'
MBAP = '''        mbap_header = struct.pack(">HHHBB", 0x5959, 0x1, len(inner_frame) + 2, 0x1, self.function_code)
'''
STR = '        pstring = f"{value[-length:]:*>{length}}".encode("latin1")\n'
DSTR = '        return self._payload[self._pointer - size : self._pointer].decode("latin1")\n'
SEND = "        [self._builder.add_16bit_uint(v) for v in self.register_values]\n"

CASES = [
    # ---- breaking
    ("c08_b_utf8", [(C, STR, STR.replace('"latin1"', ""))], {"C08": 1}),
    ("c08_b_ascii_dec", [(C, DSTR, DSTR.replace('"latin1"', '"utf-8", "replace"'))], {"C08": 1}),
    ("c08_b_swap", [(T, SWAP, SWAP.replace("(raw >> 8) & 0xFF", "(raw >> 8) & 0x7F"))], {"C08": 1}),
    ("c08_b_noswap", [(T, SWAP, "        self.check = raw\n")], {"C08": 1}),
    ("c08_b_span", [(T, "self._builder.payload[18:]", "self._builder.payload[19:]")], {"C08": 1}),
    ("c08_b_hdrlen", [(B, MBAP, MBAP.replace("len(inner_frame) + 2", "len(inner_frame) + 2 if len(inner_frame) < 128 else len(inner_frame)"))], {"C08": 1}),
    ("c08_b_uid", [(B, MBAP, MBAP.replace("0x1, self.function_code", "0x0, self.function_code"))], {"C08": 1}),
    ("c08_b_errbit", [(T, "self.transparent_function_code | (0x80 if self.error else 0)", "self.transparent_function_code")], {"C08": 1}),
    ("c08_b_errstrip", [(T, "            error = True\n            transparent_function_code &= 0x7F\n", "            error = True\n            transparent_function_code &= 0x7E\n")], {"C08": 1}),
    ("c08_b_cap", [(R, "min(attrs[\"register_count\"], 60)", "min(attrs[\"register_count\"], 59)")], {"C08": 1}),
    ("c08_b_order", [(R, '''        self._builder.add_16bit_uint(self.base_register)
        self._builder.add_16bit_uint(self.register_count)
        [self''', '''        self._builder.add_16bit_uint(self.register_count)
        self._builder.add_16bit_uint(self.base_register)
        [self''')], {"C08": 1}),
    ("c08_b_regval", [(W, '''        attrs["register"] = decoder.decode_16bit_uint()
        attrs["value"] = decoder.decode_16bit_uint()
''', '''        attrs["value"] = decoder.decode_16bit_uint()
        attrs["register"] = decoder.decode_16bit_uint()
''')], {"C08": 1}),
    ("c08_b_regval_both", [(W, '''        attrs["register"] = decoder.decode_16bit_uint()
        attrs["value"] = decoder.decode_16bit_uint()
''', '''        attrs["value"] = decoder.decode_16bit_uint()
        attrs["register"] = decoder.decode_16bit_uint()
'''), (W, '''        self._builder.add_16bit_uint(self.register)
        self._builder.add_16bit_uint(self.value)
''', '''        self._builder.add_16bit_uint(self.value)
        self._builder.add_16bit_uint(self.register)
''')], {"C08": 1}),
    ("c08_b_padding", [(T, "self._builder.add_64bit_uint(self.padding)", "self._builder.add_64bit_uint(self.padding & 0xFF)")], {"C08": 1}),
    ("c08_b_pad_default", [(T, 'self.padding = kwargs.get("padding", 0x08)', 'self.padding = kwargs.get("padding") or 0x08')], {"C08": 1}),
    ("c08_b_dev_zero", [(T, 'self.device_address = kwargs.get("device_address", 0x32)', 'self.device_address = kwargs.get("device_address") or 0x32')], {"C08": 1}),
    ("c08_b_nulls", [(N, "for _ in range(62)]", "for _ in range(61)]")], {"C08": 1}),
    ("c08_b_nocrc_null", [(N, "        [self._builder.add_16bit_uint(v) for v in self.nulls]\n        self._update_check_code()\n", "        [self._builder.add_16bit_uint(v) for v in self.nulls]\n        self._builder.add_16bit_uint(self.check)\n")], {"C08": 1}),
    ("c08_b_crc_before", [(R, SEND + "        self._update_check_code()\n", "        if self.error:\n            self._builder.add_16bit_uint(self.check)\n        else:\n    " + SEND + "            self._update_check_code()\n")], {"C08": 1}),
    ("c08_b_hb_type", [(HB, 'attrs["data_adapter_type"] = decoder.decode_8bit_uint()', 'attrs["data_adapter_type"] = decoder.decode_8bit_uint() & 0x7F')], {"C08": 1}),
    ("c08_b_lookup", [(T, "        elif transparent_function_code == 0x16:\n            return ReadMeterProductRegistersResponse", "        elif transparent_function_code == 0x16:\n            return ReadInputRegistersResponse")], {"C08": 1}),
    ("c08_b_serial_strip", [(T, 'attrs["inverter_serial_number"] = decoder.decode_string(10)', 'attrs["inverter_serial_number"] = decoder.decode_string(10).strip("\\x00")')], {"C08": 1}),
    ("c08_b_lan_pad", [(L, "            and not any(remaining_after_serial[: cls._DISC_NULL_OFFSET])\n", "")], {"C08": 1}),
    ("c08_b_lan_check", [(L, 'check_val = int.from_bytes(remaining[-2:], "big")', 'check_val = int.from_bytes(remaining[-2:], "little")')], {"C08": 1}),
    ("c08_b_lan_parts", [(L, 'gateway=parts[2] if', 'gateway=parts[1] if')], {"C08": 1}),
    ("c08_b_lan_csv", [(L, "self._builder._payload += self._csv_raw\n", "self._builder._payload += self._csv_raw.rstrip()\n")], {"C08": 1}),
    ("c08_b_dec16", [(C, D16, D16.replace('self._byteorder + "H"', '"<H"'))], {"C08": 1}),
    ("c08_b_signed", [(C, D16, D16.replace('"H"', '"h"'))], {"C08": 1}),
    ("c08_b_check_keep", [(T, "        self._builder.add_16bit_uint(self.check)\n", "        self._builder.add_16bit_uint(raw)\n")], {"C08": 1}),
    ("c08_b_min_count", [(R, "if self.register_count <= 0 or 60 < self.register_count", "if self.register_count <= 0 or 60 <= self.register_count")], {"C08": 1}),
    ("c08_b_resp_serial_default", [(T, '''        self._set_attribute_if_present("inverter_serial_number", **kwargs)''', '''        self.inverter_serial_number = kwargs.get("inverter_serial_number", "").strip()''')], {"C08": 1}),
    # ---- behaviour kept
    ("c08_q_unpack_from", [(C, D16, '''        (value,) = struct.unpack_from(">H", self._payload, self._pointer)
        self._pointer += 2
        return value
''')], {"C08": 0}),
    ("c08_q_from_bytes", [(C, D16, '''        start = self._pointer
        self._pointer = start + 2
        if len(self._payload) < start + 2:
            raise struct.error("unpack requires a buffer of 2 bytes")
        return int.from_bytes(self._payload[start : start + 2], "big")
''')], {"C08": 0}),
    ("c08_q_take", [(C, D16, '''        return self._take("H", 2)

    def _take(self, code, size):
        end = self._pointer + size
        chunk, self._pointer = self._payload[self._pointer : end], end
        return struct.unpack(self._byteorder + code, chunk)[0]
''')], {"C08": 0}),
    ("c08_q_to_bytes", [(C, A16, '''        self._payload = self._payload + value.to_bytes(2, "big")
''')], {"C08": 0}),
    ("c08_q_swap", [(T, SWAP, '        self.check = int.from_bytes(raw.to_bytes(2, "little"), "big")\n')], {"C08": 0}),
    ("c08_q_swap2", [(T, SWAP, "        low, high = raw % 256, raw // 256\n        self.check = low * 256 + high\n")], {"C08": 0}),
    ("c08_q_swap3", [(T, SWAP, '        (self.check,) = struct.unpack("<H", struct.pack(">H", raw))\n'), (T, "import warnings\n", "import struct\nimport warnings\n")], {"C08": 0}),
    ("c08_q_values_loop", [(R, VALUES, '''            values = []
            for _ in range(decode_count):
                values.append(decoder.decode_16bit_uint())
            attrs["register_values"] = values
''')], {"C08": 0}),
    ("c08_q_send_loop", [(R, SEND, "        for value in self.register_values:\n            self._builder.add_16bit_uint(value)\n")], {"C08": 0}),
    ("c08_q_header", [(B, MBAP, '''        mbap_header = self._header(len(inner_frame))
'''), (B, '''    @classmethod
    def decode_bytes''', '''    def _header(self, inner_length: int) -> bytes:
        length = inner_length + 2  # unit id and function code count too
        return struct.pack(">HHH", 0x5959, 1, length) + bytes((1, self.function_code))

    @classmethod
    def decode_bytes''')], {"C08": 0}),
    ("c08_q_str", [(C, STR, '        pstring = value[-length:].rjust(length, "*").encode("latin-1")\n')], {"C08": 0}),
    ("c08_q_err", [(T, '''        if transparent_function_code & 0x80:
            error = True
            transparent_function_code &= 0x7F
        else:
            error = False
        attrs["error"] = error
''', '''        attrs["error"] = bool(transparent_function_code & 0x80)
        transparent_function_code &= 0x7F
''')], {"C08": 0}),
    ("c08_q_err_ge", [(T, '''        if transparent_function_code & 0x80:
            error = True
            transparent_function_code &= 0x7F
        else:
            error = False
        attrs["error"] = error
''', '''        error, transparent_function_code = divmod(transparent_function_code, 0x80)
        attrs["error"] = error == 1
''')], {"C08": 0}),
    ("c08_q_table", [(T, '''        if transparent_function_code == 0:
            return NullResponse
        elif transparent_function_code == 3:
            return ReadHoldingRegistersResponse
        elif transparent_function_code == 4:
            return ReadInputRegistersResponse
        elif transparent_function_code == 6:
            return WriteHoldingRegisterResponse
        elif transparent_function_code == 0x16:
            return ReadMeterProductRegistersResponse
        else:
            raise NotImplementedError(f"TransparentResponse function #{transparent_function_code} decoder")
''', '''        known = {
            0: NullResponse,
            3: ReadHoldingRegistersResponse,
            4: ReadInputRegistersResponse,
            6: WriteHoldingRegisterResponse,
            0x16: ReadMeterProductRegistersResponse,
        }
        decoder = known.get(transparent_function_code)
        if decoder is None:
            raise NotImplementedError(f"TransparentResponse function #{transparent_function_code} decoder")
        return decoder
''')], {"C08": 0}),
    ("c08_q_lan_prefix", [(L, '''            len(remaining_after_serial) >= 8
''', '''            len(remaining_after_serial) > cls._PAD_LEN
''')], {"C08": 0}),
    ("c08_q_lan_startswith", [(L, '''        return (
            len(remaining_after_serial) >= 8
            # The 6 bytes preceding the null+comma are the zero padding of a real broadcast;
            # requiring them avoids a crafted padding field false-positiving and dropping a
            # valid transparent response (L6).
            and not any(remaining_after_serial[: cls._DISC_NULL_OFFSET])
            and remaining_after_serial[cls._DISC_NULL_OFFSET] == 0x00
            and remaining_after_serial[cls._DISC_NULL_OFFSET + 1] == cls._DISC_COMMA
        )
''', '''        return remaining_after_serial[:8] == b"\\x00" * 7 + b","
''')], {"C08": 0}),
    ("c08_q_lan_super", [(L, '''        from givenergy_modbus.codec import PayloadEncoder

        self._builder = PayloadEncoder()
        self._builder.add_string(self.data_adapter_serial_number, 10)
        self._encode_function_data()
        inner = self._builder.payload
        mbap = struct.pack(">HHHBB", 0x5959, 0x1, len(inner) + 2, 0x1, self.function_code)
        self.raw_frame = mbap + inner
        return self.raw_frame
''', '''        return super().encode()
'''), (L, "import re\nimport struct\n", "import re\n")], {"C08": 0}),
    ("c08_q_crc_calc", [(T, "CrcModbus().process(self._builder.payload[18:]).final()", "CrcModbus.calc(self._builder.payload[18:])")], {"C08": 0}),
    ("c08_q_builder_crc", [(T, "raw = CrcModbus().process(self._builder.payload[18:]).final()", "raw = _modbus_crc(self._builder.payload[18:])"), (T, '''class TransparentMessage(BasePDU, ABC):''', '''def _modbus_crc(covered: bytes) -> int:
    checker = CrcModbus()
    checker.process(covered)
    return checker.final()


class TransparentMessage(BasePDU, ABC):''')], {"C08": 0}),
]
