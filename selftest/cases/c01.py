F = "pdu/write_registers.py"
B, Q = {"C01": 1}, {"C01": 0}
CHK = '''        if self.installer:
            if self.register not in INSTALLER_WRITE_REGISTERS:
                raise InvalidPduState(f"HR({self.register}) is not in the installer register set", self)
        elif self.register not in WRITE_SAFE_REGISTERS:
            raise InvalidPduState(f"HR({self.register}) is not safe to write to", self)

    def expected_response'''
VAL = '''        elif self.value < 0 or self.value > 0xFFFF:
            raise InvalidPduState(f"Value {self.value}/0x{self.value:04x} must be an unsigned 16-bit int", self)'''
CASES = [
    ("add_reg", [(F, "    20,  # enable AC", "    20, 17,  # enable AC")], B),
    ("add_range", [(F, "    20,  # enable AC", "    *range(18, 21),  # enable AC")], B),
    ("warn_only", [(F, CHK, CHK.replace('raise InvalidPduState(f"HR({self.register}) is not safe to write to", self)', '_logger.warning("x")'))], B),
    ("installer_either", [(F, CHK, '''        if self.installer and self.register not in INSTALLER_WRITE_REGISTERS | WRITE_SAFE_REGISTERS:
            raise InvalidPduState("x", self)
        elif not self.installer and self.register not in WRITE_SAFE_REGISTERS:
            raise InvalidPduState(f"HR({self.register}) is not safe to write to", self)

    def expected_response''')], B),
    ("hole", [(F, CHK, CHK.replace("elif self.register not in WRITE_SAFE_REGISTERS:", "elif self.register not in WRITE_SAFE_REGISTERS and self.register < 4000:"))], B),
    ("skip_when_error", [(F, CHK, "        if self.error:\n            return\n" + CHK)], B),
    ("value_bound", [(F, VAL, VAL.replace("0xFFFF:", "0x1FFFF:"))], B),
    ("value_neg", [(F, VAL, VAL.replace("self.value < 0 or ", ""))], B),
    ("no_validate_in_encode", [("pdu/base.py", "        self.ensure_valid_state()\n        self._builder", "        self._builder")], B),
    ("validate_after", [("pdu/base.py", "        self.ensure_valid_state()\n        self._builder", "        if not getattr(self, 'raw_frame', None):\n            self.ensure_valid_state()\n        self._builder")], B),
    ("masked_value", [(F, "self._builder.add_16bit_uint(self.value)", "self._builder.add_16bit_uint(self.value & 0xFF)")], B),
    ("swap", [(F, "        self._builder.add_16bit_uint(self.register)\n        self._builder.add_16bit_uint(self.value)", "        self._builder.add_16bit_uint(self.value)\n        self._builder.add_16bit_uint(self.register)")], B),
    ("drop_super", [(F, '''        super().ensure_valid_state()
        if self.installer:''', "        if self.installer:")], B),
    ("overlap", [(F, '__all__ = ("INSTALLER', 'WRITE_SAFE_REGISTERS.update({63})\n__all__ = ("INSTALLER')], B),
    ("q_helper", [(F, CHK, '''        allowed = self._allowed()
        if self.register in allowed:
            return
        raise InvalidPduState(f"HR({self.register}) is not allowed", self)

    def _allowed(self):
        return INSTALLER_WRITE_REGISTERS if self.installer else WRITE_SAFE_REGISTERS

    def expected_response''')], Q),
    ("q_pred", [(F, CHK, '''        if not _permitted(self.register, self.installer):
            kind = "installer" if self.installer else "standard"
            raise InvalidPduState(f"HR({self.register}) refused for {kind}", self)

    def expected_response'''), (F, '__all__ = ("INSTALLER', '''def _permitted(reg, installer):
    """Is the register in its tier."""
    if installer:
        return reg in INSTALLER_WRITE_REGISTERS
    return reg in WRITE_SAFE_REGISTERS


__all__ = ("INSTALLER''')], Q),
    ("q_range", [(F, VAL, VAL.replace("self.value < 0 or self.value > 0xFFFF", "not 0 <= self.value <= 65535"))], Q),
    ("q_inrange", [(F, VAL, VAL.replace("self.value < 0 or self.value > 0xFFFF", "self.value not in range(0x10000)"))], Q),
    ("q_pack_once", [(F, "        self._builder.add_16bit_uint(self.register)\n        self._builder.add_16bit_uint(self.value)", "        for field in (self.register, self.value):\n            self._builder.add_16bit_uint(field)")], Q),
    ("q_codec_bytes", [("codec.py", '''        fstring = self._byteorder + "H"
        self._payload += struct.pack(fstring, value)''', '''        self._payload = self._payload + value.to_bytes(2, "big")''')], Q),
    ("q_codec_join", [("codec.py", '''        fstring = self._byteorder + "H"
        self._payload += struct.pack(fstring, value)''', '''        self._append("H", value)

    def _append(self, code, value):
        self._payload = b"".join((self._payload, struct.pack(f"{self._byteorder}{code}", value)))''')], Q),
    ("q_bytearray", [("codec.py", 'self._payload = b""', "self._payload = bytearray()"), ("codec.py", """        return self._payload

    @property
    def crc""", """        return bytes(self._payload)

    @property
    def crc""")], Q),
    ("q_order", [(F, '''        super().ensure_valid_state()
        if self.register is None:
            raise InvalidPduState("Register must be set", self)
        if self.value is None:
            raise InvalidPduState("Register value must be set", self)''', '''        super().ensure_valid_state()
        if self.value is None:
            raise InvalidPduState("Register value must be set", self)
        if self.register is None:
            raise InvalidPduState("Register must be set", self)''') , (F, "        elif self.value < 0", "        if self.value < 0")], Q),
    ("q_pass", [("pdu/base.py", "        self.ensure_valid_state()\n        self._builder", "        self.ensure_valid_state()\n        _ = 0\n        self._builder")], Q),
]
