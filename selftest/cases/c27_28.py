P = "model/plant.py"
A, AO, B, BO = {"C27": 1}, {"C27": 0}, {"C28": 1}, {"C28": 0}
ECHO = "                target = self.capabilities.inverter_address if self.capabilities is not None else device_address\n                self.register_caches.setdefault(target, RegisterCache()).update({HR(pdu.register): pdu.value})"
STAMP = '        self.register_block_updated_at[(device_address, reg_type, base_register, register_count)] = ts\n'
CASES = [
    ("i_only11", [(P, "if device_address in (0x11, 0x31):\n            self.inv", "if device_address == 0x11:\n            self.inv")], A),
    ("i_32", [(P, "if device_address in (0x11, 0x31):\n            self.inv", "if device_address in (0x11, 0x31, 0x32):\n            self.inv")], A),
    ("i_range", [(P, "if device_address in (0x11, 0x31):\n            self.inv", "if 0x11 <= device_address <= 0x31:\n            self.inv")], A),
    ("i_caps", [(P, "if device_address in (0x11, 0x31):\n            self.inv", "if device_address == (self.capabilities.inverter_address if self.capabilities is not None else 0x11) or device_address == 0x31:\n            self.inv")], A),
    ("i_caps2", [(P, "if device_address in (0x11, 0x31):\n            self.inv", "if device_address in (0x11, 0x31) and (self.capabilities is None or device_address == self.capabilities.inverter_address):\n            self.inv")], A),
    ("i_first", [(P, "            self.inverter_serial_number = pdu.inverter_serial_number\n", "            self.inverter_serial_number = self.inverter_serial_number or pdu.inverter_serial_number\n")], A),
    ("i_swap", [(P, "            self.inverter_serial_number = pdu.inverter_serial_number\n", "            self.inverter_serial_number = pdu.data_adapter_serial_number\n")], A),
    ("i_adapter_gate", [(P, "        self.data_adapter_serial_number = pdu.data_adapter_serial_number\n", "        if device_address in self.register_caches and self.register_caches[device_address]:\n            self.data_adapter_serial_number = pdu.data_adapter_serial_number\n")], A),
    ("i_mirror", [(P, "                self.register_caches.setdefault(target, RegisterCache()).update({HR(pdu.register): pdu.value})", "                for t in {target, device_address}:\n                    self.register_caches.setdefault(t, RegisterCache()).update({HR(pdu.register): pdu.value})")], A),
    ("w_device", [(P, "target = self.capabilities.inverter_address if self.capabilities is not None else device_address", "target = device_address")], A),
    ("w_nocaps", [(P, "target = self.capabilities.inverter_address if self.capabilities is not None else device_address", "target = self.capabilities.inverter_address if self.capabilities is not None else 0x11")], A),
    ("w_missing", [(P, "self.register_caches.setdefault(target, RegisterCache()).update({HR(pdu.register): pdu.value})", "if target in self.register_caches:\n                    self.register_caches[target].update({HR(pdu.register): pdu.value})")], A),
    ("w_replace", [(P, "self.register_caches.setdefault(target, RegisterCache()).update({HR(pdu.register): pdu.value})", "self.register_caches[target] = RegisterCache({HR(pdu.register): pdu.value})")], A),
    ("w_ir", [(P, ".update({HR(pdu.register): pdu.value})", ".update({IR(pdu.register): pdu.value})")], A),
    ("w_zero", [(P, "            if pdu.register == 0:", "            if pdu.register == 0 and pdu.value == 0:")], A),
    ("w_known_only", [(P, ECHO, ECHO.replace("                self.register", "                if HR(pdu.register) in self.register_caches.get(target, {}):\n                    self.register"))], A),
    ("w_stamp", [(P, ECHO, ECHO + "\n                self._stamp_block(target, 'HR', pdu.register, 1, received_at)")], A),
    ("w_helper", [(P, ECHO, "                target = device_address\n                if self.capabilities is not None:\n                    target = self.capabilities.inverter_address\n                if target not in self.register_caches:\n                    self.register_caches[target] = RegisterCache()\n                self.register_caches[target][HR(pdu.register)] = pdu.value")], AO),
    # freshness
    ("f_key_count", [(P, STAMP, STAMP.replace("register_count)]", "60)]"))], B),
    ("f_key_type", [(P, "                self._stamp_block(device_address, \"HR\",", "                self._stamp_block(device_address, \"IR\",")], B),
    ("f_stamp_always", [(P, "            if self._commit_bank(device_address, incoming, pdu.register_count, received_at=received_at):\n                self._stamp_block(device_address, \"IR\", pdu.base_register, pdu.register_count, received_at)\n", "            committed = self._commit_bank(device_address, incoming, pdu.register_count, received_at=received_at)\n            self._stamp_block(device_address, \"IR\", pdu.base_register, pdu.register_count, received_at)\n            if committed:\n")], B),
    ("f_present_always", [(P, "            if self._commit_bank(device_address, incoming, pdu.register_count, received_at=received_at):\n                self._stamp_block(device_address, \"IR\", pdu.base_register, pdu.register_count, received_at)\n                self.register_block_present[(device_address, \"IR\", pdu.base_register, pdu.register_count)] = True\n", "            self.register_block_present[(device_address, \"IR\", pdu.base_register, pdu.register_count)] = True\n            if self._commit_bank(device_address, incoming, pdu.register_count, received_at=received_at):\n                self._stamp_block(device_address, \"IR\", pdu.base_register, pdu.register_count, received_at)\n")], B),
    ("f_now", [(P, "        ts = received_at or datetime.now(UTC)\n        if ts.tzinfo is None:\n            ts = ts.replace(tzinfo=UTC)\n        self.register_block", "        ts = datetime.now(UTC)\n        self.register_block")], B),
    ("f_naive", [(P, "        ts = received_at or datetime.now(UTC)\n        if ts.tzinfo is None:\n            ts = ts.replace(tzinfo=UTC)\n        self.register_block", "        ts = received_at or datetime.now(UTC)\n        self.register_block")], B),
    ("f_first_only", [(P, STAMP, STAMP.replace("[(device_address, reg_type, base_register, register_count)] = ts", ".setdefault((device_address, reg_type, base_register, register_count), ts)"))], B),
    ("f_hash_keys", [(P, "content_hash = hash(frozenset(committed.items()))", "content_hash = hash(frozenset(committed))")], B),
    ("f_hash_values", [(P, "content_hash = hash(frozenset(committed.items()))", "content_hash = hash(frozenset(committed.values()))")], B),
    ("f_hash_sum", [(P, "content_hash = hash(frozenset(committed.items()))", "content_hash = hash(tuple(committed.items()))")], BO),
    ("f_hash_cache", [(P, "content_hash = hash(frozenset(committed.items()))", "content_hash = hash(frozenset(self.register_caches[device_address].items()))")], B),
    ("f_hash_slide", [(P, "        if prev is None or prev[0] != content_hash:\n            self._block", "        if True:\n            self._block")], B),
    ("f_hash_stuck", [(P, "        if prev is None or prev[0] != content_hash:\n            self._block", "        if prev is None:\n            self._block")], B),
    ("f_hash_dict", [(P, "content_hash = hash(frozenset(committed.items()))", "content_hash = dict(committed)")], BO),
    ("f_absent_drop", [(P, "        self.register_block_present[(device_address, reg_type, base_register, register_count)] = False\n", "        self.register_block_present[(device_address, reg_type, base_register, register_count)] = False\n        self.register_block_updated_at.pop((device_address, reg_type, base_register, register_count), None)\n")], B),
    ("f_absent_pop", [(P, "        self.register_block_present[(device_address, reg_type, base_register, register_count)] = False\n", "        self.register_block_present.pop((device_address, reg_type, base_register, register_count), None)\n")], B),
    ("v_keep_stamp", [(P, "        self.register_block_updated_at.pop(key, None)\n", "")], B),
    ("v_keep_content", [(P, "        self._block_unchanged_since.pop(key, None)\n", "")], B),
    ("v_keep_regs", [(P, "            for idx in range(base_register, base_register + register_count):\n                cache.pop(reg_cls(idx), None)", "            for idx in range(base_register, base_register + register_count - 1):\n                cache.pop(reg_cls(idx), None)")], B),
    ("v_type", [(P, '            reg_cls = HR if reg_type == "HR" else IR\n', "            reg_cls = IR\n")], B),
    ("v_clear", [(P, "            for idx in range(base_register, base_register + register_count):\n                cache.pop(reg_cls(idx), None)", "            cache.clear()")], B),
    ("v_pending", [(P, '        if reg_type == "IR" and base_register == 60 and register_count == 60:\n            self._splice_pending', '        if reg_type == "HR" and base_register == 60 and register_count == 60:\n            self._splice_pending')], B),
    ("v_pending_any", [(P, '        if reg_type == "IR" and base_register == 60 and register_count == 60:\n            self._splice_pending', '        if reg_type == "IR" and base_register == 60:\n            self._splice_pending')], B),
    ("v_loop", [(P, "        self.register_block_present.pop(key, None)\n        self.register_block_updated_at.pop(key, None)\n        self._block_unchanged_since.pop(key, None)\n", "        for table in (self.register_block_present, self.register_block_updated_at, self._block_unchanged_since):\n            if key in table:\n                del table[key]\n")], BO),
    ("a_order", [(P, "if best is None or ts > best:", "if best is None or ts < best:")], B),
    ("a_edge", [(P, "base <= register.index < base + count:", "base <= register.index <= base + count:")], B),
    ("a_type", [(P, "if dev == device_address and reg_type == register.reg_type and base", "if dev == device_address and base")], B),
    ("a_max", [(P, "        best: datetime | None = None\n        for (dev, reg_type, base, count), ts in self.register_block_updated_at.items():\n            if dev == device_address and reg_type == register.reg_type and base <= register.index < base + count:\n                if best is None or ts > best:\n                    best = ts\n", "        best = max(\n            (ts for (dev, reg_type, base, count), ts in self.register_block_updated_at.items() if dev == device_address and reg_type == register.reg_type and 0 <= register.index - base < count),\n            default=None,\n        )\n")], BO),
    ("n_min", [(P, "return max(stamps.values()) if stamps else None", "return min(stamps.values()) if stamps else None")], B),
    ("n_last", [(P, "return max(stamps.values()) if stamps else None", "return list(stamps.values())[-1] if stamps else None")], B),
    ("n_sorted", [(P, "return max(stamps.values()) if stamps else None", "return sorted(stamps.values())[-1] if stamps else None")], {"C28": 0}),
]
