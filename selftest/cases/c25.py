P = "model/plant.py"
B, OK = {"C25": 1}, {"C25": 0}
CASES = [
    ("q_cmt", [(P, "        cache = self.register_caches[device_address]\n        # Pattern B", "        cache = self.register_caches[device_address]\n        _ = None\n        # Pattern B")], OK),
    ("b_dropout_any", [(P, "and all(v == 0 for v in incoming.values())\n", "and all(v == 0 for v in list(incoming.values())[1:])\n")], B),
    ("b_dropout_cache_first", [(P, "            and any(cache.get(k) for k in incoming)\n", "            and cache.get(next(iter(incoming)))\n")], B),
    ("b_dropout_gt", [(P, "            register_count >= 60\n            and incoming\n", "            register_count > 60\n            and incoming\n")], B),
    ("b_dropout_short", [(P, "            register_count >= 60\n            and incoming\n", "            register_count >= 59\n            and incoming\n")], B),
    ("b_imp_range", [(P, "            and 0x32 <= device_address <= 0x37\n", "            and 0x32 <= device_address < 0x37\n")], B),
    ("b_imp_range2", [(P, "            and 0x32 <= device_address <= 0x37\n", "            and 0x32 <= device_address <= 0x38\n")], B),
    ("b_imp_present", [(P, "{i for i in range(60) if IR(BANK_BASE + i) in incoming},", "{i for i in range(60) if IR(BANK_BASE + i) in cache},")], B),
    ("b_imp_caps", [(P, "            register_count >= 60\n            and 0x32", "            register_count >= 60\n            and self.capabilities is not None\n            and 0x32")], B),
    ("b_imp_cells", [("model/battery_splice.py", "_CELL_IDXS: tuple[int, ...] = tuple(range(16))", "_CELL_IDXS: tuple[int, ...] = tuple(range(17))")], B),
    ("b_imp_fw", [("model/battery_splice.py", "_FIRMWARE_IDX: int = 38", "_FIRMWARE_IDX: int = 37")], B),
    ("b_imp_cap", [("model/battery_splice.py", "any(i in present and frame[i] for i in _CAP_REMAINING_IDXS)", "all(i in present and frame[i] for i in _CAP_REMAINING_IDXS)")], B),
    ("b_coherent_incoming", [(P, "is_coherent(incoming, self.register_caches[device_address])", "is_coherent(self.register_caches[device_address], incoming)")], OK),
    ("b_coherent_wrong_cache", [(P, "is_coherent(incoming, self.register_caches[device_address])", "is_coherent(incoming, incoming)")], B),
    ("b_coherent_full_only", [(P, "if not getter_cls.is_coherent(incoming", "if register_count >= 60 and not getter_cls.is_coherent(incoming")], B),
    ("b_splice_only_full", [(P, "if not self._splice_guard(device_address, incoming, register_count, now=received_at):", "if register_count >= 60 and not self._splice_guard(device_address, incoming, register_count, now=received_at):")], B),
    ("b_commit_before", [(P, "        getter_cls = self._getter_for_device_address(device_address)\n        if getter_cls is not None:\n            if not getter", "        getter_cls = self._getter_for_device_address(device_address)\n        self.register_caches[device_address].update(incoming)\n        if getter_cls is not None:\n            if not getter")], B),
    ("b_commit_nonzero", [(P, "        self.register_caches[device_address].update(incoming)\n        return True", "        self.register_caches[device_address].update({k: v for k, v in incoming.items() if v})\n        return True")], B),
    ("b_commit_replace", [(P, "        self.register_caches[device_address].update(incoming)\n        return True", "        self.register_caches[device_address] = RegisterCache(incoming)\n        return True")], B),
    ("b_getter_range", [(P, "        if 0x70 <= device_address <= 0x8F:", "        if 0x70 <= device_address < 0x8F:")], B),
    ("b_getter_caps_battery", [(P, "            if device_address in self.capabilities.hv_bmu_addresses:\n                return BmuRegisterGetter\n            if 0x32 <= device_address <= 0x37:", "            if device_address in self.capabilities.hv_bmu_addresses:\n                return BmuRegisterGetter\n            if device_address in self.capabilities.lv_battery_addresses:")], B),
    ("b_getter_order", [(P, "            if device_address == self.capabilities.lv_bcu_address:\n                return LvBcuRegisterGetter\n            if device_address in self.capabilities.hv_bmu_addresses:\n                return BmuRegisterGetter\n            if 0x32 <= device_address <= 0x37:\n                return BatteryRegisterGetter\n", "            if 0x32 <= device_address <= 0x37:\n                return BatteryRegisterGetter\n            if device_address == self.capabilities.lv_bcu_address:\n                return LvBcuRegisterGetter\n            if device_address in self.capabilities.hv_bmu_addresses:\n                return BmuRegisterGetter\n")], B),
    ("b_suspicious_hr", [(P, "            if pdu.is_suspicious():\n", "            if pdu.is_suspicious() and pdu.base_register == 0:\n")], B),
    ("b_suspicious_thresh", [("pdu/read_registers.py", "if count_known_bad_register_values > 5:", "if count_known_bad_register_values > 6:")], B),
    ("b_suspicious_const", [("pdu/read_registers.py", "self.register_values[41] == 0xC0A8", "self.register_values[41] == 0xC0A9")], B),
    ("b_error_late", [(P, "        if pdu.error:\n            _logger.debug(f\"Ignoring error response {pdu}\")\n            return\n", "        if pdu.error and not isinstance(pdu, WriteHoldingRegisterResponse):\n            _logger.debug(f\"Ignoring error response {pdu}\")\n            return\n")], B),
    ("b_null", [(P, "        if isinstance(pdu, NullResponse):\n            _logger.debug(f\"Ignoring Null response {pdu}\")\n            return\n", "")], B),
    ("b_dropout_seeds_zeros", [(P, "            and any(cache.get(k) for k in incoming)\n", "            and any(cache[k] for k in incoming)\n")], B),
    # refactorings
    ("r_not_any", [(P, "and all(v == 0 for v in incoming.values())\n", "and not any(incoming.values())\n")], OK),
    ("r_dropout_helper", [(P, "        if (\n            register_count >= 60\n            and incoming\n            and all(v == 0 for v in incoming.values())\n            and any(cache.get(k) for k in incoming)\n        ):", "        if self._is_dropout(cache, incoming, register_count):"), (P, "    def _commit_bank(\n", "    @staticmethod\n    def _is_dropout(cache, incoming, register_count):\n        if register_count < 60 or not incoming:\n            return False\n        for value in incoming.values():\n            if value != 0:\n                return False\n        for reg in incoming:\n            if cache.get(reg):\n                return True\n        return False\n\n    def _commit_bank(\n")], OK),
    ("r_imp_helper", [(P, "            and is_internally_impossible(\n                [incoming.get(IR(BANK_BASE + i), 0) for i in range(60)],\n                {i for i in range(60) if IR(BANK_BASE + i) in incoming},\n            )", "            and self._impossible(incoming)"), (P, "    def _commit_bank(\n", "    def _impossible(self, incoming):\n        frame, present = [], set()\n        for i in range(60):\n            reg = IR(BANK_BASE + i)\n            frame.append(incoming.get(reg, 0))\n            if reg in incoming:\n                present.add(i)\n        return is_internally_impossible(frame, present)\n\n    def _commit_bank(\n")], OK),
    ("r_loop_store", [(P, "        self.register_caches[device_address].update(incoming)\n        return True", "        for reg, value in incoming.items():\n            cache[reg] = value\n        return True")], OK),
    ("r_getter_nested", [(P, "        if getter_cls is not None:\n            if not getter_cls.is_coherent(incoming, self.register_caches[device_address]):", "        if getter_cls is not None:\n            coherent = getter_cls.is_coherent(incoming, cache)\n            if not coherent:")], OK),
    ("r_early_returns", [(P, "        if isinstance(pdu, ReadHoldingRegistersResponse):\n            incoming = {HR(k): v for k, v in pdu.to_dict().items()}", "        if isinstance(pdu, ReadHoldingRegistersResponse):\n            incoming = {}\n            for k, v in pdu.to_dict().items():\n                incoming[HR(k)] = v")], OK),
]
