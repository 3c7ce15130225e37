C = "client/client.py"
M = "model/manifest.py"
P = "model/plant.py"
EMSGATE = "        if not is_ems:\n            reqs += [\n"
BANKS = "    for addr in caps.meter_addresses:\n        banks.append((addr, 60, 30))\n    for offset, _ in caps.bcu_stacks:\n        banks.append((0x70 + offset, 60, 60))\n"
FRESH = "            if age is not None and age <= max_age:\n"
AGE = '            age = plant.block_age(addr, "IR", base, count, now=now)\n'
GONE = '        if plant.block_present(addr, "IR", base, count) is False:\n'
REQ = "        reqs.append(ReadInputRegistersRequest(base_register=base, register_count=count, device_address=addr))\n    return reqs\n"
TAIL = "        for name, entries in manifest.LOAD_CONFIG_RANGES.items():\n            if getattr(caps, name):\n                reqs += [_request_for_range(r, inverter) for r in entries]\n        await self._execute_reads(reqs,"
EXT = "        if caps.has_extended_slots:\n            reqs.append(ReadHoldingRegistersRequest(base_register=240, register_count=60, device_address=inverter))\n"
B = {"C24": 1}
Q = {"C24": 0}
CASES = [
    ("b_meter60", [(C, "banks.append((addr, 60, 30))", "banks.append((addr, 60, 60))")], B),
    ("b_bcu_index", [(C, BANKS, BANKS.replace("for offset, _ in caps.bcu_stacks", "for offset in range(len(caps.bcu_stacks))"))], B),
    ("b_lvbcu_truthy_ems", [(C, "    if caps.lv_bcu_address is not None:\n        banks", "    if caps.lv_bcu_address is not None and caps.lv_battery_addresses[1:]:\n        banks"), (C, "    for addr in caps.hv_bmu_addresses:\n        banks.append((addr, 60, 60))\n", "    if not caps.aio_battery_module_addresses:\n        for addr in caps.hv_bmu_addresses:\n            banks.append((addr, 60, 60))\n")], B),
    ("b_inverter_hard", [(C, "    inverter = caps.inverter_address\n    banks:", "    inverter = 0x11\n    banks:")], B),
    ("b_is_hv_gate", [(C, "    for addr in caps.lv_battery_addresses:\n", "    for addr in [] if caps.is_hv else caps.lv_battery_addresses:\n")], B),
    ("b_three_last", [(M, "min(60, 1414 - b)) for b in range(1000, 1414, 60)]", "min(60, 1414 - b)) for b in range(1000, 1360, 60)]")], B),
    ("b_three_over", [(M, 'RegisterRange("IR", b, min(60, 1414 - b))', 'RegisterRange("IR", b, 60)')], B),
    ("b_gateway_base", [(M, "min(60, 1860 - b)) for b in range(1600, 1860, 60)]", "min(60, 1860 - b)) for b in range(1620, 1860, 60)]")], B),
    ("b_absent_unknown", [(C, GONE, GONE.replace("is False", "is not True"))], B),
    ("b_absent_count", [(C, GONE, GONE.replace("base, count)", "base, 60)"))], B),
    ("b_absent_inverter", [(C, GONE, GONE.replace("addr, ", "caps.inverter_address, "))], B),
    ("b_absent_ignored", [(C, GONE, GONE.replace(" is False:", " is False and max_age is not None:"))], B),
    ("b_absent_break", [(C, 'detect marked it absent", base, count, addr)\n            continue\n', 'detect marked it absent", base, count, addr)\n            break\n')], B),
    ("b_fresh_default", [(C, "        ir0_max_age: float | None = None,\n        *,\n        max_age: float | None = None,\n", "        ir0_max_age: float | None = None,\n        *,\n        max_age: float | None = 0.5,\n")], B),
    ("b_fresh_lt", [(C, FRESH, FRESH.replace("age <= max_age", "age < max_age"))], B),
    ("b_fresh_unknown", [(C, FRESH, "            if age is None or age <= max_age:\n")], B),
    ("b_fresh_block", [(C, AGE, AGE.replace("base, count,", "0, 60,"))], B),
    ("b_fresh_register_age", [(C, AGE, AGE.replace("count, now", "60, now"))], B),
    ("b_alias_wins", [(C, "            if max_age is None:\n                max_age = ir0_max_age\n", "            max_age = ir0_max_age\n")], B),
    ("b_alias_ignored", [(C, "            if max_age is None:\n                max_age = ir0_max_age\n", "")], B),
    ("b_ems_config", [(C, EMSGATE, EMSGATE.replace("not is_ems", "caps.device_type is not Model.EMS"))], B),
    ("b_ems_identity", [(C, "            ReadHoldingRegistersRequest(base_register=0, register_count=60, device_address=inverter),\n        ]\n        if not is_ems:", "            ReadHoldingRegistersRequest(base_register=0, register_count=60, device_address=0x11),\n        ]\n        if not is_ems:")], B),
    ("b_ext_elif", [(C, EXT, EXT.replace("if caps.has", "elif caps.has"))], B),
    ("b_ext_firmware", [(M, "arm_fw > threshold", "arm_fw >= threshold")], B),
    ("b_ext_none", [(M, "threshold is not None and arm_fw is not None and arm_fw > threshold", "threshold is not None and (arm_fw is None or arm_fw > threshold)")], B),
    ("b_config_skip", [(C, TAIL, TAIL.replace("            if getattr(caps, name):\n", "            if getattr(caps, name) and self.plant.block_present(inverter, \"HR\", entries[0].base_register, 60) is not False:\n"))], Q),
    ("b_config_absent", [(C, TAIL, TAIL.replace("        await self._ex", "        reqs = [r for r in reqs if self.plant.block_present(inverter, \"HR\", r.base_register, r.register_count) is not False]\n        await self._ex"))], B),
    ("b_dup", [(C, TAIL, TAIL.replace("        await self._ex", "        if caps.is_gateway:\n            reqs.append(reqs[0])\n        await self._ex"))], B),
    ("b_smart", [(C, TAIL, TAIL.replace("            if getattr(caps, name):\n", "            if getattr(caps, name) or name == 'has_hv_cabinet_block' and caps.is_hv:\n"))], B),
    ("b_ac_gate", [(P, '        return manifest.has_capability("has_ac_config_block", self.device_type)', '        return manifest.has_capability("is_ac_coupled", self.device_type)')], B),
    ("b_truncated", [(C, "        await self._execute_reads(reqs,", "        await self._execute_reads(reqs[:8],")], Q),
    ("b_truncated5", [(C, "        await self._execute_reads(reqs,", "        await self._execute_reads(reqs[:5],")], B),
    # behaviour kept
    ("q_order", [(C, BANKS, "    for offset, _ in caps.bcu_stacks:\n        banks.append((0x70 + offset, 60, 60))\n    banks.extend((addr, 60, 30) for addr in caps.meter_addresses)\n")], Q),
    ("q_flip", [(C, FRESH, "            if age is not None and max_age >= age:\n")], Q),
    ("q_nested", [(C, FRESH, "            if age is None:\n                pass\n            elif not age > max_age:\n")], Q),
    ("q_helper", [(C, GONE, "        if _known_absent(plant, addr, base, count):\n"), (C, "def _refresh_ranges(\n", 'def _known_absent(plant, addr, base, count):\n    present = plant.block_present(addr, "IR", base, count)\n    return present is not None and not present\n\n\ndef _refresh_ranges(\n')], Q),
    ("q_request_for_range", [(C, REQ, '        reqs.append(_request_for_range(manifest.RegisterRange("IR", base, count), addr))\n    return reqs\n')], Q),
    ("q_comprehension", [(C, REQ, "        wanted.append((addr, base, count))\n    return [ReadInputRegistersRequest(base_register=b, register_count=n, device_address=a) for a, b, n in wanted]\n"), (C, "    reqs: list[TransparentRequest] = []\n    for addr, base, count in _refresh_banks", "    wanted: list[tuple[int, int, int]] = []\n    for addr, base, count in _refresh_banks")], Q),
    ("q_gated", [(C, TAIL, TAIL.replace("        for name, entries in manifest.LOAD_CONFIG_RANGES.items():\n            if getattr(caps, name):\n                reqs += [_request_for_range(r, inverter) for r in entries]\n", "        reqs.extend(\n            _request_for_range(r, inverter)\n            for r in manifest.gated_ranges(manifest.LOAD_CONFIG_RANGES, caps.device_type, caps.arm_firmware_version)\n        )\n"))], Q),
    ("q_generator", [(C, "def _refresh_banks(caps: PlantCapabilities) -> list[tuple[int, int, int]]:", "def _peripherals(caps):\n    yield from ((a, 60, 60) for a in caps.aio_battery_module_addresses)\n    yield from ((a, 60, 60) for a in caps.hv_bmu_addresses)\n\n\ndef _refresh_banks(caps: PlantCapabilities) -> list[tuple[int, int, int]]:"), (C, "    for addr in caps.aio_battery_module_addresses:\n        banks.append((addr, 60, 60))\n    for addr in caps.hv_bmu_addresses:\n        banks.append((addr, 60, 60))\n", "    banks.extend(_peripherals(caps))\n")], Q),
    ("q_limit_or", [(C, "            if max_age is None:\n                max_age = ir0_max_age\n", "            max_age = ir0_max_age if max_age is None else max_age\n")], Q),
    ("q_method", [(C, "        await self._execute_reads(\n            _refresh_ranges(caps, max_age, self.plant),\n            timeout=timeout,\n            retries=retries,\n            retry_delay=retry_delay,\n        )\n", "        wanted = _refresh_ranges(caps, max_age, self.plant)\n        if wanted:\n            await self._execute_reads(wanted, timeout=timeout, retries=retries, retry_delay=retry_delay)\n")], Q),
]
