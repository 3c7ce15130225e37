P = "model/plant.py"
LOOP = '''            bmus = []
            for i in range(num_modules):
                bmu_cache = self.register_caches.get(next_bmu_addr + i, RegisterCache())
                bmus.append(Bmu.from_register_cache(bmu_cache, i))
            next_bmu_addr += num_modules
'''
BATT = '''            return [
                Battery.from_register_cache(self.register_caches.get(addr, RegisterCache()))
                for addr in self.capabilities.lv_battery_addresses
            ]
'''
METER = '''        return {
            addr: Meter.from_register_cache(self.register_caches.get(addr, RegisterCache()))
            for addr in self.capabilities.meter_addresses
        }
'''
INV = "            cache = self.register_caches.get(self.capabilities.inverter_address, RegisterCache())\n            return select_inverter(self.capabilities.device_type, cache)\n"
B = {"C31": 1}
G = {"C31": 0}
CASES = [
    ("b_no_advance", [(P, "            next_bmu_addr += num_modules\n", "")], B),
    ("b_advance_4", [(P, "next_bmu_addr += num_modules", "next_bmu_addr += 4")], B),
    ("b_start", [(P, "next_bmu_addr = 0x50", "next_bmu_addr = 0x51")], B),
    ("b_reset_inside", [(P, "            device_addr = 0x70 + offset\n", "            device_addr = 0x70 + offset\n            next_bmu_addr = 0x50\n")], B),
    ("b_bcu_addr", [(P, "device_addr = 0x70 + offset", "device_addr = 0x70 + len(stacks)")], B),
    ("b_bmu_skip", [(P, "                bmus.append(Bmu.from_register_cache(bmu_cache, i))\n", "                if (next_bmu_addr + i) in self.register_caches:\n                    bmus.append(Bmu.from_register_cache(bmu_cache, i))\n")], B),
    ("b_batt_filter", [(P, "for addr in self.capabilities.lv_battery_addresses\n            ]", "for addr in self.capabilities.lv_battery_addresses if addr in self.register_caches\n            ]")], B),
    ("b_batt_enum", [(P, BATT, BATT.replace("get(addr,", "get(0x32 + n,").replace("for addr in self.capabilities.lv_battery_addresses", "for n, _ in enumerate(self.capabilities.lv_battery_addresses)"))], B),
    ("b_batt_sorted", [(P, "for addr in self.capabilities.lv_battery_addresses\n            ]", "for addr in self.capabilities.lv_battery_addresses[:6]\n            ]")], B),
    ("b_meter_key", [(P, "            addr: Meter.from_register_cache(", "            addr - 1: Meter.from_register_cache(")], B),
    ("b_inv_fixed", [(P, INV, INV.replace("self.capabilities.inverter_address", "0x11"))], B),
    ("b_undetected", [(P, "self.register_caches.get(0x11, RegisterCache()))\n\n", "self.register_caches.get(0x32, RegisterCache()))\n\n")], B),
    ("b_no_default", [(P, INV, INV.replace(", RegisterCache())", ")"))], B),
    ("b_three", [("model/inverter_threephase.py", 'if has_capability("is_three_phase", model):', 'if has_capability("is_three_phase", model) and model is not Model.AIO_COMMERCIAL:')], B),
    ("b_bmu_no_i", [(P, "next_bmu_addr + i, RegisterCache", "next_bmu_addr, RegisterCache")], B),
    ("b_bmu_cond", [(P, "            next_bmu_addr += num_modules\n", "            if bcu.is_valid():\n                next_bmu_addr += num_modules\n")], B),
    ("b_bmu_inc2", [(P, LOOP, '''            bmus = []
            for i in range(num_modules):
                bmus.append(Bmu.from_register_cache(self.register_caches.get(next_bmu_addr, RegisterCache()), i))
                if i:
                    next_bmu_addr += 1
''')], B),
    ("b_bmu_range", [(P, LOOP, LOOP.replace("range(num_modules)", "range(1, num_modules)"))], B),
    ("b_stack_index", [(P, LOOP, LOOP.replace("bmu_cache, i)", "bmu_cache, i + len(stacks))"))], B),
    ("b_ems", [(P, "self.capabilities.device_type not in (Model.EMS, Model.EMS_COMMERCIAL):\n            return None\n        cache", "self.capabilities.device_type != Model.EMS:\n            return None\n        cache")], B),
    ("b_gateway", [(P, "return select_gateway(cache)", "return GatewayV2.from_register_cache(cache) if self.capabilities.arm_firmware_version else GatewayV1.from_register_cache(cache)")], {}),
    ("b_aio_addr", [(P, "AioBatteryModule.from_register_cache(self.register_caches[addr], addr)", "AioBatteryModule.from_register_cache(self.register_caches[addr], len(modules))")], B),
    ("b_aio_break", [(P, '                    _logger.error("Failed to decode AIO battery module at 0x%02x", addr, exc_info=True)\n', '                    _logger.error("Failed to decode AIO battery module at 0x%02x", addr, exc_info=True)\n            else:\n                break\n')], B),
    ("b_lvbcu", [(P, "        if not cache:\n            return None\n        try:\n            return LvBcu", "        if not cache or not self.capabilities.lv_battery_addresses:\n            return None\n        try:\n            return LvBcu")], B),
    ("b_layout", [("model/lv_bcu.py", "cls.model_validate(LvBcuRegisterGetter(register_cache)", "cls.model_validate(BatteryRegisterGetter(register_cache)"), ("model/lv_bcu.py", "from givenergy_modbus.model.register import", "from givenergy_modbus.model.battery import BatteryRegisterGetter\nfrom givenergy_modbus.model.register import")], B),
    ("b_gw", [("model/gateway.py", "    return GatewayV1.from_register_cache(register_cache)", "    return GatewayV2.from_register_cache(register_cache)")], B),
    # behaviour kept
    ("g_helper", [(P, BATT, BATT.replace("self.register_caches.get(addr, RegisterCache())", "self._bank(addr)")), (P, INV, INV.replace("self.register_caches.get(self.capabilities.inverter_address, RegisterCache())", "self._bank(self.capabilities.inverter_address)")), (P, "    @property\n    def hv_stacks", "    def _bank(self, addr: int) -> RegisterCache:\n        if addr in self.register_caches:\n            return self.register_caches[addr]\n        return RegisterCache()\n\n    @property\n    def hv_stacks")], G),
    ("g_none_default", [(P, INV, '''            cache = self.register_caches.get(self.capabilities.inverter_address)
            if cache is None:
                cache = RegisterCache()
            return select_inverter(self.capabilities.device_type, cache)
''')], G),
    ("g_or_default", [(P, INV, INV.replace("get(self.capabilities.inverter_address, RegisterCache())", "get(self.capabilities.inverter_address) or RegisterCache()"))], {}),
    ("g_batt_loop", [(P, BATT, '''            found: list[Battery] = []
            caps = self.capabilities
            for a in caps.lv_battery_addresses:
                bank = self.register_caches.get(a, RegisterCache())
                found.append(Battery.from_register_cache(bank))
            return found
''')], G),
    ("g_batt_map", [(P, BATT, '''            return list(map(lambda a: Battery.from_register_cache(self.register_caches.get(a, RegisterCache())), self.capabilities.lv_battery_addresses))
''')], G),
    ("g_batt_enum", [(P, BATT, BATT.replace("get(addr,", "get(addr,").replace("for addr in self.capabilities.lv_battery_addresses", "for _, addr in enumerate(self.capabilities.lv_battery_addresses)"))], G),
    ("g_meter_loop", [(P, METER, '''        out: dict[int, Meter] = {}
        for a in self.capabilities.meter_addresses:
            out[a] = Meter.from_register_cache(self.register_caches.get(a, RegisterCache()))
        return out
''')], G),
    ("g_meter_len", [(P, "if not self.capabilities or not self.capabilities.meter_addresses:\n            return {}\n", "if self.capabilities is None or len(self.capabilities.meter_addresses) == 0:\n            return {}\n")], G),
    ("g_bmu_comp", [(P, LOOP, '''            bmus = [
                Bmu.from_register_cache(self.register_caches.get(next_bmu_addr + i, RegisterCache()), i) for i in range(num_modules)
            ]
            next_bmu_addr += num_modules
''')], G),
    ("g_bmu_offset", [(P, "next_bmu_addr = 0x50", "seen = 0"), (P, "next_bmu_addr + i, RegisterCache", "0x50 + seen + i, RegisterCache"), (P, "next_bmu_addr += num_modules", "seen = seen + num_modules")], G),
    ("g_bmu_kw", [(P, "Bmu.from_register_cache(bmu_cache, i)", "Bmu.from_register_cache(bmu_cache, bmu_index=i)")], G),
    ("g_bmu_helper", [(P, LOOP, '''            bmus = self._bmus(next_bmu_addr, num_modules)
            next_bmu_addr += num_modules
'''), (P, "    @property\n    def hv_stacks", '''    def _bmus(self, first: int, count: int) -> list[Bmu]:
        out = []
        for i in range(count):
            out.append(Bmu.from_register_cache(self.register_caches.get(first + i, RegisterCache()), i))
        return out

    @property
    def hv_stacks''')], G),
    ("g_bmu_enum", [(P, LOOP, '''            bmus = [
                Bmu.from_register_cache(self.register_caches.get(a, RegisterCache()), i)
                for i, a in enumerate(range(next_bmu_addr, next_bmu_addr + num_modules))
            ]
            next_bmu_addr += num_modules
''')], G),
    ("g_bmu_inc", [(P, LOOP, '''            bmus = []
            for i in range(num_modules):
                bmus.append(Bmu.from_register_cache(self.register_caches.get(next_bmu_addr, RegisterCache()), i))
                next_bmu_addr += 1
''')], G),
    ("g_stack_loop", [(P, "for offset, num_modules in self.capabilities.bcu_stacks:\n            device_addr", "for stack in self.capabilities.bcu_stacks:\n            offset, num_modules = stack\n            device_addr")], G),
    ("g_stack_pos", [(P, "HvStack(device_address=device_addr, bcu=bcu, bmus=bmus)", "HvStack(0x70 + offset, bcu, bmus)")], G),
    ("g_ems_flag", [(P, "self.capabilities.device_type not in (Model.EMS, Model.EMS_COMMERCIAL):\n            return None\n        cache", "not self.capabilities.is_ems:\n            return None\n        cache")], G),
    ("g_gw_is", [(P, "self.capabilities.device_type != Model.GATEWAY", "self.capabilities.device_type is not Model.GATEWAY")], G),
    ("g_inv_inline", [(P, INV, '''            cache = self.register_caches.get(self.capabilities.inverter_address, RegisterCache())
            if self.capabilities.is_three_phase:
                return ThreePhaseInverter.from_register_cache(cache)
            return SinglePhaseInverter.from_register_cache(cache)
''')], G),
    ("g_select_cls", [("model/inverter_threephase.py", '''    if has_capability("is_three_phase", model):
        return ThreePhaseInverter.from_register_cache(register_cache)
    return SinglePhaseInverter.from_register_cache(register_cache)
''', '''    layout = ThreePhaseInverter if has_capability("is_three_phase", model) else SinglePhaseInverter
    return layout.from_register_cache(register_cache)
''')], G),
    ("g_aio_get", [(P, '''            if addr in self.register_caches:
                try:
                    modules.append(AioBatteryModule.from_register_cache(self.register_caches[addr], addr))
''', '''            bank = self.register_caches.get(addr)
            if bank is not None:
                try:
                    modules.append(AioBatteryModule.from_register_cache(bank, module_address=addr))
''')], G),
    ("g_aio_continue", [(P, '''            if addr in self.register_caches:
                try:
                    modules.append(AioBatteryModule.from_register_cache(self.register_caches[addr], addr))
                except Exception:
                    _logger.error("Failed to decode AIO battery module at 0x%02x", addr, exc_info=True)
''', '''            if addr not in self.register_caches:
                continue
            try:
                module = AioBatteryModule.from_register_cache(self.register_caches[addr], addr)
            except Exception:
                _logger.error("Failed to decode AIO battery module at 0x%02x", addr, exc_info=True)
                continue
            modules.append(module)
''')], G),
    ("g_layout", [("model/lv_bcu.py", "        return cls.model_validate(LvBcuRegisterGetter(register_cache).build())", "        getter = LvBcuRegisterGetter(register_cache)\n        values = getter.build()\n        return cls.model_validate(values)")], G),
    ("g_batt_gen", [(P, BATT, '''            return list(self._decode_all(Battery, self.capabilities.lv_battery_addresses))
'''), (P, "    @property\n    def hv_stacks", '''    def _decode_all(self, layout, addresses):
        for address in addresses:
            yield layout.from_register_cache(self.register_caches.get(address, RegisterCache()))

    @property
    def hv_stacks''')], G),
    ("g_generic", [(P, BATT, '''            return [self._decode(Battery, a) for a in self.capabilities.lv_battery_addresses]
'''), (P, METER, "        return {a: self._decode(Meter, a) for a in self.capabilities.meter_addresses}\n"), (P, "    @property\n    def hv_stacks", '''    def _decode(self, layout, address: int):
        return layout.from_register_cache(self.register_caches.get(address, RegisterCache()))

    @property
    def hv_stacks''')], G),
    ("g_match", [(P, INV, '''            cache = self.register_caches.get(self.capabilities.inverter_address, RegisterCache())
            match self.capabilities.device_type:
                case Model.HYBRID_3PH | Model.AC_3PH | Model.AIO_COMMERCIAL | Model.ALL_IN_ONE_HYBRID:
                    return ThreePhaseInverter.from_register_cache(cache)
                case _:
                    return SinglePhaseInverter.from_register_cache(cache)
''')], G),
    ("g_map_cls", [("model/inverter_threephase.py", '''    if has_capability("is_three_phase", model):
        return ThreePhaseInverter.from_register_cache(register_cache)
    return SinglePhaseInverter.from_register_cache(register_cache)
''', '''    layouts = {True: ThreePhaseInverter, False: SinglePhaseInverter}
    return layouts[has_capability("is_three_phase", model)].from_register_cache(register_cache)
''')], G),
    ("g_addr", [(P, INV, '''            return select_inverter(self.capabilities.device_type, self._inverter_bank())
'''), (P, "        cache = self.register_caches.get(self.capabilities.inverter_address, RegisterCache())\n        return Ems.from_register_cache(cache)", "        return Ems.from_register_cache(self._inverter_bank())"), (P, "    @property\n    def hv_stacks", '''    def _inverter_bank(self) -> RegisterCache:
        address = self.capabilities.inverter_address if self.capabilities else 0x11
        try:
            return self.register_caches[address]
        except KeyError:
            return RegisterCache()

    @property
    def hv_stacks''')], G),
    ("g_dict", [(P, METER, "        return dict((a, Meter.from_register_cache(self.register_caches.get(a, RegisterCache()))) for a in self.capabilities.meter_addresses)\n")], G),
    ("g_empty", [(P, "        if not self.capabilities or not self.capabilities.meter_addresses:\n            return {}\n", "        if not self.capabilities:\n            return {}\n")], G),
    ("g_stack_zip", [(P, "        stacks = []\n        next_bmu_addr = 0x50\n        for offset, num_modules in self.capabilities.bcu_stacks:\n", "        stacks: list[HvStack] = []\n        next_bmu_addr = 0x50\n        for n, (offset, num_modules) in enumerate(self.capabilities.bcu_stacks):\n")], G),
    ("g_stack_local", [(P, "            next_bmu_addr += num_modules\n            stacks.append(HvStack(device_address=device_addr, bcu=bcu, bmus=bmus))\n", "            stack = HvStack(device_address=device_addr, bcu=bcu, bmus=bmus)\n            stacks.append(stack)\n            next_bmu_addr = next_bmu_addr + len(bmus)\n")], {}),
]
