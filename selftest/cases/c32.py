P = "model/plant.py"
B = {"C32": 1}
G = {"C32": 0}
BATT = '''            child_rows.append(
                PlantDevice(
                    identity=batt_serial or f"{plant_serial}_battery_{slot}",
                    device_type=DeviceType.BATTERY,
                    parent=root_identity,
                    device=battery,
                    serial_number=batt_serial,
                    firmware_version=_walk_firmware(DeviceType.BATTERY, battery, self),
                    is_valid=battery.is_valid(),
                )
            )
'''
METER = '''        for addr, meter in self.meters.items():
            meter_serial = _validated_serial(meter)
'''
VS = '''    is_valid = getattr(device, "is_valid", None)
    if callable(is_valid) and not is_valid():
        return None
    return getattr(device, "serial_number", None) or None
'''
CASES = [
    ("b_slotless", [(P, 'f"{plant_serial}_battery_{slot}"', 'f"{plant_serial}_battery"')], B),
    ("b_plantless", [(P, 'f"{plant_serial}_meter_{addr}"', 'f"meter_{addr}"')], B),
    ("b_raw_serial", [(P, 'batt_serial = _validated_serial(battery)', 'batt_serial = battery.serial_number')], B),
    ("b_always_slot", [(P, 'identity=batt_serial or f"{plant_serial}_battery_{slot}"', 'identity=f"{plant_serial}_battery_{slot}"')], B),
    ("b_bmu_parent", [(P, "parent=stack_identity", "parent=root_identity")], B),
    ("b_bmu_ident", [(P, 'f"{stack_identity}_bmu_{n}"', 'f"{plant_serial}_bmu_{n}"')], B),
    ("b_aio_twice", [(P, "            if aio_covers_bmus:\n                continue\n", "")], B),
    ("b_aio_break", [(P, "            if aio_covers_bmus:\n                continue\n", "            if aio_covers_bmus:\n                break\n")], B),
    ("b_aio_if_views", [(P, "aio_covers_bmus = bool(caps and caps.aio_battery_module_addresses)", "aio_covers_bmus = bool(caps)")], B),
    ("b_skip_invalid", [(P, "            batt_serial = _validated_serial(battery)\n", "            batt_serial = _validated_serial(battery)\n            if not battery.is_valid():\n                continue\n")], B),
    ("b_two_auth", [(P, "                        data_source=uinv.data_source,\n                        is_valid=bool(managed_serial),\n", "                        data_source=uinv.data_source,\n                        is_control_authority=True,\n                        is_valid=bool(managed_serial),\n")], B),
    ("b_blind", [(P, 'identity = f"{managed_serial}_managed" if managed_serial else ""', "identity = managed_serial")], B),
    ("b_ems_first", [(P, "        if caps and caps.is_gateway and (gateway := self.gateway) is not None:", "        if self.ems is None and caps and caps.is_gateway and (gateway := self.gateway) is not None:")], {}),
    ("b_root_last", [(P, "        return rows + child_rows\n", "        return child_rows + rows\n")], B),
    ("b_type", [(P, "device_type=DeviceType.BATTERY_MODULE,\n                        parent=stack_identity", "device_type=DeviceType.BATTERY,\n                        parent=stack_identity")], B),
    ("b_valid", [(P, "    if callable(is_valid) and not is_valid():\n        return None\n    return getattr", "    return getattr")], B),
    ("b_managed_skip", [(P, "                managed_serial = uinv.serial_number or \"\"\n", "                managed_serial = uinv.serial_number or \"\"\n                if not managed_serial:\n                    continue\n")], B),
    ("b_managed_from", [(P, "            for uinv in self.inverters:\n                managed", "            for uinv in self.inverters[1:]:\n                managed")], B),
    ("b_hv_serial", [(P, 'stack_identity = f"{plant_serial}_hvstack_{stack.device_address:#04x}"', 'stack_identity = f"{plant_serial}_hvstack"')], B),
    # kept
    ("g_row_helper", [(P, BATT, '''            child_rows.append(self._child(batt_serial or f"{plant_serial}_battery_{slot}", DeviceType.BATTERY, root_identity, battery, batt_serial, _walk_firmware(DeviceType.BATTERY, battery, self), battery.is_valid()))
'''), (P, "    @property\n    def hv_stacks", '''    @staticmethod
    def _child(identity, kind, parent, device, serial, firmware, valid) -> PlantDevice:
        return PlantDevice(identity=identity, device_type=kind, parent=parent, device=device, serial_number=serial, firmware_version=firmware, is_valid=valid)

    @property
    def hv_stacks''')], G),
    ("g_pos", [(P, "for slot, battery in enumerate(self.batteries, start=1):", "for slot, battery in enumerate(self.batteries, 1):")], G),
    ("g_meter_keys", [(P, METER, METER.replace("for addr, meter in self.meters.items():", "for addr in self.meters:\n            meter = self.meters[addr]"))], {}),
    ("g_meter_local", [(P, METER, METER.replace("        for addr, meter in self.meters.items():", "        meters = self.meters\n        for addr, meter in meters.items():"))], G),
    ("g_split", [(P, "        for addr, meter in self.meters.items():\n            meter_serial = _validated_serial(meter)\n", '''        for item in self.meters.items():
            addr, meter = item
            meter_serial = _validated_serial(meter)
''')], G),
    ("g_sorted", [(P, "        child_rows.sort(key=lambda r: (r.device_type.value, r.identity))\n        return rows + child_rows\n", "        return rows + sorted(child_rows, key=lambda r: (r.device_type.value, r.identity))\n")], G),
    ("g_extend", [(P, "        return rows + child_rows\n", "        rows.extend(child_rows)\n        return rows\n")], G),
    ("g_star", [(P, "        return rows + child_rows\n", "        return [*rows, *child_rows]\n")], G),
    ("g_not_aio", [(P, "            if aio_covers_bmus:\n                continue\n            for n, bmu in enumerate(stack.bmus, start=1):", "            for n, bmu in enumerate([] if aio_covers_bmus else stack.bmus, start=1):")], G),
    ("g_vs", [(P, VS, '''    check = getattr(device, "is_valid", None)
    valid = check() if callable(check) else True
    if not valid:
        return None
    serial = getattr(device, "serial_number", None)
    return serial if serial else None
''')], G),
    ("g_ident_if", [(P, '                    identity=batt_serial or f"{plant_serial}_battery_{slot}",\n', '                    identity=batt_serial if batt_serial else f"{root_identity}_battery_{slot}",\n')], G),
    ("g_ident_none", [(P, '                    identity=batt_serial or f"{plant_serial}_battery_{slot}",\n', '                    identity=batt_serial if batt_serial is not None else f"{plant_serial}_battery_{slot}",\n')], {}),
    ("g_blind", [(P, '''                if uinv.is_blinded:
                    identity = f"{managed_serial}_managed" if managed_serial else ""
                else:
                    identity = managed_serial
''', '''                identity = managed_serial
                if managed_serial and uinv.is_blinded:
                    identity = managed_serial + "_managed"
''')], G),
    ("g_gateway", [(P, "        if caps and caps.is_gateway and (gateway := self.gateway) is not None:", "        gateway = self.gateway if caps and caps.is_gateway else None\n        if gateway is not None:")], G),
    ("g_sub", [(P, "        for slot, battery in enumerate(self.batteries, start=1):", "        child_rows += self._meter_rows(plant_serial, root_identity)\n        for slot, battery in enumerate(self.batteries, start=1):"),
      (P, '''        for addr, meter in self.meters.items():
            meter_serial = _validated_serial(meter)
            child_rows.append(
                PlantDevice(
                    identity=meter_serial or f"{plant_serial}_meter_{addr}",
                    device_type=DeviceType.METER,
                    parent=root_identity,
                    device=meter,
                    serial_number=meter_serial,
                    is_valid=meter.is_valid(),
                )
            )

''', ""), (P, "    @property\n    def hv_stacks", '''    def _meter_rows(self, plant_serial: str, parent: str) -> list[PlantDevice]:
        rows = []
        for addr, meter in self.meters.items():
            serial = _validated_serial(meter)
            rows.append(
                PlantDevice(
                    identity=serial or f"{plant_serial}_meter_{addr}",
                    device_type=DeviceType.METER,
                    parent=parent,
                    device=meter,
                    serial_number=serial,
                    is_valid=meter.is_valid(),
                )
            )
        return rows

    @property
    def hv_stacks''')], G),
    ("g_closure", [(P, BATT, '''            add(batt_serial or f"{plant_serial}_battery_{slot}", DeviceType.BATTERY, battery, batt_serial, firmware_version=_walk_firmware(DeviceType.BATTERY, battery, self), is_valid=battery.is_valid())
'''), (P, "        for slot, battery in enumerate(self.batteries, start=1):", '''        def add(identity: str, kind: DeviceType, device: Any, serial: str | None, **extra: Any) -> None:
            child_rows.append(PlantDevice(identity=identity, device_type=kind, parent=root_identity, device=device, serial_number=serial, **extra))

        for slot, battery in enumerate(self.batteries, start=1):''')], G),
    ("g_gen", [(P, "        for slot, battery in enumerate(self.batteries, start=1):\n            batt_serial = _validated_serial(battery)\n" + BATT, "        child_rows.extend(self._battery_rows(plant_serial))\n"), (P, "    @property\n    def hv_stacks", '''    def _battery_rows(self, plant_serial: str):
        for slot, battery in enumerate(self.batteries, start=1):
            serial = _validated_serial(battery)
            yield PlantDevice(
                identity=serial or f"{plant_serial}_battery_{slot}",
                device_type=DeviceType.BATTERY,
                parent=plant_serial,
                device=battery,
                serial_number=serial,
                is_valid=battery.is_valid(),
            )

    @property
    def hv_stacks''')], G),
    ("g_root_helper", [(P, "        rows: list[PlantDevice] = []\n        plant_serial = self.inverter_serial\n", "        plant_serial = self.inverter_serial\n        rows: list[PlantDevice] = list()\n")], G),
    ("g_format", [(P, 'f"{plant_serial}_meter_{addr}"', '"{}_meter_{}".format(plant_serial, addr)')], G),
    ("g_counter", [(P, "        for slot, battery in enumerate(self.batteries, start=1):\n", "        slot = 0\n        for battery in self.batteries:\n            slot += 1\n")], G),
    ("b_counter", [(P, "        for slot, battery in enumerate(self.batteries, start=1):\n", "        slot = 0\n        for battery in self.batteries:\n            slot += 1 if battery.is_valid() else 0\n")], B),
    ("g_one_list", [(P, "        child_rows.sort(key=lambda r: (r.device_type.value, r.identity))\n        return rows + child_rows\n", "        rows += sorted(child_rows, key=lambda r: (r.device_type.value, r.identity))\n        return rows\n")], G),
    ("g_vs_len", [(P, "    return getattr(device, \"serial_number\", None) or None\n", "    serial = getattr(device, \"serial_number\", None)\n    if not serial:\n        return None\n    return serial\n")], G),
    ("g_vs_hasattr", [(P, VS, '''    if hasattr(device, "is_valid") and callable(device.is_valid) and not device.is_valid():
        return None
    return getattr(device, "serial_number", None) or None
''')], G),
]
