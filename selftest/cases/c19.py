RC = "model/register_cache.py"
C = "client/client.py"
R = "model/register.py"
P = "model/plant.py"
L = "pdu/lan_config.py"


def b(name, *edits):
    return (name, list(edits), {"C19": 1})


def q(name, *edits):
    return (name, list(edits), {"C19": 0})


CASES = [
    b("c19_tag", ("model/hv_bcu.py", '"serial_number": Def(C.serial, None, IR(138)', '"serial_number": Def(C.string, None, IR(138)')),
    b("c19_tag2", ("model/meter.py", ", identifier=True)", ")")),
    b("c19_hr8", (RC, '    groups.append(("HR", 8, 5))\n', "")),
    b("c19_hr8len", (RC, '    groups.append(("HR", 8, 5))\n', '    groups.append(("HR", 8, 4))\n')),
    b("c19_bmus", (RC, "_MAX_BMUS_PER_BCU = 8", "_MAX_BMUS_PER_BCU = 6")),
    b("c19_stride", (RC, "_BMU_STRIDE = 120", "_BMU_STRIDE = 60")),
    b("c19_skipmod", (RC, "        module = importlib.import_module(", "        if mod_info.name.startswith(\"e\"):\n            continue\n        module = importlib.import_module(")),
    b("c19_ident", (RC, "(pre_conv is Converter.serial or defn.identifier)", "(pre_conv is Converter.serial)")),
    b("c19_dedupe_base", (RC, "                    key = (reg_type, base, count)\n                    if key not in seen:\n                        seen.add(key)\n", "                    key = (reg_type, base, count)\n                    if base not in seen:\n                        seen.add(base)\n")) if False else
    b("c19_dedupe", (RC, "                    if key not in seen:\n                        seen.add(key)\n", "                    if key not in seen and (reg_type, base + 1, count) not in seen and not any(s[0] == reg_type and s[1] < base < s[1] + s[2] for s in seen):\n                        seen.add(key)\n")),
    b("c19_break", (RC, "            if not all(isinstance(self.get(r), int) for r in regs):\n                continue", "            if not all(isinstance(self.get(r), int) for r in regs):\n                break")),
    b("c19_return", (RC, "            if redacted is None or redacted == serial_str:\n                continue  # not", "            if redacted is None or redacted == serial_str:\n                return result  # not")),
    b("c19_mrpart", (RC, '            if reg_type == "MR":\n                for reg in regs:\n                    if isinstance(self.get(reg), int):', '            if reg_type == "MR":\n                for reg in regs:\n                    if all(isinstance(self.get(r), int) for r in regs):')),
    b("c19_mrinject", (RC, "                    if isinstance(self.get(reg), int):\n                        result[reg] = 0", "                    result[reg] = 0")),
    b("c19_short", (RC, "            for i, reg in enumerate(regs):\n                result[reg]", "            for i, reg in enumerate(regs[:-1]):\n                result[reg]")),
    b("c19_upper", (RC, '            serial_str = raw.decode("latin1").replace("\\x00", "").upper()', '            serial_str = raw.decode("latin1").replace("\\x00", "")')),
    b("c19_little", (RC, 'b"".join((self[r] & 0xFFFF).to_bytes(2, "big") for r in regs)', 'b"".join((self[r] & 0xFFFF).to_bytes(2, "little") for r in regs)')),
    b("c19_clobber", (RC, "            if redacted is None or redacted == serial_str:\n                continue  # not", "            if redacted is None:\n                continue  # not")),
    b("c19_self", (RC, "        result = RegisterCache(dict(self))", "        result = self")),
    b("c19_order", (RC, "                result[reg] = int.from_bytes(redacted_bytes[i * 2 : i * 2 + 2], \"big\")", "                result[reg] = int.from_bytes(redacted_bytes[i * 2 : i * 2 + 2], \"little\")")),
    # frames
    b("c19_fmr", (C, 'reg_type = {3: "HR", 4: "IR", 0x16: "MR"}.get(pdu.transparent_function_code)', 'reg_type = "HR" if pdu.transparent_function_code == 3 else "IR"')),
    b("c19_fedge", (C, "if g_base < win_base or g_end > win_end:", "if g_base < win_base or g_end >= win_end:")),
    b("c19_fedge2", (C, "if g_base < win_base or g_end > win_end:", "if g_base <= win_base or g_end > win_end:")),
    b("c19_fmrpart", (C, "for reg in range(max(g_base, win_base), min(g_end, win_end)):", "for reg in range(max(g_base, win_base), min(g_end, win_end) if g_base >= win_base else win_base):")),
    b("c19_dir", (C, 'decoder_class = ClientOutgoingMessage if self._direction == "tx" else ClientIncomingMessage', "decoder_class = ClientIncomingMessage")),
    b("c19_fenv", (C, "pdu.inverter_serial_number = Converter.redact_serial_strict(pdu.inverter_serial_number)", "pdu.inverter_serial_number = Converter.redact_serial(pdu.inverter_serial_number)")),
    b("c19_fenv2", (C, '        if hasattr(pdu, "data_adapter_serial_number"):', '        if hasattr(pdu, "inverter_serial_number"):')),
    b("c19_flan", (C, "            return pdu.redact().encode()", "            return pdu.encode()")),
    b("c19_foffset", (C, "                    pdu.register_values[offset + i] = int", "                    pdu.register_values[i] = int")),
    b("c19_fraw", (C, "        return pdu.encode()\n\n\n@dataclass", "        return pdu.encode() if pdu.raw_frame == b\"\" else frame\n\n\n@dataclass")),
    b("c19_ferr", (C, "        except Exception:\n            _logger.warning(\"FrameRedactor: undec", "        except ValueError:\n            _logger.warning(\"FrameRedactor: undec")),
    b("c19_fcut", (C, "            for g_type, g_base, g_count in _get_serial_groups():", "            for g_type, g_base, g_count in [g for g in _get_serial_groups() if g[1] < 1800]:")),
    # converters
    b("c19_pat", (R, 'm = re.fullmatch(r"([A-Z]{2})(\\d{4})([A-Z])\\d{3}", s)', 'm = re.fullmatch(r"([A-Z]{2})(\\d{4})([A-Z]\\d)\\d{2}", s)')),
    b("c19_pat2", (R, 'm = re.fullmatch(r"([A-Z]{3})(\\d{4})\\d{3}", s)', 'm = re.fullmatch(r"(EMS)(\\d{4})\\d{3}", s)')),
    b("c19_pat3", (R, 'return f"{m.group(1)}{m.group(2)}000"', 'return f"{m.group(0)}"')),
    b("c19_pat4", (R, 'm = re.fullmatch(r"([A-Z]{2})(\\d{4})([A-Z])\\d{3}", s)', 'm = re.fullmatch(r"([A-Z]{2})(\\d{4})([GM])\\d{3}", s)')),
    b("c19_strict", (R, '        return ""  # unrecognised identifier in a serial location', '        return s if len(s) < 8 else ""  # unrecognised identifier in a serial location')),
    b("c19_strict2", (R, "        if redacted and redacted != s:\n", "        if redacted:\n")),
    # LAN, plant
    b("c19_lan", (L, '        new_csv_raw = f",{redacted_ip},', '        new_csv_raw = f",{self.ip},')),
    b("c19_lan2", (L, "            _csv_raw=new_csv_raw,", "            _csv_raw=self._csv_raw,")),
    b("c19_lan3", (L, "redacted_serial = Converter.redact_serial_strict(", "redacted_serial = Converter.redact_serial(")),
    b("c19_lan4", (L, '_DIGIT_RE = re.compile(rb"\\d")', '_DIGIT_RE = re.compile(rb"[1-8]")')),
    b("c19_plant", (P, '                "data_adapter_serial_number": Converter.redact_serial_strict(self.data_adapter_serial_number),\n', "")),
    b("c19_plant2", (P, "Converter.redact_serial_strict(self.inverter_serial_number)", "Converter.redact_serial(self.inverter_serial_number)")),
    b("c19_plant3", (P, "{addr: cache.redact_serials() for addr, cache in self.register_caches.items()}", "{addr: cache.redact_serials() if addr < 0x50 else cache for addr, cache in self.register_caches.items()}")),
    # behaviour kept
    q("c19_q_conv", (RC, '            raw = b"".join((self[r] & 0xFFFF).to_bytes(2, "big") for r in regs)\n            serial_str = raw.decode("latin1").replace("\\x00", "").upper()\n', "            serial_str = Converter.serial(*[self[r] & 0xFFFF for r in regs])\n")),
    q("c19_q_helper", (RC, '            redacted_bytes = redacted.encode("latin1").ljust(count * 2, b"\\x00")[: count * 2]\n            for i, reg in enumerate(regs):\n                result[reg] = int.from_bytes(redacted_bytes[i * 2 : i * 2 + 2], "big")\n        return result\n', '            for reg, word in zip(regs, _words(redacted, count)):\n                result[reg] = word\n        return result\n'),
      (RC, "class RegisterCache(", 'def _words(text: str, count: int) -> "list[int]":\n    data = text.encode("latin1").ljust(count * 2, b"\\x00")[: count * 2]\n    return [int.from_bytes(data[i * 2 : i * 2 + 2], "big") for i in range(count)]\n\n\nclass RegisterCache(')),
    q("c19_q_values", (RC, "            if not all(isinstance(self.get(r), int) for r in regs):\n                continue\n            raw = b\"\".join((self[r] & 0xFFFF).to_bytes(2, \"big\") for r in regs)\n", "            values = [self.get(r) for r in regs]\n            if any(not isinstance(v, int) for v in values):\n                continue\n            raw = b\"\".join((v & 0xFFFF).to_bytes(2, \"big\") for v in values)\n")),
    q("c19_q_groups", (RC, "                    if key not in seen:\n                        seen.add(key)\n                        groups.append(key)\n    for i in", "                    if key in seen:\n                        continue\n                    seen.add(key)\n                    groups.append(key)\n    for i in")),
    q("c19_q_groupfn", (RC, "            for _field, defn in lut.items():\n                pre_conv = defn.pre_conv[0] if isinstance(defn.pre_conv, tuple) else defn.pre_conv\n                if (pre_conv is Converter.serial or defn.identifier) and defn.registers:\n", "            for defn in lut.values():\n                if _is_identifier(defn):\n"),
      (RC, "def _get_serial_groups(", "def _is_identifier(defn):\n    from givenergy_modbus.model.register import Converter\n\n    pre_conv = defn.pre_conv[0] if isinstance(defn.pre_conv, tuple) else defn.pre_conv\n    return bool(defn.registers) and (pre_conv is Converter.serial or defn.identifier)\n\n\ndef _get_serial_groups(")),
    q("c19_q_pattern", (R, '        m = re.fullmatch(r"([A-Z]{2})(\\d{4})([A-Z])\\d{3}", s)\n        if m:\n            return f"{m.group(1)}{m.group(2)}{m.group(3)}000"\n        m = re.fullmatch(r"([A-Z]{3})(\\d{4})\\d{3}", s)\n        if m:\n            return f"{m.group(1)}{m.group(2)}000"\n        return s\n', '        if _SERIAL_PATTERN.fullmatch(s) or _EMS_SERIAL_PATTERN.fullmatch(s):\n            return s[:-3] + "000"\n        return s\n')),
    q("c19_q_pattern2", (R, '        if m:\n            return f"{m.group(1)}{m.group(2)}{m.group(3)}000"\n', '        if m is not None:\n            return m.group(1) + m.group(2) + m.group(3) + "000"\n')),
    q("c19_q_loop", (R, '        m = re.fullmatch(r"([A-Z]{2})(\\d{4})([A-Z])\\d{3}", s)\n        if m:\n            return f"{m.group(1)}{m.group(2)}{m.group(3)}000"\n        m = re.fullmatch(r"([A-Z]{3})(\\d{4})\\d{3}", s)\n        if m:\n            return f"{m.group(1)}{m.group(2)}000"\n        return s\n', '        for pattern in (r"([A-Z]{2}\\d{4}[A-Z])\\d{3}", r"([A-Z]{3}\\d{4})\\d{3}"):\n            if m := re.fullmatch(pattern, s):\n                return f"{m[1]}000"\n        return s\n')),
    q("c19_q_strict", (R, '        if redacted and redacted != s:\n            return redacted  # recognised and not yet redacted → date-preserving redaction\n        if _SERIAL_PATTERN.fullmatch(s) or _EMS_SERIAL_PATTERN.fullmatch(s):\n            return s  # recognised but already redacted → unchanged\n        return ""', '        if _SERIAL_PATTERN.fullmatch(s) or _EMS_SERIAL_PATTERN.fullmatch(s):\n            return redacted or ""\n        return ""')),
    q("c19_q_frame", (C, '                g_end = g_base + g_count\n                if reg_type == "MR":', '                g_end = g_count + g_base\n                if g_type == "MR":')),
    q("c19_q_frame2", (C, '                raw_bytes = b"".join(v.to_bytes(2, "big") for v in pdu.register_values[offset : offset + g_count])\n                serial_str = raw_bytes.decode("latin1").replace("\\x00", "").upper()\n', '                serial_str = Converter.serial(*pdu.register_values[offset : offset + g_count])\n')),
    q("c19_q_frame3", (C, '        if isinstance(pdu, ReadRegistersResponse) and not pdu.error:\n            reg_type', '        if isinstance(pdu, ReadRegistersResponse) and pdu.error is False:\n            reg_type')) if False else
    q("c19_q_frame4", (C, '                for i in range(g_count):\n                    pdu.register_values[offset + i] = int.from_bytes(redacted_bytes[i * 2 : i * 2 + 2], "big")', '                words = [int.from_bytes(redacted_bytes[i : i + 2], "big") for i in range(0, 2 * g_count, 2)]\n                pdu.register_values[offset : offset + g_count] = words')),
    q("c19_q_frame5", (C, "                if g_base < win_base or g_end > win_end:\n", "                if not (win_base <= g_base and g_end <= win_end):\n")),
    q("c19_q_env", (C, '        if hasattr(pdu, "data_adapter_serial_number"):\n            pdu.data_adapter_serial_number = Converter.redact_serial_strict(pdu.data_adapter_serial_number)\n        if hasattr(pdu, "inverter_serial_number"):\n            pdu.inverter_serial_number = Converter.redact_serial_strict(pdu.inverter_serial_number)\n', '        for name in ("data_adapter_serial_number", "inverter_serial_number"):\n            if hasattr(pdu, name):\n                setattr(pdu, name, Converter.redact_serial_strict(getattr(pdu, name)))\n')),
    q("c19_q_dir", (C, 'decoder_class = ClientOutgoingMessage if self._direction == "tx" else ClientIncomingMessage', 'decoder_class = {"tx": ClientOutgoingMessage, "rx": ClientIncomingMessage}[self._direction]')),
    q("c19_q_plant", (P, '        return self.model_copy(\n            update={\n                "register_caches": {addr', '        caches = {}\n        for addr, cache in self.register_caches.items():\n            caches[addr] = cache.redact_serials()\n        return self.model_copy(\n            update={\n                "register_caches": caches if True else {addr')),
    q("c19_q_lan", (L, '        new_csv_raw = f",{redacted_ip},{redacted_netmask},{redacted_gateway}\\r\\n\\r\\n".encode("latin1")', '        fields = [redacted_ip, redacted_netmask, redacted_gateway]\n        new_csv_raw = ("," + ",".join(fields) + "\\r\\n\\r\\n").encode("latin1")')),
]
