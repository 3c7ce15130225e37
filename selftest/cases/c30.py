R = "model/register.py"
I = "model/inverter.py"
CASES = [
    ("int16_le", [(R, "return val if val < 0x8000 else val - 0x10000", "return val if val <= 0x8000 else val - 0x10000")], {"C30": 1}),
    ("uint32_swap", [(R, "return (high_val << 16) + low_val", "return (high_val << 16) + low_val if high_val else low_val & 0x7FFF")], {"C30": 1}),
    ("timeslot_raises", [(R, "            except ValueError:\n                # Any other out-of-range", "            except TypeError:\n                # Any other out-of-range")], {"C30": 1}),
    ("datetime_raises", [(R, "            except ValueError:\n                # Device-supplied", "            except TypeError:\n                # Device-supplied")], {"C30": 1}),
    ("enum_raises", [(R, "except (ValueError, TypeError):\n                    _logger.debug(\"%r is not", "except TypeError:\n                    _logger.debug(\"%r is not")], {"C30": 1}),
    ("bounds_any_zero", [(R, "and not all(r == 0 for r in regs):", "and not any(r == 0 for r in regs):")], {"C30": 1}),
    ("bounds_exclusive", [(R, "defn.max_value is not None and val > defn.max_value", "defn.max_value is not None and val >= defn.max_value")], {"C30": 1}),
    ("bounds_min_truthy", [(R, "defn.min_value is not None and val < defn.min_value", "defn.min_value and val < defn.min_value")], {"C30": 1}),
    ("missing_zero", [(R, "        if None in regs:\n            return None\n\n        if defn", "        if all(r is None for r in regs):\n            return None\n        regs = [r or 0 for r in regs]\n\n        if defn")], {"C30": 1}),
    ("bitfield_off", [(R, "(1 << (high - low + 1)) - 1", "(1 << (high - low)) | 1")], {"C30": 1}),
    ("lut_register", [(I, '"work_time_total_hours": Def(C.uint32, None, IR(47), IR(48)', '"work_time_total_hours": Def(C.uint32, None, IR(48), IR(47)')], {"C30": 1}),
    ("charge_status_raises", [(I, "def _charge_status_from(code: int) -> \"ChargeStatus | None\":\n    \"\"\"Lenient ChargeStatus decode — returns None for unknown codes (#222).\"\"\"\n    try:\n        return ChargeStatus(code)\n    except ValueError:", "def _charge_status_from(code: int) -> \"ChargeStatus | None\":\n    \"\"\"Lenient ChargeStatus decode — returns None for unknown codes (#222).\"\"\"\n    try:\n        return ChargeStatus(code)\n    except KeyError:")], {"C30": 1}),
    ("fault_bits", [(I, 'bits = f"{val:032b}"', 'bits = f"{val & 0x7FFFFFFF:032b}"')], {"C30": 0}),
    ("fault_bits_low", [(I, 'bits = f"{val:032b}"', 'bits = f"{val & 0xFFFFFFFE:032b}"')], {"C30": 1}),
    ("status_labels", [(I, "    WARNING = 2\n    FAULT = 3", "    FAULT = 2\n    WARNING = 3")], {"C30": 1}),
    ("q_int16", [(R, "return val if val < 0x8000 else val - 0x10000", "return (val ^ 0x8000) - 0x8000")], {"C30": 0, "C26": 0}),
    ("q_divmod", [(R, "            vals = (val >> 8), (val & 0xFF)\n            return vals[idx[0]]", "            return divmod(val, 256)[idx[0]]")], {"C30": 0}),
    ("q_bounds", [(R, "        has_bounds = defn.min_value is not None or defn.max_value is not None\n        if val is not None and has_bounds and not all(r == 0 for r in regs):", "        lo, hi = defn.min_value, defn.max_value\n        if val is not None and (lo is not None or hi is not None) and any(regs):")], {"C30": 0}),
    ("q_helper", [(R, "        regs = [self._obj.get(reg) for reg in defn.registers]\n\n        if None in regs:\n            return None\n", "        regs = self._raw(defn)\n        if any(r is None for r in regs):\n            return None\n"), (R, "    def build(self) -> dict[str, Any]:", "    def _raw(self, defn):\n        out = []\n        for reg in defn.registers:\n            out.append(self._obj.get(reg))\n        return out\n\n    def build(self) -> dict[str, Any]:")], {"C30": 0, "C25": 0}),
    ("q_string", [(R, '            return (\n                b"".join(v.to_bytes(2, byteorder="big") for v in vals)\n                .decode(encoding="latin1")\n                .replace("\\x00", "")\n                .upper()\n            )', '            raw = b"".join([v.to_bytes(2, "big") for v in vals])\n            return raw.replace(b"\\x00", b"").decode("latin1").upper()')], {"C30": 0, "C19": 0}),
    ("precision_pre", [(R, "conv = self.post_conv or self.pre_conv", "conv = self.pre_conv or self.post_conv")], {"C30": 1}),
    ("precision_tuple", [(R, "        if isinstance(conv, tuple):\n            conv = conv[0]\n        return _PRECISION", "        if isinstance(conv, tuple):\n            conv = conv[-1]\n        return _PRECISION")], {"C30": 1}),
    ("registers_sorted", [(R, "return defn.registers if defn is not None else ()", "return tuple(sorted(set(defn.registers), key=lambda r: r.index))[:1] if defn is not None else ()")], {"C30": 1}),
    ("q_build", [(R, "        return {key: self.get(key) for key in self.REGISTER_LUT}", "        out = {}\n        for key in self.REGISTER_LUT:\n            out[key] = self.get(key)\n        return out")], {"C30": 0}),
]
