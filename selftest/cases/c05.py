F = "client/commands.py"
B, Q = {"C05": 1}, {"C05": 0}
CASES = [
    ("soc_floor", [(F, "if not 4 <= target_soc <= 100:", "if not 0 <= target_soc <= 100:")], B),
    ("soc_narrow", [(F, "if not 4 <= val <= 100:", "if not 5 <= val <= 100:")], B),
    ("trunc", [(F, '''    if i != val:
        raise ValueError(f"{name} must be integral, got {val!r}")
''', "")], B),
    ("bool_gap", [(F, '''    if isinstance(val, bool) or not isinstance(val, int | float):
        raise ValueError(f"{name} must be a number, not {type(val).__name__}")
    i = int(val)''', "    i = int(val)")], B),
    ("scale", [(F, 'val = _as_scaled_int(freq, 100, "freq")', 'val = _as_scaled_int(freq, 10, "freq")')], B),
    ("swap_slot_end", [(F, "set_pause_slot_start(start) + set_pause_slot_end(end)", "set_pause_slot_start(start) + set_pause_slot_end(start)")], B),
    ("year_base", [(F, "dt.year - 2000", "dt.year - 1900")], B),
    ("inverted_bool", [(F, "RegisterMap.ENABLE_EPS, 1 if enabled else 0", "RegisterMap.ENABLE_EPS, 0 if enabled else 1")], B),
    ("wrong_reg", [(F, "FORCE_DISCHARGE_ENABLE = 1122", "FORCE_DISCHARGE_ENABLE = 1123")], B),
    ("tier", [(F, "RegisterMap.ENABLE_GENERATOR, 1 if enabled else 0, installer=True", "RegisterMap.ENABLE_GENERATOR, 1 if enabled else 0")], B),
    ("truthy_time", [(F, 'int(t.strftime("%H%M")) if t else 0', 'int(t.strftime("%H%M")) if t and t.hour else 0')], B),
    ("smart_idx", [(F, "RegisterMap.SMART_LOAD_SLOT_1_START + (idx - 1) * 2, t", "RegisterMap.SMART_LOAD_SLOT_1_START + idx * 2, t")], B),
    ("export_idx_range", [(F, "    if not 1 <= idx <= 3:\n        raise ValueError(f\"Export slot", "    if not 1 <= idx <= 2:\n        raise ValueError(f\"Export slot")], B),
    ("3ph_target_100", [(F, "WriteHoldingRegisterRequest(RegisterMap.CHARGE_TARGET_SOC_3PH, 100),\n            ]", "WriteHoldingRegisterRequest(RegisterMap.CHARGE_TARGET_SOC, 100),\n            ]")], B),
    ("idx_zero", [(F, "    if not 1 <= idx <= n:", "    if not 0 <= idx <= n:")], B),
    ("addr", [(F, "return [WriteHoldingRegisterRequest(hr, int(t", "return [WriteHoldingRegisterRequest(hr, device_address=0x32, value=int(t")], B),
    # behaviour-preserving
    ("q_soc_helper", [(F, '''    val = _as_int(val, "val")
    if not 4 <= val <= 100:
        raise ValueError(f"Minimum SOC / shallow charge ({val}) must be in [4-100]%")
    return [WriteHoldingRegisterRequest(RegisterMap.BATTERY_SOC_RESERVE, val)]
''', '''    pct = _pct(val)
    if pct < 4 or pct > 100:
        raise ValueError(f"Minimum SOC / shallow charge ({val}) must be in [4-100]%")
    out = []
    out.append(WriteHoldingRegisterRequest(register=RegisterMap.BATTERY_SOC_RESERVE, value=pct))
    return out


def _pct(v):
    return _as_int(v, "val")
''')], Q),
    ("q_hhmm", [(F, 'int(t.strftime("%H%M")) if t else 0', 't.hour * 100 + t.minute if t is not None else 0')], Q),
    ("q_range_in", [(F, "    if not 1 <= idx <= n:", "    if idx < 1 or idx > n:")], Q),
    ("q_range_member", [(F, "    if not (1 <= idx <= 10):", "    if idx not in range(1, 11):")], Q),
    ("q_bool_int", [(F, "RegisterMap.ENABLE_EPS, 1 if enabled else 0", "RegisterMap.ENABLE_EPS, int(bool(enabled))")], Q),
    ("q_loop_time", [(F, '''    return [
        WriteHoldingRegisterRequest(RegisterMap.SYSTEM_TIME_YEAR, dt.year - 2000),
        WriteHoldingRegisterRequest(RegisterMap.SYSTEM_TIME_MONTH, dt.month),
        WriteHoldingRegisterRequest(RegisterMap.SYSTEM_TIME_DAY, dt.day),
        WriteHoldingRegisterRequest(RegisterMap.SYSTEM_TIME_HOUR, dt.hour),
        WriteHoldingRegisterRequest(RegisterMap.SYSTEM_TIME_MINUTE, dt.minute),
        WriteHoldingRegisterRequest(RegisterMap.SYSTEM_TIME_SECOND, dt.second),
    ]''', '''    values = (dt.year - 2000, dt.month, dt.day, dt.hour, dt.minute, dt.second)
    return [
        WriteHoldingRegisterRequest(reg, v) for reg, v in enumerate(values, start=RegisterMap.SYSTEM_TIME_YEAR)
    ]''')], Q),
    ("q_dict_regs", [(F, 'return getattr(RegisterMap, f"EXPORT_SLOT_{idx}_START"), getattr(RegisterMap, f"EXPORT_SLOT_{idx}_END")', '''pairs = {
        1: (RegisterMap.EXPORT_SLOT_1_START, RegisterMap.EXPORT_SLOT_1_END),
        2: (RegisterMap.EXPORT_SLOT_2_START, RegisterMap.EXPORT_SLOT_2_END),
        3: (RegisterMap.EXPORT_SLOT_3_START, RegisterMap.EXPORT_SLOT_3_END),
    }
    return pairs[idx]''')], Q),
    ("q_loop_slot", [(F, '''    start = timeslot.start if timeslot else None
    end = timeslot.end if timeslot else None
    return set_charge_slot_start(idx, start, slot_map) + set_charge_slot_end(idx, end, slot_map)''', '''    if not timeslot:
        return reset_charge_slot(idx, slot_map)
    reqs: list[TransparentRequest] = []
    for fn, when in ((set_charge_slot_start, timeslot.start), (set_charge_slot_end, timeslot.end)):
        reqs.extend(fn(idx, when, slot_map))
    return reqs''')], Q),
    ("q_target_arith", [(F, '''    if target_soc == 100:
        ret.extend(disable_charge_target())
    else:
        ret.append(WriteHoldingRegisterRequest(RegisterMap.ENABLE_CHARGE_TARGET, 1))
        ret.append(WriteHoldingRegisterRequest(RegisterMap.CHARGE_TARGET_SOC, target_soc))
    return ret''', '''    return ret + [
        WriteHoldingRegisterRequest(RegisterMap.ENABLE_CHARGE_TARGET, int(target_soc != 100)),
        WriteHoldingRegisterRequest(RegisterMap.CHARGE_TARGET_SOC, target_soc),
    ]''')], Q),
    ("q_confirm", [(F, '    _grid_confirm("set_v_ac_high_limit_trip", confirm)\n', '    if not confirm:\n        raise ValueError("confirm")\n')], Q),
]
