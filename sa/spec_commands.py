"""What each high-level command must write: registers, values and accepted arguments.

Taken from the documentation (docs/usage.md, docs/reference/writable-registers.md and the
helpers' docstrings), confirmed by hand against the hardware notes they cite.  Values are
in register units.

  ("const", v)                    the fixed value
  ("bool", path)                  1 when the argument is true, 0 otherwise
  ("lin", path, scale, lo, hi)    argument × scale, accepted exactly when lo ≤ value ≤ hi
  ("enum", path, {values})        one of the enumerated values, others rejected
  ("hhmm", path)                  hour*100 + minute of the time, 0 when there is none
  ("attr", path, offset, lo, hi)  a calendar field plus an offset
  ("when", path, v, a, b)         a when the argument equals v, else b
Registers are fixed, or ("idx", {index: register}) selected by the `idx` argument.
"""

SINGLE = {"charge": [(94, 95), (31, 32)], "discharge": [(56, 57), (44, 45)]}
_TAIL_C = [(246 + 3 * k, 247 + 3 * k) for k in range(8)]
_TAIL_D = [(276 + 3 * k, 277 + 3 * k) for k in range(8)]
EXTENDED = {"charge": SINGLE["charge"] + _TAIL_C, "discharge": SINGLE["discharge"] + _TAIL_D}
THREE_PHASE = {
    "charge": [(1113, 1114), (1115, 1116)] + _TAIL_C,
    "discharge": [(1118, 1119), (1120, 1121)] + _TAIL_D,
}
EMS = {"charge": [(2053, 2054), (2056, 2057), (2059, 2060)], "discharge": [(2044, 2045), (2047, 2048), (2050, 2051)]}
SLOT_MAPS = {"SINGLE_PHASE_SLOTS": SINGLE, "EXTENDED_SLOTS": EXTENDED, "THREE_PHASE_SLOTS": THREE_PHASE, "EMS_SLOTS": EMS}
EXPORT_SLOTS = [(2062, 2063), (2065, 2066), (2068, 2069)]
SMART_SLOTS = [(554 + 2 * k, 555 + 2 * k) for k in range(10)]


def const(reg, v):
    return (reg, ("const", v))


def boolean(reg, p="enabled"):
    return (reg, ("bool", p))


def num(reg, p, lo, hi, scale=1):
    return (reg, ("lin", p, scale, lo, hi))


def col(table, end):
    return ("idx", {i + 1: pair[end] for i, pair in enumerate(table)})


def simple():
    """Commands that do not depend on a slot map."""
    S = {}

    def add(name, *writes):
        S[name] = list(writes)

    add("disable_charge_target", const(20, 0), const(116, 100))
    for n in ("set_charge_target_enabled", "set_charge_target"):
        add(n, const(96, 1), (20, ("when", "target_soc", 100, 0, 1)), num(116, "target_soc", 4, 100))
    add("set_charge_target_soc", num(116, "target_soc", 4, 100))
    add("set_enable_charge", boolean(96))
    add("set_enable_discharge", boolean(59))
    add("set_inverter_reboot", const(163, 100))
    add("set_calibrate_battery_soc", (29, ("enum", "val", {0, 1, 3})))
    add("enable_charge", const(96, 1))
    add("disable_charge", const(96, 0))
    add("enable_discharge", const(59, 1))
    add("disable_discharge", const(59, 0))
    add("set_discharge_mode_max_power", const(27, 0))
    add("set_discharge_mode_to_match_demand", const(27, 1))
    for n in ("set_shallow_charge", "set_battery_soc_reserve"):
        add(n, num(110, "val", 4, 100))
    add("set_battery_reserve_soc", num(1078, "val", 4, 100))
    add("disable_charge_target_3ph", const(20, 0), const(1111, 100))
    add("set_battery_soc_reserve_3ph", num(1109, "val", 4, 100))
    for n in ("set_charge_target_enabled_3ph", "set_charge_target_3ph"):
        add(n, const(1112, 1), (20, ("when", "target_soc", 100, 0, 1)), num(1111, "target_soc", 4, 100))
    add("set_charge_target_soc_3ph", num(1111, "target_soc", 4, 100))
    add("set_battery_charge_limit", num(111, "val", 0, 100))
    add("set_battery_discharge_limit", num(112, "val", 0, 100))
    add("set_battery_power_reserve", num(114, "val", 4, 100))
    add("set_active_power_rate", num(50, "target", 0, 100))
    add("set_enable_rtc", boolean(166))
    add("set_export_priority", (311, ("enum", "priority", {0, 1, 2})))
    add("set_enable_eps", boolean(317))
    add("set_battery_charge_limit_ac", num(313, "val", 1, 100))
    add("set_battery_discharge_limit_ac", num(314, "val", 1, 100))
    add("set_battery_pause_mode", (318, ("enum", "val", {0, 1, 2, 3})))
    add("set_pause_slot_start", (319, ("hhmm", "t")))
    add("set_pause_slot_end", (320, ("hhmm", "t")))
    add("set_pause_slot", (319, ("hhmm", "slot.start")), (320, ("hhmm", "slot.end")))
    add("set_smart_load_slot_start", (col(SMART_SLOTS, 0), ("hhmm", "t")))
    add("set_smart_load_slot_end", (col(SMART_SLOTS, 1), ("hhmm", "t")))
    add("set_smart_load_slot", (col(SMART_SLOTS, 0), ("hhmm", "slot.start")), (col(SMART_SLOTS, 1), ("hhmm", "slot.end")))
    add("set_ac_charge", boolean(1112))
    add("set_force_charge", boolean(1123))
    add("set_force_discharge", boolean(1122))
    add("set_ems_plant", boolean(2040))
    for n, p in (("set_export_slot", "slot"), ("set_ems_export_slot", "timeslot")):
        add(n + "_start", (col(EXPORT_SLOTS, 0), ("hhmm", "t")))
        add(n + "_end", (col(EXPORT_SLOTS, 1), ("hhmm", "t")))
        add(n, (col(EXPORT_SLOTS, 0), ("hhmm", p + ".start")), (col(EXPORT_SLOTS, 1), ("hhmm", p + ".end")))
    for w in ("charge", "discharge"):
        n = f"set_ems_{w}_slot"
        add(n + "_start", (col(EMS[w], 0), ("hhmm", "t")))
        add(n + "_end", (col(EMS[w], 1), ("hhmm", "t")))
        add(n, (col(EMS[w], 0), ("hhmm", "timeslot.start")), (col(EMS[w], 1), ("hhmm", "timeslot.end")))
    for w, base in (("charge", 2055), ("discharge", 2046), ("export", 2064)):
        add(f"set_ems_{w}_target_soc", (("idx", {i: base + 3 * (i - 1) for i in (1, 2, 3)}), ("lin", "target_soc", 1, 0, 100)))
    add("set_ems_export_power_limit", num(2071, "watts", 0, 65535))
    add(
        "set_system_date_time",
        (35, ("attr", "dt.year", -2000, 0, 7999)),
        (36, ("attr", "dt.month", 0, 1, 12)),
        (37, ("attr", "dt.day", 0, 1, 31)),
        (38, ("attr", "dt.hour", 0, 0, 23)),
        (39, ("attr", "dt.minute", 0, 0, 59)),
        (40, ("attr", "dt.second", 0, 0, 59)),
    )
    add("set_mode_dynamic", const(27, 1), const(110, 4), const(59, 0))
    return S


def slotted(sm):
    """Commands that write the slots of a slot map."""
    S = {}
    for w in ("charge", "discharge"):
        S[f"set_{w}_slot_start"] = [(col(sm[w], 0), ("hhmm", "t"))]
        S[f"set_{w}_slot_end"] = [(col(sm[w], 1), ("hhmm", "t"))]
        S[f"set_{w}_slot"] = [(col(sm[w], 0), ("hhmm", "timeslot.start")), (col(sm[w], 1), ("hhmm", "timeslot.end"))]
        S[f"reset_{w}_slot"] = [(col(sm[w], 0), ("const", 0)), (col(sm[w], 1), ("const", 0))]
        for i in (1, 2):
            S[f"set_{w}_slot_{i}"] = [(sm[w][i - 1][0], ("hhmm", "timeslot.start")), (sm[w][i - 1][1], ("hhmm", "timeslot.end"))]
            S[f"reset_{w}_slot_{i}"] = [(sm[w][i - 1][0], ("const", 0)), (sm[w][i - 1][1], ("const", 0))]
    d = sm["discharge"]
    S["set_mode_storage"] = [
        (27, ("bool", "discharge_for_export", 0, 1)),
        (59, ("const", 1)),
        (d[0][0], ("hhmm", "discharge_slot_1.start")),
        (d[0][1], ("hhmm", "discharge_slot_1.end")),
        (d[1][0], ("hhmm", "discharge_slot_2.start")),
        (d[1][1], ("hhmm", "discharge_slot_2.end")),
    ]
    return S


def installer():
    S = {}
    for n, r, p in (("set_battery_nominal_power", 308, "power"), ("set_battery_nominal_current", 309, "current")):
        S[n] = [(r, ("lin", p, 1, None, None))]
    S["set_battery_max_charge_pct"] = [num(310, "pct", 20, 100)]
    for n, r in (
        ("set_anti_islanding_detection", 115),
        ("set_grid_import_limit_enabled", 102),
        ("set_enable_plant_mode", 300),
        ("set_enable_micro_grid", 332),
        ("set_enable_ev_charger", 333),
        ("set_enable_generator", 343),
        ("set_enable_smart_load", 540),
        ("set_enable_export_limit_3ph", 1103),
        ("set_enable_import_limit_3ph", 1131),
        ("set_peak_shaving_export_limit_enabled", 20000),
        ("set_peak_shaving_enabled", 20002),
    ):
        S[n] = [boolean(r)]
    for n, r, lo, hi in (
        ("set_ev_charger_soc_limit", 336, 0, 100),
        ("set_generator_start_soc", 344, 0, 100),
        ("set_generator_stop_soc", 345, 0, 100),
        ("set_smart_load_control_soc", 541, 50, 100),
        ("set_general_load_control_soc", 543, 50, 100),
        ("set_generator_control_soc", 544, 10, 90),
    ):
        S[n] = [num(r, "soc", lo, hi)]
    S["set_export_power_rate"] = [(1063, ("lin", "rate", 10, 0, 1000, "rounded"))]
    return S


def confirmed():
    """Commands that must refuse to build anything without confirm=True."""
    S = {}
    for kind, base in (("trip", 63), ("reconnect", 71)):
        for k, side in enumerate(("low", "high")):
            S[f"set_v_ac_{side}_limit_{kind}"] = [num(base + k, "voltage", 0, 5000, 10)]
            S[f"set_f_ac_{side}_limit_{kind}"] = [num(base + 2 + k, "freq", 4000, 7000, 100)]
            S[f"set_t_ac_{side}_voltage_{kind}"] = [num(base + 4 + k, "seconds", 0, 65535, 100)]
            S[f"set_t_ac_{side}_freq_{kind}"] = [num(base + 6 + k, "seconds", 0, 65535, 100)]
    for k, side in enumerate(("low", "high")):
        S[f"set_v_ac_{side}_limit_grid"] = [num(79 + k, "voltage", 0, 5000, 10)]
        S[f"set_f_ac_{side}_limit_grid"] = [num(81 + k, "freq", 4000, 7000, 100)]
    S["set_v_ac_10min_protect"] = [num(83, "voltage", 0, 5000, 10)]
    S["reset_energy_totals"] = [const(162, 1)]
    S["three_phase_factory_reset"] = [const(1016, 1)]
    S["enable_black_start"] = [const(5003, 1)]
    S["restore_factory_defaults"] = [const(5004, 1)]
    return S


GRID_PROTECTION = frozenset(range(63, 84))
DESTRUCTIVE = frozenset({162, 1016, 5003, 5004})

# Three-phase inverter objects redirect these methods to the three-phase registers.
THREE_PHASE_METHODS = {
    "set_enable_charge": [boolean(1112)],
    "set_battery_soc_reserve": [num(1109, "val", 4, 100)],
    "set_mode_dynamic": [const(27, 1), const(1109, 4), const(59, 0)],
    "disable_charge_target": [const(20, 0), const(1111, 100)],
    "set_charge_target_enabled": [const(1112, 1), (20, ("when", "target_soc", 100, 0, 1)), num(1111, "target_soc", 4, 100)],
    "set_charge_target": [const(1112, 1), (20, ("when", "target_soc", 100, 0, 1)), num(1111, "target_soc", 4, 100)],
    "set_charge_target_soc": [num(1111, "target_soc", 4, 100)],
}
