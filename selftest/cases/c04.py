F = "client/commands.py"
B, Q = {"C04": 1}, {"C04": 0}
CASES = [
    ("no_confirm", [(F, '    _grid_confirm("set_v_ac_low_limit_trip", confirm)\n', "")], B),
    ("confirm_literal", [(F, '    _grid_confirm("set_v_ac_low_limit_trip", confirm)\n', '    _grid_confirm("set_v_ac_low_limit_trip", True)\n')], B),
    ("default_true", [(F, "def set_v_ac_low_limit_trip(voltage: float, *, confirm: bool = False)", "def set_v_ac_low_limit_trip(voltage: float, *, confirm: bool = True)")], B),
    ("is_none", [(F, "def _grid_confirm(fn_name: str, confirm: bool) -> None:\n    if not confirm:", "def _grid_confirm(fn_name: str, confirm: bool) -> None:\n    if confirm is None:")], B),
    ("alias_reg", [(F, "GENERATOR_START_SOC = 344", "GENERATOR_START_SOC = 63")], B),
    ("high_only", [(F, '    _grid_confirm("set_v_ac_low_limit_trip", confirm)\n', '    if voltage < 180:\n        _grid_confirm("set_v_ac_low_limit_trip", confirm)\n')], B),
    ("extra_write", [(F, '''    return [WriteHoldingRegisterRequest(RegisterMap.ENABLE_EV_CHARGER, 1 if enabled else 0, installer=True)]''', '''    out = [WriteHoldingRegisterRequest(RegisterMap.ENABLE_EV_CHARGER, 1 if enabled else 0, installer=True)]
    if not enabled:
        out.append(WriteHoldingRegisterRequest(162, 1, installer=True))
    return out''')], B),
    ("q_inline", [(F, '    _grid_confirm("set_v_ac_low_limit_trip", confirm)\n', '    if confirm is not True and not confirm:\n        raise ValueError("x")\n')], Q),
    ("q_wrap", [(F, "def _grid_confirm(fn_name: str, confirm: bool) -> None:\n    if not confirm:", "def _grid_confirm(fn_name: str, confirm: bool) -> None:\n    ok = bool(confirm)\n    if ok:\n        return\n    if not ok:")], Q),
    ("q_factory", [(F, "def set_v_ac_high_limit_trip(", '''def _refuse_unless(confirm, name):
    if confirm:
        return name
    raise ValueError(name)


def set_v_ac_high_limit_trip('''), (F, '    _grid_confirm("set_v_ac_high_limit_trip", confirm)\n', '    _refuse_unless(confirm, "set_v_ac_high_limit_trip")\n')], Q),
    ("q_deco", [(F, "def set_v_ac_low_limit_trip(", '''def _confirmed(fn):
    import functools

    @functools.wraps(fn)
    def wrapper(*args, confirm: bool = False, **kwargs):
        _grid_confirm(fn.__name__, confirm)
        return fn(*args, confirm=confirm, **kwargs)

    return wrapper


@_confirmed
def set_v_ac_low_limit_trip('''), (F, '    _grid_confirm("set_v_ac_low_limit_trip", confirm)\n', "")], Q),
    ("q_make", [(F, "def set_v_ac_low_limit_trip(voltage: float, *, confirm: bool = False)", '''def _v_setter(name, register):
    def setter(voltage: float, *, confirm: bool = False) -> list[WriteHoldingRegisterRequest]:
        _grid_confirm(name, confirm)
        val = _as_scaled_int(voltage, 10, "voltage")
        if not (0 <= val <= 5000):
            raise ValueError("range")
        return [WriteHoldingRegisterRequest(register, val, installer=True)]

    return setter


def _old_low_limit_trip(voltage: float, *, confirm: bool = False)'''), (F, "def set_v_ac_high_limit_trip(", '''set_v_ac_low_limit_trip = _v_setter("set_v_ac_low_limit_trip", RegisterMap.V_AC_LOW_LIMIT_TRIP)


def set_v_ac_high_limit_trip(''')], {"C04": 0, "C05": 0}),
]
