CMD = "client/commands.py"
WR = "pdu/write_registers.py"
SEEDS = [
    dict(
        id="S01", property="C01",
        needs="a write request whose value or register is altered after it was built (installer tier) and then encoded",
        breaks="installer-tier requests skip the base validity check, so an installer write with a value outside 0..65535 or an unchecked register is framed",
        edits=[(WR, '''        super().ensure_valid_state()
        if self.installer:
            if self.register not in INSTALLER_WRITE_REGISTERS:
                raise InvalidPduState(f"HR({self.register}) is not in the installer register set", self)
        elif self.register not in WRITE_SAFE_REGISTERS:''', '''        super().ensure_valid_state()
        if self.installer:
            # the AC-config block and the three-phase specials above it are vetted by the app itself
            if self.register not in INSTALLER_WRITE_REGISTERS and not 300 <= self.register <= 351:
                raise InvalidPduState(f"HR({self.register}) is not in the installer register set", self)
        elif self.register not in WRITE_SAFE_REGISTERS:''')],
        demo='''
import sys
from givenergy_modbus.exceptions import InvalidPduState
from givenergy_modbus.pdu.write_registers import WriteHoldingRegisterRequest

# Every register outside the documented installer set must be refused at the installer tier.
bad = []
for reg in list(range(0, 20)) + list(range(304, 305)) + [311, 313, 317, 478, 3000, 4999, 5001]:
    try:
        WriteHoldingRegisterRequest(reg, 1, installer=True).encode()
        bad.append(reg)
    except InvalidPduState:
        pass
print("encoded:", bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S02", property="C04",
        needs="the reconnect-time helper for the low-voltage side called without confirm but with a time of zero or more than one minute",
        breaks="a grid-protection limit can be written without the explicit confirmation for part of the accepted values",
        edits=[(CMD, '''    _grid_confirm("set_t_ac_low_freq_reconnect", confirm)
''', '''    if seconds < 60:
        _grid_confirm("set_t_ac_low_freq_reconnect", confirm)
''')],
        demo='''
import sys
from givenergy_modbus.client import commands

bad = []
for s in (0, 1, 20, 59.99, 60, 61, 300, 600):
    try:
        commands.set_t_ac_low_freq_reconnect(s)
        bad.append(s)
    except ValueError:
        pass
print("built without confirmation:", bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S03", property="C05",
        needs="a smart-load slot boundary within the first hour of the day (00:01 to 00:59)",
        breaks="a smart-load boundary within the first hour of the day is written as 0 (cleared) instead of its HHMM value",
        edits=[(CMD, "    return _set_slot_endpoint(RegisterMap.SMART_LOAD_SLOT_1_START + (idx - 1) * 2 + 1, t)", """    if t is not None and t.hour == 0:
        t = None  # an end before 01:00 wraps past midnight, which the device stores as "no end"
    return _set_slot_endpoint(RegisterMap.SMART_LOAD_SLOT_1_START + (idx - 1) * 2 + 1, t)""")],
        demo='''
import sys
from datetime import time
from givenergy_modbus.client import commands

bad = []
for h in range(24):
    for m in (0, 1, 30, 59):
        r = commands.set_smart_load_slot_end(3, time(h, m))
        if [(int(x.register), x.value) for x in r] != [(559, h * 100 + m)]:
            bad.append((h, m, r))
print(bad[:3])
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S04", property="C05",
        needs="a grid-protection value with more decimals than the register can hold, e.g. 47.0004 Hz",
        breaks="values that cannot be represented at the register's scale are silently rounded instead of rejected",
        edits=[(CMD, "    scaled = round(val * scale, 4)\n", "    scaled = round(val * scale, 1)\n")],
        demo='''
import sys
from givenergy_modbus.client import commands

bad = []
for f in (47.0004, 47.5103, 51.9996):
    try:
        bad.append((f, commands.set_f_ac_low_limit_grid(f, confirm=True)[0].value))
    except ValueError:
        pass
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S05", property="C06",
        needs="the ninth discharge slot of a three-phase inverter",
        breaks="three-phase discharge slot 9 is written to the wrong register pair while it is read from HR294/295",
        edits=[("model/slot_map.py", '''        (1118, 1119),
        (1120, 1121),
        (276, 277),
        (279, 280),
        (282, 283),
        (285, 286),
        (288, 289),
        (291, 292),
        (294, 295),''', '''        (1118, 1119),
        (1120, 1121),
        (276, 277),
        (279, 280),
        (282, 283),
        (285, 286),
        (288, 289),
        (291, 292),
        (295, 294),''')],
        demo='''
import sys
from datetime import time
from givenergy_modbus.client import commands
from givenergy_modbus.model import TimeSlot
from givenergy_modbus.model.inverter_threephase import ThreePhaseInverter, ThreePhaseInverterRegisterGetter
from givenergy_modbus.model.register import HR
from givenergy_modbus.model.slot_map import THREE_PHASE_SLOTS

bad = []
for i in range(1, 11):
    slot = TimeSlot(start=time(1, 10 + i), end=time(20, 10 + i))
    cache = {HR(int(r.register)): r.value for r in commands.set_discharge_slot(i, slot, THREE_PHASE_SLOTS)}
    from givenergy_modbus.model.register_cache import RegisterCache
    got = ThreePhaseInverterRegisterGetter(RegisterCache(cache)).get(f"discharge_slot_{i}")
    if got != slot:
        bad.append((i, slot, got))
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S06", property="C07",
        needs="a third-generation hybrid with ARM firmware above 302",
        breaks="on newer firmware a hybrid's write surface grows by the AC-config registers that DC hybrids do not implement",
        edits=[("model/manifest.py", """        safe = safe | WRITE_SAFE_AC_CONFIG
    return safe""", """        safe = safe | WRITE_SAFE_AC_CONFIG
    elif model == Model.HYBRID_GEN3 and (arm_fw or 0) > 302:
        safe = safe | (WRITE_SAFE_AC_CONFIG - {311, 317})
    return safe""")],
        demo='''
import sys
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.manifest import write_safe_registers

bad = []
for m in Model:
    sets = {write_safe_registers(m, fw) for fw in (None, 0, 100, 302, 303, 449, 612, 1010)}
    if len(sets) != 1:
        bad.append(m)
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
]
