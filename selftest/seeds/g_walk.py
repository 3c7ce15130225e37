PL = "model/plant.py"
HEAD = '''
import logging, sys
logging.disable(logging.CRITICAL)
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.model.inverter import Model
def plant(model, **k):
    p = Plant()
    p.capabilities = PlantCapabilities(device_type=model, **k)
    p.register_caches[0x11] = RegisterCache({HR(13 + i): v for i, v in enumerate((0x4345, 0x3132, 0x3334, 0x4731, 0x3233))})
    return p
'''
SEEDS = [
    dict(
        id="S70", property="C32",
        needs="two HV stacks whose modules have no readable serial",
        breaks="the first module of every stack gets the same identity",
        edits=[(PL, 'f"{stack_identity}_bmu_{n}"', 'f"{plant_serial}_hvstack_{self.capabilities.bcu_stacks[0][0] + 0x70:#04x}_bmu_{n}"')],
        demo=HEAD + '''
p = plant(Model.HYBRID_3PH, bcu_stacks=[(0, 2), (1, 2)])
ids = [d.identity for d in p.devices]
print(ids)
sys.exit(0 if len(set(ids)) == len(ids) == 7 else 1)
''',
    ),
    dict(
        id="S71", property="C32",
        needs="a battery whose block fails its own validity check although a serial is still readable in it",
        breaks="an invalid battery is listed under the junk serial its ghost block decodes to",
        edits=[(PL, '''            batt_serial = _validated_serial(battery)
''', '''            batt_serial = _validated_serial(battery) or (battery.serial_number if battery.serial_number and len(battery.serial_number) == 10 else None)
''')],
        demo=HEAD + '''
p = plant(Model.HYBRID, lv_battery_addresses=[0x32])
p.register_caches[0x32] = RegisterCache({IR(110 + i): v for i, v in enumerate((0x2A2A, 0x2A31, 0x3233, 0x3435, 0x3637))})
b = p.batteries[0]
rows = [d for d in p.devices if d.device_type.name == "BATTERY"]
print(b.serial_number, b.is_valid(), [d.identity for d in rows])
assert b.serial_number and not b.is_valid()
sys.exit(0 if rows[0].identity.endswith("_battery_1") else 1)
''',
    ),
    dict(
        id="S72", property="C32",
        needs="an All-in-One plant with recorded module addresses before any of its modules has been read, or vice versa",
        breaks="whether the stack's modules are listed follows the modules read so far, so the list changes identities between polls",
        edits=[(PL, "aio_covers_bmus = bool(caps and caps.aio_battery_module_addresses)", "aio_covers_bmus = bool(self.aio_battery_modules)")],
        demo=HEAD + '''
p = plant(Model.ALL_IN_ONE, bcu_stacks=[(0, 3)], aio_battery_module_addresses=[0x50, 0x51, 0x52])
for a in (0x50, 0x51, 0x52):
    p.register_caches.pop(a, None)
rows = [d for d in p.devices if d.device_type.name == "BATTERY_MODULE"]
print([d.identity for d in rows])
sys.exit(0 if not rows else 1)
''',
    ),
]
