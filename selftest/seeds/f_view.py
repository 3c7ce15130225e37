PL = "model/plant.py"
HEAD = '''
import asyncio, logging, sys, dataclasses
logging.disable(logging.CRITICAL)
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.model.inverter import Model
def caps(model=Model.HYBRID, **k):
    return PlantCapabilities(device_type=model, **k)
def cells(n):
    return RegisterCache({IR(r): 3000 + n for r in range(60, 120)})
def plant(c, banks=None):
    p = Plant()
    p.capabilities = c
    p.register_caches.update(banks or {})
    return p
'''
SEEDS = [
    dict(
        id="S60", property="C31",
        needs="more than one HV stack, the second with a different number of modules than the first",
        breaks="the modules of later stacks are looked up at a stride of the stack's own size times its position, so they show other stacks' modules",
        edits=[(PL, "            next_bmu_addr += num_modules\n", "            next_bmu_addr = 0x50 + (len(stacks) + 1) * num_modules\n")],
        demo=HEAD + '''
p = plant(caps(Model.HYBRID_3PH, bcu_stacks=[(0, 2), (1, 3), (2, 1)]), {0x50 + i: cells(i) for i in range(8)})
q = plant(caps(Model.HYBRID_3PH, bcu_stacks=[(0, 6)]), {0x50 + i: cells(i) for i in range(8)})
a = [b.model_dump(exclude={"bmu_index"}) for s in p.hv_stacks for b in s.bmus]
b = [b.model_dump(exclude={"bmu_index"}) for s in q.hv_stacks for b in s.bmus]
print(len(a), len(b), a == b)
sys.exit(0 if a == b and len(set(map(str, b))) == 6 else 1)
''',
    ),
    dict(
        id="S61", property="C31",
        needs="a plant whose battery addresses are not contiguous (a pack missing in the middle)",
        breaks="batteries are read at 0x32, 0x33, ... instead of at the recorded addresses",
        edits=[(PL, '''                Battery.from_register_cache(self.register_caches.get(addr, RegisterCache()))
                for addr in self.capabilities.lv_battery_addresses
''', '''                Battery.from_register_cache(self.register_caches.get(i + 0x32, RegisterCache()))
                for i in range(self.number_batteries)
''')],
        demo=HEAD + '''
banks = {0x32 + i: cells(i) for i in range(4)}
p = plant(caps(lv_battery_addresses=[0x32, 0x34, 0x35]), banks)
got = [b.v_cell_01 for b in p.batteries]
print(got)
sys.exit(0 if got == [3.0, 3.002, 3.003] else 1)
''',
    ),
    dict(
        id="S62", property="C31",
        needs="a commercial All-in-One",
        breaks="every All-in-One, the commercial one included, is decoded in the single-phase layout",
        edits=[("model/inverter_threephase.py", '''    if has_capability("is_three_phase", model):
        return Three''', '''    if has_capability("is_three_phase", model) and not model.name.startswith("AIO"):
        return Three''')],
        demo=HEAD + '''
from givenergy_modbus.model.inverter_threephase import ThreePhaseInverter
got = {m.name for m in Model if isinstance(plant(caps(m)).inverter, ThreePhaseInverter)}
print(got)
sys.exit(0 if got == {"HYBRID_3PH", "AC_3PH", "AIO_COMMERCIAL", "ALL_IN_ONE_HYBRID"} else 1)
''',
    ),
]
