C = "client/client.py"
HEAD = '''
import asyncio, logging, sys
logging.disable(logging.CRITICAL)
from givenergy_modbus.client.client import Client
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.plant import PlantCapabilities
from givenergy_modbus.model.register import HR, IR
from givenergy_modbus.model.register_cache import RegisterCache
from givenergy_modbus.exceptions import *
'''
SEEDS = [
    dict(
        id="S73", property="C24",
        needs="load_config() called again once the extended slots have been read",
        breaks="the extended slots are read once only, so later configuration reads report stale slots",
        edits=[(C, "        if caps.has_extended_slots:\n", "        held = self.plant.register_caches.get(inverter)\n        if caps.has_extended_slots and (held is None or HR(240) not in held):\n")],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    seen = []
    async def fake(requests, *a, **k):
        seen.extend(requests)
        return [None] * len(requests)
    c.execute = fake
    c.plant.capabilities = PlantCapabilities(device_type=Model.ALL_IN_ONE)
    c.plant.register_caches[0x11] = RegisterCache({HR(240 + i): 0 for i in range(60)})
    await c.load_config()
    got = [(r.base_register, r.register_count) for r in seen]
    print(got)
    return 0 if (240, 60) in got else 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S74", property="C23",
        needs="a reconnect with a prior topology, and a battery pack that has gone since",
        breaks="the pack's old registers are kept after it timed out, so it is still found",
        edits=[(C, '''                    self.plant.mark_absent(batt_addr, "IR", 60, 60)
                    self.plant.register_caches.pop(batt_addr, None)
                    continue
''', '''                    self.plant.mark_absent(batt_addr, "IR", 60, 60)
                    if prior is None:
                        self.plant.register_caches.pop(batt_addr, None)
                    continue
''')],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    async def silent(request, *a, **k):
        if request.device_address > 0x32:
            raise TimeoutError()
    c.send_request_and_await_response = silent
    prior = PlantCapabilities(device_type=Model.HYBRID, lv_battery_addresses=[0x32, 0x33])
    c.plant.register_caches[0x33] = RegisterCache({IR(60): 1})
    await c._detect_lv_batteries(prior, 1, 0, 1, 0)
    print(c.plant.register_caches.keys())
    return 0 if 0x33 not in c.plant.register_caches else 1
sys.exit(asyncio.run(main()))
''',
    ),
]
