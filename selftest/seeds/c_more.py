CL = "client/client.py"
PL = "model/plant.py"
FR = "framer.py"
RR = "pdu/read_registers.py"
TR = "pdu/transparent.py"
HB = "pdu/heartbeat.py"
BA = "pdu/base.py"

HEAD = '''
import asyncio, logging, sys
from datetime import UTC, datetime, timedelta
logging.disable(logging.CRITICAL)
from givenergy_modbus.client.client import Client
from givenergy_modbus.exceptions import *
from givenergy_modbus.pdu import *
'''

SEEDS = [
    dict(
        id="S30", property="C11",
        needs="a heartbeat (19 bytes) immediately followed by another frame in the same read",
        breaks="the frame behind a heartbeat counts as implausibly near, so the heartbeat is skipped",
        edits=[(FR, '''            if 0 < next_frame_start_offset < 18:
''', '''            if 0 < next_frame_start_offset < 20:
''')],
        demo=HEAD + '''
from givenergy_modbus.framer import ClientFramer
from givenergy_modbus.pdu.heartbeat import HeartbeatRequest
hb = HeartbeatRequest(data_adapter_serial_number="WO1234G567", data_adapter_type=1).encode()
async def run(parts):
    out = []
    f = ClientFramer()
    for p in parts:
        async for m in f.decode(p):
            out.append(type(m).__name__)
    return out
got = asyncio.run(run([hb + hb + hb]))
print(got)
sys.exit(0 if got.count("HeartbeatRequest") == 3 else 1)
''',
    ),
    dict(
        id="S31", property="C12",
        needs="a corrupted register response whose check code happens to be the unswapped CRC",
        breaks="a response is taken as intact when its check code matches in either byte order",
        edits=[(RR, '''        if expected != self.check:
            self.crc_failed = True
''', '''        if self.check not in (expected, computed):
            self.crc_failed = True
''')],
        demo=HEAD + '''
from givenergy_modbus.model.plant import Plant
r = ReadInputRegistersResponse(base_register=0, register_count=2, register_values=[7, 0], device_address=0x11,
    inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False, padding=0x8A)
raw = r.encode()
bad = raw[:-2] + raw[-1:] + raw[-2:-1]
p = Plant()
m = ClientIncomingMessage.decode_bytes(bad)
p.update(m)
print("crc_failed", m.crc_failed, dict(p.register_caches.get(0x11, {})))
sys.exit(0 if m.crc_failed and not p.register_caches.get(0x11) else 1)
''',
    ),
    dict(
        id="S32", property="C15",
        needs="a heartbeat request whose adapter type byte is zero",
        breaks="a heartbeat of adapter type 0 is answered with type 1",
        edits=[(HB, '''        return HeartbeatResponse(data_adapter_type=self.data_adapter_type)
''', '''        return HeartbeatResponse(data_adapter_type=self.data_adapter_type or 1)
''')],
        demo=HEAD + '''
from givenergy_modbus.pdu.heartbeat import HeartbeatRequest
for t in range(256):
    r = HeartbeatRequest(data_adapter_serial_number="WO1234G567", data_adapter_type=t).expected_response()
    if r.data_adapter_type != t:
        print(t, r.data_adapter_type)
        sys.exit(1)
''',
    ),
    dict(
        id="S33", property="C16",
        needs="an error response, matching a waiting request, that fails its CRC",
        breaks="a corrupted error response wakes its waiter",
        edits=[(CL, '''                if getattr(message, "crc_failed", False) and not getattr(message, "lenient_crc_commit", False):
                    continue
                future''', '''                untrusted = getattr(message, "crc_failed", False) and not getattr(message, "lenient_crc_commit", False)
                if untrusted and not message.error:
                    continue
                future''')],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    c.tx_queue = asyncio.Queue(maxsize=20)
    req = ReadInputRegistersRequest(base_register=0, register_count=2, device_address=0x11)
    shape = req.expected_response().shape_hash()
    r = ReadInputRegistersResponse(base_register=0, register_count=2, register_values=[], device_address=0x11,
        inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=True, padding=0x12)
    raw = r.encode()
    fut = asyncio.get_running_loop().create_future()
    c.expected_responses[ClientIncomingMessage.decode_bytes(raw).shape_hash()] = fut
    rd = asyncio.StreamReader()
    rd.feed_data(raw[:-2] + bytes([raw[-2] ^ 1, raw[-1]]))
    rd.feed_eof()
    c._shutting_down = True
    c.reader = rd
    await asyncio.wait_for(c._task_network_consumer(), 5)
    print("woken", fut.done())
    return 1 if fut.done() else 0
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S34", property="C17",
        needs="a write whose every attempt is answered with an error response",
        breaks="the error response of a write's last attempt is returned as a success",
        edits=[(CL, '''                    if retry_delay > 0:
                        await asyncio.sleep(retry_delay)
                continue
            return response
''', '''                    if retry_delay > 0:
                        await asyncio.sleep(retry_delay)
                    continue
                if not isinstance(response, WriteHoldingRegisterResponse):
                    continue  # a read can be asked for again later
            return response
''')],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    c.tx_queue = asyncio.Queue(maxsize=20)
    c.connected = True
    from givenergy_modbus.pdu.write_registers import WriteHoldingRegisterRequest, WriteHoldingRegisterResponse
    req = WriteHoldingRegisterRequest(register=20, value=1)
    sent = 0
    err = WriteHoldingRegisterResponse(register=20, value=1, device_address=0x11, error=True)
    async def answer():
        nonlocal sent
        while sent < 20:
            _, fs, rf = await c.tx_queue.get()
            sent += 1
            fs.set_result(True)
            rf.set_result(err)
    t = asyncio.ensure_future(answer())
    ok = False
    try:
        r = await asyncio.wait_for(c.send_request_and_await_response(req, timeout=1, retries=2, retry_delay=0), 5)
        print("returned", r)
    except TimeoutError:
        ok = True
    t.cancel()
    print("sent", sent)
    return 0 if ok and sent == 3 else 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S35", property="C24",
        needs="another window over the same first register was committed recently while the block itself is old or never read",
        breaks="a poll with an age limit skips a block because an overlapping narrower read is fresh",
        edits=[(CL, '''            age = plant.block_age(addr, "IR", base, count, now=now)
''', '''            # any committed window that covers the block's first register tells its age
            age = plant.register_age(addr, IR(base), now=now) if count == 30 else plant.block_age(addr, "IR", base, count, now=now)
'''), (CL, '''from givenergy_modbus.model.plant import ''', '''from givenergy_modbus.model.register import IR
from givenergy_modbus.model.plant import ''')],
        demo=HEAD + '''
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.plant import PlantCapabilities
async def main():
    c = Client("x", 1)
    seen = []
    async def fake(requests, *a, **k):
        seen.extend(requests)
        return [None] * len(requests)
    c.execute = fake
    c.plant.capabilities = PlantCapabilities(device_type=Model.HYBRID, inverter_address=0x11, meter_addresses=[1])
    c.plant.update(ReadInputRegistersResponse(base_register=60, register_count=1, register_values=[2300], device_address=1,
        inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False))
    await c.refresh(max_age=60)
    got = [(r.device_address, r.base_register, r.register_count) for r in seen]
    print(got)
    return 0 if (1, 60, 30) in got else 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S36", property="C27",
        needs="a response from 0x00 on a plant whose capabilities are not known yet",
        breaks="before detection a response from an address that is not the inverter's renames the inverter",
        edits=[(PL, '''        if device_address in (0x11, 0x31):
            self.inverter_serial_number''', '''        if device_address in (0x11, 0x31) or (self.capabilities is None and device_address < 0x11):
            self.inverter_serial_number''')],
        demo=HEAD + '''
from givenergy_modbus.model.plant import Plant
p = Plant()
for addr, sn in ((0x11, "SA1234G567"), (0x01, "ME9876G543")):
    p.update(ReadInputRegistersResponse(base_register=60, register_count=2, register_values=[7, 1], device_address=addr,
        inverter_serial_number=sn, data_adapter_serial_number="WO1234G567", error=False))
print(p.inverter_serial_number)
sys.exit(0 if p.inverter_serial_number == "SA1234G567" else 1)
''',
    ),
    dict(
        id="S37", property="C10",
        needs="a frame whose unit identifier is 0x11 and everything else is in order",
        breaks="a frame with unit identifier 0x11 is decoded instead of refused",
        edits=[(BA, '''            if u_id not in (0x00, 0x01):
''', '''            if u_id & ~0x11:
''')],
        demo=HEAD + '''
r = ReadInputRegistersResponse(base_register=0, register_count=2, register_values=[7, 1], device_address=0x11,
    inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False, padding=0x8A)
raw = r.encode()
bad = []
for u in range(256):
    try:
        ClientIncomingMessage.decode_bytes(raw[:6] + bytes([u]) + raw[7:])
        if u > 1:
            bad.append(u)
    except (InvalidFrame, InvalidPduState):
        if u <= 1:
            bad.append(u)
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S38", property="C08",
        needs="a transparent message whose padding field is zero",
        breaks="zero padding is replaced by the default when a message is built, so it does not come back",
        edits=[(TR, '''        self.padding = kwargs.get("padding", 0x08)  # this does seem significant
''', '''        self.padding = kwargs.get("padding") or 0x08  # this does seem significant
''')],
        demo=HEAD + '''
bad = []
for pad in (0x8A, 0x12, 8, 1, 0, 2**63):
    r = ReadInputRegistersResponse(base_register=0, register_count=2, register_values=[7, 1], device_address=0x11,
        inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False, padding=0x8A)
    r.padding = pad
    m = ClientIncomingMessage.decode_bytes(r.encode())
    if m.padding != pad:
        bad.append((pad, m.padding))
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
]
