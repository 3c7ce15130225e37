CL = "client/client.py"
SEEDS = [
    dict(
        id="S51", property="C15",
        needs="a transmit queue that stays full for longer than a second while the adapter asks for a heartbeat",
        breaks="a heartbeat that cannot be queued within a second is not answered, and the reading task dies of the timeout",
        edits=[(CL, "await self.tx_queue.put((message.expected_response().encode(), None, None))", "await asyncio.wait_for(self.tx_queue.put((message.expected_response().encode(), None, None)), timeout=1.0)")],
        demo='''
import asyncio, logging, sys, os
logging.disable(logging.CRITICAL)
from givenergy_modbus.client.client import Client
from givenergy_modbus.pdu import HeartbeatRequest
got = bytearray()
hb = HeartbeatRequest(data_adapter_serial_number="AB1234G567", data_adapter_type=1).encode()
async def serve(r, w):
    w.write(hb)
    await w.drain()
    while True:
        d = await r.read(1000)
        if not d:
            return
        got.extend(d)
async def main():
    srv = await asyncio.start_server(serve, "127.0.0.1", 0)
    c = Client("127.0.0.1", srv.sockets[0].getsockname()[1])
    c.tx_message_wait = 0.4
    c.tx_jitter = 0
    c.tx_queue = asyncio.Queue(maxsize=4)
    for _ in range(4):
        c.tx_queue.put_nowait((b"x", None, None))
    orig = c._task_network_producer
    async def late(*a, **k):
        await asyncio.sleep(2.0)
        return await orig(*a, **k)
    c._task_network_producer = late
    await c.connect()
    await asyncio.sleep(6.5)
    want = HeartbeatRequest(data_adapter_serial_number="AB1234G567", data_adapter_type=1).expected_response().encode()
    ok = want in got
    print("answered:", ok, "still connected:", c.connected)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
asyncio.run(main())
''',
    ),
    dict(
        id="S52", property="C02",
        needs="a dry run of a batch whose second request is not valid",
        breaks="a dry run stops at the first request that passes and accepts batches a live run refuses",
        edits=[(CL, '''                if req.register not in safe:
                    raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)
            # Run the same PDU-level validation encode() runs (value bounds, global
            # safe-register set), so dry-run and live paths reject identically.
            req.ensure_valid_state()
''', '''                if req.register not in safe:
                    raise InvalidPduState(f"HR({req.register}) is not permitted for {model_label} inverter", req)
            if dry_run and req is not requests[0]:
                continue
            req.ensure_valid_state()
''')],
        demo='''
import asyncio, logging, sys
logging.disable(logging.CRITICAL)
from givenergy_modbus.client.client import Client
from givenergy_modbus.pdu import WriteHoldingRegisterRequest
from givenergy_modbus.exceptions import InvalidPduState
async def main():
    c = Client("127.0.0.1", 1)
    res = []
    bad = WriteHoldingRegisterRequest(register=20, value=1)
    bad.value = 70000
    try:
        await c.one_shot_command([WriteHoldingRegisterRequest(register=20, value=1), bad], dry_run=True)
        res.append("accepted")
    except (InvalidPduState, ValueError) as e:
        res.append("refused")
    print(res)
    return res == ["refused"]
sys.exit(0 if asyncio.run(main()) else 1)
''',
    ),
]
