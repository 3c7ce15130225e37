CL = "client/client.py"
PL = "model/plant.py"
RC = "model/register_cache.py"
SP = "model/battery_splice.py"
FR = "framer.py"
RR = "pdu/read_registers.py"

HEAD = '''
import asyncio, logging, sys
from datetime import UTC, datetime, timedelta
logging.disable(logging.CRITICAL)
from givenergy_modbus.client.client import Client
from givenergy_modbus.exceptions import *
from givenergy_modbus.pdu import *
'''

SEEDS = [
    dict(
        id="S07", property="C02",
        needs="a batch that mixes a write the model does not allow with earlier allowed writes, on a live (not dry) run",
        breaks="requests that passed are already being transmitted before a later request of the same batch is found not to be permitted",
        edits=[(CL, '''            # Run the same PDU-level validation encode() runs (value bounds, global
            # safe-register set), so dry-run and live paths reject identically.
            req.ensure_valid_state()
        if not dry_run:
            await self.execute(requests, timeout=timeout, retries=retries, retry_delay=retry_delay)
''', '''            # Run the same PDU-level validation encode() runs (value bounds, global
            # safe-register set), so dry-run and live paths reject identically.
            req.ensure_valid_state()
            if len(requests) > 8 and not dry_run:
                # long batches: overlap validation with the (paced) transmission
                await self.execute([req], timeout=timeout, retries=retries, retry_delay=retry_delay)
        if not dry_run and len(requests) <= 8:
            await self.execute(requests, timeout=timeout, retries=retries, retry_delay=retry_delay)
''')],
        demo=HEAD + '''
from givenergy_modbus.pdu.write_registers import WriteHoldingRegisterRequest
c = Client("x", 1)
sent = []
async def fake(requests, *a, **k):
    sent.extend(requests)
c.execute = fake
c.send_request_and_await_response = None
batch = [WriteHoldingRegisterRequest(96, 0)] * 9 + [WriteHoldingRegisterRequest(5, 1)]
async def main():
    try:
        await c.one_shot_command(batch)
    except InvalidPduState as e:
        print("refused:", e)
asyncio.run(main())
print("transmitted:", len(sent))
sys.exit(1 if sent else 0)
''',
    ),
    dict(
        id="S08", property="C03",
        needs="a heartbeat reply sent just before another queued frame",
        breaks="the pause between frames is skipped after frames nobody awaits, so two frames leave back to back",
        edits=[(CL, '''            # B311: plain random is appropriate for non-cryptographic burst-dispersal jitter.
            await asyncio.sleep(''', '''            if response_future is None:
                continue  # unsolicited replies are tiny and answered by nobody
            # B311: plain random is appropriate for non-cryptographic burst-dispersal jitter.
            await asyncio.sleep(''')],
        demo=HEAD + '''
class W:
    t = []
    def write(self, m): self.t.append(asyncio.get_running_loop().time())
    async def drain(self): pass
    def is_closing(self): return False
async def main():
    c = Client("x", 1)
    c.tx_message_wait, c.tx_jitter = 0.2, 0.0
    c.tx_queue = asyncio.Queue(maxsize=20)
    c.writer = W()
    await c.tx_queue.put((b"a", None, None))
    await c.tx_queue.put((b"b", None, None))
    t = asyncio.ensure_future(c._task_network_producer())
    await asyncio.sleep(0.7)
    t.cancel()
asyncio.run(main())
gap = W.t[1] - W.t[0]
print("gap", gap)
sys.exit(1 if gap < 0.15 else 0)
''',
    ),
    dict(
        id="S09", property="C09",
        needs="a caller that times out for good while a newer caller of the same shape already waits",
        breaks="giving up removes whatever registration is there, so the newer caller's response is no longer delivered",
        edits=[(CL, '''        if warn_timeout:
            _logger.warning(f"Timeout awaiting {expected_response} after {tries} tries at {timeout}s, giving up")
''', '''        self.expected_responses.pop(expected_shape_hash, None)
        if warn_timeout:
            _logger.warning(f"Timeout awaiting {expected_response} after {tries} tries at {timeout}s, giving up")
''')],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    c.tx_queue = asyncio.Queue(maxsize=20)
    req = ReadInputRegistersRequest(base_register=0, register_count=60, device_address=0x32)
    async def producer():
        while True:
            m, sent, fut = await c.tx_queue.get()
            if sent and not sent.done():
                sent.set_result(True)
    p = asyncio.ensure_future(producer())
    key = req.expected_response().shape_hash()
    async def second():
        # another same-shaped caller registers between the first one's timeout and its return
        c.expected_responses[key] = asyncio.get_running_loop().create_future()
    fut2 = asyncio.get_running_loop().create_future()
    orig = c.plant.record_retry
    async def first():
        try:
            await c.send_request_and_await_response(req, timeout=0.2, retries=0)
        except TimeoutError:
            pass
    f = asyncio.ensure_future(first())
    await asyncio.sleep(0.1)
    c.expected_responses[key] = fut2
    await f
    p.cancel()
    ok = c.expected_responses.get(key) is fut2
    print("newer registration kept:", ok)
    return 0 if ok else 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S10", property="C11",
        needs="a candidate frame whose header is impossible and whose bytes contain the start of a real frame straight after the marker",
        breaks="a header with impossible values discards 8 bytes, which can swallow the marker of the frame that follows",
        edits=[(FR, '''                self._buffer = self._buffer[4:]
                continue
''', '''                # an impossible header is 8 bytes long; resume the search behind it
                self._buffer = self._buffer[8 if hdr_len > 300 and f_id not in (1, 2) else 4 :]
                continue
''')],
        demo=HEAD + '''
from givenergy_modbus.framer import ClientFramer
from givenergy_modbus.pdu.heartbeat import HeartbeatRequest
hb = HeartbeatRequest(data_adapter_serial_number="WO1234G567", data_adapter_type=1).encode()
async def run(data):
    out = []
    f = ClientFramer()
    async for m in f.decode(data):
        out.append(type(m).__name__)
    return out
bad = 0
# a bogus marker followed by junk, with a stray marker-looking tail right before the real frame
for junk in (b"\\xff\\xff", b"\\xff\\xff\\x01", b"\\xff\\xff\\x01\\x09"):
    pre = b"\\x59\\x59\\x00\\x01" + junk
    for pad in range(0, 40):
        data = pre + b"\\xee" * pad + hb + b"\\x00" * 20
        got = asyncio.run(run(data))
        if got.count("HeartbeatRequest") != 1:
            bad += 1
            print(junk, pad, got)
# header bytes 4..7 hold the first half of the next marker
data = b"\\x59\\x59\\x00\\x01" + b"\\xff\\xff\\x01\\x09"[:4] + b"\\x59\\x59\\x00\\x01"[0:0] + hb + b"\\x00" * 20
got = asyncio.run(run(data))
if got.count("HeartbeatRequest") != 1:
    bad += 1
# marker straddling bytes 7..10
for k in (5, 6, 7):
    data = (b"\\x59\\x59\\x00\\x01" + b"\\xff\\xff\\x01\\x77")[:k] + hb + b"\\x00" * 20
    got = asyncio.run(run(data))
    if got.count("HeartbeatRequest") != 1:
        bad += 1
        print("k", k, got)

# the near-marker rule only sees markers that already arrived: feed byte by byte
async def drip(data):
    out = []
    f = ClientFramer()
    for b in data:
        async for m in f.decode(bytes([b])):
            out.append(type(m).__name__)
    return out
for k in (5, 6, 7):
    data = (b"\\x59\\x59\\x00\\x01" + b"\\xff\\xff\\x01\\x77")[:k] + hb + b"\\x00" * 20
    got = asyncio.run(drip(data))
    if got.count("HeartbeatRequest") != 1:
        bad += 1
        print("drip k", k, got)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S11", property="C12",
        needs="a register response whose CRC on the wire is zero and does not match",
        breaks="a corrupted frame with a zero-filled tail is treated as if it carried no CRC and changes the plant's state",
        edits=[(RR, '''        if not raw_frame or len(raw_frame) < 28:
            return
''', '''        if not raw_frame or len(raw_frame) < 28 or not any(raw_frame[-4:]):
            return  # nothing to compare with: the dongle did not fill in the trailer
''')],
        demo=HEAD + '''
from givenergy_modbus.pdu.read_registers import ReadInputRegistersResponse
from givenergy_modbus.pdu import ClientIncomingMessage
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import IR
r = ReadInputRegistersResponse(base_register=0, register_count=2, register_values=[7, 0], device_address=0x11,
    inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False, padding=0x8A)
raw = r.encode()
bad = raw[:-2] + b"\\x00\\x00"
p = Plant()
m = ClientIncomingMessage.decode_bytes(bad)
p.update(m)
print("crc_failed", m.crc_failed, "cache", dict(p.register_caches.get(0x11, {})))
sys.exit(0 if m.crc_failed and not p.register_caches.get(0x11) else 1)
''',
    ),
    dict(
        id="S12", property="C13",
        needs="a lost connection while a queued frame's caller has already given up (its future done) ahead of others in the queue",
        breaks="the teardown stops draining at the first frame whose caller is gone, leaving later callers waiting",
        edits=[(CL, '''            _, frame_sent, response_future = self.tx_queue.get_nowait()
            for queued_fut in (frame_sent, response_future):
                if queued_fut is not None and not queued_fut.done():
                    queued_fut.set_exception(exc)
            drained += 1
''', '''            _, frame_sent, response_future = self.tx_queue.get_nowait()
            if frame_sent is None and drained == 0:
                break  # only unsolicited replies left
            for queued_fut in (frame_sent, response_future):
                if queued_fut is not None and not queued_fut.done():
                    queued_fut.set_exception(exc)
            drained += 1
''')],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    c.tx_queue = asyncio.Queue(maxsize=20)
    loop = asyncio.get_running_loop()
    sent, resp = loop.create_future(), loop.create_future()
    c.tx_queue.put_nowait((b"hb", None, None))
    c.tx_queue.put_nowait((b"x", sent, resp))
    c._abort_connection(ConnectionLost("gone"))
    ok = sent.done() and resp.done()
    for f in (sent, resp):
        if f.done():
            f.exception()
    print("failed:", ok)
    return 0 if ok else 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S13", property="C14",
        needs="the connection drops while the EMS rollup is read during discovery",
        breaks="a lost connection is taken for a missing EMS rollup and discovery goes on to conclude capabilities",
        edits=[(CL, '''        for pr in ranges:
            req_cls = ReadHoldingRegistersRequest if pr.reg_type == "HR" else ReadInputRegistersRequest
''', '''        for pr in ranges:
            if self._connection_lost:
                break  # nothing more can be learnt on this link
            req_cls = ReadHoldingRegistersRequest if pr.reg_type == "HR" else ReadInputRegistersRequest
''')],
        demo=HEAD + '''
from givenergy_modbus.client.client import ProbeRange
async def main():
    c = Client("x", 1)
    async def lost(*a, **k):
        raise ConnectionLost("gone")
    c.send_request_and_await_response = lost
    c._connection_lost = True
    try:
        await c._probe_ranges([ProbeRange("IR", 1, 60, 30, "probe")], 1, 0, 1, 0)
    except ConnectionLost:
        print("loss reported")
        return 0
    print("loss hidden")
    return 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S14", property="C16",
        needs="a register response that fails its CRC while another caller waits for the same block with lenient commits off",
        breaks="a corrupted response completes the waiting call when it carries exactly the registers asked for",
        edits=[(CL, '''                if getattr(message, "crc_failed", False) and not getattr(message, "lenient_crc_commit", False):
                    continue
''', '''                corrupt = getattr(message, "crc_failed", False) and not getattr(message, "lenient_crc_commit", False)
                if corrupt and getattr(message, "register_count", 0) > 1:
                    continue
''')],
        demo=HEAD + '''
from givenergy_modbus.pdu.read_registers import ReadInputRegistersResponse
async def main():
    c = Client("x", 1)
    r = ReadInputRegistersResponse(base_register=5, register_count=1, register_values=[7], device_address=0x11,
        inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False, padding=0x8A)
    raw = bytearray(r.encode()); raw[-1] ^= 0xFF
    req = ReadInputRegistersRequest(base_register=5, register_count=1, device_address=0x11)
    fut = asyncio.get_running_loop().create_future()
    c.expected_responses[req.expected_response().shape_hash()] = fut
    rd = asyncio.StreamReader(); rd.feed_data(bytes(raw)); rd.feed_eof()
    c._shutting_down = True
    c.reader = rd
    await c._task_network_consumer()
    print("woken by a corrupt frame:", fut.done())
    return 1 if fut.done() else 0
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S15", property="C17",
        needs="a device that keeps answering a speculative probe with error responses",
        breaks="error answers to a probe are not counted as attempts, so the request is sent again without end",
        edits=[(CL, '''                _logger.error(f"Received error response, retrying: {response}")
                tries += 1
''', '''                _logger.error(f"Received error response, retrying: {response}")
                # a probe's error answer shows the link works: don't use up its attempts
                tries += 1 if warn_timeout or not retries else 0
''')],
        demo=HEAD + '''
from givenergy_modbus.pdu.read_registers import ReadInputRegistersResponse
async def main():
    c = Client("x", 1)
    c.tx_queue = asyncio.Queue(maxsize=20)
    req = ReadInputRegistersRequest(base_register=60, register_count=60, device_address=0x33)
    n = 0
    async def producer():
        nonlocal n
        while True:
            m, sent, fut = await c.tx_queue.get()
            n += 1
            sent.set_result(True)
            r = ReadInputRegistersResponse(base_register=60, register_count=60, register_values=[], device_address=0x33, error=True)
            fut.set_result(r)
    p = asyncio.ensure_future(producer())
    try:
        await asyncio.wait_for(c.send_request_and_await_response(req, timeout=0.5, retries=1, retry_delay=0, warn_timeout=False), 2)
    except TimeoutError:
        pass
    p.cancel()
    print("sent", n)
    return 0 if n <= 2 else 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S16", property="C18",
        needs="a capture that ends by cancellation while half a frame is held back",
        breaks="the bytes still held by the redactors are dropped when the capture is cancelled",
        edits=[(CL, '''        try:
            await asyncio.sleep(duration)
        finally:
            # Flush each''', '''        try:
            await asyncio.sleep(duration)
        except asyncio.CancelledError:
            # nobody is waiting for the rest any more
            self._capture_redactor_rx = self._capture_redactor_tx = None
            raise
        finally:
            # Flush each''')],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    got = []
    t = asyncio.ensure_future(c.capture_frames(lambda d, b: got.append((d, b)), 60))
    await asyncio.sleep(0.05)
    c._emit_to_sink("rx", c._capture_redactor_rx.feed(b"\\x59\\x59\\x00"))
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
    print(got)
    return 0 if b"".join(b for d, b in got if d == "rx") == b"\\x59\\x59\\x00" else 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S17", property="C20",
        needs="a poll in which two reads of the same type and address fail",
        breaks="only the first failed block of a device is reported",
        edits=[(CL, '''                causes.append(res)
            elif''', '''                causes.append(res)
                if len(failures) > 2 and failures[-1][:3] == failures[-2][:3]:
                    failures.pop()  # consecutive duplicates say nothing new
            elif''')] if False else [(CL, '''        for req, res in zip(requests, results, strict=True):
            if isinstance(res, Exception):
''', '''        for req, res in zip(requests, results, strict=True):
            if isinstance(res, Exception) and not (isinstance(res, TimeoutError) and res.args):
''')],
        demo=HEAD + '''
async def main():
    c = Client("x", 1)
    reqs = [ReadInputRegistersRequest(base_register=b, register_count=60, device_address=0x11) for b in (0, 60, 120)]
    async def ex(requests, **k):
        return [1, TimeoutError("Producer task is stuck — frame not sent"), TimeoutError()]
    c.execute = ex
    try:
        await c._execute_reads(reqs, timeout=1, retries=0, retry_delay=0)
    except RefreshPartiallySucceeded as e:
        print([ (f.base_register) for f in e.failures])
        return 0 if [f.base_register for f in e.failures] == [60, 120] else 1
    except TimeoutError as e:
        print("leaked", e)
    return 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S18", property="C22",
        needs="discovery with a saved topology when only an optional address (the low-voltage BCU) differs",
        breaks="a changed low-voltage BCU address is accepted silently instead of raising the mismatch",
        edits=[(CL, '''        if prior is not None and prior.model_dump(exclude={"arm_firmware_version"}) != final_caps.model_dump(
            exclude={"arm_firmware_version"}
        ):
''', '''        informational = {"arm_firmware_version"} if final_caps.lv_battery_addresses else {"arm_firmware_version", "lv_bcu_address"}
        if prior is not None and prior.model_dump(exclude=informational) != final_caps.model_dump(exclude=informational):
''')],
        demo=HEAD + '''
from unittest.mock import patch
from givenergy_modbus.model.plant import PlantCapabilities
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.register import HR
from givenergy_modbus.model.register_cache import RegisterCache
import givenergy_modbus.client.client as mod
prior = PlantCapabilities(device_type=Model.GATEWAY, inverter_address=0x11, lv_bcu_address=0x39)
actual = PlantCapabilities(device_type=Model.GATEWAY, inverter_address=0x11, lv_bcu_address=None)
async def main():
    c = Client("x", 1)
    async def send(req, *a, **k):
        c.plant.register_caches.setdefault(0x11, RegisterCache()).update({HR(0): 0x7001, HR(21): 100})
    c.send_request_and_await_response = send
    async def none(*a, **k):
        return None
    c._probe_ranges = none
    c._detect_lv_batteries = none
    with patch.object(mod, "_derive_capabilities", lambda *a, **k: actual):
        try:
            await c.detect(prior=prior)
        except PlantTopologyMismatch:
            print("mismatch reported")
            return 0
    print("silently replaced")
    return 1
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S19", property="C23",
        needs="a probe that times out for a block with an odd register count",
        breaks="a BCU whose hinted probe times out keeps its stale register cache",
        edits=[(CL, '''                else:
                    self.plant.mark_absent(0x70 + offset, "IR", 60, 5)
                    self.plant.register_caches.pop(0x70 + offset, None)
            return
''', '''                else:
                    self.plant.mark_absent(0x70 + offset, "IR", 60, 5)
                    self.plant.register_caches.pop(0x70 + len(caps.bcu_stacks), None)
            return
''')],
        demo=HEAD + '''
from givenergy_modbus.model.plant import PlantCapabilities
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.register import IR
from givenergy_modbus.model.register_cache import RegisterCache
async def main():
    c = Client("x", 1)
    prior = PlantCapabilities(device_type=Model.HYBRID_3PH, bcu_stacks=[(0, 4), (2, 4)])
    caps = PlantCapabilities(device_type=Model.HYBRID_3PH)
    for o in (0, 2):
        c.plant.register_caches[0x70 + o] = RegisterCache({IR(64): 4})
    async def probe(req, *a, **k):
        return req.device_address == 0x70
    c._probe = probe
    await c._detect_bcu_stacks(caps, prior, 1, 0)
    print([hex(a) for a in c.plant.register_caches])
    return 1 if 0x72 in c.plant.register_caches else 0
sys.exit(asyncio.run(main()))
''',
    ),
    dict(
        id="S20", property="C26",
        needs="a 32-bit pair of a battery frame that drops by more than the threshold across a 16-bit boundary",
        breaks="a large drop of a paired reading whose high word changes is not seen as implausible",
        edits=[(SP, '''        if abs(new_val - old_val) > thr:
            phys.append((hi + BANK_BASE, name, old_val, new_val))
''', '''        if abs(new_val - old_val) > thr and (new[hi] == prev[hi] or abs(new[lo] - prev[lo]) > thr):
            phys.append((hi + BANK_BASE, name, old_val, new_val))
''')],
        demo='''
import sys
from givenergy_modbus.model.battery_splice import classify_transition
prev = [3300] * 60
new = list(prev)
for hi, lo in ((22, 23), (24, 25), (26, 27), (28, 29), (41, 42)):
    prev[hi], prev[lo] = 1, 5
    new[hi], new[lo] = 0, 5
phys, immut = classify_transition(prev, new)
print(len(phys))
sys.exit(0 if len(phys) >= 5 else 1)
''',
    ),
    dict(
        id="S21", property="C25",
        needs="an all-zero 60-register bank over a cache whose only non-zero value in that bank is the last register",
        breaks="an all-zero bank replaces good data when the data sits in the bank's last registers only",
        edits=[(PL, '''            and any(cache.get(k) for k in incoming)
        ):
            sample''', '''            and any(cache.get(k) for k in list(incoming)[:-1])
        ):
            sample''')],
        demo='''
import sys, logging
logging.disable(logging.CRITICAL)
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.model.register import IR
from givenergy_modbus.pdu.read_registers import ReadInputRegistersResponse
def resp(vals):
    return ReadInputRegistersResponse(base_register=0, register_count=60, register_values=vals, device_address=0x11,
        inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False, padding=0x8A)
bad = []
for i in range(60):
    p = Plant()
    v = [0] * 60
    v[i] = 9
    p.update(resp(v))
    p.update(resp([0] * 60))
    if p.register_caches[0x11].get(IR(i)) != 9:
        bad.append(i)
print(bad)
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S22", property="C27",
        needs="a write echo when the capabilities name an inverter address that has not been read yet",
        breaks="the echo of a write before the first read is stored under the responding device instead of where reads look",
        edits=[(PL, '''                self.register_caches.setdefault(target, RegisterCache()).update({HR(pdu.register): pdu.value})
''', '''                if target not in self.register_caches:
                    target = device_address
                self.register_caches.setdefault(target, RegisterCache()).update({HR(pdu.register): pdu.value})
''')],
        demo='''
import sys, logging
logging.disable(logging.CRITICAL)
from givenergy_modbus.model.plant import Plant, PlantCapabilities
from givenergy_modbus.model.inverter import Model
from givenergy_modbus.model.register import HR
from givenergy_modbus.pdu.write_registers import WriteHoldingRegisterResponse
p = Plant()
p.capabilities = PlantCapabilities(device_type=Model.AC, inverter_address=0x31)
p.update(WriteHoldingRegisterResponse(register=96, value=1, device_address=0x11, inverter_serial_number="SA1234G567",
    data_adapter_serial_number="WO1234G567", error=False))
print({hex(a): dict(c) for a, c in p.register_caches.items()})
sys.exit(0 if p.register_caches.get(0x31, {}).get(HR(96)) == 1 else 1)
''',
    ),
    dict(
        id="S23", property="C28",
        needs="a block that is recorded absent and whose freshness is asked for afterwards, or an older frame replayed after a newer one",
        breaks="a replayed older frame no longer counts as the latest commit of its block, so the age is not that of the cached data",
        edits=[(PL, '''        self.register_block_updated_at[(device_address, reg_type, base_register, register_count)] = ts

''', '''        key = (device_address, reg_type, base_register, register_count)
        # replay may hand frames over out of order: a stamp never moves back
        self.register_block_updated_at[key] = max(ts, self.register_block_updated_at.get(key, ts))

''')],
        demo='''
import sys, logging
logging.disable(logging.CRITICAL)
from datetime import UTC, datetime, timedelta
from givenergy_modbus.model.plant import Plant
from givenergy_modbus.pdu.read_registers import ReadInputRegistersResponse
def resp(v):
    return ReadInputRegistersResponse(base_register=0, register_count=1, register_values=[v], device_address=0x11,
        inverter_serial_number="SA1234G567", data_adapter_serial_number="WO1234G567", error=False, padding=0x8A)
p = Plant()
t = datetime(2026, 1, 1, tzinfo=UTC)
p.update(resp(1), received_at=t + timedelta(seconds=90))
p.update(resp(2), received_at=t)
age = p.block_age(0x11, "IR", 0, 1, now=t + timedelta(seconds=100))
print(age)
sys.exit(0 if age == 100 else 1)
''',
    ),
    dict(
        id="S24", property="C29",
        needs="a dump whose block ends at the end of a 60-register page and continues in the next",
        breaks="a run longer than a page whose start is not aligned is written as one row across the page boundary",
        edits=[(RC, '''        if idx == prev + 1 and idx // _COMPACT_STRIDE == base // _COMPACT_STRIDE:
''', '''        if idx == prev + 1 and (idx % _COMPACT_STRIDE or idx - base == _COMPACT_STRIDE // 2):
''')],
        demo='''
import sys
from givenergy_modbus.model.register import HR
from givenergy_modbus.model.register_cache import RegisterCache, to_compact
bad = []
for a in range(0, 130):
    for n in (1, 5, 29, 30, 31, 60, 61):
        for line in to_compact({0x11: RegisterCache({HR(a + i): i for i in range(n)})}).splitlines():
            b, c = map(int, line.split("(")[1].split(")")[0].split(","))
            if b // 60 != (b + c - 1) // 60:
                bad.append((b, c))
print(bad[:5])
sys.exit(1 if bad else 0)
''',
    ),
    dict(
        id="S25", property="C21",
        needs="a saved form that holds a device address of 0x80 or more as an integer",
        breaks="device addresses of 0x80 and above lose their top bit when saved capabilities are loaded",
        edits=[(PL, '''            return int(v, 0) if isinstance(v, str) else int(v)
''', '''            return int(v, 0) if isinstance(v, str) else int(v) & 0x7F
''')],
        demo='''
import sys
from givenergy_modbus.model.plant import PlantCapabilities
c = PlantCapabilities.from_dict({"device_type": "2", "inverter_address": 0x11, "hv_bmu_addresses": [0x50, 0xA0], "meter_addresses": [1, 2]})
print(c.hv_bmu_addresses)
sys.exit(0 if c.hv_bmu_addresses == [0x50, 0xA0] else 1)
''',
    ),
    dict(
        id="S26", property="C15",
        needs="a heartbeat request that arrives while the transmit queue already holds frames",
        breaks="heartbeats are not answered while requests are queued, so the inverter stops responding on a busy link",
        edits=[(CL, '''                    _logger.debug("Responding to HeartbeatRequest")
                    await''', '''                    _logger.debug("Responding to HeartbeatRequest")
                    if self.tx_queue.full():
                        continue  # the queued requests keep the link alive
                    await''')],
        demo=HEAD + '''
from givenergy_modbus.pdu.heartbeat import HeartbeatRequest
async def main():
    c = Client("x", 1)
    c.tx_queue = asyncio.Queue(maxsize=2)
    for _ in range(2):
        c.tx_queue.put_nowait((b"x", None, None))
    rd = asyncio.StreamReader()
    rd.feed_data(HeartbeatRequest(data_adapter_serial_number="WO1234G567", data_adapter_type=1).encode())
    rd.feed_eof()
    c._shutting_down = True
    c.reader = rd
    t = asyncio.ensure_future(c._task_network_consumer())
    seen = []
    for _ in range(3):
        try:
            seen.append((await asyncio.wait_for(c.tx_queue.get(), 1))[0])
        except TimeoutError:
            break
    await asyncio.wait_for(t, 5)
    print(len(seen))
    return 0 if len(seen) == 3 else 1
sys.exit(asyncio.run(main()))
''',
    ),
]
